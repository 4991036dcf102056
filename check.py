#!/usr/bin/env python3
"""Decide one property on /repo's current tree:  check.py <property> [quick|thorough]

exit 0: no violation (obligations that could not be decided are listed in the evidence), 1: VIOLATION, 2: the check itself failed.
"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
os.chdir(VERIF)
REPO = "/repo"
JOBS = 8


def deep(f):
    """run f with a big stack"""
    out = []

    def go():
        try:
            out.append(f())
        except BaseException:
            out.append(traceback.format_exc())
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out[0]


def one(args):
    rp, sp, pid, i, trials, deadline, seed, limit = args
    import signal

    class Late(BaseException):
        pass

    def go():
        from engine import interp as I
        from engine.oblig import check
        import obligs.all as A
        nm, sc = A.OBS[pid][i]
        rp2, sp2 = getattr(sc, "dumps", (rp, sp))
        R, S = A.programs(pid) if pid in A.PY else (I.Program(rp2), I.Program(sp2))
        r = check(R, S, nm, sc, trials, deadline, seed)
        return {"obligation": r.name, "status": r.status, "detail": r.detail, "entry_points": sorted(set(r.sites)), "compared_values": r.n,
                "functions": list(r.fns), "abstracted": list(r.opaque), "seconds": round(r.seconds, 2)}
    r = deep(go)
    if isinstance(r, str):
        import obligs.all as A
        return {"obligation": A.OBS[pid][i][0], "status": "UNDECIDED", "detail": "analysis failed: " + r[-1500:], "entry_points": [], "compared_values": 0,
                "functions": [], "abstracted": [], "seconds": 0.0}
    return r


def child(q, a):
    q.put(one(a))


def run_all(tasks, limit, until):
    """each obligation in its own process, at most JOBS at a time, each within its time limit, all of them before `until`"""
    import obligs.all as A
    ctx = mp.get_context("fork")
    todo, live, out = list(enumerate(tasks)), [], {}
    while todo or live:
        while todo and len(live) < JOBS:
            k, a = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=child, args=(q, a))
            p.start()
            live.append((k, a, p, q, time.time()))
        nl = []
        for k, a, p, q, t0 in live:
            dead = not p.is_alive()
            if not q.empty():
                out[k] = q.get()
                p.join()
            elif dead or time.time() - t0 > limit or time.time() > until:
                late = not dead
                if late:
                    p.kill()
                p.join()
                out[k] = {"obligation": A.OBS[a[2]][a[3]][0], "status": "UNDECIDED", "detail": "time limit" if late else "analysis process ended",
                          "entry_points": [], "compared_values": 0, "functions": [], "abstracted": [], "seconds": round(time.time() - t0, 1)}
            else:
                nl.append((k, a, p, q, t0))
        live = nl
        time.sleep(0.01)
    return [out[k] for k in sorted(out)]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from engine import dump
    import obligs.all as A
    rp = sp = None
    if pid not in A.PY:
        rp = dump.dump(REPO, "repo")
        sp = dump.dump(os.path.join(VERIF, "spec"), "spec")
    res = []
    trials, deadline, limit = (6000, 40.0, 300.0) if tier == "quick" else (60000, 300.0, 700.0)
    if pid in A.DYN:
        A.OBS.setdefault(pid, []).extend(A.DYN[pid](rp))
    if pid in A.OBS:
        res += run_all([(rp, sp, pid, i, trials, deadline, seed, limit) for i in range(len(A.OBS[pid]))], limit, t0 + (660.0 if tier == "quick" else 6000.0))
    if pid in A.RULES:
        for f in A.RULES[pid]:
            r = deep(lambda: f(rp, sp, tier))
            if isinstance(r, str):
                r = [{"obligation": f.__name__, "status": "UNDECIDED", "detail": "analysis failed: " + r[-1500:], "entry_points": [], "compared_values": 0,
                      "functions": [], "abstracted": [], "seconds": 0.0}]
            res += r
    if not res:
        print("no obligations for", pid)
        return 2
    known = {}
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        if l.startswith("KNOWN-FINDING: property=%s " % pid):
            txt = l.split(" ", 2)[2].strip()
            known[txt.split(" :: ")[0].strip()] = l.strip()
    viol, kf = [], []
    for r in res:
        if r["status"] == "VIOLATED":
            if r.get("key") in known:
                kf.append(r)
            else:
                viol.append(r)
    cnt = {s: sum(1 for r in res if r["status"] == s) for s in ("HOLDS", "VIOLATED", "UNDECIDED")}
    fns = sorted(set(f for r in res for f in r["functions"]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": A.RULE_TEXT.get(pid, A.VALUE_TEXT),
            "obligations": len(res), "discharged": cnt["HOLDS"], "undecided": cnt["UNDECIDED"], "violated": cnt["VIOLATED"],
            "compared_values": sum(r["compared_values"] for r in res),
            "functions_analysed": len(fns), "functions": fns,
            "instances": res,
        },
        "assumptions": A.ASSUME.get(pid, A.ASSUME_VALUE),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs("evidence", exist_ok=True)
    with open("evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
    for r in res:
        print("%-9s %s: %s%s" % (r["status"], pid, r["obligation"], (" -- " + r["detail"][:600]) if r["detail"] else ""))
    for r in kf:
        print(known[r["key"]])
    rep = os.path.join(VERIF, "evidence", "%s.violation.txt" % pid)
    if os.path.exists(rep):
        os.unlink(rep)
    if viol:
        with open(rep, "w") as f:
            for r in viol:
                f.write("obligation: %s\nrule: %s\n%s\nanchored at:\n%s\nfunctions analysed:\n%s\n\n" % (
                    r["obligation"], ev["coverage"]["explanation"], r["detail"], "".join("  %s\n" % s for s in r["entry_points"]),
                    "".join("  %s\n" % s for s in r["functions"])))
        for r in viol:
            print("  %s at %s: %s" % (r["obligation"], "; ".join(r["entry_points"][-3:]), r["detail"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    from engine import dump
    dump.cleanup()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
