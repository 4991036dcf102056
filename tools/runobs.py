import os, sys, threading
sys.path.insert(0, "/verif")
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)


def main():
    from engine import interp as I
    from engine.oblig import check
    import obligs.all as A
    rp, sp = sys.argv[1], "/verif/build/spec/out/ellalgo_rs-Rlib.json"
    props = sys.argv[2:] or sorted((set(A.OBS) | set(A.RULES)) - {'C27'})
    R, S = I.Program(rp), I.Program(sp)
    for p in props:
        for nm, sc in [o for o in A.OBS.get(p, []) if os.environ.get("OB", "") in o[0]] + (A.DYN[p](rp) if p in A.DYN else []):
            try:
                r = check(R, S, nm, sc)
                print("%s %s %s (%.1fs) %s" % (r.status, p, nm, r.seconds, r.detail), flush=True)
            except Exception as e:
                print("UNDECIDED %s %s crashed %r" % (p, nm, e), flush=True)
        for f in A.RULES.get(p, []):
            for r in f(rp, sp, "quick"):
                print("%s %s %s %s" % (r["status"], p, r["obligation"], r["detail"]), flush=True)


t = threading.Thread(target=main)
t.start()
t.join()
