"""C29: what a function does is not a matter of build profile or cargo features.

The crate is type-checked in every configuration (debug assertions on and off, each cargo feature alone, none, all).  A function whose MIR is the same
in two configurations behaves the same in both.  Code that is present in one configuration only is inspected: a region that only computes temporaries and
may panic (a debug assertion) has no effect; anything else sends every value-graph obligation of the crate through a comparison of the two
configurations of the crate with each other (panics apart)."""
import json
import os
import subprocess
from engine import dump

REPO = "/repo"
_cache = {}


def configs():
    r = subprocess.run(["cargo", "+nightly", "metadata", "--no-deps", "--offline", "--format-version", "1"], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    feats = []
    try:
        for p in json.loads(r.stdout)["packages"]:
            if os.path.dirname(p["manifest_path"]) == REPO:
                feats = sorted(f for f in p["features"] if f != "default")
    except Exception:
        pass
    out = [("debug assertions on", (), True), ("--no-default-features", ("--no-default-features",), False)]
    out += [("only feature " + f, ("--no-default-features", "--features", f), False) for f in feats]
    if len(feats) > 1:
        out.append(("--all-features", ("--all-features",), False))
    return out


def bodies(path):
    d = json.load(open(path))
    return d["fns"]


def succ(t):
    k = t["t"]
    if k == "switch":
        return [b for _, b in t["arms"]] + ([t["other"]] if t.get("other") is not None else [])
    return [t[x] for x in ("to", "unwind") if isinstance(t.get(x), int)]


def const_bool(op):
    if op[0] == "const":
        v = op[1].get("v")
        if isinstance(v, dict) and v.get("c") == "bool":
            return v["v"]
    return None


def reach(b):
    """blocks reachable when switches on constants are resolved"""
    seen, todo = set(), [0]
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        bl = b["blocks"][k]
        t = bl["t"]
        if t["t"] == "switch" and t["o"][0] in ("move", "copy") and not t["o"][1]["p"]:
            l, v = t["o"][1]["l"], None
            for s in bl["s"]:
                if s[0] == "assign" and s[1]["l"] == l and not s[1]["p"]:
                    v = const_bool(s[2][1]) if s[2][0] == "use" else None
            if v is not None:
                nxt = t["other"]
                for a, to in t["arms"]:
                    if a == int(v):
                        nxt = to
                todo.append(nxt)
                continue
        todo += succ(t)
    return seen


def mentioned(x, acc):
    """locals mentioned anywhere in a statement or terminator"""
    if isinstance(x, dict):
        if "l" in x and "p" in x:
            acc.add(x["l"])
            for e in x["p"]:
                if isinstance(e, list) and e and e[0] == "index":
                    acc.update(y for y in e[1:] if isinstance(y, int))
        for v in x.values():
            mentioned(v, acc)
    elif isinstance(x, (list, tuple)):
        for v in x:
            mentioned(v, acc)
    return acc


def taken(b, k):
    """where block k, which switches on a constant, goes"""
    bl = b["blocks"][k]
    t = bl["t"]
    for s in bl["s"]:
        if s[0] == "assign" and s[1] == t["o"][1] and s[2][0] == "use":
            v = const_bool(s[2][1])
    for a, to in t["arms"]:
        if a == int(v):
            return to
    return t["other"]


def exits(b, k, shared):
    seen, todo, out = set(), [k], set()
    while todo:
        k = todo.pop()
        if k in shared:
            out.add(k)
        elif k not in seen and not b["blocks"][k].get("cleanup"):
            seen.add(k)
            todo += succ(b["blocks"][k]["t"])
    return out


def rejoin(x, y, shared):
    """both builds must go on at the same place after the code that only one of them has"""
    for k in sorted(shared):
        if x["blocks"][k] != y["blocks"][k]:
            ex, ey = exits(x, taken(x, k), shared), exits(y, taken(y, k), shared)
            if len(ex | ey) != 1:
                return "goes on at different places after %s" % x["blocks"][k].get("sp")
    return None


def shared_uses(b, shared):
    u = {0} | set(range(1, b["nargs"] + 1))
    for k in shared:
        bl = b["blocks"][k]
        for s in bl["s"]:
            if s[0] in ("live", "dead"):
                continue
            mentioned(s, u)
        mentioned(bl["t"], u)
    return u


def region_effect(b, only, shared):
    """None when the blocks `only` compute temporaries and may panic, else a description"""
    out = shared_uses(b, shared)
    unit = lambda l: b["locals"][l] == {"k": "tuple", "a": []}
    for k in sorted(only):
        bl = b["blocks"][k]
        if bl.get("cleanup"):
            continue
        sp = bl.get("sp")
        for s in bl["s"]:
            if s[0] in ("live", "dead"):
                continue
            if s[0] != "assign":
                return "statement %s at %s" % (s[0], sp)
            pl, rv = s[1], s[2]
            if pl["l"] in out and not unit(pl["l"]):
                return "assigns a variable of the function at %s" % s[-1]
            if any(e == ["deref"] or e == "deref" for e in pl["p"]):
                return "writes through a pointer at %s" % s[-1]
            if rv[0] in ("ref", "addr") and rv[1] and rv[2]["l"] in out:
                return "borrows a variable mutably at %s" % s[-1]
        t = bl["t"]
        if t["t"] == "call":
            if t["dst"]["l"] in out and not unit(t["dst"]["l"]):
                return "assigns a variable of the function at %s" % sp
            for a, ty in zip(t["args"], t["aty"]):
                if ty.get("k") == "ref" and ty.get("m") and a[0] != "const" and a[1]["l"] in out:
                    return "passes a mutable borrow at %s" % sp
        elif t["t"] == "return":
            return "returns at %s" % sp
        elif t["t"] not in ("goto", "switch", "drop", "assert", "unreachable", "false", "falseEdge", "falseUnwind"):
            return "%s at %s" % (t["t"], sp)
    # control must rejoin where the other build continues
    for k in only:
        if b["blocks"][k]["t"]["t"] == "return":
            return "returns at %s" % b["blocks"][k].get("sp")
    return None


def analyse(rp):
    if "r" in _cache:
        return _cache["r"]
    base = bodies(rp)
    rows, redo, seen = [], [], {}
    for name, flags, debug in configs():
        row = {"obligation": "build with " + name, "status": "HOLDS", "detail": "", "entry_points": [], "compared_values": len(base), "functions": [], "abstracted": [], "seconds": 0.0}
        rows.append(row)
        try:
            p = dump.dump(REPO, "repo", flags, debug, "out-" + name.replace(" ", "_"))
        except dump.BuildFailed as e:
            txt = str(e)
            err = [l for l in txt.splitlines() if l.startswith("error")]
            if any("could not compile `ellalgo-rs`" in l for l in err):
                row["status"], row["detail"] = "VIOLATED", "the crate does not type-check in this configuration: " + "; ".join(err[:3])
            else:
                row["status"], row["detail"] = "UNDECIDED", "cannot be analysed: " + txt[-300:]
            continue
        other = bodies(p)
        diff = []
        n = 0
        for f in sorted(base):
            x, y = base[f].get("body"), (other.get(f) or {}).get("body")
            if x == y:
                continue
            n += 1
            row["functions"].append(f)
            if f not in other:
                diff.append((f, "is missing"))
                continue
            if not x or not y:
                diff.append((f, "has a body in one build only"))
                continue
            if len(x["blocks"]) != len(y["blocks"]) or x["locals"] != y["locals"]:
                diff.append((f, "is compiled from different source"))
                continue
            rx, ry = reach(x), reach(y)
            # blocks reachable in both builds must be the same, apart from the constant that is switched on
            why = None
            for k in rx & ry:
                a, b = x["blocks"][k], y["blocks"][k]
                if a != b and not (a["t"] == b["t"] and len(a["s"]) == len(b["s"]) and all(
                        s == t or (s[0] == t[0] == "assign" and s[1] == t[1] and s[2][0] == t[2][0] == "use" and const_bool(s[2][1]) is not None and const_bool(t[2][1]) is not None
                                   and a["t"]["t"] == "switch" and a["t"]["o"][1] == s[1]) for s, t in zip(a["s"], b["s"]))):
                    why = "differs at %s" % a.get("sp")
            why = why or rejoin(x, y, rx & ry)
            why = why or region_effect(y, ry - rx, rx & ry) or region_effect(x, rx - ry, rx & ry)
            if why:
                diff.append((f, why))
        if not diff:
            row["detail"] = "%d functions: %s" % (len(base), "identical" if not n else "%d contain code of this build only, which computes temporaries and may only panic" % n)
        else:
            row["status"] = "UNDECIDED"
            row["detail"] = "; ".join("%s %s" % d for d in diff)[:800]
            key = (debug, json.dumps(other, sort_keys=True, default=repr))
            if key in seen:
                row["detail"] = "compiled to the same MIR as the build with %s, which is compared below: " % seen[key] + row["detail"]
                row["status"] = "HOLDS"
                continue
            seen[key] = name
            redo.append((name, p, diff, row))
    _cache["r"] = (rows, redo)
    return _cache["r"]


def rel(name, sc, dumps, debug, rounded):
    def s(c):
        sc(c)
    s.rounded = rounded
    if debug:
        s.extra_panics = True
    s.dumps = dumps
    return (name, s)


def dyn(rp):
    import obligs.all as A
    rows, redo = analyse(rp)
    out, fine = [], []
    for name, p, diff, row in redo:
        row["status"], row["detail"] = "HOLDS", "decided by the value-graph comparisons below: " + row["detail"]
        for pid in sorted(A.OBS):
            if pid in A.PY or pid in ("C05", "C27", "C29"):
                continue
            for nm, sc in A.OBS[pid]:
                if not getattr(sc, "self_reference", False):
                    out.append(rel("%s [%s], build with %s" % (nm, pid, name), sc, (p, rp), name.startswith("debug"), False))
                    if not getattr(sc, "rounded", False):
                        fine.append(rel("%s [%s], build with %s, rounded" % (nm, pid, name), sc, (p, rp), name.startswith("debug"), True))
    return out + fine


def rule(rp, sp, tier):
    return analyse(rp)[0]


OBS = {}
RULES = {"C29": [rule]}
DYN = {"C29": dyn}
RULE_TEXT = {"C29": "the crate is type-checked with debug assertions on and off, with no, each and all cargo features; MIR of every function is compared between the builds; code present in one build only is checked for "
                    "effects (assignments to variables live outside of it, mutable borrows, returns), and where it has some, every value-graph obligation is used to compare the two builds with each other"}
TECHNIQUE = {"C29": "comparison of the type-checked MIR of all build configurations, effect analysis of configuration-only code, relational value graphs"}
NOTE = {"C29": "Functions with identical MIR are identical; configuration-only code is discharged by an effect analysis or by relational value-graph normal forms over all inputs."}
ASSUME = {"C29": ["dependencies behave the same in every configuration", "code built only for cfg(test) is no part of the library"]}
