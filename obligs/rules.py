"""Rules over the type-checked MIR: termination and budgets (C05), hidden state and effects (C06), encapsulation (C28)."""
import time

from engine import termin
from engine.mirlib import *

_cache = {}


def mir(p):
    if p not in _cache:
        _cache[p] = Mir(p)
    return _cache[p]


def row(ob, status, detail, sites=(), n=1, fns=(), key=None, t0=None):
    r = {"obligation": ob, "status": status, "detail": detail, "entry_points": sorted(set(sites)), "compared_values": n, "functions": sorted(set(fns)),
         "abstracted": [], "seconds": round(time.time() - t0, 2) if t0 else 0.0}
    if key:
        r["key"] = key
    return r


# ------------------------------------------------------------------ C05
def loops(rp, sp, tier):
    m, t0 = mir(rp), time.time()
    return [row("loop at %s in %s" % (ln, p), st, tx, [ln], 1, [p], t0=t0) for p, ln, st, tx in termin.analyse(m)]


def recursion(rp, sp, tier):
    m, t0 = mir(rp), time.time()
    cyc, nf, ne = termin.recursion(m)
    if not cyc:
        return [row("call graph has no cycle", "HOLDS", "%d functions, %d call edges" % (nf, ne), [], ne, m.fns, t0=t0)]
    return [row("call graph has no cycle", "VIOLATED", "recursion: %s (calls at %s)" % (" -> ".join(c), ", ".join(l)), l, ne, c, t0=t0) for c, l in cyc]


DRIVERS = ("cutting_plane::cutting_plane_feas", "cutting_plane::cutting_plane_optim", "cutting_plane::cutting_plane_optim_q", "cutting_plane::bsearch",
           "conjugate_gradient::conjugate_gradient", "power_iteration::power_iteration", "power_iteration::power_iteration2",
           "power_iteration::power_iteration3", "power_iteration::power_iteration4")


def budget_expr(b, L, op, depth=0):
    """value of an operand relative to the caller's budget: ('budget', k) for max_iters + k, ('int', k), or None"""
    c = const_int(op)
    if c is not None:
        return ("int", c)
    if op[0] == "const" or depth > 10:
        return None
    p = op[1]
    l = p["l"]
    if l <= b.nargs and l > 0:
        if not p["p"] and "max_iter" in b.name(l) and len(b.defs.get(l, [])) == 0:
            return ("budget", 0)
        fs = [e for e in p["p"] if e[0] == "field"]
        t = b.locals[l]
        t = t["t"] if t.get("k") == "ref" else t
        if len(fs) == 1 and t.get("k") == "adt" and t["p"] in L.m.adts:
            nm = L.m.adts[t["p"]]["variants"][0]["fields"][fs[0][1]][0]
            if "max_iter" in nm and not b.defs.get(l):
                return ("budget", 0)
        return None
    d = L.one_def(l)
    if not d or d[1] == "call" or p["p"]:
        if d and d[1] == "call" and not p["p"]:
            nm = callees(d[3])
            n = nm[-1].split("::")[-1] if nm else ""
            if n in ("saturating_add", "wrapping_add"):
                a, c2 = budget_expr(b, L, d[3]["args"][0], depth + 1), const_int(d[3]["args"][1])
                if a and c2 is not None:
                    return (a[0], a[1] + c2)
        return None
    rv = d[3]
    if rv[0] == "use":
        return budget_expr(b, L, rv[1], depth + 1)
    if rv[0] == "bin" and rv[1][:3] in ("Add", "Sub"):
        x, y = budget_expr(b, L, rv[2], depth + 1), budget_expr(b, L, rv[3], depth + 1)
        if x and y and y[0] == "int":
            return (x[0], x[1] + (y[1] if rv[1][:3] == "Add" else -y[1]))
        if x and y and x[0] == "int" and rv[1][:3] == "Add":
            return (y[0], x[1] + y[1])
    if rv[0] == "bin" and rv[1][:3] == "Mul":
        x, y = budget_expr(b, L, rv[2], depth + 1), budget_expr(b, L, rv[3], depth + 1)
        for x, y in ((x, y), (y, x)):
            if x == ("budget", 0) and y and y[0] == "int" and y[1] > 1:
                return ("more", y[1])
    return None


def asks(b, S):
    """blocks in S that call into a caller supplied object's assess_* method"""
    out = []
    for i in S:
        t = b.blocks[i]["t"]
        if t["t"] == "call":
            f = fndef(t["f"])
            if f and f.get("trait") and f["name"].startswith("assess") and not t.get("resolved"):
                out.append(i)
    return out


def budgets(rp, sp, tier):
    """rounds of the outer loop of each iterative solver <= the caller's budget"""
    m, out = mir(rp), []
    for p in DRIVERS:
        t0 = time.time()
        f = m.fns.get(p)
        ob = "rounds of %s" % p
        if not f or not f.get("body"):
            out.append(row(ob, "UNDECIDED", "function not found", t0=t0))
            continue
        b = Body(p, f)
        L = termin.Loop(m, b, {})
        L.how = []
        comps = sccs(b.reach, b.edges())
        # loops of interest: they query the oracle, or (solvers without oracle) they are the loop with the budget
        qs = [(S, E) for S, E in comps if asks(b, S)]
        if not qs and p.split("::")[0] == "cutting_plane":
            out.append(row(ob, "UNDECIDED", "the loop that queries the oracle is not in this function", [], 0, [p], t0=t0))
            continue
        if len(qs) > 1:
            lines = [b.line(min(S)) for S, _ in qs]
            out.append(row(ob, "UNDECIDED", "several loops query the oracle: " + ", ".join(lines), lines, len(qs), [p], t0=t0))
            continue
        comps = qs or comps
        for S, E in comps:
            res = None
            w = L.writes(S)
            inner_bad = None
            for i, base, ty, fin, clean, some, D in L.iterators(S, w):
                if not (fin and clean and some & E):
                    continue
                left = sccs(S, E - some)
                got = trip(b, L, base, ty)
                if got is None:
                    continue
                if asks(b, set(x for c, _ in left for x in c)):
                    inner_bad = b.line(min(left[0][0]))
                res = got
                break
            if res is None:
                for key, st in L.counters(S, w).items():
                    g = counter_trip(b, L, key, st, S, E, w)
                    if g:
                        res = g
                        break
            ln = b.line(min(S))
            if inner_bad:
                out.append(row(ob, "VIOLATED", "the oracle is queried in a loop nested inside the budgeted loop at %s: more queries than max_iters" % inner_bad, [inner_bad], 1, [p], t0=t0))
            elif res is None:
                if qs:
                    out.append(row(ob, "UNDECIDED", "trip count of the loop at %s not understood" % ln, [ln], 1, [p], t0=t0))
            elif res[0] == "budget" and res[1] <= 0:
                out.append(row(ob, "HOLDS", "at most max_iters%s rounds (loop at %s)" % (" - %d" % -res[1] if res[1] else "", ln), [ln], 1, [p], t0=t0))
            elif res[0] == "budget" or res[0] == "more":
                out.append(row(ob, "VIOLATED", "the loop at %s runs up to %s rounds" % (ln, "max_iters + %d" % res[1] if res[0] == "budget" else "%d * max_iters" % res[1]), [ln], 1, [p], t0=t0))
    return out


def trip(b, L, base, ty):
    """trip count of an iterator place that was built from a range in this function"""
    t, inc = ty, None
    while t.get("k") == "adt" and t["p"].startswith("core::iter::adapters::"):
        if not t["p"].endswith(("Rev", "Enumerate", "Map")):
            return None
        t = [x for x in t["a"] if isinstance(x, dict) and x.get("k") != "lt"][0]
    if t.get("k") != "adt" or t["p"] not in ("core::ops::range::Range", "core::ops::range::RangeInclusive"):
        return None
    if len(base) != 1:
        return None
    op, d = ["copy", {"l": base[0], "p": []}], None
    for _ in range(10):
        d = L.one_def(op[1]["l"])
        if not d:
            return None
        if d[1] == "call":
            nm = callees(d[3])
            n = nm[0].split("::")[-1]
            if n == "new" and "RangeInclusive" in nm[0]:
                a, z = budget_expr(b, L, d[3]["args"][0]), budget_expr(b, L, d[3]["args"][1])
                inc = 1
                break
            if n in ("into_iter", "rev", "enumerate", "map") and d[3]["args"][0][0] != "const":
                op = d[3]["args"][0]
                continue
            return None
        if d[3][0] == "use" and d[3][1][0] != "const" and not d[3][1][1]["p"]:
            op = d[3][1]
            continue
        if d[3][0] == "agg" and d[3][1][0] == "adt" and d[3][1][1] == "core::ops::range::Range":
            a, z = budget_expr(b, L, d[3][2][0]), budget_expr(b, L, d[3][2][1])
            inc = 0
            break
        return None
    if inc is None or not a or not z or a[0] != "int":
        return None
    if z[0] == "budget":
        return ("budget", z[1] - a[1] + inc)
    if z[0] == "more":
        return z
    return None


def counter_trip(b, L, key, st, S, E, w):
    """trip count of `i = a; while i < budget { ...; i += 1 }` (every round passes the test and the step once)"""
    if any(d != 1 for _, d in st) or len(key) != 1:
        return None
    te = L.tests(key, 1, S, w) & E
    if len(te) != 1 or len(st) != 1:
        return None
    if sccs(S, E - te) or sccs(S, {e for e in E if e[0] != st[0][0]}):
        return None
    ent = [d for d in b.defs.get(key[0], []) if d[0] not in S]
    if len(ent) != 1 or ent[0][1] == "call" or ent[0][3][0] != "use" or const_int(ent[0][3][1]) is None:
        return None
    a = const_int(ent[0][3][1])
    j = next(iter(te))[0]
    d = L.one_def(b.blocks[j]["t"]["o"][1]["l"], S)
    op, x, y = d[3][1], d[3][2], d[3][3]
    if L.root(x) != ("place", key):
        x, y = y, x
        op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}[op]
    z = budget_expr(b, L, y)
    if not z or z[0] == "int":
        return None
    if z[0] == "more":
        return z
    # does the first test see the start value or the value after one step?
    heads = {e[2] for e in b.edges() if e[2] in S and e[0] not in S}
    if len(heads) != 1:
        return None
    seen, todo = set(), list(heads)
    while todo:
        x = todo.pop()
        if x in seen or x == j:
            continue
        seen.add(x)
        todo += [e[2] for e in E if e[0] == x]
    if asks(b, seen):
        return None
    if st[0][0] in seen or st[0][0] == j:
        if st[0][0] == j and not before(b, j, key, L):
            return None
        a += 1
    return ("budget", z[1] - a + (1 if op in ("Le", "Gt") else 0))


def before(b, j, key, L):
    """in block j, is the step assigned before the compared value is read?"""
    w = rd = None
    for n, s in enumerate(b.blocks[j]["s"]):
        if s[0] == "assign":
            if pkey(s[1]) == key:
                w = n
            ops, pls = operands(s[2])
            if s[2][0] == "use" and any(o[0] != "const" and pkey(o[1]) == key for o in ops):
                rd = n
    return w is not None and rd is not None and w < rd


# ------------------------------------------------------------------ C06
CELLS = ("core::cell::Cell", "core::cell::RefCell", "core::cell::UnsafeCell", "core::cell::once::OnceCell", "core::cell::lazy::LazyCell", "core::sync::atomic::",
         "std::sync::mutex::", "std::sync::rwlock::", "std::sync::poison::mutex::", "std::sync::poison::rwlock::", "std::sync::once_lock::",
         "std::sync::nonpoison::", "std::sync::reentrant_lock::", "std::sync::poison::once::", "std::sync::mpsc", "std::thread::local::LocalKey")
DENY = [("std::time::", "reads a clock"), ("std::env::", "reads the environment"), ("std::fs::", "touches files"), ("std::net::", "uses the network"),
        ("std::process::", "touches processes"), ("std::io::stdio::", "uses the console"), ("std::io::", "performs I/O"), ("std::thread::local::", "uses thread-local state"),
        ("std::thread::", "uses threads"), ("std::hash::random::", "uses random hashing state"), ("rand::", "draws random numbers"), ("rand_core::", "draws random numbers"),
        ("getrandom::", "draws random numbers"), ("fastrand::", "draws random numbers"), ("std::os::", "uses the operating system"), ("std::sys::", "uses the operating system"),
        ("core::arch::", "uses machine registers"), ("std::alloc::", "uses the allocator"), ("core::panic::Location", "depends on the call site"), ("std::panicking::set_hook", "changes the panic hook"), ("std::panic::set_hook", "changes the panic hook"),
        ("core::any::type_name", "depends on type names")]
ITER_HASH = ("iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain", "retain")


def cellish(t):
    """interior mutability anywhere in a type"""
    for n in walk_ty(t):
        if n.get("k") == "adt" and any(n["p"] == c or (c.endswith("::") and n["p"].startswith(c)) for c in CELLS):
            return n["p"]
        if n.get("k") == "adt" and n["p"].startswith(("core::sync::atomic::", "std::sync::poison::", "std::sync::nonpoison::")):
            return n["p"]
    return None


def state(rp, sp, tier):
    """statics and fields: nothing mutable that is not owned by the object"""
    m, t0, out = mir(rp), time.time(), []
    n = 0
    for s in m.statics:
        n += 1
        path, span, mut, ty = s
        lazy = ty.get("k") == "adt" and ty["p"] in ("std::sync::lazy_lock::LazyLock",)
        c = None if lazy else cellish(ty)
        once = c and ("once_lock" in c or "OnceCell" in c)
        if mut or (c and not once):
            out.append(row("static %s" % path, "VIOLATED", "hidden mutable state: static %s: %s at %s" % (path, show_ty(ty), span), [span], t0=t0))
        elif once:
            out.append(row("static %s" % path, *once_use(m, path, span), sites=[span], t0=t0))
        else:
            out.append(row("static %s" % path, "HOLDS", "immutable", [span], t0=t0))
    for p, a in sorted(m.adts.items()):
        if not a["local"]:
            continue
        for v in a["variants"]:
            for nm, ty, pub in v["fields"]:
                n += 1
                c = cellish(ty)
                if c:
                    out.append(row("field %s.%s" % (p, nm), "VIOLATED", "shared or interior mutable state: %s.%s: %s" % (p, nm, show_ty(ty)), [p], t0=t0))
                elif any(x.get("k") == "rawptr" or (x.get("k") == "ref" and x["m"]) for x in walk_ty(ty)):
                    out.append(row("field %s.%s" % (p, nm), "UNDECIDED", "the object keeps a pointer: %s" % show_ty(ty), [p], t0=t0))
    if not [r for r in out if r["status"] != "HOLDS"]:
        out.append(row("statics and fields", "HOLDS", "%d statics and fields: none mutable behind a shared reference" % n, [], n, t0=t0))
    return out


def once_use(m, path, span):
    """a write-once static is harmless when its initialiser captures nothing"""
    for p, f, b in m.bodies():
        for i in b.reach:
            t = b.blocks[i]["t"]
            if t["t"] == "call":
                nm = callees(t)
                if nm and "once" in nm[-1].lower() and nm[-1].split("::")[-1] in ("set", "take", "try_insert", "get_mut"):
                    return ("VIOLATED", "write-once static %s is set from data at %s" % (path, b.line(i)))
                if nm and "once" in nm[-1].lower() and nm[-1].split("::")[-1] in ("get_or_init", "get_or_try_init"):
                    for n in walk_ty(t["aty"]):
                        if n.get("k") == "closure":
                            g = m.fns.get(n["p"])
                            if g and any(s[0] == "assign" and s[2][0] == "agg" and s[2][1][0] == "closure" and s[2][1][1] == n["p"] and s[2][2] for blk in b.blocks for s in blk["s"]):
                                return ("VIOLATED", "write-once static %s is initialised from the arguments of the first call (%s)" % (path, b.line(i)))
    return ("HOLDS", "initialised once from constants")


def effects(rp, sp, tier):
    m, t0, out, calls = mir(rp), time.time(), [], 0
    for p, f, b in m.bodies():
        for i in b.reach:
            blk = b.blocks[i]
            for s in blk["s"]:
                if s[0] != "assign":
                    continue
                rv = s[2]
                if rv[0] == "tls":
                    out.append(row("effects of %s" % p, "VIOLATED", "thread-local state used at %s" % s[3], [s[3]], 1, [p], t0=t0))
                if rv[0] == "cast" and "PointerExpose" in rv[1]:
                    out.append(row("effects of %s" % p, "VIOLATED", "an address becomes a number at %s: the result depends on where objects lie" % s[3], [s[3]], 1, [p], t0=t0))
                if rv[0] == "cast" and "PtrToPtr" in rv[1]:
                    src = [x for x in rv if isinstance(x, dict) and x.get("k") == "rawptr"]
                    if len(src) == 2 and not src[0]["m"] and src[1]["m"]:
                        out.append(row("effects of %s" % p, "UNDECIDED", "a read-only pointer is made writable at %s" % s[3], [s[3]], 1, [p], t0=t0))
            t = blk["t"]
            if t["t"] != "call":
                continue
            calls += 1
            nm = callees(t)
            bad = None
            for q in nm:
                for d, why in DENY:
                    if q.startswith(d) or q.startswith("<" + d):
                        bad = why
                        break
                if bad:
                    break
                if "collections::hash" in q and q.split("::")[-1].split("<")[0] in ITER_HASH:
                    bad = "iterates a hash table in its random order"
            if not bad and nm and nm[0].split("::")[-1] in ITER_HASH + ("next",) and t["aty"] and "std::collections::hash" in str([n.get("p") for n in walk_ty(t["aty"][0]) if n.get("k") == "adt"]):
                bad = "iterates a hash table in its random order"
            if bad:
                out.append(row("effects of %s" % p, "VIOLATED", "%s %s: call of %s at %s" % (p, bad, nm[-1], b.line(i)), [b.line(i)], 1, [p], t0=t0))
    if not out:
        out.append(row("calls with effects", "HOLDS", "%d calls in %d functions: no clock, environment, file, console, thread, random or address use" % (calls, len(m.fns)), [], calls, m.fns, t0=t0))
    return out


# ------------------------------------------------------------------ C28
PRIVATE = {"arr::Arr": None, "ell::Ell": None, "ell_stable::EllStable": None, "oracles::ldlt_mgr::LDLTMgr": ("pos", "wit"), "ell_calc::EllCalcCore": None, "ell_calc::EllCalc": None}


def fields(rp, sp, tier):
    """representation fields are private"""
    m, ms, out = mir(rp), mir(sp), []
    for p in PRIVATE:
        t0 = time.time()
        a, r = m.adts.get(p), ms.adts.get(p)
        if not a:
            out.append(row("fields of %s" % p, "UNDECIDED", "type not found", t0=t0))
            continue
        allowed = {nm for v in r["variants"] for nm, _, pub in v["fields"] if pub}
        bad = [nm for v in a["variants"] for nm, _, pub in v["fields"] if pub and nm not in allowed]
        n = sum(len(v["fields"]) for v in a["variants"])
        if bad:
            out.append(row("fields of %s" % p, "VIOLATED", "public representation field%s %s of %s: a caller can change it without the operations that keep the object consistent" % ("s" if len(bad) > 1 else "", ", ".join(bad), p), [p], n, t0=t0))
        else:
            out.append(row("fields of %s" % p, "HOLDS", "%d fields, public: %s" % (n, ", ".join(sorted(allowed)) or "none"), [p], n, t0=t0))
    return out


def handouts(rp, sp, tier):
    """no public function hands out a mutable reference to something that can change an object's shape"""
    m, ms, out, n = mir(rp), mir(sp), [], 0
    t0 = time.time()
    for p, f in m.fns.items():
        if f["vis"] != "Public" or not f.get("body") or f["kind"] == "Closure":
            continue
        n += 1
        ret = f["body"]["locals"][0]
        ins = f["body"]["locals"][1:f["body"]["nargs"] + 1]
        selfs = {x["t"]["p"] for x in ins if x.get("k") == "ref" and x["m"] and x["t"].get("k") == "adt" and x["t"]["p"] in PRIVATE}
        if not selfs:
            continue
        for x in walk_ty(ret):
            if x.get("k") == "ref" and x["m"]:
                u = x["t"]
                if (u.get("k") == "adt" and u["p"] == "alloc::vec::Vec") or (u.get("k") == "prim" and is_int(u) and p not in ms.fns):
                    out.append(row("result of %s" % p, "VIOLATED", "%s returns %s: the caller can change the representation of %s behind its back" % (p, show_ty(x), ", ".join(selfs)), [f["span"]], 1, [p], t0=t0))
    if not out:
        out.append(row("mutable references handed out", "HOLDS", "%d public functions: none returns a mutable reference that can change a shape" % n, [], n, t0=t0))
    return out


OBS = {}
RULES = {"C05": [loops, recursion, budgets], "C06": [state, effects], "C28": [fields, handouts]}
RULE_TEXT = {
    "C05": "termination over the MIR control-flow graph of every function of the crate: each loop is discharged by a lexicographic ranking (finite iterator created outside "
           "the loop, or integer counter moved in one direction towards a bound that does not change in the loop); the call graph is acyclic; the loop of each iterative solver "
           "runs at most max_iters rounds and nests no further oracle loop. A loop is reported when a branch-consistent cycle moves nothing its exit conditions depend on.",
    "C06": "effect analysis over the MIR of every function of the crate: statics, thread-locals, field types with interior mutability, calls into clocks, environment, files, console, "
           "network, processes, threads, random numbers, hash iteration order and pointer-to-integer casts",
    "C28": "visibility analysis over the type-checked items (representation fields, mutable references in public signatures) and value graphs of every public array operation for the shape invariant",
}
ASSUME = {
    "C05": ["std iterators of the listed finite types are finite; library calls into core/alloc/std terminate", "calls into caller supplied oracles and spaces terminate",
            "integers do not wrap around on the way to their bound"],
    "C06": ["core, alloc and std items outside the deny list have no hidden effect", "the log facade is allowed", "safe Rust: what is reachable only through shared references without interior mutability does not change"],
}
TECHNIQUE = {
    "C05": "ranking-function termination analysis over the MIR control-flow and call graphs, trip-count analysis, value-graph invariant for the reported count",
    "C06": "effect and interior-mutability analysis over MIR, statics and field types; value-graph equality for copies",
    "C27": "value-graph (gated SSA) normal-form analysis of panic conditions over MIR against a reference definition",
    "C28": "visibility analysis of items and signatures; value-graph invariant for the shape of every public array operation",
}
NOTE = {
    "C05": "Every loop of the crate is discharged by a ranking argument or reported; loops that are neither provably bounded nor provably unbounded are listed as undecided.",
    "C06": "Deny-list of effects over every resolved call in the crate, plus types of all statics and fields; std items outside the list are trusted.",
    "C28": "Field visibility is exact; the shape invariant is decided for all inputs of every public function whose arguments can be described (arrays, vectors, numbers, closures).",
}
