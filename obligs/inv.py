"""C06: copies are equal and independent; C27: panics only on contract violations; C28: shape invariant of every public array operation."""
from engine import mirlib as ML
from .common import *

CLONE = "core::clone::Clone"


def shape_ok(c, a):
    n, r, k = a_len(c, a), get_field(c, a, "rows"), get_field(c, a, "cols")
    return T.OR(T.d_eq(n, T.d_mul(r, k)), T.AND(T.d_eq(k, T.num(0)), T.d_eq(n, r)))


def a_len(c, a):
    d = get_field(c, a, "data")
    return d.len


# ---------------------------------------------------------------- C28: enumerate the public functions that build or change an array
def supported(t):
    k = t.get("k")
    if k == "prim":
        return t["n"] in ("usize", "f64", "bool")
    if k == "adt":
        return t["p"] == ARR or (t["p"] == "alloc::vec::Vec" and t["a"][0] == {"k": "prim", "n": "f64"})
    if k == "ref":
        u = t["t"]
        return (u.get("k") == "adt" and u["p"] == ARR) or (not t["m"] and u.get("k") == "slice" and u["t"] == {"k": "prim", "n": "f64"})
    if k == "tuple":
        return all(supported(x) for x in t["a"]) and t["a"]
    return False


def make(c, t, nm):
    k = t["k"]
    if k == "prim":
        return c.nat(nm) if t["n"] == "usize" else c.real(nm) if t["n"] == "f64" else c.bool(nm)
    if k == "adt":
        return arrg0(c, nm) if t["p"] == ARR else c.vec(nm, c.nat(nm + ".len"))
    if k == "tuple":
        return tup(*[make(c, x, nm + ".%d" % i) for i, x in enumerate(t["a"])])
    if t["t"]["k"] == "slice":
        return c.slice(c.vec(nm, c.nat(nm + ".len")))
    return c.ref(arrg0(c, nm))


def arrg0(c, nm):
    """an arbitrary array that satisfies the invariant, without going through the constructors under analysis"""
    n, r, k = c.nat(nm + ".n"), c.nat(nm + ".rows", 1), c.nat(nm + ".cols", 1)
    two = c.bool(nm + " is 2-d")
    a = mkstruct(c, ARR, {"data": c.vec(nm, n), "rows": n, "cols": T.num(0)})
    b = mkstruct(c, ARR, {"data": c.vec(nm, T.d_mul(r, k)), "rows": r, "cols": k})
    return V.merge(two, b, a)


def shape_script(path, ins, rets, muts):
    def script(c):
        if c.side == "spec":
            for nm in (["result"] if rets else []) + ["argument %d" % i for i in muts]:
                c.observe(nm + " has rows*cols elements", TRUE)
            return
        args = [c.tok("f%d" % i) if t.get("k") == "param" else make(c, t, "a%d" % i) for i, t in enumerate(ins)]
        r = c.call(path, *args, targs=[param("F", 0)] if any(t.get("k") == "param" for t in ins) else [])
        if rets:
            c.observe("result has rows*cols elements", shape_ok(c, r))
        for i in muts:
            c.observe("argument %d has rows*cols elements" % i, shape_ok(c, c.get(args[i])))
    script.own_panics = True
    return script


def shapes(rp):
    m = ML.Mir(rp)
    out = []
    for p, f in sorted(m.fns.items()):
        if f["vis"] != "Public" or not f.get("body") or f["kind"] == "Closure":
            continue
        b = f["body"]
        ins, ret = b["locals"][1:b["nargs"] + 1], b["locals"][0]
        if not all(supported(t) or t.get("k") == "param" for t in ins):
            continue
        rets = ret.get("k") == "adt" and ret["p"] == ARR
        muts = [i for i, t in enumerate(ins) if t.get("k") == "ref" and t["m"]]
        if rets or muts:
            out.append(("shape after " + p, shape_script(p, ins, rets, muts)))
    return out


# ---------------------------------------------------------------- C06: a clone is an equal value
def clone_arr(c):
    a = c.ref(arrg0(c, "a"))
    r = c.tcall(CLONE, [ARR_T], "clone", a)
    see(c, "clone", r)
    seep(c, "original", a)


def clone_of(tname, build):
    def script(c):
        """the copy is compared with the original itself, so the layout of the type does not matter"""
        p = c.ref(build(c))
        r = c.get(p) if c.side == "spec" else c.tcall(CLONE, [adt(tname)], "clone", p)
        for f in names(c, r):
            c.observe("clone." + f, get_field(c, r, f))
    script.self_reference = True
    return script


def opaque_struct(c, tname, nm):
    """arbitrary object of a crate type"""
    return c.opaque(nm, adt(tname))


TYPES = ["ell::Ell", "ell_stable::EllStable", "ell_calc::EllCalc", "ell_calc::EllCalcCore", "cutting_plane::SingleCut", "cutting_plane::ParallelCut"]

OBS = {"C06": [("Arr::clone", clone_arr)] + [("%s::clone" % t, clone_of(t, lambda c, t=t: opaque_struct(c, t, "x"))) for t in TYPES]}
DYN = {"C28": shapes}


# ---------------------------------------------------------------- C27: nothing but the panic condition
def only_panics(script):
    def s(c):
        try:
            script(c)
        finally:
            c.obs = []
    s.new_panics = True
    return s


def panics():
    from . import calc, drivers, ells, oracles, solvers
    out = []
    for mod in (drivers, calc, ells, oracles, solvers):
        for pid in sorted(mod.OBS):
            for nm, sc in mod.OBS[pid]:
                out.append(("panic condition of %s [%s]" % (nm, pid), only_panics(sc)))
    return out


OBS["C27"] = panics()


# ---------------------------------------------------------------- C05: the reported number of rounds never exceeds the budget
def within(name, kind):
    from . import drivers as D

    def script(c):
        mx = c.nat("max_iters")
        if c.side == "spec":
            c.observe("reported rounds <= max_iters", TRUE)
            return
        if kind == "power":
            n = c.nat("n", 1)
            o = c.ref(mkstruct(c, "power_iteration::Options", {"max_iters": mx, "tolerance": c.real("tol")}))
            r = c.call("power_iteration::" + name, c.ref(arr2(c, "A", n, n)), c.ref(arr1(c, "x", n)), o)
        elif kind == "bs":
            om, _ = D.objs(c)
            r = c.call(D.CP + name, om, c.ref(tup(c.real("lower"), c.real("upper"))), D.opts(c), targs=[param("Oracle", 0)])
        else:
            om, sp = D.objs(c)
            a = [om, sp] + ([c.ref(c.real("gamma"))] if kind == "optim" else []) + [D.opts(c)]
            r = c.call(D.CP + name, *a, targs=D.TP)
        c.observe("reported rounds <= max_iters", T.d_le(r.fs[1], mx))
    script.own_panics = True
    return script


OBS["C05"] = [("%s reports at most max_iters rounds" % n, within(n, k)) for n, k in
              (("cutting_plane_feas", "feas"), ("cutting_plane_optim", "optim"), ("cutting_plane_optim_q", "optim"), ("bsearch", "bs"),
               ("power_iteration", "power"), ("power_iteration2", "power"), ("power_iteration3", "power"), ("power_iteration4", "power"))]
