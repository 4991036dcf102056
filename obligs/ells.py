"""C10-C14: ellipsoid updates, transactionality, dispatch, constructors."""
from .common import *

SP = "cutting_plane::SearchSpace"
ELL, STA = "ell::Ell", "ell_stable::EllStable"
KIND = {"bias": "update_bias_cut", "central": "update_central_cut", "q": "update_q"}


def mkcut(c, cut, g):
    if cut == "single":
        return tup(g, single(c.real("beta"))), adt(SINGLE)
    return tup(g, parallel(c.real("b0"), option(c.bool("has_b1"), c.real("b1")))), adt(PARALLEL)


def build(c, which, defer=True):
    n = c.nat("n", 2)
    kap = c.real("kappa", pos=True)
    mq = arr2sym(c, "Q", n) if which == ELL else arr2(c, "LD", n, n)
    e = c.call(which + "::new_with_matrix", kap, mq, arr1(c, "xc", n))
    if which == ELL and defer:
        e = with_field(c, e, "no_defer_trick", c.bool("no_defer"))
    return n, e


def update(c, which, kind, cut):
    n, e = build(c, which)
    p = c.ref(e)
    g = arr1(c, "g", n)
    ct, ty = mkcut(c, cut, g)
    status = c.tcall(SP, [adt(which)], KIND[kind], p, c.ref(ct), targs=[ty])
    c.require(T.d_lt(T.num(0), c.tcall(SP, [adt(which)], "tsq", p)))
    return n, p, status


def state(c, which, p, n, full=True):
    out = [("centre", data_of(c, c.tcall(SP, [adt(which)], "xc", p)))]
    e = c.get(p)
    out.append(("scale", get_field(c, e, "kappa")))
    if full:
        d = data_of(c, get_field(c, e, "mq"))
        out.append(("matrix", d if which == ELL else upper(d, n)))
    return out


def upd(which, kind, cut, full=True):
    def script(c):
        n, p, status = update(c, which, kind, cut)
        c.observe("status", status)
        c.observe("size", c.tcall(SP, [adt(which)], "tsq", p))
        for nm, v in state(c, which, p, n, full):
            c.observe(nm, v)
    return script


def rejected(which, kind, cut):
    """on a status other than success the state is the one before (reference: untouched state)"""
    def script(c):
        n, p, status = update(c, which, kind, cut)
        c.observe("status", status)
        ok = T.dd_mapn(lambda t: TRUE if t == succ(c) else FALSE, (status.tag,))
        bad = NOT(ok)
        if bad is FALSE:
            return
        with T.assume(bad):
            if c.side == "spec":
                _, e0 = build(c, which)
                p = c.ref(e0)
            for nm, v in state(c, which, p, n):
                c.observe(nm, when(bad, v))
    return script


def succ(c):
    ad = c.P.adt("cutting_plane::CutStatus")
    return [v["name"] for v in ad["variants"]].index("Success")


def mirrored(kind, cut):
    """entries (i,j) and (j,i) of the updated matrix are the same floating point number"""
    def script(c):
        n, p, status = update(c, ELL, kind, cut)
        d = V.to_2d(data_of(c, get_field(c, c.get(p), "mq")), n.val)
        i, j = c.nat("i"), c.nat("j")
        below = T.d_sub(T.d_mul(n, n), T.num(1))
        for f in (T.d_lt(j, i), T.d_lt(i, n), T.d_le(T.d_add(T.d_mul(i, n), j), below), T.d_le(T.d_add(T.d_mul(j, n), i), below)):
            c.require(f)
        if c.side == "spec":
            i, j = j, i
        r, k = d.syms
        with T.assume(c.req):
            c.observe("entry", V.vsubst(d.body, T.Map({r.id: i, k.id: j})))
    script.self_reference = True
    script.rounded = True
    return script


def untouched(which, kind, cut):
    """a rejected cut leaves every stored number bit for bit as it was"""
    def script(c):
        n, p, status = update(c, which, kind, cut)
        ok = T.dd_mapn(lambda t: TRUE if t == succ(c) else FALSE, (status.tag,))
        bad = NOT(ok)
        if bad is FALSE:
            return
        with T.assume(bad):
            if c.side == "spec":
                _, e0 = build(c, which)
                p = c.ref(e0)
            for nm, v in state(c, which, p, n):
                c.observe(nm, when(bad, v))
    script.self_reference = True
    script.rounded = True
    return script


COMBOS = [(k, t) for k in ("bias", "central", "q") for t in ("single", "parallel")]
OBS = {
    "C10": [("Ell %s %s" % x, upd(ELL, *x)) for x in COMBOS] + [("Ell %s %s, exact symmetry" % x, mirrored(*x)) for x in COMBOS],
    "C11": [("EllStable %s %s" % x, upd(STA, *x)) for x in COMBOS],
    "C12": [("Ell %s %s" % x, rejected(ELL, *x)) for x in COMBOS] + [("EllStable %s %s" % x, rejected(STA, *x)) for x in COMBOS] + [
        ("%s %s %s, bit for bit" % ((w,) + x), untouched(w, *x)) for w in (ELL, STA) for x in COMBOS],
    "C13": [("Ell %s %s" % x, upd(ELL, *x, False)) for x in COMBOS] + [("EllStable %s %s" % x, upd(STA, *x, False)) for x in COMBOS],
}


def set_xc(which):
    def script(c):
        n, e = build(c, which)
        p = c.ref(e)
        c.tcall(SP, [adt(which)], "set_xc", p, arr1(c, "y", n))
        see(c, "xc", c.tcall(SP, [adt(which)], "xc", p))
        c.observe("size", c.tcall(SP, [adt(which)], "tsq", p))
        e = c.get(p)
        for f in ("kappa", "tsq"):
            c.observe(f, get_field(c, e, f))
        see(c, "mq", get_field(c, e, "mq"))
        see(c, "field xc", get_field(c, e, "xc"))
    script.rounded = True
    return script


def accessors(which):
    def script(c):
        n, e = build(c, which)
        e = with_field(c, e, "tsq", c.real("tsq"))
        p = c.ref(e)
        see(c, "xc", c.tcall(SP, [adt(which)], "xc", p))
        c.observe("tsq", c.tcall(SP, [adt(which)], "tsq", p))
    return script


def default_q(c):
    sp = c.ref(leaf(N.sym("space", "o", unique=False)))
    cut = c.ref(leaf(N.sym("cut", "o", unique=False)))
    r = c.call(SP + "::update_q", sp, cut, targs=[param("Self", 0), param("T", 1)])
    c.observe("status", r)
    c.observe("space", c.get(sp))


OBS["C13"] += [("set_xc %s" % w, set_xc(w)) for w in (ELL, STA)] + [("accessors %s" % w, accessors(w)) for w in (ELL, STA)] + [
    ("default update_q", default_q)]


def probe(c, which, e, exact=False):
    """public state of a fresh ellipsoid plus its calculator, seen through a central and a parallel cut"""
    p = c.ref(e)
    see(c, "xc", c.tcall(SP, [adt(which)], "xc", p))
    c.observe("tsq", c.tcall(SP, [adt(which)], "tsq", p))
    c.observe("kappa", get_field(c, e, "kappa"))
    see(c, "mq", get_field(c, e, "mq"))
    if exact:
        return
    if which == ELL:
        c.observe("no_defer_trick", get_field(c, e, "no_defer_trick"))
    h = get_field(c, e, "helper")
    c.observe("use_parallel_cut", get_field(c, h, "use_parallel_cut"))
    t, t2 = tau_tsq(c)
    ph = c.ref(h)
    c.observe("calculator bias", c.call("ell_calc::EllCalc::calc_bias_cut", ph, c.real("beta"), t2))
    c.observe("calculator parallel", c.call("ell_calc::EllCalc::calc_parallel_q", ph, c.real("b0"), c.real("b1"), t2))
    c.observe("calculator central", c.call("ell_calc::EllCalc::calc_parallel_central_cut", ph, c.real("b1"), t2))


def ctor(which, name, exact=False):
    def script(c):
        n = c.nat("n", 2)
        xc = arr1(c, "xc", n)
        if name == "new_with_matrix":
            a = [c.real("kappa"), arr2(c, "Q", n, n), xc]
        elif name == "new":
            a = [arr1(c, "val", n), xc]
        elif name == "new_with_scalar":
            a = [c.real("val"), xc]
        else:
            a = [arr2(c, "Q", n, n), xc]
        probe(c, which, c.call(which + "::" + name, *a), exact)
    script.rounded = exact
    return script


def options(c):
    c.observe("new", c.call("cutting_plane::Options::new", c.nat("m"), c.real("tol")))
    c.observe("default", c.tcall("core::default::Default", [adt("cutting_plane::Options")], "default"))


def calc_new(c):
    n = c.nat("n", 2)
    e = c.call("ell_calc::EllCalc::new", n)
    h = get_field(c, e, "helper")
    c.observe("use_parallel_cut", get_field(c, e, "use_parallel_cut"))
    for f in ("n_f", "n_plus_1", "half_n", "inv_n"):
        c.observe(f, get_field(c, h, f))
    h = c.call("ell_calc::EllCalcCore::new", c.real("n_f", pos=True))
    for f in ("n_f", "n_plus_1", "half_n", "inv_n"):
        c.observe("core." + f, get_field(c, h, f))


def cut_accessors(c):
    p = c.ref(parallel(c.real("b0"), option(c.bool("has_b1"), c.real("b1"))))
    c.observe("beta0", c.call("cutting_plane::ParallelCut::beta0", p))
    c.observe("beta1", c.call("cutting_plane::ParallelCut::beta1", p))


OBS["C14"] = [("%s::%s" % (w, m), ctor(w, m)) for w in (ELL, STA) for m in ("new_with_matrix", "new", "new_with_scalar")] + [
    ("Ell::from_covariance", ctor(ELL, "from_covariance")), ("Ell::from_covariance, bit for bit", ctor(ELL, "from_covariance", True))] + [
    ("%s::%s, bit for bit" % (w, m), ctor(w, m, True)) for w in (ELL, STA) for m in ("new_with_matrix", "new", "new_with_scalar")] + [ ("Options", options), ("calculators", calc_new), ("ParallelCut accessors", cut_accessors)]
