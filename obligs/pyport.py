"""C30-C34: the Python package in python_ai."""
from .common import *
from engine import pyfront as PF

ND = PF.ND


def fin(c, r):
    pc, v, st = r
    if pc is not FALSE:
        c.panic = OR(c.panic, AND(NOT(c.panic), pc))
        c.marks.append(T.CTX.push(T.cond_lits(NOT(pc))))
    if st is None or v is None:
        raise AlwaysPanics()
    c.st = st
    return v


def pcall(c, path, *args, **kw):
    f = c.P.fns.get(path)
    if f is None:
        raise Missing("function %s not found" % path)
    c.sites.append("%s (%s)" % (f["path"], f["span"]))
    return fin(c, c.ip.run_fn(path, list(args), kw, c.st))


def pnew(c, cls, *args, **kw):
    if cls not in c.P.classes:
        raise Missing("class %s not found" % cls)
    c.sites.append(cls)
    return fin(c, c.ip.instantiate(cls, list(args), kw, c.st))


def pmeth(c, o, name, *args, **kw):
    return fin(c, c.ip.call_method(o, name, list(args), kw, c.st))


def pclass(c, cls, name, *args, **kw):
    return fin(c, c.ip.call_method(leaf(PF.PyCls(cls)), name, list(args), kw, c.st))


def pget(c, o, name):
    return fin(c, c.ip.getprop(o, name, c.st))


def plain(c, v):
    """the value without identities: arrays by content"""
    if isinstance(v, Enum):
        return Enum(v.name, v.tag, {k: [plain(c, x) for x in p] for k, p in v.pay.items()})
    a = c.ip.arr(v, c.st) if not isinstance(v, Enum) else None
    if a is not None:
        return Struct(ND, a.fs[:4] + [leaf("")])
    if isinstance(v, Struct):
        return Struct(v.name, [plain(c, x) for x in v.fs])
    return v


def see(c, nm, v):
    c.observe(nm, plain(c, v))


def cell(c, v):
    return leaf(Ptr(c.ip.new_cell(c.st, v)))


def arr1(c, nm, n):
    return cell(c, Struct(ND, [c.vec(nm, n), T.num(1), n, T.num(1), leaf("")]))


def arr2(c, nm, r, k):
    return cell(c, Struct(ND, [V.to_2d(c.vec(nm, T.d_mul(r, k)), k.val), T.num(2), r, k, leaf("")]))


def sym2(c, nm, n):
    return cell(c, Struct(ND, [symm(c, nm, n), T.num(2), n, n, leaf("")]))


# ---------------------------------------------------------------- drivers
CP = "cutting_plane."


def world(c):
    return c.ref(leaf(N.sym("oracle", "o", unique=False))), c.ref(leaf(N.sym("space", "o", unique=False)))


def opts(c):
    return pnew(c, CP + "Options", c.nat("max_iters"), c.real("tolerance"))


def driver(name, default=False):
    def script(c):
        om, sp = world(c)
        a = [om, sp] if default else [om, sp, opts(c)]
        r = pcall(c, CP + name, *a)
        see(c, "result", r)
        c.observe("oracle state", c.get(om))
        c.observe("space state", c.get(sp))
    return script


def bs(default=False):
    def script(c):
        om, _ = world(c)
        a = [om, c.real("lower"), c.real("upper")] + ([] if default else [opts(c)])
        r = pcall(c, CP + "binary_search", *a)
        see(c, "result", r)
        c.observe("oracle state", c.get(om))
    return script


def options(c):
    for nm, o in (("Options()", pnew(c, CP + "Options")), ("Options.default()", pclass(c, CP + "Options", "default")), ("Options(m, t)", opts(c)),
                  ("Options(tolerance=t)", pnew(c, CP + "Options", tolerance=c.real("tolerance"))), ("Options(max_iters=m)", pnew(c, CP + "Options", max_iters=c.nat("max_iters")))):
        see(c, nm + ".max_iters", pget(c, o, "max_iters"))
        see(c, nm + ".tolerance", pget(c, o, "tolerance"))


# ---------------------------------------------------------------- calculator
CALC = [("calc_bias_cut", lambda c: [c.real("beta")]), ("calc_bias_cut_q", lambda c: [c.real("beta")]), ("calc_central_cut", lambda c: []),
        ("calc_parallel_bias_cut", lambda c: [c.real("beta0"), c.real("beta1")]), ("calc_parallel_q", lambda c: [c.real("beta0"), c.real("beta1")]),
        ("calc_parallel_central_cut", lambda c: [c.real("beta1")])]
EC = "ell_calc.EllCalc"


def helper(c, n=None):
    return pnew(c, EC, c.nat("n", 2) if n is None else n)


def succ(c, st):
    """the status is SUCCESS"""
    if not isinstance(st, Enum):
        raise Unsupported("status")
    i = [v["name"] for v in c.P.adts[st.name]["variants"]].index("SUCCESS")
    return T.dd_mapn(lambda t: TRUE if t == i else FALSE, (st.tag,))


def answer(c, v):
    v = plain(c, v)
    if not (isinstance(v, Struct) and len(v.fs) == 2 and isinstance(v.fs[1], Struct) and len(v.fs[1].fs) == 3):
        raise Unsupported("shape of the answer")
    return v.fs


def status(name, args):
    """single cuts: which status"""
    def script(c):
        st, par = answer(c, pmeth(c, helper(c), name, *(args(c) + [c.real("tsq")])))
        c.observe("status", st)
    return script


def refusal(name, args):
    """whatever is refused carries the parameters that change nothing"""
    def script(c):
        st, par = answer(c, pmeth(c, helper(c), name, *(args(c) + [c.real("tsq")])))
        ok = succ(c, st)
        want = par if c.side == "repo" else tup(T.num(0), T.num(0), T.num(1))
        c.observe("parameters of a refused cut", V.vmap(lambda d: ite(ok, leaf("-"), d), want))
    script.self_reference = True
    return script


def flat(name, args):
    """nothing is cut out of a degenerate ellipsoid"""
    def script(c):
        tsq = c.real("tsq")
        c.require(T.d_le(tsq, T.num(0)))
        st, par = answer(c, pmeth(c, helper(c), name, *(args(c) + [tsq])))
        c.observe("status", st)
        c.observe("parameters", par)
    return script


def history(name, args):
    """an answer depends on the dimension and the arguments alone"""
    def script(c):
        h = helper(c)
        tsq = c.real("tsq")
        if c.side == "repo":
            for nm, a in CALC:
                pmeth(c, h, nm, *([c.real("earlier%d" % i) for i, _ in enumerate(a(c))] + [c.real("earlier tsq")]))
            pmeth(c, helper(c, c.nat("other n", 2)), name, *(args(c) + [tsq]))
        see(c, name, pmeth(c, h, name, *(args(c) + [tsq])))
    script.self_reference = True
    return script


def dispatch(pairm, single, sargs, par, pargs):
    def script(c):
        h = helper(c)
        b0, b1, tsq, two = c.real("beta0"), c.real("beta1"), c.real("tsq"), c.bool("parallel")
        if c.side == "repo":
            r = answer(c, pmeth(c, h, pairm, tup(b0, option(two, b1)), tsq))
        else:
            x = answer(c, pmeth(c, h, single, *(sargs(b0) + [tsq])))
            y = answer(c, pmeth(c, h, par, *(pargs(b0, b1) + [tsq])))
            r = [V.merge(two, q, p) for p, q in zip(x, y)]
        c.observe("status", r[0])
        c.observe("parameters", r[1])
    script.self_reference = True
    return script


def constants(c):
    k = pnew(c, "ell_calc.EllCalcCore", c.nat("n", 2))
    for f in ("n_f", "n_plus_1", "half_n", "inv_n", "cst1", "cst2"):
        see(c, f, pget(c, k, f))


def carried(name, args, corename):
    """an accepted parallel or central cut carries the core's parameters"""
    def script(c):
        n, tsq = c.nat("n", 2), c.real("tsq")
        st, par = answer(c, pmeth(c, helper(c, n), name, *(args(c) + [tsq])))
        ok = succ(c, st)
        if c.side == "spec":
            par = plain(c, pmeth(c, pnew(c, "ell_calc.EllCalcCore", n), corename, *(args(c) + [tsq])))
        c.observe("parameters of an accepted cut", V.vmap(lambda d: ite(ok, d, leaf("-")), par))
    script.self_reference = True
    return script


def symmetric(c):
    """a symmetric pair of cuts does not move the centre"""
    k = pnew(c, "ell_calc.EllCalcCore", c.nat("n", 2))
    b, tsq = c.real("beta1"), c.real("tsq")
    r = plain(c, pmeth(c, k, "calc_parallel_central_cut", b, tsq))
    w = plain(c, pmeth(c, k, "calc_parallel_bias_cut", T.d_neg(b), b, tsq))
    c.observe("parallel central cut", r if c.side == "repo" else w)
    c.observe("shift", r.fs[0] if c.side == "repo" else T.num(0))


symmetric.self_reference = True


# ---------------------------------------------------------------- ellipsoid
ELL = "ell.Ell"


def see_ell(c, e, pre=""):
    for f in ("xc", "mq", "kappa", "tsq", "no_defer_trick", "ndim"):
        see(c, pre + "." + f, pget(c, e, f))
    see(c, pre + ".get_xc()", pmeth(c, e, "get_xc"))
    see(c, pre + ".get_tsq()", pmeth(c, e, "get_tsq"))


def spoil(c, a):
    """overwrite a caller's array in place"""
    s = c.get(a)
    k = ndim0(s)
    c.ip.store(c.st, a, Struct(ND, [V.mk_arr(s.fs[0].len, lambda i: T.num(77)) if k == 1 else V.mk_arr(s.fs[0].len, lambda i, j: T.num(77), stride=s.fs[3].val)] + s.fs[1:]))


def ndim0(s):
    return int(s.fs[1].val.const)


def ell(c, defer=None):
    n = c.nat("n", 2)
    mq, xc = sym2(c, "mq", n), arr1(c, "xc", n)
    e = pnew(c, ELL, c.real("kappa"), mq, xc, c.bool("no_defer") if defer is None else defer)
    return n, mq, xc, e


def ctor(c):
    n, mq, xc, e = ell(c)
    see_ell(c, e, "new")
    spoil(c, mq)
    spoil(c, xc)
    see_ell(c, e, "after the caller's arrays changed")
    see(c, "caller's mq", mq)
    see(c, "caller's xc", xc)


def ctor_default(c):
    n = c.nat("n", 2)
    mq, xc = sym2(c, "mq", n), arr1(c, "xc", n)
    e = pnew(c, ELL, c.real("kappa"), mq, xc)
    see_ell(c, e, "Ell(kappa, mq, xc)")
    e = pclass(c, ELL, "new_with_matrix", c.real("kappa"), mq, xc)
    see_ell(c, e, "new_with_matrix")
    d = arr1(c, "d", n)
    e = pclass(c, ELL, "new", d, xc)
    see_ell(c, e, "new")
    e2 = pclass(c, ELL, "new_with_scalar", c.real("val"), xc)
    see_ell(c, e2, "new_with_scalar")
    spoil(c, d)
    spoil(c, xc)
    see_ell(c, e, "new, arrays changed")
    see_ell(c, e2, "new_with_scalar, arrays changed")


def ctor_refuses(c):
    """any shapes"""
    r, k, n = c.nat("rows", 1), c.nat("cols", 1), c.nat("n", 1)
    mq, xc = arr2(c, "mq", r, k), arr1(c, "xc", n)
    e = pnew(c, ELL, c.real("kappa"), mq, xc)
    see_ell(c, e, "new")


def ctor_refuses_dim(i):
    def script(c):
        n = c.nat("n", 2)
        mq = arr1(c, "mq", n) if i & 1 else sym2(c, "mq", n)
        xc = sym2(c, "xc", n) if i & 2 else arr1(c, "xc", n)
        pnew(c, ELL, c.real("kappa"), mq, xc)
        c.observe("constructed", leaf("yes"))
    return script


def update(name, kind):
    def script(c):
        n, mq, xc, e = ell(c)
        g = arr1(c, "g", n)
        b = c.real("beta0") if kind == "single" else tup(c.real("beta0"), option(c.bool("parallel"), c.real("beta1")))
        s = pmeth(c, e, name, tup(g, b))
        see(c, "status", s)
        see_ell(c, e, "after")
        see(c, "caller's gradient", g)
        see(c, "caller's xc", xc)
        see(c, "caller's mq", mq)
    return script


def untouched(name, kind):
    """a refused cut leaves the centre, the matrix and the scale bit for bit as they were"""
    def script(c):
        n, mq, xc, e = ell(c)
        g = arr1(c, "g", n)
        b = c.real("beta0") if kind == "single" else tup(c.real("beta0"), option(c.bool("parallel"), c.real("beta1")))
        bad = NOT(succ(c, pmeth(c, e, name, tup(g, b))))
        if bad is FALSE:
            return
        with T.assume(bad):
            if c.side == "spec":
                e = ell(c)[3]
            for f in ("xc", "mq", "kappa"):
                v = plain(c, pget(c, e, f))
                c.observe(f, when(bad, v.fs[0] if isinstance(v, Struct) and v.name == ND else v))
    script.self_reference = True
    script.rounded = True
    return script


def alias(c):
    """handing a centre out or in shares nothing"""
    n, mq, xc, e = ell(c)
    p = pmeth(c, e, "get_xc")
    p = c.ip.own(p, c.st)
    spoil(c, p)
    see_ell(c, e, "after changing the array get_xc returned")
    x = arr1(c, "x", n)
    pmeth(c, e, "set_xc", x)
    see_ell(c, e, "after set_xc")
    spoil(c, x)
    see_ell(c, e, "after changing the array given to set_xc")


def set_xc(c):
    n, mq, xc, e = ell(c)
    x = arr1(c, "x", c.nat("m", 1))
    pmeth(c, e, "set_xc", x)
    see_ell(c, e, "after set_xc")


def int_beta(name):
    """an integer offset is an offset"""
    def script(c):
        n, mq, xc, e = ell(c)
        s = pmeth(c, e, name, tup(arr1(c, "g", n), c.int("beta")))
        see(c, "status", s)
        see_ell(c, e, "after")
    return script


def two_cuts(name):
    def script(c):
        n, mq, xc, e = ell(c, FALSE)
        pmeth(c, e, name, tup(arr1(c, "g", n), c.real("beta0")))
        e2 = pclass(c, ELL, "new_with_matrix", c.real("kappa"), sym2(c, "mq", n), arr1(c, "xc", n))
        see_ell(c, e2, "another ellipsoid made afterwards")
    return script


# ---------------------------------------------------------------- oracles
LMI = "oracles.lmi_oracle.LmiOracle"
PROFIT = "oracles.profit_oracle.ProfitOracle"


def matlist(c, nm, m, d, k=None):
    if k is not None:
        A = N.sym("[%s]" % nm, "a", unique=False)

        def rect(s):
            data = V.mk_arr(T.d_mul(d, k), lambda i, j: T._atom_leaf(N.app("sel", [A, N.add(N.mul(N.add(N.mul(s.val, d.val), i.val), k.val), j.val)], "r")), stride=k.val)
            return Struct(ND, [data, T.num(2), d, k, leaf("")])
        return cell(c, Struct(PF.LIST, [V.mk_arr(m, rect)]))
    A = N.sym("[%s]" % nm, "a", unique=False)

    def nth(s):
        data = V.mk_arr(T.d_mul(d, d), lambda r, k: T._atom_leaf(T.ssel3(A, s.val, r.val, k.val)), stride=d.val)
        return Struct(ND, [data, T.num(2), d, d, leaf("")])
    return cell(c, Struct(PF.LIST, [V.mk_arr(m, nth)]))


def lmi(extra):
    def script(c):
        d, m = c.nat("d", 1), c.nat("m", 1)
        F0, Fs = sym2(c, "F0", d), matlist(c, "F", m, d)
        o = pnew(c, LMI, F0, Fs)
        n = c.nat("n", 1) if extra == "any" else m
        x = arr1(c, "x", n)
        see(c, "answer", pmeth(c, o, "assess_feas", x))
        see(c, "caller's point", x)
        see(c, "caller's F0", F0)
        if extra == "again":
            y = arr1(c, "y", n)
            see(c, "second answer", pmeth(c, o, "assess_feas", y))
        if extra == "shared":
            spoil(c, F0)
            c.ip.store(c.st, Fs, c.get(matlist(c, "other", m, d)))
            see(c, "answer after the caller's matrices changed", pmeth(c, o, "assess_feas", x))
    return script


def lmi_refuses(c):
    F0 = arr2(c, "F0", c.nat("r", 1), c.nat("k", 1))
    pnew(c, LMI, F0, matlist(c, "F", c.nat("m", 1), c.nat("d", 1), c.nat("w", 1)))
    c.observe("constructed", leaf("yes"))


def two(c, nm):
    return cell(c, Struct(ND, [c.lit_vec([c.real(nm + "0"), c.real(nm + "1")]), T.num(1), T.num(2), T.num(1), leaf("")]))


def profit(extra):
    def script(c):
        a, v = two(c, "elasticity"), two(c, "input_price")
        o = pnew(c, PROFIT, c.real("price"), c.real("scale"), a, v, c.real("capacity"))
        x = two(c, "x")
        if extra == "shared":
            spoil(c, a)
            spoil(c, v)
        see(c, "answer", pmeth(c, o, "assess_optim", x, c.real("gamma")))
        see(c, "caller's point", x)
        if extra == "again":
            see(c, "second answer", pmeth(c, o, "assess_optim", two(c, "y"), c.real("gamma2")))
        for f in ("price", "scale", "elasticities", "input_prices", "capacity", "log_price_scale", "log_capacity"):
            see(c, f, pget(c, o, f))
    return script


def profit_refuses(c):
    a, v = arr1(c, "elasticity", c.nat("n", 0)), arr1(c, "input_price", c.nat("m", 0))
    pnew(c, PROFIT, c.real("price"), c.real("scale"), a, v, c.real("capacity"))
    c.observe("constructed", leaf("yes"))


OBS = {
    "C30": [("python cutting_plane_feas", driver("cutting_plane_feas")), ("python cutting_plane_feas, default options", driver("cutting_plane_feas", True)),
            ("python cutting_plane_optim", driver("cutting_plane_optim")), ("python cutting_plane_optim, default options", driver("cutting_plane_optim", True)),
            ("python cutting_plane", driver("cutting_plane")), ("python cutting_plane, default options", driver("cutting_plane", True)),
            ("python binary_search", bs()), ("python binary_search, default options", bs(True)), ("python Options", options)],
    "C31": [("python Ell construction", ctor), ("python Ell constructors", ctor_default), ("python Ell refuses shapes", ctor_refuses)]
    + [("python Ell refuses dimensions %d" % i, ctor_refuses_dim(i)) for i in (1, 2, 3)]
    + [("python %s, %s cut" % (u, k), update(u, k)) for u in ("update_bias_cut", "update_central_cut", "update_q") for k in ("single", "parallel")]
    + [("python %s, %s cut, refused: bit for bit" % (u, k), untouched(u, k)) for u in ("update_bias_cut", "update_central_cut", "update_q") for k in ("single", "parallel")]
    + [("python Ell sharing", alias), ("python set_xc", set_xc)],
    "C32": [("python EllCalcCore constants", constants), ("python parallel central cut", symmetric)]
    + [("python EllCalc.%s status" % nm, status(nm, a)) for nm, a in CALC[:3]]
    + [("python EllCalc.%s refusal" % nm, refusal(nm, a)) for nm, a in CALC]
    + [("python EllCalc.%s degenerate" % nm, flat(nm, a)) for nm, a in CALC]
    + [("python EllCalc.%s history" % nm, history(nm, a)) for nm, a in CALC]
    + [("python EllCalc.%s carries the core's answer" % nm, carried(nm, dict(CALC)[nm], nm)) for nm in ("calc_central_cut", "calc_parallel_bias_cut", "calc_parallel_central_cut")]
    + [("python EllCalc.%s dispatch" % p, dispatch(p, s, sa, q, qa)) for p, s, sa, q, qa in (
        ("calc_single_or_parallel_bias_cut", "calc_bias_cut", lambda b: [b], "calc_parallel_bias_cut", lambda x, y: [x, y]),
        ("calc_single_or_parallel_q", "calc_bias_cut_q", lambda b: [b], "calc_parallel_q", lambda x, y: [x, y]),
        ("calc_single_or_parallel_central_cut", "calc_central_cut", lambda b: [], "calc_parallel_central_cut", lambda x, y: [y]))],
    "C33": [("python LmiOracle query%s" % x, lmi(k)) for x, k in (("", ""), (", any number of coordinates", "any"), (", second query", "again"), (", sharing", "shared"))]
    + [("python LmiOracle refuses shapes", lmi_refuses)]
    + [("python ProfitOracle query%s" % x, profit(k)) for x, k in (("", ""), (", second query", "again"), (", sharing", "shared"))]
    + [("python ProfitOracle refuses lengths", profit_refuses)],
}
OBS["C31"] += [("python %s, integer offset" % u, int_beta(u)) for u in ("update_bias_cut", "update_central_cut", "update_q")] + [("python Ell independence", two_cuts("update_bias_cut"))]


PYTEXT = ("abstract interpretation of the Python package's syntax trees into the same gated-SSA value graphs (objects and arrays by reference, numpy operations "
          "element-wise with symbolic sizes): results, state left behind, exceptions raised and the order of calls into user supplied objects are compared, over all "
          "inputs and all loop counts, with the reference package in /verif/spec_py; a difference is reported only when an interpretation of the two value graphs separates them")
RULE_TEXT = {p: PYTEXT for p in ("C30", "C31", "C32", "C33")}
RULE_TEXT["C34"] = ("query over the class table built from the syntax trees: each protocol method the drivers call is looked up through the method resolution order of each shipped class "
                    "and must be a method whose signature accepts the protocol's call; public names are resolved through the package's imports")
TECHNIQUE = {p: "value-graph (gated SSA) analysis over Python syntax trees against a reference definition" for p in ("C30", "C31", "C32", "C33")}
TECHNIQUE["C34"] = "class-table and signature query over Python syntax trees"
ASSUME = {p: ["floating point numbers are read as real numbers (rounding, overflow and NaN are outside this rule, except in the obligations named bit for bit, which read + - * / as opaque IEEE operations)", "Python integers and array sizes are unbounded; index errors are taken not to occur",
              "the models of numpy, math and the builtins are right (engine/pyinterp.py); np.linalg.eigh is an uninterpreted ascending eigendecomposition",
              "user supplied oracles and spaces answer with the kinds of value their protocol declares", "the reference definitions in /verif/spec_py state the property"] for p in ("C30", "C31", "C32", "C33")}
ASSUME["C34"] = ["classes are not changed at run time"]


# ---------------------------------------------------------------- rules
PY = {"C30", "C31", "C32", "C33", "C34"}
ROOT = "/repo/python_ai"
SPEC = "/verif/spec_py"


def programs(pid):
    return PF.PyProgram(ROOT), PF.PyProgram(SPEC, overlay={"ell_calc": ROOT} if pid == "C31" else None)


def row(name, status, detail="", entry=(), n=1, fns=(), key=None):
    r = {"obligation": name, "status": status, "detail": detail, "entry_points": list(entry), "compared_values": n, "functions": sorted(fns), "abstracted": [], "seconds": 0.0}
    if key:
        r["key"] = key
    return r


def objective(rp, sp, tier):
    """the objective the optimisation driver reports comes from the run it reports on"""
    R = PF.PyProgram(ROOT)
    install()
    nm = "python cutting_plane_optim reports the objective it reached"
    f = R.fns.get(CP + "cutting_plane_optim")
    c = Ctx(R, nm, "repo")
    try:
        om, sp_ = world(c)
        r = pcall(c, CP + "cutting_plane_optim", om, sp_, opts(c))
        v = plain(c, r)
        if not (isinstance(v, Struct) and len(v.fs) == 4):
            return [row(nm, "UNDECIDED", "shape of the result")]
        o = v.fs[2]
    except Unsupported as e:
        return [row(nm, "UNDECIDED", str(e))]
    finally:
        c.close()
    entry = ["%s (%s)" % (f["path"], f["span"])]
    if isinstance(o, DD) and o.leaf and isinstance(o.val, Num) and not o.val.deps - {N._atoms[i].id for i in N.p_atoms(o.val.n)}:
        return [row(nm, "VIOLATED", "the objective returned is %s on every path: no answer of the oracle reaches it" % (o.val,), entry, 1, c.ip.called,
                    "cutting_plane_optim objective is constant infinity" if "inf" in str(o.val) else "cutting_plane_optim objective is constant")]
    return [row(nm, "HOLDS", "", entry, 1, c.ip.called)]


def conforms(rp, sp, tier):
    """what the package ships can be handed to its own drivers"""
    R = PF.PyProgram(ROOT)
    install()
    out = []
    # search spaces
    for proto in ("SearchSpace", "SearchSpaceQ"):
        pc, ec = R.classes.get(CP + proto), R.classes.get(ELL)
        if pc is None or ec is None:
            out.append(row("python Ell as a %s" % proto, "UNDECIDED", "class not found"))
            continue
        for m in R.protocol_attrs(pc.path):
            nm = "python Ell.%s as %s.%s" % (m, proto, m)
            want = R.fns.get(R.find_method(pc.path, m)[1])
            k, mp = R.find_method(ELL, m)
            entry = ["%s (%s:%d)" % (ELL, k.mod if k else ec.mod, (k.methods[m] if k else ec.node).lineno)]
            if m in ec.fields or k is not None and m in k.props or k is None:
                what = "is a data attribute" if m in ec.fields else "is a property" if k is not None else "does not exist"
                out.append(row(nm, "VIOLATED", "the drivers call space.%s(), but Ell.%s %s" % (m, m, what), entry, 1, [], "Ell.%s %s, %s.%s is a method" % (m, what, proto, m)))
                continue
            out.append(arity(R, nm, mp, want, entry))
    # oracles
    for cls, proto in ((LMI, "OracleFeas"), (PROFIT, "OracleOptim")):
        if cls not in R.classes or CP + proto not in R.classes:
            out.append(row("python %s as %s" % (cls, proto), "UNDECIDED", "class not found"))
            continue
        for m in R.protocol_attrs(CP + proto):
            nm = "python %s.%s as %s.%s" % (cls.split(".")[-1], m, proto, m)
            k, mp = R.find_method(cls, m)
            want = R.fns.get(R.find_method(CP + proto, m)[1])
            entry = ["%s.%s" % (cls, m)]
            if k is None or k.is_protocol:
                out.append(row(nm, "VIOLATED", "the drivers call oracle.%s, which %s does not implement" % (m, cls), entry, 1, [], nm))
                continue
            out.append(arity(R, nm, mp, want, entry))
        # the general driver tells the two kinds of oracle apart by what they implement
        for proto2 in ("OracleFeas", "OracleOptim"):
            nm = "python isinstance(%s, %s)" % (cls.split(".")[-1], proto2)
            anc = CP + proto2 in R.mro(cls)
            has = all(R.find_method(cls, m)[0] is not None for m in R.protocol_attrs(CP + proto2))
            ok = (anc or has) == (proto == proto2)
            out.append(row(nm, "HOLDS" if ok else "VIOLATED", "" if ok else "%s answers the wrong kind of query in cutting_plane" % cls, [cls], 1, [], nm))
    # names
    for n in ("CutStatus", "Options", "cutting_plane", "cutting_plane_feas", "cutting_plane_optim", "binary_search", "Ell", "EllCalc", "EllCalcCore"):
        b = R.lookup("", n)
        ok = b is not None and b[0] in ("fn", "class")
        out.append(row("python ellalgo.%s is importable" % n, "HOLDS" if ok else "VIOLATED", "" if ok else "from ellalgo import %s fails" % n, ["ellalgo/__init__.py"], 1, [], "ellalgo.%s" % n))
    return out


def arity(R, nm, mp, want, entry):
    """every call that fits the protocol's signature fits the implementation's"""
    f = R.fns.get(mp)
    if f is None or want is None:
        return row(nm, "UNDECIDED", "signature outside the analysis", entry)
    need = [p for p in f["params"] if p not in f["defaults"]]
    w = want["params"]
    if len(need) > len(w) or len(f["params"]) < len(w) or any(p not in f["defaults"] for p in f["kwonly"]):
        return row(nm, "VIOLATED", "takes %s, called with %s" % (f["params"], w), entry, 1, [mp], nm)
    return row(nm, "HOLDS", "", entry, 1, [mp])


RULES = {"C30": [objective], "C34": [conforms]}
