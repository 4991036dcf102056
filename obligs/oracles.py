"""C15-C21: factorisation and problem oracles."""
from .common import *
from engine.interp import nan_from

OF, OO, OQ = "cutting_plane::OracleFeas", "cutting_plane::OracleOptim", "cutting_plane::OracleOptimQ"
LD = "oracles::ldlt_mgr::LDLTMgr"


def cutval(c, nm, ct, cond=None):
    """observe a (gradient, offset) pair"""
    see(c, nm + " gradient", ct.fs[0])
    c.observe(nm + " offset", ct.fs[1])


def inside(v, lo, hi):
    """the entries lo..hi of a vector, the others masked"""
    v = V.to_1d(v)
    k = leaf(N.from_atom(v.syms[0]))
    return Arr(v.len, v.syms, v.stride, ite(T.AND(T.d_le(lo, k), T.d_lt(k, hi)), v.body, T.num(0)))


# ------------------------------------------------------------------- LDLT
def fac(how):
    def f(c, p, m):
        if how == "factorize":
            return c.call(LD + "::factorize", p, c.ref(m))
        F = leaf(N.sym("elem", "o", unique=False))
        return c.call(LD + "::" + how, p, F, targs=[param("F", 0)])
    return f


def nan_pivot(how):
    """rows and columns from some index on are NaN: comparisons with them are false"""
    def script(c):
        n = c.nat("n", 1)
        p = c.ref(c.call(LD + "::new", n))
        if how == "factorize":
            A = N.sym("[A]", "a", unique=False)
            m = c.call(ARR + "::from_shape_vec", n, n,
                       V.mk_arr(T.d_mul(n, n), lambda r, k: nan_from(r, k, T._atom_leaf(T.ssel(A, r.val, k.val))), stride=n.val))
            r = c.call(LD + "::factorize", p, c.ref(m))
        else:
            r = c.call(LD + "::" + how, p, leaf(N.sym("nan elem", "o", unique=False)), targs=[param("F", 0)])
        c.observe("verdict", r)
        c.observe("is_spd", c.call(LD + "::is_spd", p))
    return script


def ldlt(how, then, again=False):
    def script(c):
        n = c.nat("n", 1)
        m = c.call(LD + "::new", n)
        if again:
            # whatever an earlier query left behind in the public fields
            m = with_field(c, m, "pos", tup(c.nat("old start"), c.nat("old end")))
            m = with_field(c, m, "wit", arr1(c, "old wit", n))
        p = c.ref(m)
        if again == "after":
            c.call(LD + "::factorize", p, c.ref(arr2sym(c, "A0", n)))
        r = fac(how)(c, p, arr2sym(c, "A", n))
        if then == "verdict":
            c.observe("verdict", r)
            c.observe("is_spd", c.call(LD + "::is_spd", p))
            c.observe("pos", get_field(c, c.get(p), "pos"))
        elif then == "witness":
            w = c.call(LD + "::witness", p)
            c.observe("value", w)
            if again:
                pos = get_field(c, c.get(p), "pos")
                c.observe("wit", inside(data_of(c, get_field(c, c.get(p), "wit")), pos.fs[0], pos.fs[1]))
            else:
                see(c, "wit", get_field(c, c.get(p), "wit"))
            c.observe("quad", c.call(LD + "::sym_quad", p, c.ref(arr2(c, "M", n, n))))
        else:
            see(c, "sqrt", c.call(LD + "::sqrt", p))
    return script


OBS = {"C15": [("%s %s%s" % (h, t, {False: "", "again": " again", "after": " after another"}[a]), ldlt(h, t, a)) for h in ("factorize", "factor", "factor_with_allow_semidefinite")
               for t in ("verdict", "witness", "sqrt") for a in (False, "again", "after") if (a, t) != ("again", "sqrt")]}
OBS["C15"] += [("%s of a NaN matrix" % h, nan_pivot(h)) for h in ("factorize", "factor", "factor_with_allow_semidefinite")]


# -------------------------------------------------------------------- LMI
def mats(c, nm, m, d):
    """Vec of m symmetric d x d matrices"""
    A = N.sym("[%s]" % nm, "a", unique=False)

    def nth(s):
        return c.call(ARR + "::from_shape_vec", d, d, V.mk_arr(T.d_mul(d, d), lambda r, k: T._atom_leaf(T.ssel3(A, s.val, r.val, k.val)), stride=d.val))
    return V.mk_arr(m, nth)


LMI = {"oracles::lmi_oracle::LMIOracle": 1, "oracles::lmi_old_oracle::LMIOldOracle": 1, "oracles::lmi0_oracle::LMI0Oracle": 0}


def lmi(which, queries):
    def script(c):
        d, n = c.nat("d", 1), c.nat("n", 1)
        F = mats(c, "F", n, d)
        if LMI[which]:
            o = c.call(which + "::new", F, arr2sym(c, "B", d))
        else:
            o = c.call(which + "::new", F)
        p = c.ref(o)
        for k in range(queries):
            x = c.ref(arr1(c, "x%d" % k, n))
            if LMI[which]:
                r = c.tcall(OF, [adt(which), ARR_T], "assess_feas", p, x)
            else:
                r = c.call(which + "::assess_feas", p, x)
            c.observe("answer %d" % k, r)
    return script


OBS["C16"] = [("%s query" % w.split("::")[-1], lmi(w, 1)) for w in LMI]


# ----------------------------------------------------------------- profit
PO, PR, PQ = ["oracles::profit_oracle::" + x for x in ("ProfitOracle", "ProfitRbOracle", "ProfitOracleQ")]


def two(c, nm):
    return c.call(ARR + "::from", c.lit_vec([c.real(nm + "0"), c.real(nm + "1")]))


def profit(which, queries, retry=None):
    def script(c):
        par = tup(c.real("unit_price"), c.real("scale"), c.real("limit"))
        a = [par, two(c, "a"), two(c, "v")]
        if which == PR:
            a.append(tup(*[c.real("e%d" % i) for i in range(1, 6)]))
        p = c.ref(c.call(which + "::new", *a))
        g = c.ref(c.real("gamma"))
        for k in range(queries):
            y = c.ref(two(c, "y%d_" % k))
            if which == PQ:
                r = c.tcall(OQ, [adt(PQ), ARR_T], "assess_optim_q", p, y, g, retry[k])
            else:
                r = c.tcall(OO, [adt(which), ARR_T], "assess_optim", p, y, g)
            if k == queries - 1:
                c.observe("answer", r)
                c.observe("gamma", c.get(g))
    return script


OBS["C17"] = [("ProfitOracle first query", profit(PO, 1)), ("ProfitOracle second query", profit(PO, 2)),
              ("ProfitRbOracle first query", profit(PR, 1)), ("ProfitRbOracle second query", profit(PR, 2)),
              ("ProfitOracleQ first attempt", profit(PQ, 1, [FALSE])), ("ProfitOracleQ retry", profit(PQ, 2, [FALSE, TRUE])),
              ("ProfitOracleQ second attempt", profit(PQ, 2, [FALSE, FALSE]))]

# ---------------------------------------------------------------- maxcut
MC, SV, MY = "oracles::maxcut_oracle::MaxcutOracle", "oracles::svm_oracle::SvmOracle", "quasicvx::MyOracle"


def maxcut(c):
    n = c.nat("n", 1)
    p = c.ref(c.call(MC + "::new", arr2(c, "W", n, n)))
    g = c.ref(c.real("gamma"))
    r = c.tcall(OO, [adt(MC), ARR_T], "assess_optim", p, c.ref(arr1(c, "x", n)), g)
    c.observe("answer", r)
    c.observe("gamma", c.get(g))


def maxcut_shape(c):
    c.call(MC + "::new", arrg(c, "W"))


OBS["C19"] = [("MaxcutOracle query", maxcut), ("MaxcutOracle::new shape", maxcut_shape)]


def svm(c):
    n, m = c.nat("nfeat", 1), c.nat("samples", 1)
    p = c.ref(c.call(SV + "::new", arr2(c, "data", m, n), c.ivec("labels", m)))
    g = c.ref(c.real("gamma"))
    r = c.tcall(OO, [adt(SV), ARR_T], "assess_optim", p, c.ref(arr1(c, "x", T.d_add(n, T.num(1)))), g)
    c.observe("answer", r)
    c.observe("gamma", c.get(g))


OBS["C20"] = [("SvmOracle query", svm)]


def quasi(queries):
    def script(c):
        p = c.ref(c.tcall("core::default::Default", [adt(MY)], "default"))
        g = c.ref(c.real("gamma"))
        for k in range(queries):
            r = c.tcall(OO, [adt(MY), ARR_T], "assess_optim", p, c.ref(two(c, "x%d_" % k)), g)
            c.observe("answer %d" % k, r)
            c.observe("gamma %d" % k, c.get(g))
    return script


OBS["C21"] = [("MyOracle %d queries" % k, quasi(k)) for k in (1, 2, 3)]

# --------------------------------------------------------------- low-pass
LP = "oracles::lowpass_oracle::LowpassOracle"


def rows(c, nm, m, n):
    """Vec of m one-dimensional arrays of n entries"""
    A = N.sym("[%s]" % nm, "a", unique=False)

    def nth(s):
        return c.call(ARR + "::from", V.mk_arr(n, lambda j: T._atom_leaf(N.app("sel2", [A, s.val, j.val], "r"))))
    return V.mk_arr(m, nth)


def lp_state(c):
    """an oracle in any state it can be in (all fields are public)"""
    ad = c.P.adt(LP)
    if not ad:
        raise Missing("struct " + LP)
    m, n = c.nat("mdim", 1), c.nat("ndim", 1)
    npass, nstop = c.nat("nwpass", 1), c.nat("nwstop", 1)
    i1, i2, i3 = c.int("idx1"), c.int("idx2"), c.int("idx3")
    one = T.num(1)
    v = {"more_alt": c.bool("more_alt"), "idx1": i1, "spectrum": rows(c, "spectrum", m, n), "nwpass": npass, "nwstop": nstop,
         "lp_sq": c.real("lp_sq"), "up_sq": c.real("up_sq"), "sp_sq": c.real("sp_sq0"), "idx2": i2, "idx3": i3,
         "fmax": c.real("fmax"), "kmax": c.int("kmax")}
    for q in (T.d_le(npass, nstop), T.d_lt(nstop, m), T.d_le(T.num(-1), i1), T.d_lt(i1, npass), T.d_le(T.d_sub(npass, one), i2), T.d_lt(i2, nstop),
              T.d_le(T.d_sub(nstop, one), i3), T.d_lt(i3, m)):
        c.require(q)
    fs = []
    for f in ad["variants"][0]["fields"]:
        if f[0] not in v:
            raise Missing("field %s of %s unknown" % (f[0], LP))
        fs.append(v[f[0]])
    return c.ref(Struct(LP, fs)), n


def lp_feas(c):
    p, n = lp_state(c)
    r = c.tcall(OF, [adt(LP), ARR_T], "assess_feas", p, c.ref(arr1(c, "x", n)))
    c.observe("answer", r)
    s = c.get(p)
    for f in ("more_alt", "idx1", "idx2", "idx3"):
        c.observe(f, get_field(c, s, f))


def lp_optim(c):
    p, n = lp_state(c)
    g = c.ref(c.real("sp_sq"))
    r = c.tcall(OO, [adt(LP), ARR_T], "assess_optim", p, c.ref(arr1(c, "x", n)), g)
    c.observe("answer", r)
    c.observe("sp_sq", c.get(g))


def lp_new(c):
    n = c.nat("ndim", 1)
    o = c.call(LP + "::new", n, c.real("wpass"), c.real("wstop"), c.real("lp_sq"), c.real("up_sq"), c.real("sp_sq"))
    for f in names(c, o):
        c.observe(f, get_field(c, o, f))


def lp_case(c):
    o = c.call("oracles::lowpass_oracle::create_lowpass_case", c.nat("ndim", 1))
    for f in names(c, o):
        c.observe(f, get_field(c, o, f))


OBS["C18"] = [("assess_feas", lp_feas), ("assess_optim", lp_optim), ("new", lp_new), ("create_lowpass_case", lp_case)]
