"""Semantics of the std items the analysed code uses."""
from fractions import Fraction as Q
from . import num as N
from . import terms as T
from . import values as V
from .num import Num, Atom, Unsupported
from .terms import DD, leaf, ite, AND, OR, NOT, TRUE, FALSE, UNDEF
from .values import Struct, Enum, Arr, Ptr, Fn, UNIT
from .interp import PANIC, restrict_v, INF, BIG, NAN, PI

OPTION = "core::option::Option"
RESULT = "core::result::Result"
CFLOW = "core::ops::control_flow::ControlFlow"
ORDERING = "core::cmp::Ordering"
RANGE = "core::ops::range::Range"


class Call:
    def __init__(self, fty, args, aty, dty, st, fr):
        self.fty, self.args, self.aty, self.dty, self.st, self.fr = fty, args, aty, dty, st, fr
        self.pc = FALSE

    def panic(self, c):
        self.pc = OR(self.pc, c)


class PanicResult:
    def __init__(self, cond, val):
        self.cond, self.val = cond, val


MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def lookup(ip, fty, resolved):
    p = fty["p"]
    f = MODELS.get(p)
    if f is None:
        f = generic(p, fty)
    if f is None:
        return None

    def run(ip, c):
        r = f(ip, c)
        if isinstance(r, PanicResult):
            return r
        if c.pc is not FALSE:
            return PanicResult(c.pc, r)
        return r
    return run


def generic(p, fty):
    last = p.rsplit("::", 1)[-1]
    if p.startswith("core::panicking::") or p.startswith("std::rt::begin_panic") or p in (
            "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed", "std::process::exit", "std::process::abort"):
        return m_panic
    if p.startswith("core::fmt::") or p.startswith("log::") or p.startswith("std::io::") or p.startswith("alloc::fmt::"):
        return m_fmt
    if "<impl f64>" in p or "<impl f32>" in p:
        return F64.get(last)
    if "<impl [T]>" in p or p.startswith("alloc::vec::Vec") or p.startswith("core::array::<impl"):
        return SEQ.get(last)
    if p.startswith("core::option::Option"):
        return OPT.get(last)
    if p.startswith("core::result::Result"):
        return RES.get(last)
    if p.startswith("core::iter::traits::") or p.startswith("core::iter::"):
        return ITER.get(last)
    if p.startswith("core::num::<impl"):
        return INT.get(last)
    return None


# ------------------------------------------------------------------ helpers
def deref(ip, st, v):
    """follow references down to the value"""
    n = 0
    while isinstance(v, DD) and any(isinstance(x, Ptr) for x in T.leaves(v).values()):
        v = ip.load(st, v)
        n += 1
        if n > 6:
            raise Unsupported("reference depth")
    return v


def some(v):
    return Enum(OPTION, leaf(1), {0: [], 1: [v]})


NONE = Enum(OPTION, leaf(0), {0: [], 1: [UNDEF]})


def none():
    return Enum(OPTION, leaf(0), {0: []})


def opt(c, v):
    """Some(v) if c else None"""
    if c is TRUE:
        return some(v)
    if c is FALSE:
        return none()
    return Enum(OPTION, ite(c, leaf(1), leaf(0)), {0: [], 1: [v]})


def is_tag(v, i):
    return T.dd_mapn(lambda t: TRUE if t == i else FALSE, (v.tag,))


def ordering(i):
    return Enum(ORDERING, leaf(i), {i: []})


def m_panic(ip, c):
    return PanicResult(TRUE, None)


def m_fmt(ip, c):
    t = c.dty
    if t["k"] == "tuple" and not t["a"]:
        return UNIT
    a = N.sym("fmt", "o", unique=False)
    try:
        v = ip.expand(a, t)
    except Unsupported:
        v = leaf(a)
    return v


# ------------------------------------------------------------------ f64
F64 = {}


def f64(*names):
    def deco(f):
        for n in names:
            F64[n] = f
        return f
    return deco


def arith(fn):
    def m(ip, c):
        return T.dd_mapn(fn, tuple(deref(ip, c.st, a) for a in c.args))
    return m


def app1(name):
    def f(x):
        r = CONSTF.get(name, lambda x: None)(x)
        if r is not None:
            return r
        pos = name in ("exp", "exp2")
        a = N.app(name, [x], "r", pos=pos)
        return leaf(N.from_atom(a))
    T.REBUILD[name] = lambda args: f(args[0])
    return arith(f)


def _c0(v, at=0):
    return lambda x: T.num(v) if x.const == at else None


def _ratr(f):
    def g(x):
        if x.const is not None:
            return T.num(f(x.const))
        if x.is_int():
            return leaf(x)
        return None
    return g


def _cos(x):
    if x.const == 0:
        return T.num(1)
    # even function: canonical sign
    if x.n and min(x.n.items(), key=lambda z: z[0])[1] < 0:
        y = N.neg(x)
        return leaf(N.from_atom(N.app("cos", [y], "r")))
    return None


def _sin(x):
    if x.const == 0:
        return T.num(0)
    if x.n and min(x.n.items(), key=lambda z: z[0])[1] < 0:
        return leaf(N.neg(N.from_atom(N.app("sin", [N.neg(x)], "r"))))
    return None


def _log10(x):
    # keep log10 as its own symbol with ln relation ln(x)/ln(10)
    if x.const == 1:
        return T.num(0)
    if x.const is not None and x.const > 0:
        e = 0
        v = x.const
        while v >= 10 and v % 10 == 0:
            v /= 10
            e += 1
        while v < 1 and (v * 10).denominator <= v.denominator and e > -40:
            v *= 10
            e -= 1
        if v == 1:
            return T.num(e)
    return T.dd_mapn(lambda a, b: N.div(a, b), (ln_(x), ln_(N.const(10))))


def ln_(x):
    if x.const == 1:
        return T.num(0)
    a = x.single()
    if a is not None and a.kind == "app" and a.name == "exp":
        return leaf(a.args[0])
    return leaf(N.from_atom(N.app("ln", [x], "r")))


def _exp(x):
    if x.const == 0:
        return T.num(1)
    a = x.single()
    if a is not None and a.kind == "app" and a.name == "ln":
        return None
    return None


CONSTF = {"exp": _exp, "ln": ln_, "cos": _cos, "sin": _sin, "tan": _c0(0), "log10": _log10,
          "floor": _ratr(lambda q: q.numerator // q.denominator),
          "ceil": _ratr(lambda q: -((-q.numerator) // q.denominator)),
          "trunc": _ratr(lambda q: int(q)),
          "round": _ratr(lambda q: (1 if q >= 0 else -1) * ((abs(q) * 2 + 1).numerator // ((abs(q) * 2 + 1).denominator * 2)))}
for _n in ("exp", "ln", "cos", "sin", "tan", "log10", "floor", "ceil", "trunc", "round", "acos", "asin", "atan",
           "tanh", "sinh", "cosh", "exp2", "log2", "cbrt", "exp_m1", "ln_1p", "fract"):
    F64[_n] = app1(_n)

F64["sqrt"] = arith(N.sqrt)
F64["recip"] = arith(lambda x: T.f_div(T.num(1), leaf(x)))
F64["mul_add"] = arith(lambda x, y, z: T.f_fma(leaf(x), leaf(y), leaf(z)))
F64["hypot"] = arith(lambda x, y: leaf(N.from_atom(N.app("flhypot", [x, y], "r", nn=True))) if T.ROUND[0] else N.sqrt(N.add(N.mul(x, x), N.mul(y, y))))


def absf(x):
    return ite(T.lt(x, N.ZERO), leaf(N.neg(x)), leaf(x))


F64["abs"] = arith(absf)
F64["max"] = arith(lambda x, y: ite(OR(T.is_nan(x), T.lt(x, y)), leaf(y), leaf(x)))
F64["min"] = arith(lambda x, y: ite(OR(T.is_nan(x), T.lt(y, x)), leaf(y), leaf(x)))
F64["clamp"] = arith(lambda x, lo, hi: ite(T.lt(x, lo), leaf(lo), ite(T.lt(hi, x), leaf(hi), leaf(x))))
F64["signum"] = arith(lambda x: ite(T.lt(x, N.ZERO), T.num(-1), T.num(1)))
F64["copysign"] = arith(lambda x, y: T.dd_mapn(lambda a, s: N.mul(a, s), (absf(x), ite(T.lt(y, N.ZERO), T.num(-1), T.num(1)))))
F64["is_sign_negative"] = arith(lambda x: T.lt(x, N.ZERO))
F64["is_sign_positive"] = arith(lambda x: T.le(N.ZERO, x))
F64["to_radians"] = arith(lambda x: leaf(N.from_atom(N.app("flrad", [x], "r"))) if T.ROUND[0] else N.div(N.mul(x, N.from_atom(PI)), N.const(180)))
F64["rem_euclid"] = arith(lambda x, y: leaf(N.from_atom(N.app("rem_euclid", [x, y], "r"))))


def is_inf(x):
    """x mentions no infinity: finite by the real-number reading; constant ±inf is infinite"""
    if x is N.from_atom(INF) or x is N.neg(N.from_atom(INF)):
        return TRUE
    if INF.id in x.deps:
        return T.lit(T.dec_bool(N.app("isinf", [x], "b")))
    return FALSE


def is_nan(x):
    return T.is_nan(x)


F64["is_nan"] = arith(is_nan)
F64["is_infinite"] = arith(is_inf)
F64["is_finite"] = arith(lambda x: AND(NOT(is_nan(x)), NOT(is_inf(x))))


def powi(x, e):
    if T.ROUND[0] and not x.is_int() and x.const is None:
        return T.fl_powi(x, e)
    if e.const is not None and e.const.denominator == 1 and abs(e.const) <= 64:
        return leaf(N.powi(x, int(e.const)))
    return powf(x, e)


def powf(x, e):
    if e.const is not None and not (T.ROUND[0] and not x.is_int() and x.const is None):
        q = e.const
        if q.denominator == 1 and abs(q) <= 64:
            return leaf(N.powi(x, int(q)))
        if q.denominator == 2 and abs(q) <= 32:
            n = (q.numerator - 1) // 2 if q > 0 else -((-q.numerator - 1) // 2)
            s = N.sqrt(x)
            if not isinstance(s, DD):
                s = leaf(s)
            k = int(q - Q(1, 2))
            return T.d_mul(leaf(N.powi(x, k)), s)
    a = N.app("powf", [x, e], "r", pos=bool(x.const and x.const > 0))
    return leaf(N.from_atom(a))


T.REBUILD["powf"] = lambda args: powf(args[0], args[1])
F64["powi"] = arith(powi)
F64["powf"] = arith(powf)


@f64("total_cmp")
def f64_total_cmp(ip, c):
    return m_cmp(ip, c)


@f64("sin_cos")
def f64_sincos(ip, c):
    x = deref(ip, c.st, c.args[0])
    return Struct("tuple", [F64["sin"](ip, Call(c.fty, [x], None, None, c.st, None)), F64["cos"](ip, Call(c.fty, [x], None, None, c.st, None))])


INT = {}
INT["abs"] = arith(absf)
INT["unsigned_abs"] = arith(absf)
INT["pow"] = arith(powi)
INT["min"] = F64["min"]
INT["max"] = F64["max"]
INT["wrapping_add"] = arith(N.add)
INT["wrapping_sub"] = arith(N.sub)
INT["wrapping_mul"] = arith(N.mul)
INT["saturating_add"] = arith(N.add)


@model("core::num::<impl usize>::saturating_sub")
def ssub(ip, c):
    return T.dd_mapn(lambda x, y: ite(T.le(y, x), leaf(N.sub(x, y)), T.num(0)), tuple(c.args))


@model("core::num::<impl usize>::checked_sub")
def csub(ip, c):
    x, y = c.args
    return opt(T.d_le(y, x), T.d_sub(x, y))


INT["abs_diff"] = arith(lambda x, y: ite(T.le(y, x), leaf(N.sub(x, y)), leaf(N.sub(y, x))))


def _div_ceil(x, y):
    return leaf(V.idiv(N.sub(N.add(x, y), N.ONE), y))


INT["div_ceil"] = arith(_div_ceil)
INT["checked_add"] = lambda ip, c: some(T.d_add(*c.args))
INT["checked_mul"] = lambda ip, c: some(T.d_mul(*c.args))
INT["is_power_of_two"] = None


@model("core::cmp::Ord::min", "core::cmp::min")
def ord_min(ip, c):
    return F64["min"](ip, c)


@model("core::cmp::Ord::max", "core::cmp::max")
def ord_max(ip, c):
    return F64["max"](ip, c)


@model("core::cmp::Ord::clamp")
def ord_clamp(ip, c):
    return F64["clamp"](ip, c)


# ---------------------------------------------------------- operators on refs
OPS = {"add": T.f_add, "sub": T.f_sub, "mul": T.f_mul}


def op_model(name, assign):
    def m(ip, c):
        a, b = c.args
        st = c.st
        if assign:
            x = deref(ip, st, ip.load(st, a))
        else:
            x = deref(ip, st, a)
        y = deref(ip, st, b)
        if not isinstance(x, DD) or not isinstance(y, DD):
            raise Unsupported("operator on aggregate")
        if name == "div":
            if c.dty["k"] == "prim" and c.dty["n"] not in ("f64", "f32"):
                raise Unsupported("integer division through a trait")
            r = T.f_div(x, y)
        elif name == "rem":
            raise Unsupported("rem")
        else:
            r = OPS[name](x, y)
        if assign:
            ip.store(st, a, r)
            return UNIT
        return r
    return m


for _n in ("add", "sub", "mul", "div"):
    MODELS["core::ops::arith::%s::%s" % (_n.capitalize(), _n)] = op_model(_n, False)
    MODELS["core::ops::arith::%sAssign::%s_assign" % (_n.capitalize(), _n)] = op_model(_n, True)
MODELS["core::ops::arith::Neg::neg"] = lambda ip, c: T.d_neg(deref(ip, c.st, c.args[0]))
MODELS["core::ops::bit::Not::not"] = lambda ip, c: NOT(deref(ip, c.st, c.args[0]))


def veq(ip, st, a, b):
    a, b = deref(ip, st, a), deref(ip, st, b)
    if isinstance(a, DD) and isinstance(b, DD):
        def f(x, y):
            if isinstance(x, Num):
                return T.eqn(x, y)
            if isinstance(x, bool) and isinstance(y, bool):
                return TRUE if x is y else FALSE
            if isinstance(x, Atom) and isinstance(y, Atom):
                if x is y:
                    return TRUE
                p, q = (x, y) if x.id < y.id else (y, x)
                return T.lit(T.dec_bool(N.app("same", [p, q], "b")))
            if isinstance(x, str) and isinstance(y, str):
                return TRUE if x == y else FALSE
            raise Unsupported("equality of %r" % (x,))
        return T.dd_mapn(f, (a, b))
    if isinstance(a, Struct) and isinstance(b, Struct):
        r = TRUE
        for x, y in zip(a.fs, b.fs):
            r = AND(r, veq(ip, st, x, y))
        return r
    if isinstance(a, Enum) and isinstance(b, Enum):
        r = FALSE
        for k in set(a.pay) & set(b.pay):
            c = AND(is_tag(a, k), is_tag(b, k))
            if c is FALSE:
                continue
            with T.assume(c):
                for x, y in zip(a.pay[k], b.pay[k]):
                    c = AND(c, veq(ip, st, x, y))
            r = OR(r, c)
        return r
    if isinstance(a, Arr) and isinstance(b, Arr):
        a, b = V.align(a, b)
        if not isinstance(a.body, DD):
            raise Unsupported("equality of arrays of aggregates")
        e = T.dd_mapn(lambda x, y: T.eqn(x, y), (a.body, b.body))
        if e is TRUE:
            return T.d_eq(a.len, b.len)
        lam = T.lam(a.syms, e)
        st_ = a.stride
        q = T.dd_mapn(lambda n: T.lit(T.dec_bool(N.app("forall", [n, lam] + ([] if st_ is None else [st_]), "b"))), (a.len,))
        return AND(T.d_eq(a.len, b.len), q)
    raise Unsupported("equality")


def m_eq(ip, c):
    return veq(ip, c.st, c.args[0], c.args[1])


MODELS["core::cmp::PartialEq::eq"] = m_eq


@model("core::cmp::PartialEq::ne")
def m_ne(ip, c):
    # through the (possibly local) eq
    fty = dict(c.fty, name="eq", p="core::cmp::PartialEq::eq")
    r = ip.resolve_trait(fty, None, c.fr)
    if r is not None:
        pc, v, st2 = ip.invoke(r[0], r[1], c.args, dict(c.st))
        if pc is not FALSE:
            raise Unsupported("panicking eq")
        return NOT(v)
    return NOT(m_eq(ip, c))


def log_level(t):
    while t.get("k") == "ref":
        t = t["t"]
    return t.get("k") == "adt" and t["p"] in ("log::Level", "log::LevelFilter")


def _cmpop(op):
    def m(ip, c):
        if c.aty and log_level(c.aty[0]):
            # whether a message is logged depends on the process; nothing else may
            return T.lit(T.dec_bool(N.sym("logging on", "b", unique=False)))
        a, b = deref(ip, c.st, c.args[0]), deref(ip, c.st, c.args[1])
        return op(a, b)
    return m


MODELS["core::cmp::PartialOrd::lt"] = _cmpop(lambda a, b: T.d_lt(a, b))
MODELS["core::cmp::PartialOrd::le"] = _cmpop(lambda a, b: T.d_le(a, b))
MODELS["core::cmp::PartialOrd::gt"] = _cmpop(lambda a, b: T.d_lt(b, a))
MODELS["core::cmp::PartialOrd::ge"] = _cmpop(lambda a, b: T.d_le(b, a))


def m_cmp(ip, c):
    a, b = deref(ip, c.st, c.args[0]), deref(ip, c.st, c.args[1])
    tag = ite(T.d_lt(a, b), leaf(0), ite(T.d_eq(a, b), leaf(1), leaf(2)))
    return Enum(ORDERING, tag, {0: [], 1: [], 2: []})


MODELS["core::cmp::Ord::cmp"] = m_cmp


@model("core::cmp::PartialOrd::partial_cmp")
def m_partial_cmp(ip, c):
    o = some(m_cmp(ip, c))
    a, b = deref(ip, c.st, c.args[0]), deref(ip, c.st, c.args[1])
    if isinstance(a, DD) and isinstance(b, DD) and NAN.id in a.deps | b.deps:
        bad = T.dd_mapn(lambda x, y: OR(T.is_nan(x), T.is_nan(y)), (a, b))
        return Enum(OPTION, ite(bad, leaf(0), o.tag), o.pay)
    return o


def _ord_is(*ts):
    def m(ip, c):
        return T.dd_mapn(lambda t: TRUE if t in ts else FALSE, (deref(ip, c.st, c.args[0]).tag,))
    return m


for _n, _ts in (("is_lt", (0,)), ("is_le", (0, 1)), ("is_eq", (1,)), ("is_ne", (0, 2)), ("is_ge", (1, 2)), ("is_gt", (2,))):
    MODELS[ORDERING + "::" + _n] = _ord_is(*_ts)


@model(ORDERING + "::reverse")
def m_ord_reverse(ip, c):
    return Enum(ORDERING, T.dd_mapn(lambda t: leaf(2 - t), (c.args[0].tag,)), {0: [], 1: [], 2: []})


@model(ORDERING + "::then")
def m_ord_then(ip, c):
    a, b = c.args
    return Enum(ORDERING, T.dd_mapn(lambda t, u: leaf(u if t == 1 else t), (a.tag, b.tag)), {0: [], 1: [], 2: []})


# ------------------------------------------------------------- misc traits
@model("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned")
def m_clone(ip, c):
    v = c.args[0]
    t = c.fty["a"][0]
    if t["k"] == "ref":
        return ip.load(c.st, v)
    if ip.is_user_opaque(t):
        return ip.load(c.st, v)
    return clone_val(ip, c.st, ip.load(c.st, v))


def clone_val(ip, st, v):
    return v


@model("core::clone::Clone::clone_from")
def m_clone_from(ip, c):
    fty = dict(c.fty, name="clone", p="core::clone::Clone::clone")
    r = ip.resolve_trait(fty, None, c.fr)
    if r is not None:
        pc, v, st2 = ip.invoke(r[0], r[1], [c.args[1]], c.st)
        if pc is not FALSE:
            raise Unsupported("panicking clone")
        ip.store(st2, c.args[0], v)
        for k, x in st2.items():
            c.st[k] = x
        return UNIT
    ip.store(c.st, c.args[0], ip.load(c.st, c.args[1]))
    return UNIT


def ident(ip, c):
    return c.args[0]


for _p in ("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut",
           "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut",
           "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut"):
    MODELS[_p] = ident
MODELS["core::hint::black_box"] = ident
MODELS["core::convert::identity"] = ident


@model("core::convert::From::from", "core::convert::Into::into")
def m_from(ip, c):
    v = c.args[0]
    t = c.dty
    if c.fty["name"] == "into":
        # U: From<T>
        fty = dict(c.fty, name="from", p="core::convert::From::from", trait="core::convert::From",
                   a=[c.fty["a"][1], c.fty["a"][0]] if len(c.fty["a"]) > 1 else [t])
        r = ip.resolve_trait(fty, None, c.fr)
        if r is not None:
            pc, v, st2 = ip.invoke(r[0], r[1], c.args, c.st)
            if st2 is not None:
                c.st.update(st2)
            return PanicResult(pc, v) if pc is not FALSE else v
    src = c.aty[0] if c.aty else None
    if src is not None and V.ty_key(src) == V.ty_key(t):
        return v
    if t["k"] == "prim" and isinstance(v, DD):
        if src is not None and src["k"] == "prim" and src["n"] == "bool":
            return ite(v, T.num(1), T.num(0))
        return v
    if t["k"] == "adt" and t["p"] == "alloc::vec::Vec":
        w = deref(ip, c.st, v)
        if isinstance(w, Arr):
            return w
    if t["k"] == "adt" and t["p"] in ("alloc::boxed::Box",):
        return leaf(Ptr(ip.new_cell(c.st, v)))
    if t["k"] == "adt" and t["p"] == "alloc::string::String":
        return deref(ip, c.st, v)
    raise Unsupported("From conversion")


@model("core::mem::swap")
def m_swap(ip, c):
    a, b = c.args
    x, y = ip.load(c.st, a), ip.load(c.st, b)
    ip.store(c.st, a, y)
    ip.store(c.st, b, x)
    return UNIT


@model("core::mem::replace")
def m_replace(ip, c):
    x = ip.load(c.st, c.args[0])
    ip.store(c.st, c.args[0], c.args[1])
    return x


@model("core::mem::take")
def m_take(ip, c):
    x = ip.load(c.st, c.args[0])
    ip.store(c.st, c.args[0], default_of(ip, c, c.fty["a"][0]))
    return x


@model("core::mem::drop", "core::mem::forget")
def m_drop(ip, c):
    return UNIT


def default_of(ip, c, t):
    k = t["k"]
    if k == "prim":
        if t["n"] == "bool":
            return FALSE
        return T.num(0)
    if k == "tuple":
        return Struct("tuple", [default_of(ip, c, x) for x in t["a"]])
    if k == "adt":
        if t["p"] == OPTION:
            return none()
        if t["p"] == "alloc::vec::Vec":
            return empty_vec()
        if t["p"] == "alloc::string::String":
            return leaf("str:")
        fty = {"k": "fndef", "p": "core::default::Default::default", "name": "default", "trait": "core::default::Default", "a": [t], "ntr": 1}
        r = ip.resolve_trait(fty, None, c.fr)
        if r is not None:
            pc, v, st2 = ip.invoke(r[0], r[1], [], c.st)
            c.st.update(st2)
            return v
    raise Unsupported("Default of %s" % t)


@model("core::default::Default::default")
def m_default(ip, c):
    return default_of(ip, c, c.dty)


def empty_vec():
    return V.mk_arr(T.num(0), lambda s: UNDEF)


# ------------------------------------------------------------- try operator
@model("core::ops::try_trait::Try::branch")
def m_branch(ip, c):
    v = c.args[0]
    if not isinstance(v, Enum):
        raise Unsupported("? on opaque value")
    if v.name == RESULT:
        okv = (v.pay.get(0) or [UNDEF])[0]
        err = (v.pay.get(1) or [UNDEF])[0]
        tag = T.dd_mapn(lambda t: leaf(0 if t == 0 else 1), (v.tag,))
        return Enum(CFLOW, tag, {0: [okv], 1: [Enum(RESULT, leaf(1), {1: [err]})]})
    if v.name == OPTION:
        tag = T.dd_mapn(lambda t: leaf(0 if t == 1 else 1), (v.tag,))
        return Enum(CFLOW, tag, {0: [(v.pay.get(1) or [UNDEF])[0]], 1: [none()]})
    raise Unsupported("? on %s" % v.name)


@model("core::ops::try_trait::FromResidual::from_residual")
def m_residual(ip, c):
    v = c.args[0]
    if isinstance(v, Enum) and v.name == RESULT:
        e = v.pay[1][0]
        t = c.dty
        src = c.aty[0]["a"][1] if c.aty and c.aty[0]["k"] == "adt" and len(c.aty[0]["a"]) > 1 else None
        dst = t["a"][1] if t["k"] == "adt" and len(t["a"]) > 1 else None
        if src is not None and dst is not None and V.ty_key(src) != V.ty_key(dst):
            fty = {"k": "fndef", "p": "core::convert::From::from", "name": "from", "trait": "core::convert::From", "a": [dst, src], "ntr": 2}
            r = ip.resolve_trait(fty, None, c.fr)
            if r is None:
                raise Unsupported("error conversion")
            pc, e, st2 = ip.invoke(r[0], r[1], [e], c.st)
            c.st.update(st2)
        return Enum(RESULT, leaf(1), {1: [e]})
    if isinstance(v, Enum) and v.name == OPTION:
        return none()
    raise Unsupported("from_residual")


# ------------------------------------------------------------------ Option
OPT, RES = {}, {}


def opt_val(v):
    return (v.pay.get(1) or [UNDEF])[0]


def chk_enum(v):
    if not isinstance(v, Enum):
        raise Unsupported("option operation on %s" % type(v).__name__)
    return v


def reg(tab, *names):
    def deco(f):
        for n in names:
            tab[n] = f
        return f
    return deco


@reg(OPT, "is_none")
def o1(ip, c):
    return is_tag(chk_enum(deref(ip, c.st, c.args[0])), 0)


@reg(OPT, "is_some")
def o2(ip, c):
    return is_tag(chk_enum(deref(ip, c.st, c.args[0])), 1)


@reg(OPT, "unwrap", "expect")
def o3(ip, c):
    v = chk_enum(c.args[0])
    bad = is_tag(v, 0)
    if bad is TRUE:
        return PanicResult(TRUE, None)
    c.panic(bad)
    return opt_val(v)


@reg(OPT, "unwrap_unchecked")
def o3b(ip, c):
    return opt_val(chk_enum(c.args[0]))


@reg(OPT, "unwrap_or")
def o4(ip, c):
    v = chk_enum(c.args[0])
    return V.merge(is_tag(v, 1), opt_val(v), c.args[1])


@reg(OPT, "unwrap_or_default")
def o4b(ip, c):
    v = chk_enum(c.args[0])
    return V.merge(is_tag(v, 1), opt_val(v), default_of(ip, c, c.dty))


def call_under(ip, c, cond, clo, args, dty):
    """call closure under cond; merges the state; returns value"""
    if cond is FALSE:
        return UNDEF
    s2 = dict(c.st)
    with T.assume(cond):
        pc, v, s3 = ip.call_closure(clo, args, s2, dty)
    if pc is not FALSE:
        c.panic(AND(cond, pc))
    if s3 is None:
        return UNDEF
    from .interp import merge_states
    m = merge_states(cond, s3, c.st)
    c.st.update(m)
    return v


@reg(OPT, "unwrap_or_else")
def o5(ip, c):
    v = chk_enum(c.args[0])
    w = call_under(ip, c, is_tag(v, 0), c.args[1], [], c.dty)
    return V.merge(is_tag(v, 1), opt_val(v), w)


@reg(OPT, "map")
def o6(ip, c):
    v = chk_enum(c.args[0])
    w = call_under(ip, c, is_tag(v, 1), c.args[1], [opt_val(v)], c.dty["a"][0])
    return opt(is_tag(v, 1), w)


@reg(OPT, "and_then")
def o7(ip, c):
    v = chk_enum(c.args[0])
    w = call_under(ip, c, is_tag(v, 1), c.args[1], [opt_val(v)], c.dty)
    if w is UNDEF:
        return none()
    return V.merge(is_tag(v, 1), w, none())


@reg(OPT, "map_or")
def o8(ip, c):
    v = chk_enum(c.args[0])
    w = call_under(ip, c, is_tag(v, 1), c.args[2], [opt_val(v)], c.dty)
    return V.merge(is_tag(v, 1), w, c.args[1])


@reg(OPT, "map_or_else")
def o9(ip, c):
    v = chk_enum(c.args[0])
    w = call_under(ip, c, is_tag(v, 1), c.args[2], [opt_val(v)], c.dty)
    u = call_under(ip, c, is_tag(v, 0), c.args[1], [], c.dty)
    return V.merge(is_tag(v, 1), w, u)


@reg(OPT, "is_some_and")
def o10(ip, c):
    v = chk_enum(c.args[0])
    w = call_under(ip, c, is_tag(v, 1), c.args[1], [opt_val(v)], c.dty)
    return V.merge(is_tag(v, 1), w, FALSE)


@reg(OPT, "is_none_or")
def o10b(ip, c):
    v = chk_enum(c.args[0])
    w = call_under(ip, c, is_tag(v, 1), c.args[1], [opt_val(v)], c.dty)
    return V.merge(is_tag(v, 1), w, TRUE)


@reg(OPT, "ok_or")
def o11(ip, c):
    v = chk_enum(c.args[0])
    return Enum(RESULT, T.dd_mapn(lambda t: leaf(0 if t == 1 else 1), (v.tag,)), {0: [opt_val(v)], 1: [c.args[1]]})


@reg(OPT, "ok_or_else")
def o12(ip, c):
    v = chk_enum(c.args[0])
    w = call_under(ip, c, is_tag(v, 0), c.args[1], [], c.dty["a"][1])
    return Enum(RESULT, T.dd_mapn(lambda t: leaf(0 if t == 1 else 1), (v.tag,)), {0: [opt_val(v)], 1: [w]})


@reg(OPT, "or")
def o13(ip, c):
    v = chk_enum(c.args[0])
    return V.merge(is_tag(v, 1), v, c.args[1])


@reg(OPT, "or_else")
def o13b(ip, c):
    v = chk_enum(c.args[0])
    w = call_under(ip, c, is_tag(v, 0), c.args[1], [], c.dty)
    if w is UNDEF:
        return v
    return V.merge(is_tag(v, 1), v, w)


@reg(OPT, "filter")
def o14(ip, c):
    v = chk_enum(c.args[0])
    cell = ip.new_cell(c.st, opt_val(v))
    w = call_under(ip, c, is_tag(v, 1), c.args[1], [leaf(Ptr(cell))], {"k": "prim", "n": "bool"})
    return opt(AND(is_tag(v, 1), w) if w is not UNDEF else FALSE, opt_val(v))


@reg(OPT, "copied", "cloned")
def o15(ip, c):
    v = chk_enum(c.args[0])
    p = opt_val(v)
    return Enum(OPTION, v.tag, {0: [], 1: [deref(ip, c.st, p) if p is not UNDEF else UNDEF]})


@reg(OPT, "as_ref", "as_mut", "as_deref", "as_deref_mut")
def o16(ip, c):
    p = c.args[0]
    v = chk_enum(ip.load(c.st, p))
    return Enum(OPTION, v.tag, {0: [], 1: [T.dd_mapn(lambda q: leaf(q.add(("v", 1, 0))), (p,))]})


@reg(OPT, "take")
def o17(ip, c):
    v = ip.load(c.st, c.args[0])
    ip.store(c.st, c.args[0], none())
    return v


@reg(OPT, "replace")
def o18(ip, c):
    v = ip.load(c.st, c.args[0])
    ip.store(c.st, c.args[0], some(c.args[1]))
    return v


@reg(RES, "is_ok")
def r1(ip, c):
    return is_tag(chk_enum(deref(ip, c.st, c.args[0])), 0)


@reg(RES, "is_err")
def r2(ip, c):
    return is_tag(chk_enum(deref(ip, c.st, c.args[0])), 1)


@reg(RES, "unwrap", "expect")
def r3(ip, c):
    v = chk_enum(c.args[0])
    bad = is_tag(v, 1)
    if bad is TRUE:
        return PanicResult(TRUE, None)
    c.panic(bad)
    return (v.pay.get(0) or [UNDEF])[0]


@reg(RES, "unwrap_or")
def r4(ip, c):
    v = chk_enum(c.args[0])
    return V.merge(is_tag(v, 0), (v.pay.get(0) or [UNDEF])[0], c.args[1])


@reg(RES, "unwrap_or_else")
def r4b(ip, c):
    v = chk_enum(c.args[0])
    w = call_under(ip, c, is_tag(v, 1), c.args[1], [opt_val(v)], c.dty)
    return V.merge(is_tag(v, 0), (v.pay.get(0) or [UNDEF])[0], w)


@reg(RES, "ok")
def r5(ip, c):
    v = chk_enum(c.args[0])
    return opt(is_tag(v, 0), (v.pay.get(0) or [UNDEF])[0])


@reg(RES, "err")
def r5b(ip, c):
    v = chk_enum(c.args[0])
    return opt(is_tag(v, 1), opt_val(v))


@reg(RES, "map")
def r6(ip, c):
    v = chk_enum(c.args[0])
    w = call_under(ip, c, is_tag(v, 0), c.args[1], [(v.pay.get(0) or [UNDEF])[0]], c.dty["a"][0])
    return Enum(RESULT, v.tag, {0: [w], 1: [opt_val(v)]})


@reg(RES, "map_err")
def r7(ip, c):
    v = chk_enum(c.args[0])
    w = call_under(ip, c, is_tag(v, 1), c.args[1], [opt_val(v)], c.dty["a"][1])
    return Enum(RESULT, v.tag, {0: [(v.pay.get(0) or [UNDEF])[0]], 1: [w]})


@reg(RES, "and_then")
def r8(ip, c):
    v = chk_enum(c.args[0])
    w = call_under(ip, c, is_tag(v, 0), c.args[1], [(v.pay.get(0) or [UNDEF])[0]], c.dty)
    e = Enum(RESULT, leaf(1), {1: [opt_val(v)]})
    if w is UNDEF:
        return e
    return V.merge(is_tag(v, 0), w, e)


@model("core::bool::<impl bool>::then")
def b_then(ip, c):
    w = call_under(ip, c, c.args[0], c.args[1], [], c.dty["a"][0])
    return opt(c.args[0], w)


@model("core::bool::<impl bool>::then_some")
def b_then_some(ip, c):
    return opt(c.args[0], c.args[1])


# --------------------------------------------------------------- sequences
SEQ = {}


def seqv(ip, st, v):
    w = deref(ip, st, v)
    if not isinstance(w, Arr):
        raise Unsupported("sequence operation on %s" % type(w).__name__)
    return w


@reg(SEQ, "len")
def s_len(ip, c):
    v = c.args[0]
    if isinstance(v, DD):
        return ip.ptr_len(c.st, v)
    return seqv(ip, c.st, v).len


@reg(SEQ, "is_empty")
def s_empty(ip, c):
    return T.d_le(s_len(ip, c), T.num(0))


@reg(SEQ, "to_vec", "to_owned", "into_vec", "into_boxed_slice")
def s_tovec(ip, c):
    return seqv(ip, c.st, c.args[0])


@reg(SEQ, "new", "with_capacity")
def s_new(ip, c):
    return empty_vec()


@reg(SEQ, "reserve", "shrink_to_fit")
def s_nop(ip, c):
    return UNIT


@reg(SEQ, "as_slice", "as_mut_slice", "as_ref", "as_mut", "deref", "deref_mut")
def s_id(ip, c):
    return c.args[0]


@reg(SEQ, "iter", "iter_mut")
def s_iter(ip, c):
    return slice_iter(ip, c.st, c.args[0])


@reg(SEQ, "push")
def s_push(ip, c):
    p, v = c.args
    a = ip.load(c.st, p)
    if a.len.leaf and a.len.val.const == 0:
        b = V.mk_arr(T.num(1), lambda s: v)
        ip.store(c.st, p, b)
        return UNIT
    ln = T.d_add(a.len, T.num(1))
    b = V.Arr(ln, V.fresh_syms(None, a.stride), a.stride, None)
    b.body = V.vsubst(a.body, T.Map({x.id: leaf(N.from_atom(y)) for x, y in zip(a.syms, b.syms)}))
    ip.store(c.st, p, V.astore(b, a.len, v))
    return UNIT


@reg(SEQ, "pop")
def s_pop(ip, c):
    p = c.args[0]
    a = ip.load(c.st, p)
    c0 = T.d_lt(T.num(0), a.len)
    last = T.d_sub(a.len, T.num(1))
    v = V.aselect(a, last)
    ip.store(c.st, p, V.Arr(ite(c0, last, a.len), a.syms, a.stride, a.body))
    return opt(c0, v)


@reg(SEQ, "truncate")
def s_trunc(ip, c):
    p, n = c.args
    a = ip.load(c.st, p)
    ip.store(c.st, p, V.Arr(dmin(a.len, n), a.syms, a.stride, a.body))
    return UNIT


@reg(SEQ, "clear")
def s_clear(ip, c):
    ip.store(c.st, c.args[0], empty_vec())
    return UNIT


@reg(SEQ, "resize")
def s_resize(ip, c):
    p, n, v = c.args
    a = ip.load(c.st, p)
    a1 = V.to_1d(a)
    ip.store(c.st, p, V.mk_arr(n, lambda s: V.merge(T.d_lt(s, a1.len), V.aselect(a1, s), v)))
    return UNIT


def dmin(a, b):
    return T.dd_mapn(lambda x, y: ite(T.le(x, y), leaf(x), leaf(y)), (a, b))


def dmax(a, b):
    return T.dd_mapn(lambda x, y: ite(T.le(x, y), leaf(y), leaf(x)), (a, b))


@reg(SEQ, "fill")
def s_fill(ip, c):
    p, v = c.args
    ln = ip.ptr_len(c.st, p)
    ip.store(c.st, p, V.mk_arr(ln, lambda s: v))
    return UNIT


@reg(SEQ, "copy_from_slice", "clone_from_slice")
def s_copy(ip, c):
    d, s = c.args
    dl = ip.ptr_len(c.st, d)
    src = seqv(ip, c.st, s)
    c.panic(NOT(T.d_eq(dl, src.len)))
    ip.store(c.st, d, V.Arr(dl, src.syms, src.stride, src.body))
    return UNIT


@reg(SEQ, "extend_from_slice")
def s_ext(ip, c):
    p, s = c.args
    a, b = ip.load(c.st, p), seqv(ip, c.st, s)
    ip.store(c.st, p, concat(a, b))
    return UNIT


def concat(a, b):
    a, b = V.to_1d(a), V.to_1d(b)
    return V.mk_arr(T.d_add(a.len, b.len), lambda s: V.merge(T.d_lt(s, a.len), V.aselect(a, s), V.aselect(b, T.d_sub(s, a.len))))


@reg(SEQ, "swap")
def s_swap(ip, c):
    p, i, j = c.args
    a, b = padd(p, ("x", i)), padd(p, ("x", j))
    x, y = ip.load(c.st, a), ip.load(c.st, b)
    ip.store(c.st, a, y)
    ip.store(c.st, b, x)
    return UNIT


@reg(SEQ, "reverse")
def s_rev(ip, c):
    p = c.args[0]
    a = ip.load(c.st, p)
    ip.store(c.st, p, V.mk_arr(a.len, lambda s: V.aselect(a, T.d_sub(T.d_sub(a.len, T.num(1)), s))))
    return UNIT


@reg(SEQ, "split_at", "split_at_mut")
def s_split(ip, c):
    p, m = c.args
    ln = ip.ptr_len(c.st, p)
    c.panic(T.d_lt(ln, m))
    return Struct("tuple", [padd(p, ("w", T.num(0), m)), padd(p, ("w", m, T.d_sub(ln, m)))])


@reg(SEQ, "get", "get_mut")
def s_get(ip, c):
    p, i = c.args
    ln = ip.ptr_len(c.st, p)
    if isinstance(i, DD):
        return opt(T.d_lt(i, ln), padd(p, ("x", i)))
    raise Unsupported("get range")


@reg(SEQ, "get_unchecked", "get_unchecked_mut")
def s_getu(ip, c):
    p, i = c.args
    if isinstance(i, DD):
        return padd(p, ("x", i))
    raise Unsupported("get range")


@reg(SEQ, "first", "first_mut")
def s_first(ip, c):
    p = c.args[0]
    return opt(T.d_lt(T.num(0), ip.ptr_len(c.st, p)), padd(p, ("x", T.num(0))))


@reg(SEQ, "last", "last_mut")
def s_last(ip, c):
    p = c.args[0]
    ln = ip.ptr_len(c.st, p)
    return opt(T.d_lt(T.num(0), ln), padd(p, ("x", T.d_sub(ln, T.num(1)))))


@reg(SEQ, "split_first")
def s_split_first(ip, c):
    p = c.args[0]
    ln = ip.ptr_len(c.st, p)
    return opt(T.d_lt(T.num(0), ln), Struct("tuple", [padd(p, ("x", T.num(0))), padd(p, ("w", T.num(1), T.d_sub(ln, T.num(1))))]))


@reg(SEQ, "map")
def s_arrmap(ip, c):
    it = it_full(Struct("b:vec", [seqv(ip, c.st, c.args[0])]), c.args[0].len)
    return collect_vec(ip, c.st, Struct("iter", [Struct("b:map", [it.fs[0], c.args[1]], c.dty["t"]), it.fs[1], it.fs[2]]), c)


@reg(SEQ, "chunks", "chunks_mut", "chunks_exact", "chunks_exact_mut")
def s_chunks(ip, c):
    p, n = c.args
    ln = ip.ptr_len(c.st, p)
    exact = c.fty["p"].rsplit("::", 1)[-1].startswith("chunks_exact")
    if exact:
        cnt = T.dd_mapn(lambda a, b: leaf(exact_div(a, b) or V.idiv(a, b)), (ln, n))
        return it_full(Struct("b:chunk", [p, n, n]), cnt)
    q = T.dd_mapn(lambda a, b: exact_div(a, b) or _uns("chunks of unknown remainder"), (ln, n))
    return it_full(Struct("b:chunk", [p, n, n]), q)


def _uns(m):
    raise Unsupported(m)


def exact_div(a, b):
    q = N.div(a, b)
    return q if q.is_poly() and q.is_int() else None


@reg(SEQ, "windows")
def s_windows(ip, c):
    p, n = c.args
    ln = ip.ptr_len(c.st, p)
    cnt = dmax(T.d_sub(T.d_add(ln, T.num(1)), n), T.num(0))
    return it_full(Struct("b:chunk", [p, T.num(1), n]), cnt)


@reg(SEQ, "concat")
def s_concat(ip, c):
    raise Unsupported("concat")


def padd(p, *els):
    return T.dd_mapn(lambda q: leaf(q.add(*els)), (p,))


@model("alloc::vec::from_elem")
def m_from_elem(ip, c):
    v, n = c.args
    return V.mk_arr(n, lambda s: v)


@model("alloc::boxed::Box::<T>::new_uninit")
def m_box_uninit(ip, c):
    return leaf(Ptr(ip.new_cell(c.st, UNDEF)))


@model("alloc::boxed::Box::<T>::new")
def m_box_new(ip, c):
    return leaf(Ptr(ip.new_cell(c.st, c.args[0])))


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def m_box_vec(ip, c):
    return ip.load(c.st, c.args[0])


@model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def m_index(ip, c):
    p, i = c.args
    t = c.fty["a"][0]
    if t["k"] in ("slice", "array") or (t["k"] == "adt" and t["p"] == "alloc::vec::Vec"):
        return index_ptr(ip, c, p, i)
    raise Unsupported("index of %s" % t.get("p", t["k"]))


def range_bounds(i, ln):
    if isinstance(i, Struct):
        nm = i.name.rsplit("::", 1)[-1]
        if nm == "Range":
            return i.fs[0], i.fs[1]
        if nm == "RangeFrom":
            return i.fs[0], ln
        if nm == "RangeTo":
            return T.num(0), i.fs[0]
        if nm == "RangeFull":
            return T.num(0), ln
        if nm == "RangeToInclusive":
            return T.num(0), T.d_add(i.fs[0], T.num(1))
        if nm == "iter" and i.fs[0].name == "b:range":
            return i.fs[1], i.fs[2]
    raise Unsupported("index by %s" % type(i).__name__)


def index_ptr(ip, c, p, i):
    if isinstance(i, DD):
        return padd(p, ("x", i))
    ln = ip.ptr_len(c.st, p)
    lo, hi = range_bounds(i, ln)
    # slicing out of range panics
    c.panic(OR(T.d_lt(hi, lo), T.d_lt(ln, hi)))
    return padd(p, ("w", lo, T.d_sub(hi, lo)))


MODELS["core::slice::index::<impl core::ops::index::Index<I> for [T]>::index"] = m_index


# --------------------------------------------------------------- iterators
ITER = {}


def it_full(base, n):
    return Struct("iter", [base, T.num(0), n])


def slice_iter(ip, st, p):
    return it_full(Struct("b:slice", [p]), ip.ptr_len(st, p))


def as_iter(ip, st, v, ty=None):
    """iterator value from an IntoIterator value"""
    if isinstance(v, Struct):
        if v.name == "iter":
            return v
        if v.name == RANGE:
            return Struct("iter", [Struct("b:range", []), v.fs[0], v.fs[1]])
        if v.name.endswith("RangeFrom"):
            return Struct("iter", [Struct("b:range", []), v.fs[0], leaf(N.from_atom(BIGN))])
    if isinstance(v, Arr):
        return it_full(Struct("b:vec", [v]), v.len)
    if isinstance(v, Enum) and v.name == OPTION:
        return it_full(Struct("b:const", [opt_val(v)]), ite(is_tag(v, 1), T.num(1), T.num(0)))
    if isinstance(v, DD) and any(isinstance(x, Ptr) for x in T.leaves(v).values()):
        w = ip.load(st, v)
        if isinstance(w, Arr):
            return slice_iter(ip, st, v)
        if isinstance(w, Struct) and w.name in ("iter", RANGE):
            # used through a reference: what is left of it afterwards is not tracked, any later use is refused
            if v.leaf:
                ip.store(st, v, Struct("consumed iterator", []))
                return as_iter(ip, st, w)
        if isinstance(w, Enum) and w.name == OPTION:
            return it_full(Struct("b:const", [padd(v, ("v", 1, 0))]), ite(is_tag(w, 1), T.num(1), T.num(0)))
    raise Unsupported("iteration over %s" % (v.name if isinstance(v, Struct) else type(v).__name__))


BIGN = N.sym("unboundedrange", "i", unique=False)
BIGN.lo = 10 ** 18


def item(ip, st, base, k):
    """(present condition, item, panic cond) for position k"""
    n = base.name
    if n == "b:range":
        return TRUE, k, FALSE
    if n == "b:slice":
        return TRUE, padd(base.fs[0], ("x", k)), FALSE
    if n == "b:vec":
        return TRUE, V.aselect(base.fs[0], k), FALSE
    if n == "b:const":
        return TRUE, base.fs[0], FALSE
    if n == "b:chunk":
        p, step, w = base.fs
        return TRUE, padd(p, ("w", T.d_mul(k, step), w)), FALSE
    if n == "b:rev":
        return item(ip, st, base.fs[0], T.d_sub(base.fs[1], k))
    if n == "b:shift":
        return item(ip, st, base.fs[0], T.d_add(base.fs[1], k))
    if n == "b:step":
        return item(ip, st, base.fs[0], T.d_add(base.fs[1], T.d_mul(k, base.fs[2])))
    if n == "b:enum":
        c, v, pc = item(ip, st, base.fs[0], k)
        if c is not TRUE:
            raise Unsupported("enumerate after filter")
        return c, Struct("tuple", [T.d_sub(k, base.fs[1]), v]), pc
    if n == "b:zip":
        c1, a, p1 = item(ip, st, base.fs[0], k)
        c2, b, p2 = item(ip, st, base.fs[1], k)
        if c1 is not TRUE or c2 is not TRUE:
            raise Unsupported("zip after filter")
        return TRUE, Struct("tuple", [a, b]), OR(p1, p2)
    if n == "b:copied":
        c, v, pc = item(ip, st, base.fs[0], k)
        return c, deref(ip, st, v), pc
    if n == "b:map":
        c, v, pc = item(ip, st, base.fs[0], k)
        with T.assume(c):
            p2, w, s2 = ip.call_closure(base.fs[1], [v], st, base.ty)
        if s2 is None:
            return c, UNDEF, TRUE
        if s2 is not st:
            st.update(s2)
        return c, w, OR(pc, AND(c, p2))
    if n == "b:filter":
        c, v, pc = item(ip, st, base.fs[0], k)
        cell = ip.new_cell(st, v)
        p2, w, s2 = ip.call_closure(base.fs[1], [leaf(Ptr(cell))], st, {"k": "prim", "n": "bool"})
        if s2 is None:
            return c, v, TRUE
        if s2 is not st:
            st.update(s2)
        return AND(c, w), v, OR(pc, AND(c, p2))
    if n == "b:fmap":
        c, v, pc = item(ip, st, base.fs[0], k)
        p2, w, s2 = ip.call_closure(base.fs[1], [v], st, base.ty)
        if s2 is None:
            return c, UNDEF, TRUE
        if s2 is not st:
            st.update(s2)
        return AND(c, is_tag(w, 1)), opt_val(w), OR(pc, AND(c, p2))
    if n == "b:chain":
        a, b = base.fs[0], base.fs[1]
        la = T.d_sub(a.fs[2], a.fs[1])
        cond = T.d_lt(k, la)
        if cond is TRUE:
            return item(ip, st, a.fs[0], T.d_add(a.fs[1], k))
        if cond is FALSE:
            return item(ip, st, b.fs[0], T.d_add(b.fs[1], T.d_sub(k, la)))
        with T.assume(cond):
            c1, v1, p1 = item(ip, st, a.fs[0], T.d_add(a.fs[1], k))
        with T.assume(NOT(cond)):
            c2, v2, p2 = item(ip, st, b.fs[0], T.d_add(b.fs[1], T.d_sub(k, la)))
        return ite(cond, c1, c2), V.merge(cond, v1, v2), ite(cond, p1, p2)
    raise Unsupported("iterator %s" % n)


def filtered(base):
    if base.name in ("b:filter", "b:fmap"):
        return True
    return any(isinstance(x, Struct) and filtered(x) for x in base.fs if isinstance(x, Struct) and x.name.startswith("b:")) or \
        any(isinstance(x, Struct) and x.name == "iter" and filtered(x.fs[0]) for x in base.fs)


@reg(ITER, "into_iter")
def i_into(ip, c):
    return as_iter(ip, c.st, c.args[0])


MODELS["core::iter::traits::collect::IntoIterator::into_iter"] = i_into


@reg(ITER, "next")
def i_next(ip, c):
    p = c.args[0]
    v = ip.load(c.st, p)
    if isinstance(v, DD):
        # &mut &mut I
        c2 = Call(c.fty, [v], c.aty, c.dty, c.st, c.fr)
        r = i_next(ip, c2)
        c.pc = c2.pc
        return r
    native = isinstance(v, Struct) and v.name == RANGE
    it = as_iter(ip, c.st, v)
    base, pos, end = it.fs
    if filtered(base):
        raise Unsupported("next on a filtered iterator")
    cond = T.d_lt(pos, end)
    if cond is FALSE:
        return none()
    with T.assume(cond):
        pr, x, pc = item(ip, c.st, base, pos)
    if pc is not FALSE:
        c.panic(AND(cond, pc))
    np = ite(cond, T.d_add(pos, T.num(1)), pos)
    if native:
        ip.store(c.st, p, Struct(RANGE, [np, end], v.ty))
    else:
        ip.store(c.st, p, Struct("iter", [base, np, end], v.ty))
    return opt(cond, x)


@reg(ITER, "next_back")
def i_next_back(ip, c):
    p = c.args[0]
    v = ip.load(c.st, p)
    native = isinstance(v, Struct) and v.name == RANGE
    base, pos, end = as_iter(ip, c.st, v).fs
    cond = T.d_lt(pos, end)
    if cond is FALSE:
        return none()
    last = T.d_sub(end, T.num(1))
    with T.assume(cond):
        pr, x, pc = item(ip, c.st, base, last)
    ne = ite(cond, last, end)
    ip.store(c.st, p, Struct(RANGE, [pos, ne], v.ty) if native else Struct("iter", [base, pos, ne], v.ty))
    return opt(cond, x)


def adapt(f):
    def m(ip, c):
        it = as_iter(ip, c.st, c.args[0])
        return f(ip, c, it)
    return m


ITER["map"] = adapt(lambda ip, c, it: Struct("iter", [Struct("b:map", [it.fs[0], c.args[1]], map_ty(c)), it.fs[1], it.fs[2]]))
ITER["filter"] = adapt(lambda ip, c, it: Struct("iter", [Struct("b:filter", [it.fs[0], c.args[1]]), it.fs[1], it.fs[2]]))
ITER["filter_map"] = adapt(lambda ip, c, it: Struct("iter", [Struct("b:fmap", [it.fs[0], c.args[1]]), it.fs[1], it.fs[2]]))
ITER["copied"] = adapt(lambda ip, c, it: Struct("iter", [Struct("b:copied", [it.fs[0]]), it.fs[1], it.fs[2]]))
ITER["cloned"] = ITER["copied"]
ITER["by_ref"] = lambda ip, c: c.args[0]
ITER["fuse"] = adapt(lambda ip, c, it: it)
ITER["peekable"] = adapt(lambda ip, c, it: it)


def map_ty(c):
    # Map<I,F>: result type of F from the fn's generic args: Iterator::map::<Self, B, F>
    a = [x for x in c.fty["a"] if x["k"] != "lt"]
    return a[1] if len(a) > 1 else None


@reg(ITER, "rev")
def i_rev(ip, c):
    it = as_iter(ip, c.st, c.args[0])
    base, pos, end = it.fs
    s = T.d_sub(T.d_add(pos, end), T.num(1))
    return Struct("iter", [Struct("b:rev", [base, s]), pos, end])


@reg(ITER, "enumerate")
def i_enum(ip, c):
    it = as_iter(ip, c.st, c.args[0])
    return Struct("iter", [Struct("b:enum", [it.fs[0], it.fs[1]]), it.fs[1], it.fs[2]])


@reg(ITER, "skip")
def i_skip(ip, c):
    it = as_iter(ip, c.st, c.args[0])
    if filtered(it.fs[0]):
        raise Unsupported("skip after filter")
    b, p, e = it.fs
    return Struct("iter", [b, dmin(T.d_add(p, c.args[1]), dmax(p, e)), e])


@reg(ITER, "take")
def i_take(ip, c):
    it = as_iter(ip, c.st, c.args[0])
    if filtered(it.fs[0]):
        raise Unsupported("take after filter")
    b, p, e = it.fs
    return Struct("iter", [b, p, dmin(T.d_add(p, c.args[1]), e)])


@reg(ITER, "step_by")
def i_step(ip, c):
    it = as_iter(ip, c.st, c.args[0])
    b, p, e = it.fs
    n = c.args[1]
    cnt = T.dd_mapn(lambda l, s: ite(T.le(l, N.ZERO), T.num(0), leaf(V.idiv(N.sub(N.add(l, s), N.ONE), s))), (T.d_sub(e, p), n))
    return it_full(Struct("b:step", [b, p, n]), cnt)


@reg(ITER, "zip")
def i_zip(ip, c):
    return zip_(as_iter(ip, c.st, c.args[0]), as_iter(ip, c.st, c.args[1]))


def shifted(it):
    b, p, e = it.fs
    if p.leaf and isinstance(p.val, Num) and p.val.const == 0:
        return b, e
    return Struct("b:shift", [b, p]), dmax(T.d_sub(e, p), T.num(0))


def zip_(x, y):
    a, la = shifted(x)
    b, lb = shifted(y)
    n = la if la is lb else dmin(la, lb)
    return it_full(Struct("b:zip", [a, b]), n)


@reg(ITER, "chain")
def i_chain(ip, c):
    x, y = as_iter(ip, c.st, c.args[0]), as_iter(ip, c.st, c.args[1])
    lx = dmax(T.d_sub(x.fs[2], x.fs[1]), T.num(0))
    ly = dmax(T.d_sub(y.fs[2], y.fs[1]), T.num(0))
    return it_full(Struct("b:chain", [x, y]), T.d_add(lx, ly))


@reg(ITER, "once")
def i_once(ip, c):
    return it_full(Struct("b:const", [c.args[0]]), T.num(1))


@reg(ITER, "empty")
def i_empty(ip, c):
    return it_full(Struct("b:const", [UNDEF]), T.num(0))


@reg(ITER, "repeat")
def i_repeat(ip, c):
    return it_full(Struct("b:const", [c.args[0]]), leaf(N.from_atom(BIGN)))


@reg(ITER, "repeat_n")
def i_repeat_n(ip, c):
    return it_full(Struct("b:const", [c.args[0]]), c.args[1])


MODELS["core::iter::sources::once::once"] = i_once
MODELS["core::iter::sources::empty::empty"] = i_empty
MODELS["core::iter::sources::repeat::repeat"] = i_repeat
MODELS["core::iter::sources::repeat_n::repeat_n"] = i_repeat_n


@model("core::iter::adapters::zip::zip")
def i_zipfn(ip, c):
    return i_zip(ip, c)


@reg(ITER, "len", "count")
def i_len(ip, c):
    it = as_iter(ip, c.st, c.args[0])
    if filtered(it.fs[0]):
        cell = ip.new_cell(c.st, T.num(0))

        def step(s, x):
            s[cell] = T.d_add(s[cell], T.num(1))
            return FALSE, FALSE
        iterate(ip, c, it, step)
        return c.st[cell]
    return dmax(T.d_sub(it.fs[2], it.fs[1]), T.num(0))


@model("core::ops::range::RangeInclusive::<Idx>::new")
def m_rinc(ip, c):
    return Struct("iter", [Struct("b:range", []), c.args[0], T.d_add(c.args[1], T.num(1))])


@model("core::ops::range::RangeInclusive::<Idx>::contains", "core::ops::range::Range::<Idx>::contains",
       "core::ops::range::RangeFrom::<Idx>::contains", "core::ops::range::RangeTo::<Idx>::contains")
def m_contains(ip, c):
    r = deref(ip, c.st, c.args[0])
    x = deref(ip, c.st, c.args[1])
    if r.name == "iter":
        hi = T.d_sub(r.fs[2], T.num(1))
        return AND(T.d_le(r.fs[1], x), T.d_le(x, hi))
    if r.name == RANGE:
        return AND(T.d_le(r.fs[0], x), T.d_lt(x, r.fs[1]))
    if r.name.endswith("RangeFrom"):
        return T.d_le(r.fs[0], x)
    if r.name.endswith("RangeTo"):
        return T.d_lt(x, r.fs[0])
    raise Unsupported("contains")


@model("core::ops::range::Range::<Idx>::is_empty", "core::iter::traits::exact_size::ExactSizeIterator::is_empty")
def m_range_empty(ip, c):
    r = as_iter(ip, c.st, deref(ip, c.st, c.args[0]))
    return T.d_le(r.fs[2], r.fs[1])


# ---- consumers -----------------------------------------------------------
def iterate(ip, c, it, step):
    """run step(state, item) -> (panic cond, break cond) for each item, via loop summarisation.
    Updates c.st, c.pc; returns the condition that a break happened"""
    from .loops import close_loop
    from .interp import merge_states
    st = c.st
    base, pos, end = it.fs
    pcell = ip.new_cell(st, pos)
    REC, EXIT, BRK = "rec", "exit", "brk"

    def body(s):
        s = dict(s)
        p = s[pcell]
        cond = T.d_lt(p, end)
        res = {}
        if cond is not TRUE:
            res[EXIT] = (NOT(cond), s)
        if cond is FALSE:
            return res
        s2 = dict(s)
        m0 = []
        with T.assume(cond):
            pr, x, pc = item(ip, s2, base, p)
            s2[pcell] = T.d_add(p, T.num(1))
            if pr is FALSE:
                brk = FALSE
            elif pr is TRUE:
                pc2, brk = step(s2, x)
                pc = OR(pc, pc2)
            else:
                s3 = dict(s2)
                with T.assume(pr):
                    pc2, brk = step(s3, x)
                pc = OR(pc, AND(pr, pc2))
                brk = AND(pr, brk)
                s2 = merge_states(pr, s3, s2)
        ok = AND(cond, NOT(pc))
        if pc is not FALSE:
            res[PANIC] = (AND(cond, pc), None)
        if brk is not FALSE:
            res[BRK] = (AND(ok, brk), s2)
            ok = AND(ok, NOT(brk))
        if ok is not FALSE:
            res[REC] = (ok, s2)
        return res
    st0 = dict(st)
    res = close_loop(ip, st0, body, REC, "iterator consumer")
    if PANIC in res:
        c.panic(res[PANIC][0])
    eb = res.get(BRK)
    ee = res.get(EXIT)
    if eb is None and ee is None:
        raise Unsupported("consumer without exit")
    if eb is None:
        out, br = ee[1], FALSE
    elif ee is None:
        out, br = eb[1], TRUE
    else:
        br = eb[0]
        out = merge_states(br, eb[1], ee[1])
    st.clear()
    st.update(out)
    st.pop(pcell, None)
    return br


@reg(ITER, "sum")
def i_sum(ip, c):
    it = as_iter(ip, c.st, c.args[0])
    cell = ip.new_cell(c.st, T.num(0))

    def step(s, x):
        s[cell] = T.f_add(s[cell], deref(ip, s, x))
        return FALSE, FALSE
    iterate(ip, c, it, step)
    return c.st[cell]


@reg(ITER, "product")
def i_product(ip, c):
    it = as_iter(ip, c.st, c.args[0])
    cell = ip.new_cell(c.st, T.num(1))

    def step(s, x):
        s[cell] = T.f_mul(s[cell], deref(ip, s, x))
        return FALSE, FALSE
    iterate(ip, c, it, step)
    return c.st[cell]


def call_in(ip, s, clo, args, dty=None):
    pc, v, s2 = ip.call_closure(clo, args, s, dty)
    if s2 is None:
        return TRUE, UNDEF
    if s2 is not s:
        s.update(s2)
    return pc, v


@reg(ITER, "fold")
def i_fold(ip, c):
    it = as_iter(ip, c.st, c.args[0])
    cell = ip.new_cell(c.st, c.args[1])

    def step(s, x):
        pc, v = call_in(ip, s, c.args[2], [s[cell], x], c.dty)
        s[cell] = v
        return pc, FALSE
    iterate(ip, c, it, step)
    return c.st[cell]


@reg(ITER, "for_each")
def i_foreach(ip, c):
    it = as_iter(ip, c.st, c.args[0])

    def step(s, x):
        pc, v = call_in(ip, s, c.args[1], [x], c.dty)
        return pc, FALSE
    iterate(ip, c, it, step)
    return UNIT


@reg(ITER, "any")
def i_any(ip, c):
    it = as_iter(ip, c.st, c.args[0])

    def step(s, x):
        pc, v = call_in(ip, s, c.args[1], [x], c.dty)
        return pc, v
    return iterate(ip, c, it, step)


@reg(ITER, "all")
def i_all(ip, c):
    it = as_iter(ip, c.st, c.args[0])

    def step(s, x):
        pc, v = call_in(ip, s, c.args[1], [x], c.dty)
        return pc, NOT(v)
    return NOT(iterate(ip, c, it, step))


@reg(ITER, "position")
def i_position(ip, c):
    it = as_iter(ip, c.st, c.args[0])
    cell = ip.new_cell(c.st, T.num(0))

    def step(s, x):
        pc, v = call_in(ip, s, c.args[1], [x], c.dty)
        s[cell] = ite(v, s[cell], T.d_add(s[cell], T.num(1)))
        return pc, v
    br = iterate(ip, c, it, step)
    return opt(br, c.st[cell])


@reg(ITER, "find")
def i_find(ip, c):
    it = as_iter(ip, c.st, c.args[0])
    cell = ip.new_cell(c.st, UNDEF)

    def step(s, x):
        tc = ip.new_cell(s, x)
        pc, v = call_in(ip, s, c.args[1], [leaf(Ptr(tc))], {"k": "prim", "n": "bool"})
        s[cell] = x
        s.pop(tc, None)
        return pc, v
    br = iterate(ip, c, it, step)
    return opt(br, c.st[cell])


@reg(ITER, "last")
def i_last(ip, c):
    it = as_iter(ip, c.st, c.args[0])
    b, p, e = it.fs
    cond = T.d_lt(p, e)
    with T.assume(cond):
        pr, x, pc = item(ip, c.st, b, T.d_sub(e, T.num(1)))
    if pr is not TRUE:
        raise Unsupported("last of filtered")
    return opt(cond, x)


@reg(ITER, "nth")
def i_nth(ip, c):
    p = c.args[0]
    v = ip.load(c.st, p)
    it = as_iter(ip, c.st, v)
    b, q, e = it.fs
    at = T.d_add(q, c.args[1])
    cond = T.d_lt(at, e)
    with T.assume(cond):
        pr, x, pc = item(ip, c.st, b, at)
    if pr is not TRUE:
        raise Unsupported("nth of filtered")
    nq = ite(cond, T.d_add(at, T.num(1)), e)
    ip.store(c.st, p, Struct(RANGE, [nq, e]) if v.name == RANGE else Struct("iter", [b, nq, e]))
    return opt(cond, x)


def minmax(sel):
    def m(ip, c):
        it = as_iter(ip, c.st, c.args[0])
        cell = ip.new_cell(c.st, none_like())
        has = ip.new_cell(c.st, FALSE)
        val = ip.new_cell(c.st, T.num(0))

        def step(s, x):
            y = deref(ip, s, x)
            cur = s[val]
            s[val] = ite(s[has], T.dd_mapn(sel, (cur, y)), y)
            s[has] = TRUE
            return FALSE, FALSE
        iterate(ip, c, it, step)
        return opt(c.st[has], c.st[val])
    return m


def none_like():
    return T.num(0)


ITER["max"] = minmax(lambda a, b: ite(T.le(a, b), leaf(b), leaf(a)))
ITER["min"] = minmax(lambda a, b: ite(T.le(a, b), leaf(a), leaf(b)))


@reg(ITER, "reduce")
def i_reduce(ip, c):
    it = as_iter(ip, c.st, c.args[0])
    b, p, e = it.fs
    cond = T.d_lt(p, e)
    pr, x, pc = item(ip, c.st, b, p)
    if pr is not TRUE:
        raise Unsupported("reduce of filtered")
    cell = ip.new_cell(c.st, x)
    it2 = Struct("iter", [b, T.d_add(p, T.num(1)), e])

    def step(s, y):
        pc, v = call_in(ip, s, c.args[1], [s[cell], y], c.dty["a"][0])
        s[cell] = v
        return pc, FALSE
    iterate(ip, c, it2, step)
    return opt(cond, c.st[cell])


def collect_vec(ip, st, it, c):
    base, pos, end = it.fs
    if filtered(base):
        cell = ip.new_cell(st, empty_vec())

        def step(s, x):
            s_push(ip, Call(c.fty, [leaf(Ptr(cell)), x], None, None, s, None))
            return FALSE, FALSE
        iterate(ip, c, it, step)
        return st[cell]
    n = dmax(T.d_sub(end, pos), T.num(0))
    s0 = dict(st)
    pcs = []

    def f(s):
        s1 = dict(st)
        pr, v, pc = item(ip, s1, base, T.d_add(pos, s))
        for k, x in st.items():
            if s1.get(k) is not x:
                raise Unsupported("collect over a closure with side effects")
        if pc is not FALSE:
            raise Unsupported("collect over a panicking closure")
        return v
    return V.mk_arr(n, f)


@reg(ITER, "collect", "from_iter")
def i_collect(ip, c):
    it = as_iter(ip, c.st, c.args[0])
    t = c.dty
    if t["k"] == "adt" and t["p"] == "alloc::vec::Vec":
        return collect_vec(ip, c.st, it, c)
    if t["k"] == "adt":
        # local FromIterator impl
        fty = {"k": "fndef", "p": "core::iter::traits::collect::FromIterator::from_iter", "name": "from_iter",
               "trait": "core::iter::traits::collect::FromIterator", "a": [t], "ntr": 1}
        r = ip.resolve_trait(fty, None, c.fr)
        if r is not None:
            pc, v, st2 = ip.invoke(r[0], r[1], [it], c.st)
            if st2 is not None:
                c.st.clear()
                c.st.update(st2)
            return PanicResult(pc, v) if pc is not FALSE else v
    raise Unsupported("collect into %s" % t.get("p", t["k"]))


@reg(ITER, "extend")
def i_extend(ip, c):
    p = c.args[0]
    a = ip.load(c.st, p)
    if not isinstance(a, Arr):
        raise Unsupported("extend")
    it = as_iter(ip, c.st, c.args[1])
    b = collect_vec(ip, c.st, Struct("iter", [Struct("b:copied", [it.fs[0]]), it.fs[1], it.fs[2]]), c)
    ip.store(c.st, p, concat(a, b))
    return UNIT


@model("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")
def m_fncall(ip, c):
    clo, tup = c.args
    if not isinstance(tup, Struct):
        raise Unsupported("closure args")
    pc, v, s2 = ip.call_closure(clo, tup.fs, c.st, c.dty)
    if s2 is None:
        return PanicResult(TRUE, None)
    if s2 is not c.st:
        c.st.clear()
        c.st.update(s2)
    return PanicResult(pc, v) if pc is not FALSE else v


@model("core::array::from_fn")
def m_from_fn(ip, c):
    from .interp import const_len
    n = const_len(c.dty)
    it = Struct("iter", [Struct("b:map", [Struct("b:range", []), c.args[0]], c.dty["t"]), T.num(0), T.num(n)])
    return collect_vec(ip, c.st, it, c)


for _p in ("alloc::string::ToString::to_string", "alloc::fmt::format", "alloc::string::String::new"):
    MODELS[_p] = m_fmt


@model("core::any::type_name")
def m_tn(ip, c):
    return m_fmt(ip, c)


@model("core::intrinsics::unlikely", "core::intrinsics::likely")
def m_likely(ip, c):
    return c.args[0]


@model("core::intrinsics::cold_path")
def m_cold(ip, c):
    return UNIT
