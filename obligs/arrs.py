"""C22-C24: arrays."""
from .common import *

A = ARR + "::"


def ctor(name, mkargs):
    def script(c):
        see(c, name, c.call(A + name if not name.startswith("arr::") else name, *mkargs(c)))
    return script


def m2(c, nm="a"):
    r, k = c.nat(nm + ".rows", 1), c.nat(nm + ".cols", 1)
    return arr2(c, nm, r, k), r, k


def rw_index(write, read):
    """write element (i,j) one way, read (p,q) another way"""
    def script(c):
        a, r, k = m2(c)
        i, j, p, q = c.nat("i"), c.nat("j"), c.nat("p"), c.nat("q")
        c.require(AND(T.d_lt(i, r), AND(T.d_lt(j, k), AND(T.d_lt(p, r), T.d_lt(q, k)))))
        pa = c.ref(a)
        x = c.real("x")
        wr(c, write, pa, i, j, k, x)
        c.observe("read", rd(c, read, pa, p, q, k))
        seep(c, "after", pa)
    return script


def flat(i, j, k):
    return T.d_add(T.d_mul(i, k), j)


def wr(c, how, pa, i, j, k, x):
    if how == "set":
        c.call(A + "set", pa, i, j, x)
    elif how == "at_mut":
        p = c.call(A + "at_mut", pa, i, j)
        c.ip.store(c.st, p, x)
    elif how == "index_mut":
        p = c.tcall("core::ops::index::IndexMut", [ARR_T, USIZE], "index_mut", pa, flat(i, j, k))
        c.ip.store(c.st, p, x)
    elif how == "index_mut2":
        p = c.tcall("core::ops::index::IndexMut", [ARR_T, {"k": "tuple", "a": [USIZE, USIZE]}], "index_mut", pa, tup(i, j))
        c.ip.store(c.st, p, x)


def rd(c, how, pa, i, j, k):
    if how in ("get", "at"):
        return c.call(A + how, pa, i, j)
    if how == "index":
        return c.get(c.tcall("core::ops::index::Index", [ARR_T, USIZE], "index", pa, flat(i, j, k)))
    if how == "index2":
        return c.get(c.tcall("core::ops::index::Index", [ARR_T, {"k": "tuple", "a": [USIZE, USIZE]}], "index", pa, tup(i, j)))
    if how == "at_mut":
        return c.get(c.call(A + "at_mut", pa, i, j))


def accessors(c):
    a = c.ref(arrg(c, "a"))
    for f in ("size", "rows", "cols", "is_2d", "len", "is_empty"):
        c.observe(f, c.call(A + f, a))
    seep(c, "a", a)


def equality(c):
    a, b = c.ref(arrg(c, "a")), c.ref(arrg(c, "b"))
    c.observe("eq", c.tcall("core::cmp::PartialEq", [ARR_T, ARR_T], "eq", a, b))


def clone(c):
    a = c.ref(arrg(c, "a"))
    see(c, "clone", c.tcall("core::clone::Clone", [ARR_T], "clone", a))


def from_vec(c):
    see(c, "from", c.tcall("core::convert::From", [ARR_T, adt("alloc::vec::Vec", F64, adt("alloc::alloc::Global"))], "from", c.vec("v", c.nat("n"))))


def from_slice(c):
    see(c, "from", c.tcall("core::convert::From", [ARR_T, ref({"k": "slice", "t": F64})], "from", c.ref(c.vec("v", c.nat("n")))))


def row(c):
    a, r, k = m2(c)
    i = c.nat("i")
    see(c, "row", c.call(A + "row", c.ref(a), i))


def from_fn(c):
    see(c, "from_fn", c.call(A + "from_fn", c.nat("n"), c.tok("f")))


OBS = {"C22": [
    ("new", ctor("new", lambda c: [c.nat("n")])),
    ("zeros", ctor("zeros", lambda c: [c.nat("r"), c.nat("k")])),
    ("full", ctor("full", lambda c: [c.nat("r"), c.nat("k"), c.real("v")])),
    ("eye", ctor("eye", lambda c: [c.nat("n")])),
    ("from_diag", ctor("from_diag", lambda c: [c.ref(arr1(c, "v", c.nat("n")))])),
    ("from", ctor("from", lambda c: [c.vec("v", c.nat("n"))])),
    ("ones", ctor("ones", lambda c: [c.nat("n")])),
    ("from_fn", from_fn),
    ("from_shape_vec", ctor("from_shape_vec", lambda c: [c.nat("r"), c.nat("k"), c.vec("v", T.d_mul(c.nat("r"), c.nat("k")))])),
    ("with_data", ctor("with_data", lambda c: [c.vec("v", T.d_mul(c.nat("r"), c.nat("k"))), c.nat("r"), c.nat("k")])),
    ("row", row),
    ("From<Vec>", from_vec),
    ("From<&[f64]>", from_slice),
    ("linspace", ctor("arr::linspace", lambda c: [c.real("start"), c.real("end"), c.nat("n")])),
    ("arange", ctor("arr::arange", lambda c: [c.real("start"), c.real("end")])),
    ("make_same_shape", ctor("arr::make_same_shape", lambda c: [c.ref(arrg(c, "a"))])),
    ("accessors", accessors),
    ("equality", equality),
    ("clone", clone),
] + [("write %s read %s" % (w, r), rw_index(w, r)) for w, r in
     [("set", "get"), ("at_mut", "at"), ("index_mut", "index2"), ("index_mut2", "index"), ("set", "at_mut"), ("at_mut", "index2"), ("index_mut2", "at")]]}


for _n, _s in OBS["C22"]:
    # what is stored is read back bit for bit (ranges and spacings are computed: up to rounding)
    _s.rounded = _n not in ("linspace", "arange")


def assign_scalar(tr, m):
    def script(c):
        a = c.ref(arrg(c, "a"))
        c.tcall(OPS + tr, [ARR_T, F64], m, a, c.real("s"))
        seep(c, "a", a)
    return script


def assign_arr(tr, m):
    def script(c):
        a, b = c.ref(arrg(c, "a")), c.ref(arrg(c, "b"))
        c.tcall(OPS + tr, [ARR_T, RARR], m, a, b)
        seep(c, "a", a)
        seep(c, "b", b)
    return script


def bin_arr(tr, m, byref):
    def script(c):
        av = arrg(c, "a")
        a, b = c.ref(av), c.ref(arrg(c, "b"))
        r = c.tcall(OPS + tr, [RARR if byref else ARR_T, RARR], m, a if byref else av, b)
        see(c, "result", r)
        if byref:
            seep(c, "a", a)
        seep(c, "b", b)
    return script


def bin_scalar(tr, m, byref, swap=False):
    def script(c):
        av = arrg(c, "a")
        a = c.ref(av)
        s = c.real("s")
        ty = RARR if byref else ARR_T
        x = a if byref else av
        if swap:
            r = c.tcall(OPS + tr, [F64, ty], m, s, x)
        else:
            r = c.tcall(OPS + tr, [ty, F64], m, x, s)
        see(c, "result", r)
        if byref:
            seep(c, "a", a)
    return script


def neg(byref):
    def script(c):
        av = arrg(c, "a")
        a = c.ref(av)
        see(c, "result", c.tcall(OPS + "Neg", [RARR if byref else ARR_T], "neg", a if byref else av))
        if byref:
            seep(c, "a", a)
    return script


def dot_mv(c):
    a, x = c.ref(arrg(c, "a")), c.ref(arrg(c, "x"))
    see(c, "result", c.call(A + "dot_mv", a, x))
    seep(c, "a", a)
    seep(c, "x", x)


def dot(c):
    a, x = c.ref(arrg(c, "a")), c.ref(arrg(c, "x"))
    c.observe("result", c.call(A + "dot", a, x))


def outer(c):
    a, x = c.ref(arrg(c, "a")), c.ref(arrg(c, "x"))
    see(c, "result", c.call(A + "outer", a, x))


def rank_one(c):
    n = c.nat("n", 1)
    a, u = c.ref(arr2(c, "a", n, n)), c.ref(arr1(c, "u", n))
    c.call(A + "rank_one_update", a, c.real("alpha"), u)
    seep(c, "a", a)


def rank_one_shapes(c):
    n = c.nat("n", 1)
    u = c.ref(arrg(c, "u"))
    a = c.ref(V.merge(c.bool("a is 2-d"), arr2(c, "a", n, n), arr1(c, "a", n)))
    c.call(A + "rank_one_update", a, c.real("alpha"), u)


def copy_from(c):
    a, b = c.ref(arrg(c, "a")), c.ref(arrg(c, "b"))
    c.call(A + "copy_from", a, b)
    seep(c, "a", a)
    seep(c, "b", b)


def total(c):
    c.observe("sum", c.call(A + "sum", c.ref(arrg(c, "a"))))


def amap(c):
    a = c.ref(arrg(c, "a"))
    see(c, "map", c.call(A + "map", a, c.tok("f")))


def elementwise(f):
    def script(c):
        a = c.ref(arrg(c, "a"))
        see(c, f, c.call("arr::" + f, a))
        seep(c, "a", a)
    return script


SC = [("AddAssign", "add_assign"), ("SubAssign", "sub_assign"), ("MulAssign", "mul_assign"), ("DivAssign", "div_assign")]
OBS["C23"] = [("%s<f64>" % t, assign_scalar(t, m)) for t, m in SC] + \
    [("%s<&Arr>" % t, assign_arr(t, m)) for t, m in SC[:2]] + \
    [("%s %s<&Arr>" % ("&Arr" if r else "Arr", t), bin_arr(t, m, r)) for r in (0, 1) for t, m in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"))] + \
    [("%s %s<f64>" % ("&Arr" if r else "Arr", t), bin_scalar(t, m, r)) for r in (0, 1) for t, m in (("Mul", "mul"), ("Div", "div"))] + \
    [("f64 Mul<%s>" % ("&Arr" if r else "Arr"), bin_scalar("Mul", "mul", r, True)) for r in (0, 1)] + \
    [("Neg %s" % ("&Arr" if r else "Arr"), neg(r)) for r in (0, 1)] + \
    [("dot_mv", dot_mv), ("dot", dot), ("outer", outer), ("rank_one_update", rank_one), ("copy_from", copy_from), ("sum", total), ("map", amap)] + \
    [(f, elementwise(f)) for f in ("cos", "ln", "abs", "exp", "sqrt")]


def shp(c):
    see(c, "r", c.call(A + "from_shape_vec", c.nat("r"), c.nat("k"), c.vec("v", c.nat("n"))))


def wdt(c):
    see(c, "r", c.call(A + "with_data", c.vec("v", c.nat("n")), c.nat("r"), c.nat("k")))


def diag(c):
    see(c, "r", c.call(A + "from_diag", c.ref(arrg(c, "v"))))


def rowg(c):
    see(c, "r", c.call(A + "row", c.ref(arrg(c, "a")), c.nat("i")))


OBS["C24"] = [o for o in OBS["C23"] if "Arr>" in o[0] and not o[0].startswith("f64") or o[0] in ("dot_mv", "dot", "outer", "copy_from")] + [
    ("rank_one_update shapes", rank_one_shapes), ("from_shape_vec any length", shp), ("with_data any length", wdt), ("from_diag any shape", diag), ("row any index", rowg)]
