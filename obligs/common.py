from engine.oblig import *
from engine.models import OPTION

ARR = "arr::Arr"
ARR_T = adt(ARR)
SINGLE = "cutting_plane::SingleCut"
PARALLEL = "cutting_plane::ParallelCut"


def tau_tsq(c):
    tau = c.real("tau", pos=True)
    return tau, T.d_mul(tau, tau)


def names(c, v):
    ad = c.P.adt(v.name)
    if not ad or ad["kind"] != "struct":
        raise Missing("struct %s" % v.name)
    return [f[0] for f in ad["variants"][0]["fields"]]


def get_field(c, v, name):
    fs = names(c, v)
    if name not in fs:
        raise Missing("field %s of %s" % (name, v.name))
    return v.fs[fs.index(name)]


def with_field(c, v, name, x):
    fs = names(c, v)
    if name not in fs:
        raise Missing("field %s of %s" % (name, v.name))
    l = list(v.fs)
    l[fs.index(name)] = x
    return Struct(v.name, l)


def option(cond, v):
    return Enum(OPTION, ite(cond, leaf(1), leaf(0)), {0: [], 1: [v]})


def some(v):
    return Enum(OPTION, leaf(1), {0: [], 1: [v]})


def none():
    return Enum(OPTION, leaf(0), {0: []})


def arr1(c, nm, n):
    """one-dimensional array of arbitrary entries, built with the public constructor"""
    return c.call(ARR + "::from", c.vec(nm, n))


def arr2(c, nm, r, k):
    return c.call(ARR + "::from_shape_vec", r, k, c.vec(nm, T.d_mul(r, k)))


def single(b):
    return Struct(SINGLE, [b])


def parallel(b0, b1):
    return Struct(PARALLEL, [b0, b1])


def tup(*xs):
    return Struct("tuple", list(xs))


def arrg(c, nm):
    """array of either dimensionality and arbitrary size"""
    n, r, k = c.nat(nm + ".n"), c.nat(nm + ".rows", 1), c.nat(nm + ".cols", 1)
    two = c.bool(nm + " is 2-d")
    a = c.call(ARR + "::from", c.vec(nm, n))
    b = c.call(ARR + "::from_shape_vec", r, k, c.vec(nm, T.d_mul(r, k)))
    return V.merge(two, b, a)


def see(c, nm, a):
    """observe an array through its public accessors"""
    p = c.ref(a)
    seep(c, nm, p)


def seep(c, nm, p):
    c.observe(nm + ".rows()", c.call(ARR + "::rows", p))
    c.observe(nm + ".cols()", c.call(ARR + "::cols", p))
    c.observe(nm + ".data()", c.get(c.call(ARR + "::data", p)))


OPS = "core::ops::arith::"
RARR = ref(ARR_T)


def symm(c, nm, n):
    """symmetric n x n matrix data with arbitrary entries"""
    A = N.sym("[%s]" % nm, "a", unique=False)
    c.arrays[A.id] = ("spd",)
    return V.mk_arr(T.d_mul(n, n), lambda r, k: T._atom_leaf(T.ssel(A, r.val, k.val)), stride=n.val)


def arr2sym(c, nm, n):
    return c.call(ARR + "::from_shape_vec", n, n, symm(c, nm, n))


def upper(v, n):
    """keep the diagonal and what lies above it"""
    v = V.to_2d(v, n.val)
    r, k = [leaf(N.from_atom(s)) for s in v.syms]
    return Arr(v.len, v.syms, v.stride, ite(T.d_le(r, k), v.body, T.num(0)))


def when(cond, v):
    if isinstance(v, Arr):
        return Arr(v.len, v.syms, v.stride, when(cond, v.body))
    return V.vmap(lambda d: ite(cond, d, leaf("-")), v)


def data_of(c, a):
    return c.get(c.call(ARR + "::data", c.ref(a)))


def mkstruct(c, name, vals):
    """struct literal with named public fields"""
    ad = c.P.adt(name)
    if not ad or ad["kind"] != "struct":
        raise Missing("struct %s" % name)
    fs = [f[0] for f in ad["variants"][0]["fields"]]
    if set(fs) != set(vals):
        raise Missing("fields of %s" % name)
    return Struct(name, [vals[f] for f in fs])
