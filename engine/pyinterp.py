"""Abstract evaluation of compiled Python functions (see pyfront) and the models of numpy, math and the builtins."""
import ast
from fractions import Fraction as Q
from . import num as N, terms as T, values as V, interp as I, models as M, loops as L
from .num import Num, Atom, Unsupported
from .terms import DD, leaf, ite, AND, OR, NOT, TRUE, FALSE, UNDEF
from .values import Struct, Enum, Arr, Ptr
from .pyfront import PyFn, PyCls, Ext, OPTION, ND, LIST, NONE, ANY, F64T, BOOLT, OPQ

SHAPE = "py::shape"
SLICE = "py::slice"
UNITT = {"k": "tuple", "a": []}


def tupt(*a):
    return {"k": "tuple", "a": list(a)}


def optt(t):
    return {"k": "adt", "p": OPTION, "a": [t]}


STATUS = {"k": "adt", "p": "cutting_plane.CutStatus", "a": []}
CUT = tupt(OPQ, OPQ)
# what a user supplied oracle or search space answers, and whether it may change state doing so
OPAQUE = {"assess_feas": (True, optt(CUT)), "assess_optim": (True, tupt(CUT, BOOLT)), "assess_bs": (True, BOOLT),
          "assess_optim_q": (True, tupt(CUT, BOOLT, OPQ, BOOLT)),
          "update_bias_cut": (True, STATUS), "update_central_cut": (True, STATUS), "update_q": (True, STATUS),
          "xc": (False, OPQ), "tsq": (False, F64T), "set_xc": (True, UNITT), "update": (True, UNITT), "get_xc": (False, OPQ), "get_tsq": (False, F64T)}


def merge_hook(c, a, b):
    """None merged with something else"""
    def wrap(v):
        return Enum(OPTION, leaf(1), {0: [], 1: [v]})
    if isinstance(a, Enum) and a.name == OPTION and not (isinstance(b, Enum) and b.name == OPTION):
        return V.merge(c, a, wrap(b))
    if isinstance(b, Enum) and b.name == OPTION and not (isinstance(a, Enum) and a.name == OPTION):
        return V.merge(c, wrap(a), b)
    return None


V.MERGE_HOOK = merge_hook


def unwrap(v):
    while isinstance(v, Enum) and v.name == OPTION:
        p = v.pay.get(1)
        if not p:
            raise I.Raises("use of None")
        v = p[0]
    return v


Raises = I.Raises


def uns(m):
    raise Unsupported(m)


def lv(v):
    return list(T.leaves(v).values())


def is_num(v):
    return isinstance(v, DD) and all(isinstance(x, Num) for x in lv(v) if x is not UNDEF)


def is_bool(v):
    return isinstance(v, DD) and all(isinstance(x, bool) for x in lv(v))


def tonum(v):
    if is_bool(v):
        return ite(v, T.num(1), T.num(0))
    return v


def f1(fn):
    return lambda v: T.dd_mapn(fn, (v,))


def fcall(name):
    """scalar function through the f64 models"""
    m = M.F64[name]

    def go(*vs):
        class C:
            pass
        c = M.Call({"k": "fndef", "p": name, "a": []}, [tonum(x) for x in vs], None, F64T, {}, None)
        return m(None, c)
    return go


def const_int(v):
    if isinstance(v, DD) and v.leaf and isinstance(v.val, Num) and v.val.const is not None and v.val.const.denominator == 1:
        return int(v.val.const)
    return None


# ------------------------------------------------------------------------------------------------ arrays
def nd1(n, fn, note=""):
    return Struct(ND, [V.mk_arr(n, fn), T.num(1), n, T.num(1), leaf(note)])


def nd2(r, c, fn, note=""):
    if not c.leaf:
        raise Unsupported("conditional array width")
    k = const_int(c)
    if k is not None:
        if k == 1:
            data = V.mk_arr(r, lambda s: fn(s, T.num(0)))
        elif const_int(r) == 1:
            data = V.mk_arr(c, lambda s: fn(T.num(0), s))
        else:
            def g(s):
                q, m = V.decomp(s.val, c.val)
                return fn(leaf(q), leaf(m))
            data = V.mk_arr(T.d_mul(r, c), g)
    elif const_int(r) == 1:
        data = V.mk_arr(c, lambda s: fn(T.num(0), s))
    else:
        data = V.mk_arr(T.d_mul(r, c), fn, stride=c.val)
    return Struct(ND, [data, T.num(2), r, c, leaf(note)])


def ndim(a):
    k = const_int(T.restrict(a.fs[1]))
    if k is None:
        raise Unsupported("array of unknown dimensionality")
    return k


def at1(a, i):
    return V.aselect(a.fs[0], i)


def at2(a, i, j):
    d, w = a.fs[0], a.fs[3]
    if w.leaf and d.stride is w.val:
        return V.vsubst(d.body, T.Map({d.syms[0].id: i, d.syms[1].id: j}))
    if const_int(w) == 1:
        return V.aselect(d, i)
    if const_int(a.fs[2]) == 1:
        return V.aselect(d, j)
    return V.aselect(d, T.d_add(T.d_mul(i, w), j))


def esum(n, fn):
    """sum of fn(k) for 0 <= k < n"""
    n = T.restrict(n)
    k = L.fresh_idx(n.val if n.leaf else None)
    return L.mk_sum(n, k, fn(leaf(N.from_atom(k))))


def same(a, b):
    return a is b or T.restrict(T.d_eq(a, b)) is TRUE


def broadcast(fn, a, b):
    """a, b: ND structs or scalars"""
    if not isinstance(a, Struct) and not isinstance(b, Struct):
        return fn(a, b)
    if not isinstance(a, Struct):
        return emap(lambda x: fn(a, x), b)
    if not isinstance(b, Struct):
        return emap(lambda x: fn(x, b), a)
    na, nb = ndim(a), ndim(b)
    if na == 1 and nb == 1:
        if const_int(a.fs[2]) == 1 and const_int(b.fs[2]) != 1:
            return emap(lambda x: fn(at1(a, T.num(0)), x), b)
        if const_int(b.fs[2]) == 1 and const_int(a.fs[2]) != 1:
            return emap(lambda x: fn(x, at1(b, T.num(0))), a)
        return nd1(a.fs[2], lambda s: fn(at1(a, s), at1(b, s)))
    A = a if na == 2 else row_of(a)
    B = b if nb == 2 else row_of(b)

    def dim(x, y):
        if const_int(x) == 1:
            return y
        return x
    r, c = dim(A.fs[2], B.fs[2]), dim(A.fs[3], B.fs[3])
    z = T.num(0)

    def pick(X, i, j):
        return at2(X, z if const_int(X.fs[2]) == 1 else i, z if const_int(X.fs[3]) == 1 else j)
    return nd2(r, c, lambda i, j: fn(pick(A, i, j), pick(B, i, j)))


def row_of(a):
    return nd2(T.num(1), a.fs[2], lambda i, j: at1(a, j))


def emap(fn, a):
    if ndim(a) == 1:
        return nd1(a.fs[2], lambda s: fn(at1(a, s)))
    return nd2(a.fs[2], a.fs[3], lambda i, j: fn(at2(a, i, j)))


def matmul(a, b):
    na, nb = ndim(a), ndim(b)
    if na == 1 and nb == 1:
        return esum(a.fs[2], lambda k: T.d_mul(at1(a, k), at1(b, k)))
    if na == 2 and nb == 1:
        return nd1(a.fs[2], lambda i: esum(b.fs[2], lambda k: T.d_mul(at2(a, i, k), at1(b, k))))
    if na == 1 and nb == 2:
        return nd1(b.fs[3], lambda j: esum(a.fs[2], lambda k: T.d_mul(at1(a, k), at2(b, k, j))))
    return nd2(a.fs[2], b.fs[3], lambda i, j: esum(a.fs[3], lambda k: T.d_mul(at2(a, i, k), at2(b, k, j))))


def transpose(a):
    if ndim(a) == 1:
        return a
    return nd2(a.fs[3], a.fs[2], lambda i, j: at2(a, j, i), "view")


def size(a):
    return a.fs[0].len


def total(a):
    if ndim(a) == 1:
        return esum(a.fs[2], lambda k: at1(a, k))
    return esum(a.fs[2], lambda i: esum(a.fs[3], lambda j: at2(a, i, j)))


def copy(a, note=""):
    n = a.fs[4]
    keep = "sorted" if n.leaf and n.val == "sorted" else note
    return Struct(ND, a.fs[:4] + [leaf(keep)])


def outer(a, b):
    return nd2(a.fs[2], b.fs[2], lambda i, j: T.d_mul(at1(a, i), at1(b, j)))


# ------------------------------------------------------------------------------------------------ interpreter
class PyInterp(I.Interp):
    def __init__(self, prog):
        I.Interp.__init__(self, prog)
        self.floated = set()

    def rvalue(self, fr, st, r):
        if r[0] == "py":
            return self.pyop(r[1], [self.operand(fr, st, o) for o in r[2]], r[3], st)
        if r[0] == "pyfn":
            env = []
            for pl in r[2]:
                if pl["p"]:
                    p = st.get((fr.id, pl["l"]))
                    if not (isinstance(p, DD) and p.leaf and isinstance(p.val, Ptr)):
                        raise Unsupported("captured variable")
                    env.append(p.val)
                else:
                    env.append(Ptr((fr.id, pl["l"])))
            return leaf(PyFn(r[1], env))
        return I.Interp.rvalue(self, fr, st, r)

    # ---- helpers
    def arr(self, v, st):
        """array struct behind v, or None"""
        v = unwrap(v)
        if isinstance(v, Struct):
            return v if v.name == ND else None
        if isinstance(v, DD) and any(isinstance(x, Ptr) for x in lv(v)):
            w = self.load(st, v)
            return w if isinstance(w, Struct) and w.name == ND else None
        return None

    def lst(self, v, st):
        v = unwrap(v)
        if isinstance(v, DD) and any(isinstance(x, Ptr) for x in lv(v)):
            w = self.load(st, v)
            return w if isinstance(w, Struct) and w.name == LIST else None
        return None

    def val(self, v, st):
        """operand of arithmetic: scalar DD or array struct"""
        v = unwrap(v)
        a = self.arr(v, st)
        if a is not None:
            return a
        l = self.lst(v, st)
        if l is not None:
            return self.asarray(l, st)
        if isinstance(v, DD):
            v = tonum(v)
            if is_num(v):
                return v
            raise Unsupported("arithmetic on %r" % (lv(v)[0],))
        if isinstance(v, Struct) and v.name == "tuple":
            return self.asarray(v, st)
        raise Unsupported("arithmetic on %s" % type(v).__name__)

    def own(self, v, st):
        if isinstance(v, Struct) and v.name == ND:
            return leaf(Ptr(self.new_cell(st, v)))
        return v

    def obj(self, v, st):
        """(pointer, struct) of an instance"""
        v = unwrap(v)
        if isinstance(v, DD) and lv(v) and all(isinstance(x, Ptr) for x in lv(v)):
            return v, self.load(st, v)
        return None, None

    def asarray(self, v, st, note=""):
        v = unwrap(v)
        a = self.arr(v, st)
        if a is not None:
            return copy(a, note)
        l = self.lst(v, st)
        if l is not None:
            items = l.fs[0]
            if isinstance(items.body, DD) and not any(isinstance(x, Ptr) for x in lv(items.body)):
                return Struct(ND, [items, T.num(1), items.len, T.num(1), leaf("")])
            n = const_int(items.len)
            if n is None:
                raise Unsupported("array from a list of arrays")
            rows = [self.asarray(V.aselect(items, T.num(i)), st) for i in range(n)]
            return self.stack(rows)
        if isinstance(v, Struct) and v.name == "tuple":
            if v.fs and all(isinstance(x, DD) and is_num(tonum(x)) for x in v.fs):
                arr = I.arr_lit([tonum(x) for x in v.fs])
                return Struct(ND, [arr, T.num(1), arr.len, T.num(1), leaf("")])
            return self.stack([self.asarray(x, st) for x in v.fs])
        raise Unsupported("array from %s" % type(v).__name__)

    def stack(self, rows):
        if not rows or any(ndim(r) != 1 for r in rows):
            raise Unsupported("nested array literal")
        w = const_int(rows[0].fs[2])
        if w is None:
            raise Unsupported("nested array literal")
        flat = [at1(r, T.num(j)) for r in rows for j in range(w)]
        return Struct(ND, [I.arr_lit(flat), T.num(2), T.num(len(rows)), T.num(w), leaf("")])

    def mklist(self, arr, st):
        return leaf(Ptr(self.new_cell(st, Struct(LIST, [arr]))))

    def const_expr(self, src, mod, st):
        path = "<const %s> %s" % (mod, src)
        if path not in self.P.fns:
            node = ast.parse("def f():\n    return %s" % src).body[0]
            self.P.compile_fn(path, node, mod, None)
        if path not in self.P.fns:
            raise Unsupported("constant %s" % src)
        pc, v, s2 = self.invoke(self.P.fns[path], [], [], dict(st))
        if s2 is None:
            raise Unsupported("constant %s" % src)
        for k, x in s2.items():
            if k not in st:
                st[k] = x
        return v

    # ---- operations
    def pyop(self, name, a, x, st):
        return getattr(self, "op_" + name.replace("or", "or_") if name in ("or",) else "op_" + name)(a, x, st)

    def op_unsupported(self, a, x, st):
        raise Unsupported(x)

    def op_none(self, a, x, st):
        return NONE

    def op_const(self, a, x, st):
        if x is None:
            return NONE
        if x is True or x is False:
            return TRUE if x else FALSE
        if isinstance(x, int):
            return T.num(x)
        if isinstance(x, float):
            return I.float_const({"v": repr(x)})
        if isinstance(x, str):
            return leaf("str:" + x)
        if x is Ellipsis:
            return leaf("str:...")
        raise Unsupported("constant %r" % (x,))

    def op_global(self, a, x, st):
        k = x[0]
        if k == "ext":
            p = x[1]
            if p in ("np.inf", "math.inf", "np.Inf"):
                return I.float_const({"v": "inf"})
            if p in ("np.newaxis",):
                return NONE
            if p in ("np.pi", "math.pi"):
                return leaf(N.from_atom(M.PI))
            if p in ("np.nan", "math.nan"):
                return I.float_const({"v": "nan"})
            return leaf(Ext(p))
        if k == "class":
            return leaf(PyCls(x[1]))
        if k == "fn":
            return leaf(PyFn(x[1]))
        if k == "expr":
            return self.const_expr(x[1], x[2], st)
        if k == "member":
            return self.member(x[1], x[2], st)
        raise Unsupported("global %s" % (x,))

    def member(self, path, name, st, bound=None):
        c = self.P.classes[path]
        if c.members is not None and name in c.members:
            i = c.members.index(name)
            return Enum(path, leaf(i), {i: []})
        k, mp = self.P.find_method(path, name)
        if k is not None:
            kind = k.kinds[name]
            if kind == "class":
                return leaf(PyFn(mp, (), leaf(PyCls(path))))
            if kind == "static" or bound is None:
                return leaf(PyFn(mp))
            return leaf(PyFn(mp, (), bound))
        for p in self.P.mro(path):
            k = self.P.classes.get(p)
            if k and name in k.consts:
                return self.const_expr(ast.unparse(k.consts[name]), k.mod, st)
        raise Unsupported("attribute %s of %s" % (name, path))

    def op_bind(self, a, x, st):
        return a[0]

    def op_own(self, a, x, st):
        return self.own(a[0], st)

    def op_tuple(self, a, x, st):
        return Struct("tuple", [self.own(v, st) for v in a])

    def op_list(self, a, x, st):
        vals = [self.arr(v, st) if self.arr(v, st) is not None else v for v in a]
        return self.mklist(I.arr_lit(vals) if vals else V.mk_arr(T.num(0), lambda s: UNDEF), st)

    def op_slice(self, a, x, st):
        return Struct(SLICE, a)

    def op_and(self, a, x, st):
        return AND(self.truth(a[0], st), self.truth(a[1], st))

    def op_or_(self, a, x, st):
        return OR(self.truth(a[0], st), self.truth(a[1], st))

    def op_truth(self, a, x, st):
        return self.truth(a[0], st)

    def truth(self, v, st):
        if isinstance(v, Enum) and v.name == OPTION:
            c = T.dd_mapn(lambda t: TRUE if t == 1 else FALSE, (v.tag,))
            if c is FALSE or not v.pay.get(1):
                return c
            w = v.pay[1][0]
            with T.assume(c):
                return AND(c, self.truth(w, st))
        if is_bool(v):
            return v
        if is_num(v):
            return NOT(T.d_eq(v, T.num(0)))
        if isinstance(v, Enum):
            return TRUE
        l = self.lst(v, st)
        if l is not None:
            return NOT(T.d_eq(l.fs[0].len, T.num(0)))
        if self.arr(v, st) is not None:
            a = self.arr(v, st)
            if const_int(size(a)) == 1:
                return NOT(T.d_eq(at1(a, T.num(0)), T.num(0)))
            raise Unsupported("truth of an array")
        if isinstance(v, Struct) and v.name == "tuple":
            return TRUE if v.fs else FALSE
        if isinstance(v, DD) and all(isinstance(x, (Ptr, PyFn, PyCls)) for x in lv(v)):
            return TRUE
        raise Unsupported("truth of %r" % (v,))

    def op_un(self, a, x, st):
        if x == "Not":
            return NOT(self.truth(a[0], st))
        v = self.val(a[0], st)
        if x == "USub":
            return emap(T.d_neg, v) if isinstance(v, Struct) else T.d_neg(v)
        if x == "UAdd":
            return copy(v) if isinstance(v, Struct) else v
        raise Unsupported("operator %s" % x)

    SC = {"Add": T.f_add, "Sub": T.f_sub, "Mult": T.f_mul, "Div": T.f_div}

    def op_bin(self, a, x, st):
        u, w = unwrap(a[0]), unwrap(a[1])
        if x == "Add" and isinstance(u, Struct) and isinstance(w, Struct) and u.name == "tuple" == w.name:
            return Struct("tuple", u.fs + w.fs)
        if isinstance(u, DD) and is_bool(u) and isinstance(w, DD) and is_bool(w) and x in ("BitAnd", "BitOr", "BitXor"):
            return AND(u, w) if x == "BitAnd" else OR(u, w) if x == "BitOr" else ite(u, NOT(w), w)
        if isinstance(u, DD) and u.leaf and isinstance(u.val, str):
            return leaf("str:?")
        p, q = self.val(u, st), self.val(w, st)
        if x == "MatMult":
            if not isinstance(p, Struct) or not isinstance(q, Struct):
                raise Unsupported("@ on a scalar")
            return matmul(p, q)
        f = self.SC.get(x)
        if f is None:
            if x == "Pow":
                f = lambda s, t: T.dd_mapn(M.powf, (s, t))
            elif x == "FloorDiv":
                f = lambda s, t: T.dd_mapn(self.floordiv, (s, t))
            elif x == "Mod":
                f = lambda s, t: T.d_sub(s, T.d_mul(t, T.dd_mapn(self.floordiv, (s, t))))
            else:
                raise Unsupported("operator %s" % x)
        return broadcast(f, p, q)

    @staticmethod
    def floordiv(x, y):
        if x.const is not None and y.const is not None and y.const != 0:
            q = x.const / y.const
            return N.const(q.numerator // q.denominator)
        if y.const is not None and y.const > 0 and all(N._atoms[i].sort == "i" for i in N.p_atoms(x.n)) and x.is_poly():
            return V.idiv(x, y)
        return N.from_atom(N.app("floor", [N.div(x, y)], "r"))

    def op_iop(self, a, x, st):
        cur = unwrap(a[0])
        t = self.arr(cur, st)
        if t is None or isinstance(cur, Struct):
            return self.op_bin([cur, a[1]], x, st)
        if any(s == "view" for s in lv(t.fs[4])):
            raise Unsupported("in-place change of a view")
        r = self.op_bin([t, a[1]], x, st)
        if x == "MatMult":
            raise Unsupported("@=")
        self.store(st, cur, Struct(ND, [r.fs[0]] + t.fs[1:4] + [leaf("")]))
        return cur

    def op_cmp(self, a, x, st):
        u, w = a
        if x in ("NotEq", "IsNot", "NotIn"):
            r = self.op_cmp(a, {"NotEq": "Eq", "IsNot": "Is", "NotIn": "In"}[x], st)
            return NOT(r) if isinstance(r, DD) else emap(lambda d: NOT(d), r)
        if x == "In":
            c = unwrap(w)
            if isinstance(c, Struct) and c.name == "tuple":
                r = FALSE
                for e in c.fs:
                    r = OR(r, self.eq(u, e, st))
                return r
            l = self.lst(c, st)
            if l is not None and const_int(l.fs[0].len) is not None:
                r = FALSE
                for i in range(const_int(l.fs[0].len)):
                    r = OR(r, self.eq(u, V.aselect(l.fs[0], T.num(i)), st))
                return r
            raise Unsupported("membership")
        if x in ("Is", "Eq"):
            return self.eq(u, w, st, x == "Is")
        p, q = self.val(u, st), self.val(w, st)
        f = {"Lt": T.d_lt, "LtE": T.d_le, "Gt": lambda s, t: T.d_lt(t, s), "GtE": lambda s, t: T.d_le(t, s)}[x]
        return broadcast(f, p, q)

    def eq(self, u, w, st, ident=False):
        def isnone(v):
            return isinstance(v, Enum) and v.name == OPTION and v.tag.leaf and v.tag.val == 0
        if isnone(u):
            u, w = w, u
        if isnone(w):
            if isinstance(u, Enum) and u.name == OPTION:
                return T.dd_mapn(lambda t: TRUE if t == 0 else FALSE, (u.tag,))
            if isinstance(u, DD) and any(isinstance(x, Atom) and x.sort == "o" for x in lv(u)):
                raise Unsupported("None test of an opaque value")
            return FALSE
        if isinstance(u, Enum) and u.name == OPTION and not (isinstance(w, Enum) and w.name == OPTION):
            c = T.dd_mapn(lambda t: TRUE if t == 1 else FALSE, (u.tag,))
            return AND(c, self.eq(unwrap(u), w, st, ident))
        if isinstance(w, Enum) and w.name == OPTION and not (isinstance(u, Enum) and u.name == OPTION):
            return self.eq(w, u, st, ident)
        if isinstance(u, Enum) and isinstance(w, Enum):
            if u.name != w.name:
                return FALSE
            if u.name == OPTION:
                raise Unsupported("comparison of optional values")
            return T.dd_mapn(lambda s, t: TRUE if s == t else FALSE, (u.tag, w.tag))
        if isinstance(u, Enum) or isinstance(w, Enum):
            return FALSE
        if isinstance(u, DD) and isinstance(w, DD):
            if is_bool(u) and is_bool(w):
                return ite(u, w, NOT(w))
            a, b = tonum(u), tonum(w)
            if is_num(a) and is_num(b):
                return T.d_eq(a, b)
            if all(isinstance(x, str) for x in lv(u) + lv(w)):
                return T.dd_mapn(lambda s, t: TRUE if s == t else FALSE, (u, w))
            if ident and all(isinstance(x, (Ptr, PyCls, PyFn, Ext)) for x in lv(u) + lv(w)):
                return T.dd_mapn(lambda s, t: TRUE if s.key == t.key else FALSE, (u, w))
        if isinstance(u, Struct) and isinstance(w, Struct):
            if w.name == SHAPE and u.name != SHAPE:
                u, w = w, u
            if u.name == SHAPE:
                if w.name == SHAPE:
                    return AND(T.d_eq(u.fs[0], w.fs[0]), AND(T.d_eq(u.fs[1], w.fs[1]), OR(T.d_eq(u.fs[0], T.num(1)), T.d_eq(u.fs[2], w.fs[2]))))
                if w.name == "tuple":
                    r = T.d_eq(u.fs[0], T.num(len(w.fs)))
                    for d, e in zip(u.fs[1:], w.fs):
                        r = AND(r, T.d_eq(d, unwrap(e)))
                    return r
            if u.name == w.name == "tuple":
                if len(u.fs) != len(w.fs):
                    return FALSE
                r = TRUE
                for d, e in zip(u.fs, w.fs):
                    r = AND(r, self.eq(d, e, st))
                return r
        if ident:
            raise Unsupported("identity of values")
        p, q = self.val(u, st), self.val(w, st)
        return broadcast(T.d_eq, p, q)

    def op_unpack(self, a, x, st):
        i, n = x
        v = unwrap(a[0])
        if isinstance(v, Struct) and v.name == "tuple":
            if len(v.fs) != n:
                raise Raises("unpacking %d values into %d" % (len(v.fs), n))
            return v.fs[i]
        if isinstance(v, Struct) and v.name == SHAPE:
            return v.fs[1 + i]
        if isinstance(v, DD) and (is_num(v) or is_bool(v)):
            raise Raises("unpacking a number")
        return self.op_getitem([v, T.num(i)], None, st)

    # ---- attributes
    def op_getattr(self, a, x, st):
        v = unwrap(a[0])
        nd = self.arr(v, st)
        if nd is not None:
            if x == "shape":
                return Struct(SHAPE, [nd.fs[1], nd.fs[2], nd.fs[3]])
            if x == "ndim":
                return nd.fs[1]
            if x == "size":
                return size(nd)
            if x == "T":
                return transpose(nd)
            return leaf(PyFn("<array>." + x, (), v if isinstance(v, DD) else leaf(Ptr(self.new_cell(st, v)))))
        if isinstance(v, DD) and v.leaf and isinstance(v.val, PyCls):
            return self.member(v.val.path, x, st)
        if isinstance(v, DD) and v.leaf and isinstance(v.val, Ext):
            return leaf(Ext(v.val.path + "." + x))
        if isinstance(v, Enum):
            raise Unsupported("attribute %s of an enumeration" % x)
        p, o = self.obj(v, st)
        if isinstance(o, Struct) and o.name in self.P.classes:
            c = self.P.classes[o.name]
            if x in c.fields:
                r = o.fs[c.fields.index(x)]
                if r is UNDEF:
                    for q in self.P.mro(o.name):
                        k = self.P.classes.get(q)
                        if k and x in k.consts:
                            return self.const_expr(ast.unparse(k.consts[x]), k.mod, st)
                    raise Unsupported("attribute %s read before it is set" % x)
                return r
            return self.member(o.name, x, st, v)
        if isinstance(o, DD):
            return leaf(PyFn("<opaque>." + x, (), v))
        raise Unsupported("attribute %s of %r" % (x, v))

    # ---- indexing
    def norm_index(self, i, n):
        k = const_int(i)
        if k is not None and k < 0:
            return T.d_add(n, i)
        return i

    def slice_bounds(self, s, n):
        lo, hi, step = s.fs
        if not (isinstance(step, Enum) and step.name == OPTION and step.tag.leaf and step.tag.val == 0):
            if const_int(unwrap(step)) != 1:
                raise Unsupported("slice step")
        none = lambda v: isinstance(v, Enum) and v.name == OPTION and v.tag.leaf and v.tag.val == 0
        l = T.num(0) if none(lo) else self.norm_index(unwrap(lo), n)
        h = n if none(hi) else self.norm_index(unwrap(hi), n)
        return l, h

    def op_getitem(self, a, x, st):
        v, i = unwrap(a[0]), a[1]
        isnone = isinstance(i, Enum) and i.name == OPTION and i.tag.leaf and i.tag.val == 0
        if isinstance(v, DD) and v.leaf and isinstance(v.val, (Ext, PyCls)):
            return v          # subscripted type
        if isinstance(v, Struct) and v.name == "tuple":
            k = const_int(unwrap(i))
            if k is None:
                return V.aselect(I.arr_lit(v.fs), unwrap(i))
            return v.fs[k]
        if isinstance(v, Struct) and v.name == SHAPE:
            k = const_int(unwrap(i))
            if k in (0, 1):
                return v.fs[1 + k]
            if k == -1:
                nd = const_int(v.fs[0])
                if nd is not None:
                    return v.fs[nd]
            raise Unsupported("shape index")
        l = self.lst(v, st)
        if l is not None:
            items = l.fs[0]
            if isinstance(i, Struct) and i.name == SLICE:
                lo, hi = self.slice_bounds(i, items.len)
                return self.mklist(V.mk_arr(T.d_sub(hi, lo), lambda s: V.aselect(items, T.d_add(lo, s))), st)
            r = V.aselect(items, self.norm_index(unwrap(i), items.len))
            return copy(r, "view") if isinstance(r, Struct) and r.name == ND else r
        nd = self.arr(v, st)
        if nd is None:
            raise Unsupported("index into %r" % (v,))
        d = ndim(nd)
        ix = list(i.fs) if isinstance(i, Struct) and i.name == "tuple" else [i]
        return self.select(nd, d, ix, st)

    def select(self, nd, d, ix, st):
        none = lambda v: isinstance(v, Enum) and v.name == OPTION and v.tag.leaf and v.tag.val == 0
        sl = lambda v: isinstance(v, Struct) and v.name == SLICE
        if d == 1:
            n = nd.fs[2]
            if len(ix) == 1 and sl(ix[0]):
                lo, hi = self.slice_bounds(ix[0], n)
                return nd1(T.d_sub(hi, lo), lambda s: at1(nd, T.d_add(lo, s)), "view")
            if len(ix) == 1 and not none(ix[0]):
                return at1(nd, self.norm_index(unwrap(ix[0]), n))
            if len(ix) == 2 and sl(ix[0]) and none(ix[1]):
                lo, hi = self.slice_bounds(ix[0], n)
                return nd2(T.d_sub(hi, lo), T.num(1), lambda i, j: at1(nd, T.d_add(lo, i)), "view")
            if (len(ix) == 2 and none(ix[0]) and sl(ix[1])) or (len(ix) == 1 and none(ix[0])):
                return nd2(T.num(1), n, lambda i, j: at1(nd, j), "view")
            raise Unsupported("array index")
        r, c = nd.fs[2], nd.fs[3]
        if len(ix) == 1:
            ix = ix + [Struct(SLICE, [NONE, NONE, NONE])]
        if len(ix) != 2 or any(none(x) for x in ix):
            raise Unsupported("array index")
        i, j = ix
        if not sl(i) and not sl(j):
            return at2(nd, self.norm_index(unwrap(i), r), self.norm_index(unwrap(j), c))
        if not sl(i):
            i = self.norm_index(unwrap(i), r)
            lo, hi = self.slice_bounds(j, c)
            return nd1(T.d_sub(hi, lo), lambda s: at2(nd, i, T.d_add(lo, s)), "view")
        if not sl(j):
            j = self.norm_index(unwrap(j), c)
            lo, hi = self.slice_bounds(i, r)
            return nd1(T.d_sub(hi, lo), lambda s: at2(nd, T.d_add(lo, s), j), "view")
        lo, hi = self.slice_bounds(i, r)
        lo2, hi2 = self.slice_bounds(j, c)
        return nd2(T.d_sub(hi, lo), T.d_sub(hi2, lo2), lambda p, q: at2(nd, T.d_add(lo, p), T.d_add(lo2, q)), "view")

    def op_setitem(self, a, x, st):
        v, i, w = a
        v = unwrap(v)
        l = self.lst(v, st)
        if l is not None:
            items = l.fs[0]
            e = self.arr(w, st)
            self.store(st, v, Struct(LIST, [V.astore(items, self.norm_index(unwrap(i), items.len), copy(e) if e is not None else w)]))
            return v
        nd = self.arr(v, st)
        if nd is None:
            raise Unsupported("item assignment to %r" % (v,))
        if any(s == "view" for s in lv(nd.fs[4])):
            raise Unsupported("in-place change of a view")
        d = ndim(nd)
        ix = list(i.fs) if isinstance(i, Struct) and i.name == "tuple" else [i]
        new = self.put(nd, d, ix, self.val(w, st))
        if isinstance(v, Struct):
            return new
        self.store(st, v, new)
        return v

    def put(self, nd, d, ix, w):
        sl = lambda v: isinstance(v, Struct) and v.name == SLICE
        rest = nd.fs[1:4] + [leaf("")]
        if d == 1 and len(ix) == 1:
            n = nd.fs[2]
            if not sl(ix[0]):
                return Struct(ND, [V.astore(nd.fs[0], self.norm_index(unwrap(ix[0]), n), w)] + rest)
            lo, hi = self.slice_bounds(ix[0], n)

            def f(s):
                c = AND(T.d_le(lo, s), T.d_lt(s, hi))
                return ite(c, at1(w, T.d_sub(s, lo)) if isinstance(w, Struct) else w, at1(nd, s))
            return Struct(ND, [V.mk_arr(n, f)] + rest)
        if d == 2:
            r, c = nd.fs[2], nd.fs[3]
            if len(ix) == 1:
                ix = ix + [Struct(SLICE, [NONE, NONE, NONE])]
            i, j = ix
            if not sl(i) and not sl(j):
                i, j = self.norm_index(unwrap(i), r), self.norm_index(unwrap(j), c)
                data = nd.fs[0]
                if data.stride is not None:
                    cond = AND(T.d_eq(leaf(N.from_atom(data.syms[0])), i), T.d_eq(leaf(N.from_atom(data.syms[1])), j))
                    return Struct(ND, [Arr(data.len, data.syms, data.stride, V.merge(cond, w, data.body))] + rest)
                return Struct(ND, [V.astore(data, T.d_add(T.d_mul(i, c), j), w)] + rest)
            li, hi = self.slice_bounds(i, r) if sl(i) else (self.norm_index(unwrap(i), r), None)
            lj, hj = self.slice_bounds(j, c) if sl(j) else (self.norm_index(unwrap(j), c), None)

            def g(p, q):
                cond = AND(AND(T.d_le(li, p), T.d_lt(p, hi)) if hi is not None else T.d_eq(p, li), AND(T.d_le(lj, q), T.d_lt(q, hj)) if hj is not None else T.d_eq(q, lj))
                if isinstance(w, Struct):
                    if ndim(w) == 2:
                        x = at2(w, T.d_sub(p, li), T.d_sub(q, lj))
                    else:
                        x = at1(w, T.d_sub(q, lj) if hj is not None else T.d_sub(p, li))
                else:
                    x = w
                return ite(cond, x, at2(nd, p, q))
            n = nd2(r, c, g)
            return Struct(ND, [n.fs[0]] + rest)
        raise Unsupported("array item assignment")

    # ---- iteration
    def op_iter(self, a, x, st):
        v = unwrap(a[0])
        if isinstance(v, Struct) and v.name.startswith("py::it:"):
            return v
        if self.lst(v, st) is not None or self.arr(v, st) is not None or isinstance(v, Struct) and v.name in ("tuple", SHAPE):
            return Struct("py::it:seq", [v])
        raise Unsupported("iteration over %r" % (v,))

    def seqlen(self, v, st):
        v = unwrap(v)
        if isinstance(v, Struct) and v.name == "tuple":
            return T.num(len(v.fs))
        if isinstance(v, Struct) and v.name == SHAPE:
            return v.fs[0]
        if isinstance(v, Struct) and v.name.startswith("py::it:"):
            return self.itlen(v, st)
        l = self.lst(v, st)
        if l is not None:
            return l.fs[0].len
        nd = self.arr(v, st)
        if nd is not None:
            return nd.fs[2]
        raise Unsupported("len of %r" % (v,))

    def itlen(self, it, st):
        k = it.name[7:]
        if k == "range":
            lo, hi = it.fs[0], it.fs[1]
            d = T.d_sub(hi, lo) if const_int(it.fs[2]) == 1 else T.d_sub(lo, hi)
            return ite(T.d_lt(T.num(0), d), d, T.num(0))
        if k == "seq":
            return self.seqlen(it.fs[0], st)
        if k == "enum":
            return self.itlen(it.fs[1], st)
        if k == "zip":
            n = self.itlen(it.fs[0], st)
            for x in it.fs[1:]:
                m = self.itlen(x, st)
                n = ite(T.d_lt(m, n), m, n)
            return n
        raise Unsupported("iterator")

    def op_iterhas(self, a, x, st):
        it, k = a

        def has(it):
            kind = it.name[7:]
            if kind == "range":
                if const_int(it.fs[2]) == 1:
                    return T.d_lt(T.d_add(it.fs[0], k), it.fs[1])
                return T.d_lt(it.fs[1], T.d_sub(it.fs[0], k))
            if kind == "seq":
                return T.d_lt(k, self.seqlen(it.fs[0], st))
            if kind == "enum":
                return has(it.fs[1])
            if kind == "zip":
                r = TRUE
                for y in it.fs:
                    r = AND(r, has(y))
                return r
            raise Unsupported("iterator")
        return has(it)

    def op_iteritem(self, a, x, st):
        it, k = a

        def item(it):
            kind = it.name[7:]
            if kind == "range":
                return T.d_add(it.fs[0], k) if const_int(it.fs[2]) == 1 else T.d_sub(it.fs[0], k)
            if kind == "seq":
                return self.op_getitem([it.fs[0], k], None, st)
            if kind == "enum":
                return Struct("tuple", [T.d_add(it.fs[0], k), item(it.fs[1])])
            if kind == "zip":
                return Struct("tuple", [item(y) for y in it.fs])
            raise Unsupported("iterator")
        return item(it)

    # ---- calls
    def call(self, fr, st, t):
        try:
            return self.call_py(fr, st, t)
        except Raises:
            return TRUE, None

    def call_py(self, fr, st, t):
        kind = t.get("py")
        if kind is None:
            return I.Interp.call(self, fr, st, t)
        if kind == "raise":
            return TRUE, None
        args = [self.operand(fr, st, a) for a in t["args"]]
        kw = t.get("kw") or []
        n = len(args) - len(kw)
        kws = dict(zip(kw, args[n:]))
        args = args[:n]
        if kind == "call":
            pc, ret, st = self.call_any(args[0], args[1:], kws, st)
        elif kind == "method":
            pc, ret, st = self.call_method(args[0], t["attr"], args[1:], kws, st)
        elif kind == "getprop":
            pc, ret, st = self.getprop(args[0], t["attr"], st)
        elif kind == "setattr":
            pc, ret, st = self.setattr(args[0], t["attr"], args[1], st)
        elif kind == "super":
            pc, ret, st = self.call_super(t["cls"], t["attr"], args, st)
        elif kind == "comp":
            pc, ret, st = self.comp(args[0], args[1], st)
        else:
            raise Unsupported("call kind %s" % kind)
        if st is None or ret is None:
            return pc, None
        self.write_place(fr, st, t["dst"], ret)
        return pc, st

    def getprop(self, v, attr, st):
        p, o = self.obj(v, st)
        if isinstance(o, Struct) and o.name in self.P.classes:
            k, mp = self.P.find_method(o.name, attr)
            if k is not None and attr in k.props:
                return self.run_fn(mp, [v], {}, st)
        return FALSE, self.op_getattr([v], attr, st), st

    def setattr(self, v, attr, w, st):
        p, o = self.obj(v, st)
        if not (isinstance(o, Struct) and o.name in self.P.classes):
            raise Unsupported("attribute assignment to %r" % (v,))
        k, mp = self.P.find_method(o.name, attr + "=")
        if k is not None:
            return self.run_fn(mp, [v, w], {}, st)
        c = self.P.classes[o.name]
        if attr not in c.fields:
            raise Unsupported("attribute %s" % attr)
        self.store(st, T.dd_mapn(lambda q: leaf(q.add(("f", c.fields.index(attr)))), (p,)), self.own(w, st))
        return FALSE, NONE, st

    def call_super(self, cls, attr, args, st):
        for b in self.P.mro(cls)[1:]:
            c = self.P.classes.get(b)
            if c and attr in c.methods:
                return self.run_fn(b + "." + attr, args, {}, st)
        return FALSE, NONE, st

    def run_fn(self, path, args, kws, st, env=()):
        fn = self.P.fns.get(path)
        if fn is None:
            raise Unsupported("function %s is outside the analysis" % path)
        params = fn["params"]
        if len(args) > len(params):
            return TRUE, None, None
        vals = dict(zip(params, args))
        for k, v in kws.items():
            if k in vals or k not in params + fn["kwonly"]:
                return TRUE, None, None
            vals[k] = v
        out = [leaf(p) for p in env]
        for p in params + fn["kwonly"]:
            if p in vals:
                out.append(vals[p])
            elif p in fn["defaults"]:
                out.append(self.const_expr(fn["defaults"][p], fn["mod"], st))
            else:
                return TRUE, None, None     # missing argument
        return self.invoke(fn, [], out, st)

    def invoke(self, fn, targs, args, st):
        pc, ret, st2 = I.Interp.invoke(self, fn, targs, args, st)
        return pc, ret, st2

    def call_any(self, f, args, kws, st):
        try:
            return self.call_any0(f, args, kws, st)
        except Raises:
            return TRUE, None, None

    def call_any0(self, f, args, kws, st):
        f = unwrap(f)
        if not isinstance(f, DD):
            raise Unsupported("call of %r" % (f,))
        if not f.leaf:
            c = T.mk(f.dec, TRUE, FALSE)
            with T.assume(c):
                p1, r1, s1 = self.call_any(f.t, args, kws, dict(st))
            with T.assume(NOT(c)):
                p2, r2, s2 = self.call_any(f.f, args, kws, dict(st))
            if s1 is None and s2 is None:
                return TRUE, None, None
            pc = ite(c, p1, p2)
            if s1 is None:
                return OR(pc, c), r2, s2
            if s2 is None:
                return OR(pc, NOT(c)), r1, s1
            return pc, V.merge(c, r1, r2), I.merge_states(c, s1, s2)
        g = f.val
        if isinstance(g, PyFn):
            if g.path.startswith("<array>.") or g.path.startswith("<opaque>."):
                return self.call_method(g.bound, g.path.split(".", 1)[1], args, kws, st)
            pre = [g.bound] if g.bound is not None else []
            return self.run_fn(g.path, pre + list(args), kws, st, g.env)
        if isinstance(g, PyCls):
            return self.instantiate(g.path, args, kws, st)
        if isinstance(g, Ext):
            h = EXT.get(g.path)
            if h is None:
                raise Unsupported("call to %s" % g.path)
            self.opaque.add(g.path) if g.path.startswith("np.linalg.eig") else None
            return FALSE, h(self, list(args), kws, st), st
        if isinstance(g, Atom):
            return self.opaque_call("call", [f] + list(args), [None] * (len(args) + 1), OPQ, st)
        raise Unsupported("call of %r" % (g,))

    def instantiate(self, path, args, kws, st):
        c = self.P.classes[path]
        if c.members is not None:
            raise Unsupported("enumeration by value")
        p = leaf(Ptr(self.new_cell(st, Struct(path, [UNDEF] * len(c.fields)))))
        k, mp = self.P.find_method(path, "__init__")
        if k is None:
            return FALSE, p, st
        pc, r, st2 = self.run_fn(mp, [p] + list(args), kws, st)
        if st2 is None:
            return pc, None, None
        return pc, p, st2

    def call_method(self, v, attr, args, kws, st):
        v = unwrap(v)
        nd = self.arr(v, st)
        if nd is not None:
            return FALSE, self.array_method(v, nd, attr, args, kws, st), st
        l = self.lst(v, st)
        if l is not None:
            if attr == "append":
                items = l.fs[0]
                e = self.arr(args[0], st)
                w = copy(e) if e is not None else args[0]
                n = items.len
                ext = Arr(T.d_add(n, T.num(1)), items.syms, items.stride, items.body)
                if const_int(n) == 0:
                    ext = V.mk_arr(T.num(1), lambda s: w)
                else:
                    ext = V.mk_arr(T.d_add(n, T.num(1)), lambda s: V.merge(T.d_eq(s, n), w, V.aselect(items, s)))
                self.store(st, v, Struct(LIST, [ext]))
                return FALSE, NONE, st
            if attr == "copy":
                return FALSE, self.mklist(l.fs[0], st), st
            raise Unsupported("list.%s" % attr)
        if isinstance(v, DD) and v.leaf and isinstance(v.val, (PyCls, Ext)):
            return self.call_any(self.op_getattr([v], attr, st), args, kws, st)
        p, o = self.obj(v, st)
        if isinstance(o, Struct) and o.name in self.P.classes:
            k, mp = self.P.find_method(o.name, attr)
            c = self.P.classes[o.name]
            if k is not None and attr not in k.props and not (attr in c.fields):
                if k.kinds[attr] == "class":
                    return self.run_fn(mp, [leaf(PyCls(o.name))] + args, kws, st)
                if k.kinds[attr] == "static":
                    return self.run_fn(mp, args, kws, st)
                return self.run_fn(mp, [v] + args, kws, st)
            f = self.op_getattr([v], attr, st)
            if self.arr(f, st) is not None or is_num(unwrap(f)):
                return TRUE, None, None      # 'ndarray' object is not callable
            return self.call_any(f, args, kws, st)
        if isinstance(o, DD):
            if kws:
                raise Unsupported("keyword arguments to a user supplied object")
            mut, ty = OPAQUE.get(attr, (True, OPQ))
            aty = [{"k": "ref", "m": mut, "t": OPQ}] + [None] * len(args)
            return self.opaque_call("py:" + attr, [v] + [self.bare(x, st) for x in args], aty, ty, st)
        if isinstance(v, DD) and v.leaf and isinstance(v.val, str):
            return FALSE, leaf("str:?"), st
        raise Unsupported("method %s of %r" % (attr, v))

    def bare(self, x, st):
        """what a user supplied object sees of an argument"""
        if isinstance(x, Enum) and x.name == OPTION:
            t = T.restrict(x.tag)
            if t.leaf and t.val == 1:
                x = x.pay[1][0]
            elif t.leaf:
                return NONE
            else:
                return Enum(OPTION, x.tag, {k: [self.bare(y, st) for y in p] for k, p in x.pay.items()})
        a = self.arr(x, st) if self.arr_maybe(x, st) else None
        if a is not None:
            return Struct(ND, a.fs[:4] + [leaf("")])
        if isinstance(x, Struct) and x.name == "tuple":
            return Struct("tuple", [self.bare(y, st) for y in x.fs])
        return x

    def arr_maybe(self, x, st):
        try:
            return self.arr(x, st) is not None
        except Unsupported:
            return False

    def array_method(self, v, nd, attr, args, kws, st):
        if kws and attr not in ("copy", "astype", "sum"):
            raise Unsupported("keyword of ndarray.%s" % attr)
        if attr in ("copy", "__copy__", "astype"):
            return copy(nd)
        if attr == "sum" and not args and not kws:
            return total(nd)
        if attr == "dot":
            return matmul(nd, self.val(args[0], st))
        if attr == "transpose" and not args:
            return transpose(nd)
        if attr in ("flatten", "ravel") and ndim(nd) == 1:
            return copy(nd, "view" if attr == "ravel" else "")
        if attr == "reshape":
            d = [const_int(unwrap(x)) for x in (args[0].fs if len(args) == 1 and isinstance(args[0], Struct) else args)]
            if ndim(nd) == 1 and d == [-1, 1]:
                return nd2(nd.fs[2], T.num(1), lambda i, j: at1(nd, i), "view")
            if ndim(nd) == 1 and d == [1, -1]:
                return nd2(T.num(1), nd.fs[2], lambda i, j: at1(nd, j), "view")
            raise Unsupported("reshape")
        if attr in ("min", "max", "argmin", "argmax") and not args:
            return EXT["np." + attr](self, [v], {}, st)
        if attr == "fill":
            new = emap(lambda x: self.val(args[0], st), nd)
            if isinstance(v, Struct):
                raise Unsupported("fill of a temporary")
            self.store(st, v, Struct(ND, [new.fs[0]] + nd.fs[1:4] + [leaf("")]))
            return NONE
        if attr in ("any", "all"):
            raise Unsupported("ndarray.%s" % attr)
        raise Unsupported("ndarray.%s" % attr)

    def comp(self, it, f, st):
        n = self.itlen(it, st)
        arr = {}

        def el(s):
            item = self.op_iteritem([it, s], None, st)
            try:
                pc, v, s2 = self.call_any(f, [item], {}, dict(st))
            except Raises:
                raise Unsupported("comprehension whose element may raise")
            if s2 is None or pc is not FALSE:
                raise Unsupported("comprehension whose element may raise")
            for k, x in st.items():
                if s2.get(k, x) is not x:
                    raise Unsupported("comprehension with side effects")
            a = self.arr(v, s2)
            return copy(a) if a is not None else v
        return FALSE, self.mklist(V.mk_arr(n, el), st), st


# ------------------------------------------------------------------------------------------------ external functions
EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


def scalar_fn(fn):
    def h(ip, a, kw, st):
        if kw:
            raise Unsupported("keyword arguments of a numpy function")
        v = ip.val(a[0], st)
        return emap(fn, v) if isinstance(v, Struct) else fn(v)
    return h


for _n, _m in (("sqrt", "sqrt"), ("exp", "exp"), ("log", "ln"), ("cos", "cos"), ("sin", "sin"), ("abs", "abs"), ("floor", "floor"), ("ceil", "ceil"), ("log10", "log10"), ("log2", "log2"), ("fabs", "abs"), ("absolute", "abs")):
    EXT["np." + _n] = EXT["math." + _n] = scalar_fn(fcall(_m))
EXT["builtins.abs"] = EXT["np.abs"]
EXT["np.square"] = scalar_fn(lambda v: T.d_mul(v, v))
EXT["np.negative"] = scalar_fn(T.d_neg)
EXT["np.isnan"] = EXT["math.isnan"] = scalar_fn(lambda v: T.dd_mapn(M.is_nan, (v,)))
EXT["np.isfinite"] = EXT["math.isfinite"] = scalar_fn(lambda v: T.dd_mapn(lambda x: AND(NOT(M.is_nan(x)), NOT(M.is_inf(x))), (v,)))
EXT["np.isinf"] = EXT["math.isinf"] = scalar_fn(lambda v: T.dd_mapn(M.is_inf, (v,)))


def binary(fn):
    def h(ip, a, kw, st):
        if kw or len(a) != 2:
            raise Unsupported("arguments of a numpy function")
        return broadcast(fn, ip.val(a[0], st), ip.val(a[1], st))
    return h


EXT["np.minimum"] = binary(lambda x, y: ite(T.d_lt(y, x), y, x))
EXT["np.maximum"] = binary(lambda x, y: ite(T.d_lt(x, y), y, x))
EXT["np.add"], EXT["np.subtract"], EXT["np.multiply"], EXT["np.divide"] = binary(T.f_add), binary(T.f_sub), binary(T.f_mul), binary(T.f_div)
EXT["np.power"] = EXT["math.pow"] = binary(lambda s, t: T.dd_mapn(M.powf, (s, t)))
EXT["math.hypot"] = EXT["np.hypot"] = binary(fcall("hypot"))


@ext("np.dot", "np.matmul", "np.inner")
def _dot(ip, a, kw, st):
    p, q = ip.val(a[0], st), ip.val(a[1], st)
    if isinstance(p, Struct) and isinstance(q, Struct):
        return matmul(p, q)
    return broadcast(T.d_mul, p, q)


@ext("np.vdot")
def _vdot(ip, a, kw, st):
    return matmul(ip.val(a[0], st), ip.val(a[1], st))


@ext("np.outer")
def _outer(ip, a, kw, st):
    return outer(ip.val(a[0], st), ip.val(a[1], st))


@ext("np.sum")
def _npsum(ip, a, kw, st):
    if kw:
        raise Unsupported("np.sum with keywords")
    v = ip.val(a[0], st)
    return total(v) if isinstance(v, Struct) else v


@ext("builtins.sum")
def _sum(ip, a, kw, st):
    v = ip.val(a[0], st)
    if ndim(v) != 1 or len(a) > 1:
        raise Unsupported("sum")
    return total(v)


@ext("np.array", "np.asarray", "np.copy", "np.ascontiguousarray", "np.asfarray")
def _array(ip, a, kw, st):
    v = unwrap(a[0])
    if isinstance(v, DD) and is_num(v):
        raise Unsupported("zero-dimensional array")
    return ip.asarray(v, st)


def _asarray(ip, a, kw, st):
    """no copy when it already is an array"""
    if ip.arr(a[0], st) is not None:
        return unwrap(a[0])
    return ip.asarray(a[0], st)


EXT["np.asarray"] = _asarray


def filler(c):
    def h(ip, a, kw, st):
        s = unwrap(a[0])
        if isinstance(s, Struct) and s.name in ("tuple", SHAPE):
            fs = s.fs if s.name == "tuple" else s.fs[1:1 + (const_int(s.fs[0]) or 9)]
            if len(fs) == 1:
                return nd1(fs[0], lambda k: T.num(c))
            if len(fs) == 2:
                return nd2(fs[0], fs[1], lambda i, j: T.num(c))
            raise Unsupported("array shape")
        return nd1(s, lambda k: T.num(c))
    return h


EXT["np.zeros"], EXT["np.ones"] = filler(0), filler(1)


@ext("np.empty")
def _empty(ip, a, kw, st):
    raise Unsupported("uninitialised array")


@ext("np.full")
def _full(ip, a, kw, st):
    z = filler(0)(ip, a[:1], {}, st)
    v = ip.val(a[1], st)
    return emap(lambda x: v, z)


@ext("np.zeros_like")
def _zl(ip, a, kw, st):
    return emap(lambda x: T.num(0), ip.val(a[0], st))


@ext("np.ones_like")
def _ol(ip, a, kw, st):
    return emap(lambda x: T.num(1), ip.val(a[0], st))


@ext("np.eye", "np.identity")
def _eye(ip, a, kw, st):
    if len(a) > 1 or set(kw) - {"dtype"}:
        raise Unsupported("np.eye")
    n = unwrap(a[0])
    return nd2(n, n, lambda i, j: ite(T.d_eq(i, j), T.num(1), T.num(0)))


@ext("np.diag")
def _diag(ip, a, kw, st):
    if len(a) > 1 or kw:
        raise Unsupported("np.diag")
    v = ip.val(a[0], st)
    if ndim(v) == 1:
        n = v.fs[2]
        return nd2(n, n, lambda i, j: ite(T.d_eq(i, j), at1(v, i), T.num(0)))
    return nd1(v.fs[2], lambda i: at2(v, i, i), "view")


@ext("np.trace")
def _trace(ip, a, kw, st):
    v = ip.val(a[0], st)
    return esum(v.fs[2], lambda i: at2(v, i, i))


@ext("np.transpose")
def _tr(ip, a, kw, st):
    return transpose(ip.val(a[0], st))


@ext("np.linalg.norm")
def _norm(ip, a, kw, st):
    if len(a) > 1 or kw:
        raise Unsupported("np.linalg.norm with options")
    v = ip.val(a[0], st)
    sq = emap(lambda x: T.d_mul(x, x), v)
    return fcall("sqrt")(total(sq))


def eig(ip, v):
    """ascending eigenvalues and eigenvectors of a symmetric matrix as functions of the matrix"""
    n = v.fs[2]
    key = [I.restrict_v(v.fs[0])]

    def part(i):
        return lambda vs: ip.expand_arr(I.fld(N.app("call:eigh", [V.VKey(x) for x in vs], "o"), 0, i), F64T, n if i == 0 else T.d_mul(n, n))
    return I.lift_vals(key, part(0)), I.lift_vals(key, part(1))


@ext("np.linalg.eigvalsh")
def _eigvalsh(ip, a, kw, st):
    if kw:
        raise Unsupported("eigvalsh with options")
    v = ip.val(a[0], st)
    vals, _ = eig(ip, v)
    return Struct(ND, [vals, T.num(1), v.fs[2], T.num(1), leaf("sorted")])


@ext("np.linalg.eigh")
def _eigh(ip, a, kw, st):
    if kw:
        raise Unsupported("eigh with options")
    v = ip.val(a[0], st)
    vals, vecs = eig(ip, v)
    n = v.fs[2]
    return Struct("tuple", [ip.own(Struct(ND, [vals, T.num(1), n, T.num(1), leaf("sorted")]), st), ip.own(Struct(ND, [vecs, T.num(2), n, n, leaf("")]), st)])


def extreme(which, arg):
    def h(ip, a, kw, st):
        if kw or len(a) > 1:
            if not arg and len(a) == 2 and not kw and which in ("max", "min"):
                pass
            raise Unsupported("np.%s with options" % which)
        v = ip.val(a[0], st)
        if not isinstance(v, Struct):
            return v
        n = v.fs[4]
        if n.leaf and n.val == "sorted":
            i = T.num(0) if which == "min" else T.d_sub(v.fs[2], T.num(1))
            return i if arg else at1(v, i)
        k = const_int(size(v))
        if k is None or k > 6 or k < 1 or ndim(v) != 1:
            raise Unsupported("%s of an array" % which)
        best, bi = at1(v, T.num(0)), T.num(0)
        for i in range(1, k):
            x = at1(v, T.num(i))
            c = T.d_lt(x, best) if which == "min" else T.d_lt(best, x)
            best, bi = ite(c, x, best), ite(c, T.num(i), bi)
        return bi if arg else best
    return h


for _p in ("np.min", "np.amin"):
    EXT[_p] = extreme("min", False)
for _p in ("np.max", "np.amax"):
    EXT[_p] = extreme("max", False)
EXT["np.argmin"], EXT["np.argmax"] = extreme("min", True), extreme("max", True)


def pick(lt):
    def h(ip, a, kw, st):
        if kw:
            raise Unsupported("min/max with options")
        if len(a) == 1:
            return EXT["np.min" if lt else "np.max"](ip, a, {}, st)
        best = ip.val(a[0], st)
        for x in a[1:]:
            x = ip.val(x, st)
            c = T.d_lt(x, best) if lt else T.d_lt(best, x)
            best = ite(c, x, best)
        return best
    return h


EXT["builtins.min"], EXT["builtins.max"] = pick(True), pick(False)


@ext("builtins.len")
def _len(ip, a, kw, st):
    return ip.seqlen(a[0], st)


@ext("builtins.range")
def _range(ip, a, kw, st):
    v = [tonum(unwrap(x)) for x in a]
    lo, hi = (T.num(0), v[0]) if len(v) == 1 else (v[0], v[1])
    step = v[2] if len(v) > 2 else T.num(1)
    if const_int(step) not in (1, -1):
        raise Unsupported("range step")
    return Struct("py::it:range", [lo, hi, step])


@ext("builtins.enumerate")
def _enum(ip, a, kw, st):
    start = unwrap(a[1]) if len(a) > 1 else unwrap(kw["start"]) if "start" in kw else T.num(0)
    return Struct("py::it:enum", [start, ip.op_iter([a[0]], None, st)])


@ext("builtins.zip")
def _zip(ip, a, kw, st):
    return Struct("py::it:zip", [ip.op_iter([x], None, st) for x in a])


@ext("builtins.float", "np.float64", "builtins.complex")
def _float(ip, a, kw, st):
    v = unwrap(a[0]) if a else T.num(0)
    if isinstance(v, DD) and v.leaf and isinstance(v.val, str):
        s = v.val[4:].strip().lower()
        if s in ("inf", "+inf", "infinity"):
            return I.float_const({"v": "inf"})
        if s in ("-inf", "-infinity"):
            return I.float_const({"v": "-inf"})
        if s == "nan":
            return I.float_const({"v": "nan"})
        raise Unsupported("float of a string")
    v = ip.val(v, st)
    if isinstance(v, Struct):
        if const_int(size(v)) == 1:
            return at1(v, T.num(0))
        raise Unsupported("float of an array")
    if intlike(v):
        ip.floated |= {x.id for x in lv(v)}
    return v


@ext("builtins.int")
def _int(ip, a, kw, st):
    v = ip.val(a[0], st)
    return T.dd_mapn(lambda x: leaf(x) if x.is_poly() and all(N._atoms[i].sort == "i" for i in N.p_atoms(x.n)) and all(c.denominator == 1 for c in x.n.values()) else I.trunc(x, False), (v,))


@ext("builtins.bool")
def _bool(ip, a, kw, st):
    return ip.truth(a[0], st)


@ext("builtins.str", "builtins.repr", "builtins.format")
def _str(ip, a, kw, st):
    return leaf("str:?")


@ext("builtins.print")
def _print(ip, a, kw, st):
    raise Unsupported("print")


@ext("builtins.list")
def _list(ip, a, kw, st):
    if not a:
        return ip.mklist(V.mk_arr(T.num(0), lambda s: UNDEF), st)
    it = ip.op_iter([a[0]], None, st)
    n = ip.itlen(it, st)

    def el(s):
        v = ip.op_iteritem([it, s], None, st)
        x = ip.arr(v, st)
        return copy(x) if x is not None else v
    return ip.mklist(V.mk_arr(n, el), st)


@ext("builtins.tuple")
def _tuple(ip, a, kw, st):
    v = unwrap(a[0])
    if isinstance(v, Struct) and v.name == "tuple":
        return v
    n = const_int(ip.seqlen(v, st))
    if n is None:
        raise Unsupported("tuple of unknown length")
    return Struct("tuple", [ip.op_getitem([v, T.num(i)], None, st) for i in range(n)])


@ext("builtins.callable")
def _callable(ip, a, kw, st):
    v = unwrap(a[0])
    if isinstance(v, DD) and all(isinstance(x, (PyFn, PyCls, Ext)) for x in lv(v)):
        return TRUE
    if is_num(v) or ip.arr_maybe(v, st):
        return FALSE
    raise Unsupported("callable")


def intlike(v):
    """an integer handed in by the caller"""
    return all(x.is_poly() and len(x.n) == 1 and list(x.n.values()) == [1] and len(list(x.n)[0]) == 1 and N._atoms[list(x.n)[0][0][0]].sort == "i" for x in lv(v))


def has(ip, v, name, st):
    p, o = ip.obj(v, st)
    if isinstance(o, Struct) and o.name in ip.P.classes:
        c = ip.P.classes[o.name]
        return TRUE if name in c.fields or ip.P.find_method(o.name, name)[0] is not None else FALSE
    if isinstance(o, DD):
        return T.lit(T.dec_bool(N.app("py:hasattr:" + name, [V.VKey(o)], "b")))
    raise Unsupported("hasattr")


@ext("builtins.hasattr")
def _hasattr(ip, a, kw, st):
    return has(ip, a[0], a[1].val[4:], st)


@ext("builtins.isinstance")
def _isinstance(ip, a, kw, st):
    v, k = a
    k = unwrap(k)
    if isinstance(k, Struct) and k.name == "tuple":
        r = FALSE
        for x in k.fs:
            r = OR(r, _isinstance(ip, [v, x], {}, st))
        return r
    if not (isinstance(k, DD) and k.leaf):
        raise Unsupported("isinstance")
    t = k.val
    if isinstance(v, Enum) and v.name == OPTION:
        c = T.dd_mapn(lambda g: TRUE if g == 1 else FALSE, (v.tag,))
        if c is FALSE or not v.pay.get(1):
            return FALSE
        return AND(c, _isinstance(ip, [v.pay[1][0], k], {}, st))
    if isinstance(t, PyCls):
        p, o = ip.obj(v, st)
        if isinstance(v, Enum):
            return TRUE if v.name == t.path else FALSE
        c = ip.P.classes[t.path]
        if isinstance(o, Struct) and o.name in ip.P.classes:
            if t.path in ip.P.mro(o.name):
                return TRUE
            if not c.is_protocol:
                return FALSE
        if o is None:
            return FALSE
        if c.is_protocol:
            r = TRUE
            for m in ip.P.protocol_attrs(t.path):
                r = AND(r, has(ip, v, m, st))
            return r
        raise Unsupported("class test of an opaque object")
    if isinstance(t, Ext):
        n = t.path.split(".")[-1]
        num = n in ("float", "int", "float64", "floating", "number", "Number", "Real", "complex", "integer", "generic")
        seq = n in ("tuple",)
        if n not in ("float", "int", "float64", "floating", "number", "Number", "Real", "complex", "integer", "generic", "tuple", "list", "ndarray", "bool", "str", "Sequence"):
            raise Unsupported("isinstance of %s" % t.path)
        if isinstance(v, DD) and (is_num(v) or is_bool(v)):
            if is_bool(v):
                return TRUE if n in ("int", "bool") else FALSE
            if n in ("int", "float"):
                if intlike(v):
                    if any(x.id in ip.floated for x in lv(v)):
                        raise Unsupported("int or float")
                    return TRUE if n == "int" else FALSE
                return TRUE if n == "float" else FALSE
            return TRUE if n in ("number", "Number", "Real") else uns("isinstance of %s" % t.path) if num else FALSE
        if isinstance(v, Struct) and v.name == "tuple":
            return TRUE if n in ("tuple", "Sequence") else FALSE
        if ip.arr_maybe(v, st):
            return TRUE if n == "ndarray" else FALSE
        if ip.lst(v, st) is not None:
            return TRUE if n in ("list", "Sequence") else FALSE
    raise Unsupported("isinstance of %r" % (v,))
