"""Structured values over decision diagrams, and pointer paths."""
from fractions import Fraction as Q
from . import num as N
from . import terms as T
from .num import Num, Atom, Unsupported
from .terms import DD, leaf, ite, UNDEF, TRUE, FALSE, Lam


class Struct:
    __slots__ = ("name", "fs", "ty")

    def __init__(self, name, fs, ty=None):
        self.name = name
        self.fs = fs
        self.ty = ty

    def __repr__(self):
        return "%s{%s}" % (self.name.split("::")[-1], ", ".join(map(repr, self.fs)))


class Enum:
    __slots__ = ("name", "tag", "pay")

    def __init__(self, name, tag, pay):
        self.name, self.tag, self.pay = name, tag, pay

    def __repr__(self):
        return "%s<%r %s>" % (self.name.split("::")[-1], self.tag, self.pay)


class Arr:
    """array / vector / slice contents: length and a function of one index (or two with a stride)"""
    __slots__ = ("len", "syms", "stride", "body")

    def __init__(self, ln, syms, stride, body):
        self.len, self.syms, self.stride, self.body = ln, syms, stride, body

    def __repr__(self):
        return "arr[%r](%s%s -> %r)" % (self.len, ",".join(x.name for x in self.syms), "" if self.stride is None else "/%r" % self.stride, self.body)


class Ptr:
    """pointer value (leaf): cell + path.  path elements:
    ('f',i) ('v',variant,i) ('x',DD) ('w',offDD,lenDD)"""
    __slots__ = ("cell", "path", "key", "deps", "height")

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path
        ks = []
        dp = frozenset()
        h = 0
        for p in path:
            if p[0] == "x":
                ks.append(("x", p[1].id))
                dp |= p[1].deps
                h = max(h, p[1].height)
            elif p[0] == "w":
                ks.append(("w", p[1].id, p[2].id))
                dp |= p[1].deps | p[2].deps
            else:
                ks.append(p)
        if isinstance(cell, tuple) and cell[0] == "t":
            dp |= N.atom(cell[1]).deps
        self.key = ("ptr", cell, tuple(ks))
        self.deps = dp
        self.height = h

    def __repr__(self):
        return "&%s%s" % (self.cell, "".join("." + str(p[1:]) for p in self.path))

    def add(self, *els):
        path = self.path
        for e in els:
            if e[0] == "x" and path and path[-1][0] == "w":
                w = path[-1]
                path = path[:-1] + (("x", T.d_add(w[1], e[1])),)
            elif e[0] == "w" and path and path[-1][0] == "w":
                w = path[-1]
                path = path[:-1] + (("w", T.d_add(w[1], e[1]), e[2]),)
            else:
                path = path + (e,)
        return Ptr(self.cell, path)

    def subst(self, m):
        path = []
        for p in self.path:
            if p[0] == "x":
                path.append(("x", m.dd(p[1])))
            elif p[0] == "w":
                path.append(("w", m.dd(p[1]), m.dd(p[2])))
            else:
                path.append(p)
        cell = self.cell
        if isinstance(cell, tuple) and cell[0] == "t" and (N.atom(cell[1]).deps & m.dom):
            t = m.atom(N.atom(cell[1]))
            ty = TERM_CELLS[cell]
            return T.dd_mapn(lambda a: leaf(Ptr(term_cell(a, ty), tuple(path))), (t,))
        return leaf(Ptr(cell, tuple(path)))


TERM_CELLS = {}


def term_cell(atom, ty):
    if not isinstance(atom, Atom):
        raise Unsupported("reference inside %r" % (atom,))
    c = ("t", atom.id)
    TERM_CELLS[c] = ty
    return c


class Fn:
    """function item / pointer value"""
    __slots__ = ("ty", "key", "deps", "height")

    def __init__(self, ty):
        self.ty = ty
        self.key = ("fn", ty_key(ty))
        self.deps = frozenset()
        self.height = 0

    def __repr__(self):
        return "fn " + self.ty.get("p", "?")


def ty_key(t):
    k = t["k"]
    if k == "prim":
        return t["n"]
    if k == "adt":
        return (t["p"],) + tuple(ty_key(x) for x in t["a"] if x["k"] != "lt")
    if k == "ref":
        return ("&", t["m"], ty_key(t["t"]))
    if k in ("slice", "rawptr"):
        return (k, ty_key(t["t"]))
    if k == "array":
        return (k, ty_key(t["t"]), str(t["n"]))
    if k == "tuple":
        return ("tuple",) + tuple(ty_key(x) for x in t["a"])
    if k == "param":
        return ("param", t["n"])
    if k in ("fndef", "closure"):
        return (k, t["p"]) + tuple(ty_key(x) for x in t["a"] if x["k"] != "lt")
    if k == "alias":
        return ("alias", t["p"]) + tuple(ty_key(x) for x in t["a"] if x["k"] != "lt")
    return (k, str(t.get("n", "")))


UNIT = Struct("tuple", [])


def is_undef(v):
    return v is UNDEF


# -------------------------------------------------------------- traversal
def vmap(fn, v):
    """apply fn to every scalar DD (arrays: body under their symbols)"""
    if isinstance(v, DD):
        return fn(v)
    if isinstance(v, Struct):
        return Struct(v.name, [vmap(fn, x) for x in v.fs], v.ty)
    if isinstance(v, Enum):
        return Enum(v.name, fn(v.tag), {k: [vmap(fn, x) for x in p] for k, p in v.pay.items()})
    if isinstance(v, Arr):
        return Arr(fn(v.len), v.syms, v.stride, vmap(fn, v.body))
    raise Unsupported("vmap %r" % (v,))


def vdeps(v):
    if isinstance(v, DD):
        return v.deps
    if isinstance(v, Struct):
        return frozenset().union(*[vdeps(x) for x in v.fs]) if v.fs else frozenset()
    if isinstance(v, Enum):
        r = v.tag.deps
        for p in v.pay.values():
            for x in p:
                r |= vdeps(x)
        return r
    if isinstance(v, Arr):
        r = v.len.deps | (vdeps(v.body) - frozenset(s.id for s in v.syms))
        if v.stride is not None:
            r |= v.stride.deps
        return r
    return frozenset()


def vsubst(v, m):
    """m: Map"""
    if isinstance(v, DD):
        return m.dd(v)
    if not (vdeps(v) & m.dom):
        return v
    if isinstance(v, Struct):
        return Struct(v.name, [vsubst(x, m) for x in v.fs], v.ty)
    if isinstance(v, Enum):
        return Enum(v.name, m.dd(v.tag), {k: [vsubst(x, m) for x in p] for k, p in v.pay.items()})
    if isinstance(v, Arr):
        st = v.stride
        if st is not None and (st.deps & m.dom):
            s2 = m.num(st)
            if not s2.leaf:
                raise Unsupported("conditional stride")
            st = s2.val
            if st.const is not None:
                # stride became constant: go back to one index
                w = to_1d(v)
                return vsubst(w, m)
        ln = m.dd(v.len)
        ns = fresh_syms(ln, st)
        # facts about the new symbols must be in place before rebuilding
        m2 = dict(m.m)
        for a, b in zip(v.syms, ns):
            m2[a.id] = leaf(N.from_atom(b))
        return Arr(ln, ns, st, vsubst(v.body, T.Map(m2)))
    raise Unsupported("vsubst %r" % (v,))


def fresh_syms(ln, stride):
    """fresh index symbol(s) carrying the range facts"""
    if stride is None:
        s = N.sym("s", "i", lo=0)
        if ln is not None and ln.leaf and isinstance(ln.val, Num) and ln.val.is_poly():
            T.add_fact(s, N.p_add(N.p_add({((s.id, 1),): Q(1)}, ln.val.n, -1), N.p_const(1)))
        return [s]
    r = N.sym("r", "i", lo=0)
    c = N.sym("c", "i", lo=0)
    T.add_fact(c, N.p_add(N.p_add({((c.id, 1),): Q(1)}, stride.n, -1), N.p_const(1)))
    if ln is not None and ln.leaf and isinstance(ln.val, Num) and ln.val.is_poly():
        rows = N.div(ln.val, stride)
        if rows.is_poly():
            T.add_fact(r, N.p_add(N.p_add({((r.id, 1),): Q(1)}, rows.n, -1), N.p_const(1)))
    return [r, c]


def mk_arr(ln, fn, stride=None):
    """array from a python function of the index DD(s)"""
    syms = fresh_syms(ln, stride)
    return Arr(ln, syms, stride, fn(*[leaf(N.from_atom(s)) for s in syms]))


def to_1d(a):
    if a.stride is None:
        return a
    st = a.stride

    def f(s):
        r, c = decomp(s.val, st)
        return vsubst(a.body, T.Map({a.syms[0].id: leaf(r), a.syms[1].id: leaf(c)}))
    return mk_arr(a.len, f)


def to_2d(a, stride):
    if a.stride is stride:
        return a
    if a.stride is not None:
        a = to_1d(a)
    st = stride

    def f(r, c):
        return vsubst(a.body, T.Map({a.syms[0].id: T.d_add(T.d_mul(r, leaf(st)), c)}))
    return mk_arr(a.len, f, st)


def idiv(e, n):
    """floor division of integer polynomials"""
    c = n.const
    if c is not None and c > 0:
        ec = e.const
        if ec is not None:
            return N.const(ec.numerator * 1 // (ec.denominator * c))
        if c == 1:
            return e
        A, B = {}, {}
        for m, v in e.n.items():
            q = v // c
            if q:
                A[m] = Q(q)
            if v - q * c:
                B[m] = v - q * c
        if not B:
            return N.mk(A)
        core = N.mk(B)
        if core.const is not None:
            return N.mk(A)
    else:
        a = n.single()
        if a is None:
            A, B = {}, e.n
        else:
            A, B = T.split_stride(e.n, a.id)
        core = N.mk(B)
        if T.entails({m: -v for m, v in B.items()}, False) and T.entails(N.p_add(B, n.n, -1), True):
            return N.mk(A)
        # -n <= B < 0
        if T.entails(B, True) and T.entails(N.p_add({m: -v for m, v in B.items()}, n.n, -1), False):
            return N.sub(N.mk(A), N.ONE)
    at = N.app("idiv", [core, n], "i")
    if at.id not in T.AF:
        q = N.from_atom(at)
        T.add_fact(at, N.sub(N.mul(n, q), core).n)                       # n*q <= core
        T.add_fact(at, N.sub(N.add(core, N.ONE), N.mul(n, N.add(q, N.ONE))).n)   # core+1 <= n*q+n
        if all(T._mono_sign(m) and v > 0 for m, v in core.n.items()):
            at.lo = 0
    return N.add(N.mk(A), N.from_atom(at))


@T.rebuild("idiv")
def _rb_idiv(args):
    return leaf(idiv(args[0], args[1]))


def imod(e, n):
    return N.sub(e, N.mul(n, idiv(e, n)))


def decomp(e, n):
    q = idiv(e, n)
    return q, N.sub(e, N.mul(n, q))


def find_stride(e):
    """an atom n such that e = A*n + B with 0<=B<n provable and A nonconstant or e nonlinear"""
    if not isinstance(e, Num) or not e.is_poly():
        return None
    if not any(sum(k for _, k in m) > 1 for m in e.n):
        return None
    cands = []
    for m in e.n:
        if sum(k for _, k in m) > 1:
            cands += [i for i, _ in m]
    for i in sorted(set(cands)):
        a = N._atoms[i]
        if a.sort != "i":
            continue
        A, B = T.split_stride(e.n, i)
        nn = {((i, 1),): Q(1)}
        if any(i == j for m in B for j, _ in m):
            continue
        if T.entails({m: -v for m, v in B.items()}, False) and T.entails(N.p_add(B, nn, -1), True):
            return N.from_atom(a)
    return None


def aselect(a, idx):
    """element at index DD"""
    if a.stride is None:
        return vsubst(a.body, T.Map({a.syms[0].id: idx}))
    st = a.stride
    r = T.dd_mapn(lambda e: idiv(e, st), (idx,))
    c = T.dd_mapn(lambda e: imod(e, st), (idx,))
    return vsubst(a.body, T.Map({a.syms[0].id: r, a.syms[1].id: c}))


def astore(a, idx, v):
    if a.stride is None and idx.leaf:
        st = find_stride(idx.val)
        if st is not None:
            a = to_2d(a, st)
    if a.stride is None:
        c = T.d_eq(leaf(N.from_atom(a.syms[0])), idx)
    else:
        st = a.stride
        r, cc = N.from_atom(a.syms[0]), N.from_atom(a.syms[1])
        flat = N.add(N.mul(r, st), cc)

        def f(e):
            st2 = find_stride(e)
            if st2 is st or e.const is not None or e is st:
                q, m = decomp(e, st)
                return T.AND(T.eqn(r, q), T.eqn(cc, m))
            return T.eqn(flat, e)
        c = T.dd_mapn(f, (idx,))
    return Arr(a.len, a.syms, a.stride, merge(c, v, a.body))


# ------------------------------------------------------------------ merge
MERGE_HOOK = None


def merge(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, DD) and isinstance(b, DD):
        return ite(c, a, b)
    if isinstance(a, Struct) and isinstance(b, Struct):
        if len(a.fs) != len(b.fs):
            raise Unsupported("merge of different structs")
        return Struct(a.name, [merge(c, x, y) for x, y in zip(a.fs, b.fs)], a.ty or b.ty)
    if isinstance(a, Enum) and isinstance(b, Enum):
        pay = {}
        for k in set(a.pay) | set(b.pay):
            if k in a.pay and k in b.pay:
                pay[k] = [merge(c, x, y) for x, y in zip(a.pay[k], b.pay[k])]
            else:
                pay[k] = a.pay.get(k) or b.pay.get(k) or []
        return Enum(a.name, ite(c, a.tag, b.tag), pay)
    if isinstance(a, Arr) and isinstance(b, Arr):
        a, b = align(a, b)
        return Arr(ite(c, a.len, b.len), a.syms, a.stride, merge(c, a.body, b.body))
    if MERGE_HOOK is not None:
        r = MERGE_HOOK(c, a, b)
        if r is not None:
            return r
    raise Unsupported("merge %s with %s" % (type(a).__name__, type(b).__name__))


def align(a, b):
    """same representation and same symbols"""
    if a.stride is not b.stride:
        if a.stride is None:
            a = to_2d(a, b.stride)
        elif b.stride is None:
            b = to_2d(b, a.stride)
        else:
            a, b = to_1d(a), to_1d(b)
    if a.len is not b.len:
        ns = fresh_syms(None, a.stride)
        a = Arr(a.len, ns, a.stride,
                vsubst(a.body, T.Map({y.id: leaf(N.from_atom(x)) for x, y in zip(ns, a.syms)})))
    if a.syms is not b.syms:
        b = Arr(b.len, a.syms, b.stride,
                vsubst(b.body, T.Map({y.id: leaf(N.from_atom(x)) for x, y in zip(a.syms, b.syms)})))
    return a, b


# --------------------------------------------------------------- projections
def vlen(v):
    if isinstance(v, Arr):
        return v.len
    raise Unsupported("length of %s" % type(v).__name__)


def getp(v, path):
    for k, p in enumerate(path):
        if p[0] == "f":
            if isinstance(v, Struct):
                v = v.fs[p[1]]
            elif isinstance(v, DD) and v.leaf and isinstance(v.val, Ptr):
                pass      # Box / Unique / NonNull are transparent
            elif v is UNDEF:
                return UNDEF
            else:
                raise Unsupported("field of %s" % type(v).__name__)
        elif p[0] == "v":
            if isinstance(v, Enum):
                pay = v.pay.get(p[1])
                if pay is None:
                    return UNDEF
                v = pay[p[2]]
            elif v is UNDEF:
                return UNDEF
            else:
                raise Unsupported("variant field of %s" % type(v).__name__)
        elif p[0] == "x":
            if not isinstance(v, Arr):
                raise Unsupported("index of %s" % type(v).__name__)
            v = aselect(v, p[1])
        elif p[0] == "w":
            if not isinstance(v, Arr):
                raise Unsupported("window of %s" % type(v).__name__)
            a = v
            off, ln = p[1], p[2]
            v = mk_arr(ln, lambda s: aselect(a, T.d_add(off, s)))
    return v


def setp(v, path, new):
    if not path:
        return new
    p = path[0]
    if p[0] == "f":
        if v is UNDEF:
            raise Unsupported("write into uninitialised aggregate")
        if not isinstance(v, Struct):
            raise Unsupported("field write into %s" % type(v).__name__)
        fs = list(v.fs)
        fs[p[1]] = setp(fs[p[1]], path[1:], new)
        return Struct(v.name, fs, v.ty)
    if p[0] == "v":
        if not isinstance(v, Enum):
            raise Unsupported("variant write into %s" % type(v).__name__)
        pay = dict(v.pay)
        q = list(pay[p[1]])
        q[p[2]] = setp(q[p[2]], path[1:], new)
        pay[p[1]] = q
        return Enum(v.name, v.tag, pay)
    if p[0] == "x":
        if not isinstance(v, Arr):
            raise Unsupported("index write into %s" % type(v).__name__)
        if len(path) == 1:
            return astore(v, p[1], new)
        return astore(v, p[1], setp(aselect(v, p[1]), path[1:], new))
    if p[0] == "w":
        # new is an Arr replacing a window
        if len(path) > 1 or not isinstance(new, Arr):
            raise Unsupported("window write")
        off, ln = p[1], p[2]
        if new.stride is not None:
            new = to_1d(new)
        base = to_1d(v)
        s = leaf(N.from_atom(base.syms[0]))
        c = T.AND(T.d_le(off, s), T.d_lt(s, T.d_add(off, ln)))
        return Arr(base.len, base.syms, None, merge(c, aselect(new, T.d_sub(s, off)), base.body))
    raise Unsupported("setp")


# ------------------------------------------------------------- value as term
class VKey:
    """whole value used as an argument of an uninterpreted application"""
    __slots__ = ("val", "key", "deps", "height")

    def __init__(self, val):
        self.val = val
        self.key = ("v", vkey(val))
        self.deps = vdeps(val)
        self.height = vheight(val)

    def __repr__(self):
        return repr(self.val)

    def subst_arg(self, m):
        return VKey(vsubst(self.val, m))


def vkey(v):
    if isinstance(v, DD):
        return v.id
    if isinstance(v, Struct):
        return ("S",) + tuple(vkey(x) for x in v.fs)
    if isinstance(v, Enum):
        return ("E", v.tag.id) + tuple((k, tuple(vkey(x) for x in p)) for k, p in sorted(v.pay.items()))
    if isinstance(v, Arr):
        if v.stride is not None:
            return ("A2", v.len.id, v.stride.id, bodykey(v))
        return ("A", v.len.id, bodykey(v))
    raise Unsupported("key of %r" % (v,))


def bodykey(a, inner=None):
    def go(b):
        if isinstance(b, DD):
            return T.lam(a.syms, b).id
        if isinstance(b, Struct):
            return ("S",) + tuple(go(x) for x in b.fs)
        if isinstance(b, Enum):
            return ("E", go(b.tag)) + tuple((k, tuple(go(x) for x in p)) for k, p in sorted(b.pay.items()))
        if isinstance(b, Arr):
            # nested arrays: canonical inner index symbols by depth
            return ("A", go(b.len), nested(b))
        raise Unsupported("bodykey")

    def nested(b):
        if b.stride is not None:
            b = to_1d(b)
        if isinstance(b.body, DD):
            return T.lam(list(a.syms) + list(b.syms), b.body).id
        raise Unsupported("deeply nested array as argument")
    return go(a.body)


def vheight(v):
    if isinstance(v, DD):
        return v.height
    if isinstance(v, Struct):
        return max([vheight(x) for x in v.fs], default=0)
    if isinstance(v, Enum):
        return max([v.tag.height] + [vheight(x) for p in v.pay.values() for x in p])
    if isinstance(v, Arr):
        return max(v.len.height, vheight(v.body)) + 1
    return 0
