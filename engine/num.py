"""Exact rational functions over hash-consed atoms, with square roots rationalised.

A Num is num/den, two polynomials with rational coefficients over atoms.  The
representation is canonical: equal real functions of the atoms (treating distinct
non-sqrt atoms as independent) are the same Python object.
"""
from fractions import Fraction as Q
from functools import lru_cache
import math


class Unsupported(Exception):
    pass


class Atom:
    __slots__ = ("id", "kind", "name", "args", "sort", "pos", "nn", "deps", "height", "lo", "hi", "key", "extra")

    def __repr__(self):
        return show_atom(self)


_atoms = []
_atom_tab = {}
_symctr = [0]


def show_atom(a, depth=0):
    if a.kind == "sym":
        return a.name
    if depth > 5:
        return "…"
    if a.kind == "sqrt":
        return "sqrt(%s)" % a.args[0]
    try:
        return "%s(%s)" % (a.name or a.kind, ", ".join(_sh(x) for x in a.args))
    except RecursionError:
        return a.kind


def _sh(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + "..."


def _mk(key, kind, name, args, sort, deps, height, pos=False, nn=False, extra=None):
    a = _atom_tab.get(key)
    if a is None:
        a = Atom()
        a.id = len(_atoms)
        a.kind, a.name, a.args, a.sort = kind, name, args, sort
        a.deps, a.height, a.pos, a.nn = deps, height, pos, nn
        a.lo = a.hi = None
        a.key = key
        a.extra = extra
        _atoms.append(a)
        _atom_tab[key] = a
        if kind == "sym":
            a.deps = frozenset([a.id])
    return a


def sym(name, sort="r", pos=False, nn=False, lo=None, hi=None, unique=True):
    """A fresh (unique) or named symbol.  sort: r real, i int, a array, o opaque, b bool."""
    if unique:
        _symctr[0] += 1
        key = ("sym", name, _symctr[0])
    else:
        key = ("sym", name)
    a = _mk(key, "sym", name, (), sort, None, 0, pos, nn)
    if lo is not None:
        a.lo = lo
    if hi is not None:
        a.hi = hi
    return a


def atom(i):
    return _atoms[i]


# ---------------------------------------------------------------- polynomials
# poly: dict { monomial: Fraction };  monomial: tuple of (atom id, exponent), sorted
ONE_M = ()


def p_const(c):
    return {ONE_M: Q(c)} if c else {}


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if k == 1 else c * k)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def p_key(p):
    return tuple(sorted(p.items()))


def p_atoms(p):
    s = set()
    for m in p:
        for i, _ in m:
            s.add(i)
    return s


MAXTERMS = 6000


def _sqrt_reduce(p):
    """replace s^2 by its radicand; returns (poly, den poly)."""
    den = p_const(1)
    while True:
        hit = None
        for m in p:
            for i, e in m:
                if e >= 2 and _atoms[i].kind == "sqrt":
                    hit = i
                    break
            if hit is not None:
                break
        if hit is None:
            return p, den
        rad = _atoms[hit].args[0]
        out = {}
        # bring to common denominator rad.d^k
        kmax = max((dict(m).get(hit, 0) // 2 for m in p), default=0)
        pw_n = [p_const(1)]
        pw_d = [p_const(1)]
        for _ in range(kmax):
            pw_n.append(p_mul(pw_n[-1], rad.n))
            pw_d.append(p_mul(pw_d[-1], rad.d))
        for m, c in p.items():
            d = dict(m)
            e = d.get(hit, 0)
            k = e // 2
            if e % 2:
                d[hit] = 1
            else:
                d.pop(hit, None)
            t = {tuple(sorted(d.items())): c}
            t = p_mul(t, p_mul(pw_n[k], pw_d[kmax - k]))
            out = p_add(out, t)
        den = p_mul(den, pw_d[kmax])
        p = out
        if len(p) > MAXTERMS:
            raise Unsupported("polynomial too large")


@lru_cache(maxsize=None)
def _ring(atoms):
    from sympy.polys.rings import ring
    from sympy import QQ
    names = ["x%d" % i for i in range(len(atoms))]
    R = ring(names, QQ)
    return R[0], {a: k for k, a in enumerate(atoms)}


def _to_ring(p, R, idx, n):
    d = {}
    from sympy import QQ
    for m, c in p.items():
        e = [0] * n
        for i, k in m:
            e[idx[i]] = k
        d[tuple(e)] = QQ(c.numerator, c.denominator)
    return R.from_dict(d)


def _from_ring(f, atoms):
    r = {}
    for e, c in f.terms():
        m = tuple(sorted((atoms[i], k) for i, k in enumerate(e) if k))
        r[m] = Q(int(c.numerator), int(c.denominator))
    return r


_cancel_cache = {}


def _cancel(n, d):
    if len(d) == 1:
        # monomial denominator
        (dm, dc), = d.items()
        if dc != 1:
            n = {m: c / dc for m, c in n.items()}
        if not dm:
            return n, p_const(1)
        g = dict(dm)
        for m in n:
            mm = dict(m)
            for i in list(g):
                e = min(g[i], mm.get(i, 0))
                if e:
                    g[i] = e
                else:
                    del g[i]
            if not g:
                break
        if g:
            def divm(m):
                x = dict(m)
                for i, e in g.items():
                    x[i] -= e
                    if not x[i]:
                        del x[i]
                return tuple(sorted(x.items()))
            n = {divm(m): c for m, c in n.items()}
            dm = divm(dm)
        return n, {dm: Q(1)}
    k = (p_key(n), p_key(d))
    r = _cancel_cache.get(k)
    if r is None:
        atoms = tuple(sorted(p_atoms(n) | p_atoms(d)))
        if len(n) > 1500 or len(d) > 400:
            raise Unsupported("rational function too large")
        R, idx = _ring(atoms)
        fn, fd = _to_ring(n, R, idx, len(atoms)), _to_ring(d, R, idx, len(atoms))
        g = fn.gcd(fd)
        if g != 1:
            fn, fd = fn.quo(g), fd.quo(g)
        n2, d2 = _from_ring(fn, atoms), _from_ring(fd, atoms)
        lc = d2[max(d2)]
        if lc != 1:
            n2 = {m: c / lc for m, c in n2.items()}
            d2 = {m: c / lc for m, c in d2.items()}
        r = (n2, d2)
        _cancel_cache[k] = r
    return r


class Num:
    __slots__ = ("n", "d", "id", "deps", "height", "_at")

    def __repr__(self):
        return show_num(self)

    @property
    def const(self):
        if not self.n:
            return Q(0)
        if len(self.n) == 1 and ONE_M in self.n and len(self.d) == 1 and ONE_M in self.d:
            return self.n[ONE_M]
        return None

    def is_poly(self):
        return len(self.d) == 1 and ONE_M in self.d

    def atoms(self):
        if self._at is None:
            self._at = frozenset(p_atoms(self.n) | p_atoms(self.d))
        return self._at

    def is_int(self):
        if not self.is_poly():
            return False
        for m, c in self.n.items():
            if c.denominator != 1:
                return False
            for i, _ in m:
                if _atoms[i].sort != "i":
                    return False
        return True

    def single(self):
        """the atom if this is exactly one atom, else None"""
        if self.is_poly() and len(self.n) == 1:
            (m, c), = self.n.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return _atoms[m[0][0]]
        return None


_num_tab = {}


def _mknum(n, d):
    k = (frozenset(n.items()), frozenset(d.items()))
    r = _num_tab.get(k)
    if r is None:
        r = Num()
        r.n, r.d = n, d
        r.id = len(_num_tab)
        ats = p_atoms(n) | p_atoms(d)
        dp = set()
        h = 0
        for i in ats:
            dp |= _atoms[i].deps
            h = max(h, _atoms[i].height)
        r.deps = frozenset(dp)
        r.height = h
        r._at = None
        _num_tab[k] = r
    return r


def norm(n, d):
    if not d:
        # division by an identically zero quantity: opaque infinity/NaN
        return from_atom(app("div0", [mk(n)], "r"))
    if not n:
        return ZERO
    for _ in range(20):
        n, nd = _sqrt_reduce(n)
        d, dd = _sqrt_reduce(d)
        if len(nd) != 1 or ONE_M not in nd or nd[ONE_M] != 1:
            d = p_mul(d, nd)
        if len(dd) != 1 or ONE_M not in dd or dd[ONE_M] != 1:
            n = p_mul(n, dd)
        s = None
        for i in p_atoms(d):
            if _atoms[i].kind == "sqrt":
                s = i if s is None else max(s, i)
        if s is None:
            break
        # d = a + b*s  -> multiply by a - b*s
        a, b = {}, {}
        for m, c in d.items():
            mm = dict(m)
            if s in mm:
                mm.pop(s)
                b[tuple(sorted(mm.items()))] = c
            else:
                a[m] = c
        if not a:
            conj = {((s, 1),): Q(1)}
        else:
            conj = p_add(a, p_mul(b, {((s, 1),): Q(1)}), -1)
        n = p_mul(n, conj)
        d = p_mul(d, conj)
    if not n:
        return ZERO
    if not d:
        return from_atom(app("div0", [mk(n)], "r"))
    n, d = _cancel(n, d)
    return _mknum(n, d)


def mk(p):
    return norm(p, p_const(1))


def const(c):
    return _mknum(p_const(Q(c)), p_const(1))


ZERO = _mknum({}, p_const(1))
ONE = _mknum(p_const(1), p_const(1))


def from_atom(a):
    return _mknum({((a.id, 1),): Q(1)}, p_const(1))


_op_cache = {}
WRAP = 24          # operands above this many terms are named when a product would be too large
COST = 900


def size(a):
    return len(a.n) + len(a.d)


def wrap(a):
    """name a large subterm (hash-consed, so equal subterms keep equal names)"""
    if size(a) <= WRAP:
        return a
    return from_atom(app("big", [a], "r"))


def _too_big(a, b, div_=False):
    bn, bd = (b.d, b.n) if div_ else (b.n, b.d)
    return len(a.n) * len(bn) + len(a.d) * len(bd) > COST


def _guard(f, a, b):
    try:
        return f(a, b)
    except Unsupported:
        x, y = wrap(a), wrap(b)
        if x is a and y is b:
            raise
        return f(x, y)


def add(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    k = (0, a.id, b.id)
    r = _op_cache.get(k)
    if r is None:
        r = _guard(_add, a, b)
        _op_cache[k] = r
    return r


def _add(a, b):
    if a.d == b.d:
        s = p_add(a.n, b.n)
        if a.is_poly():
            return _mknum(s, a.d) if s else ZERO
        return norm(s, a.d)
    if len(a.n) * len(b.d) + len(b.n) * len(a.d) > COST:
        raise Unsupported("sum too large")
    return norm(p_add(p_mul(a.n, b.d), p_mul(b.n, a.d)), p_mul(a.d, b.d))


def _mul(a, b):
    if _too_big(a, b):
        raise Unsupported("product too large")
    return norm(p_mul(a.n, b.n), p_mul(a.d, b.d))


def _div(a, b):
    if _too_big(a, b, True):
        raise Unsupported("quotient too large")
    return norm(p_mul(a.n, b.d), p_mul(a.d, b.n))


def neg(a):
    return _mknum({m: -c for m, c in a.n.items()}, a.d) if a.n else ZERO


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    k = (1, a.id, b.id) if a.id < b.id else (1, b.id, a.id)
    r = _op_cache.get(k)
    if r is None:
        r = _guard(_mul, a, b)
        _op_cache[k] = r
    return r


def div(a, b):
    if b is ONE:
        return a
    k = (2, a.id, b.id)
    r = _op_cache.get(k)
    if r is None:
        r = _guard(_div, a, b)
        _op_cache[k] = r
    return r


def powi(a, n):
    if n < 0:
        return div(ONE, powi(a, -n))
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def _isqrt(q):
    if q < 0:
        return None
    a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if a * a == q.numerator and b * b == q.denominator:
        return Q(a, b)
    return None


def sqrt(a):
    c = a.const
    if c is not None:
        r = _isqrt(c)
        if r is not None:
            return const(r)
    # pull out positive atoms to even powers and square rational content
    outer = ONE
    n, d = a.n, a.d
    cont = None
    for x in n.values():
        cont = x if cont is None else Q(math.gcd(cont.numerator * x.denominator, x.numerator * cont.denominator),
                                        cont.denominator * x.denominator)
    if cont is not None and cont not in (0, 1):
        cont = abs(cont)
        # square part of the content
        def sqpart(k):
            r = 1
            f = 2
            while f * f <= k and f < 1000:
                while k % (f * f) == 0:
                    k //= f * f
                    r *= f
                f += 1
            return r
        sp = Q(sqpart(cont.numerator), sqpart(cont.denominator))
        if sp != 1:
            n = {m: v / (sp * sp) for m, v in n.items()}
            outer = mul(outer, const(sp))

    def common(p):
        g = None
        for m in p:
            mm = dict(m)
            g = mm if g is None else {i: min(e, mm.get(i, 0)) for i, e in g.items() if mm.get(i, 0)}
        return g or {}
    for which in (0, 1):
        p = n if which == 0 else d
        g = {i: e // 2 for i, e in common(p).items() if e >= 2 and (_atoms[i].pos or _atoms[i].nn)}
        if g:
            def divm(m):
                x = dict(m)
                for i, e in g.items():
                    x[i] -= 2 * e
                    if not x[i]:
                        del x[i]
                return tuple(sorted(x.items()))
            p = {divm(m): c for m, c in p.items()}
            f = _mknum({tuple(sorted(g.items())): Q(1)}, p_const(1))
            outer = mul(outer, f) if which == 0 else div(outer, f)
            if which == 0:
                n = p
            else:
                d = p
    core = norm(n, d)
    if core.const is not None and _isqrt(core.const) is not None:
        return mul(outer, const(_isqrt(core.const)))
    key = ("sqrt", core.id)
    a2 = _mk(key, "sqrt", "sqrt", (core,), "r", core.deps, core.height, nn=True)
    return mul(outer, from_atom(a2))


def app(name, args, sort, nn=False, extra=None, pos=False):
    """generic uninterpreted application; args may be Num, Atom or any object with .key/.deps/.height"""
    ks = []
    dp = set()
    h = 0
    for x in args:
        if isinstance(x, Num):
            ks.append(("n", x.id))
            dp |= x.deps
            h = max(h, x.height)
        elif isinstance(x, Atom):
            ks.append(("a", x.id))
            dp |= x.deps
            h = max(h, x.height)
        elif isinstance(x, (str, int)):
            ks.append(x)
        else:
            ks.append(x.key)
            dp |= x.deps
            h = max(h, x.height)
    key = ("app", name, sort, tuple(ks))
    return _mk(key, "app", name, tuple(args), sort, frozenset(dp), h, nn=nn, pos=pos, extra=extra)


def show_poly(p):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=lambda t: (-sum(e for _, e in t[0]), t[0])):
        s = "*".join(show_atom(_atoms[i]) + ("^%d" % e if e != 1 else "") for i, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = str(c) + "*" + s
        out.append(s)
    return " + ".join(out).replace("+ -", "- ")


def show_num(x):
    if x.is_poly():
        return show_poly(x.n)
    return "(%s)/(%s)" % (show_poly(x.n), show_poly(x.d))


_factor_cache = {}


def factor(p):
    """list of (irreducible primitive poly, multiplicity), constant"""
    k = p_key(p)
    r = _factor_cache.get(k)
    if r is not None:
        return r
    ats = tuple(sorted(p_atoms(p)))
    deg = max((sum(e for _, e in m) for m in p), default=0)
    if deg <= 1 or len(p) > 60 or not ats:
        r = ([(p, 1)], Q(1))
    elif len(p) == 1:
        (m, c), = p.items()
        r = ([({((i, 1),): Q(1)}, e) for i, e in m], c)
    else:
        R, idx = _ring(ats)
        f = _to_ring(p, R, idx, len(ats))
        c, fs = f.factor_list()
        r = ([(_from_ring(g, ats), e) for g, e in fs], Q(int(c.numerator), int(c.denominator)))
    _factor_cache[k] = r
    return r
