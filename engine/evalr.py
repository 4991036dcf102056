"""Random interpretation of value graphs (Gulwani-Necula style).

Used only to confirm that two value graphs whose normal forms differ really denote
different functions: free symbols are given exact or high-precision values,
uninterpreted applications are given pseudo-random values that respect congruence.
No part of the analysed program is executed.
"""
import hashlib
from fractions import Fraction as Q
import mpmath
from mpmath import mpf, mp
from . import num as N
from . import terms as T
from . import values as V
from .num import Num, Atom, Unsupported
from .terms import DD, TRUE, FALSE, UNDEF, Lam
from .values import Struct, Enum, Arr, Ptr, Fn, VKey

mp.prec = 320


class B:
    """a real known up to a radius (midpoint-radius arithmetic, so that rounding never passes for a difference)"""
    __slots__ = ("m", "r")

    def __init__(self, m, r):
        self.m, self.r = m, r

    def __add__(self, o):
        m = self.m + o.m
        return B(m, self.r + o.r + ulp(m))

    def __neg__(self):
        return B(-self.m, self.r)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        m = self.m * o.m
        return B(m, abs(self.m) * o.r + abs(o.m) * self.r + self.r * o.r + ulp(m))

    def __truediv__(self, o):
        d = abs(o.m) - o.r
        if d <= 0:
            raise Fail("precision")
        m = self.m / o.m
        return B(m, (self.r + abs(m) * o.r) / d + ulp(m))

    def __pow__(self, e):
        if e < 0:
            return B(mpf(1), ZERO) / (self ** -e)
        x = B(mpf(1), ZERO)
        for _ in range(e):
            x = x * self
        return x

    def __abs__(self):
        return B(abs(self.m), self.r)

    def __repr__(self):
        return mpmath.nstr(self.m, 8)


class NotANumber(B):
    """absorbs every operation; comparisons with it are guarded by the decider isnan"""
    __slots__ = ()

    def __add__(self, o):
        return self
    __sub__ = __mul__ = __truediv__ = __pow__ = __add__

    def __neg__(self):
        return self
    __abs__ = __neg__


ZERO = mpf(0)
NANV = NotANumber(ZERO, ZERO)


def ulp(m):
    return mpmath.ldexp(abs(m), 3 - mp.prec)


class Fail(Exception):
    """no value under this interpretation (domain error, divergence, budget)"""


class DivZero(Fail):
    """no finite value"""


class Undef(Exception):
    pass


FINE = mpf(10) ** -20


def isz(x):
    return cmp0(x) == 0


def cmp0(x):
    """-1,0,1"""
    if x is NANV:
        return -1
    if isinstance(x, (int, Q)):
        return (x > 0) - (x < 0)
    if abs(x.m) <= 4 * x.r:
        if x.r > FINE:
            raise Fail("precision")
        return 0
    return 1 if x.m > 0 else -1


def small(x):
    if isinstance(x, Q) and (x.denominator.bit_length() > 160 or x.numerator.bit_length() > 400):
        return toball(x)
    return x


def toball(x):
    if isinstance(x, B):
        return x
    if isinstance(x, Q):
        if x.denominator == 1:
            return B(mpf(x.numerator), ulp(mpf(x.numerator)) if x.numerator.bit_length() > mp.prec else ZERO)
        m = mpf(x.numerator) / mpf(x.denominator)
        return B(m, ulp(m))
    return B(mpf(x), ZERO)


def tomp(x):
    return toball(x).m


def mix(a, b, op):
    if a is NANV or b is NANV:
        return NANV
    if isinstance(a, B) != isinstance(b, B):
        a, b = toball(a), toball(b)
    return op(a, b)


def add(a, b):
    return mix(a, b, lambda x, y: x + y)


def mul(a, b):
    return mix(a, b, lambda x, y: x * y)


def div(a, b):
    if isz(b):
        raise DivZero("division by zero")
    return mix(a, b, lambda x, y: x / y)


def powi(a, e):
    return a ** e


def same(a, b):
    if a is NANV or b is NANV:
        return a is b
    if isinstance(a, (int, Q)) and isinstance(b, (int, Q)):
        return a == b
    a, b = toball(a), toball(b)
    d = abs(a.m - b.m)
    return d <= 8 * (a.r + b.r) or d <= FINE * FINE * max(abs(a.m), abs(b.m))


def rnd_key(x):
    """hashable rounding of a value for congruence"""
    if isinstance(x, bool):
        return ("b", x)
    if isinstance(x, int):
        return ("n", x)
    if x is NANV:
        return ("nan",)
    if isinstance(x, (Q, B)):
        if isinstance(x, Q) and x.denominator == 1:
            return ("n", x.numerator)
        if isz(x):
            return ("n", 0)
        x = toball(x)
        if x.r > FINE * FINE * abs(x.m):
            raise Fail("precision")
        n = mpmath.nint(x.m)
        if abs(x.m - n) <= 4 * x.r + FINE * FINE * abs(x.m):
            return ("n", int(n))
        # times pi: no value of interest lies on a rounding boundary
        return ("f", mpmath.nstr(x.m * mp.pi, 28))
    if isinstance(x, tuple):
        return tuple(rnd_key(y) for y in x)
    return x


class Scope(dict):
    """bindings of bound variables; remembers values that depend on the variables bound here"""
    __slots__ = ("parent", "own", "memo")

    def __init__(self, parent, binds):
        dict.__init__(self, parent if parent is not None else {})
        self.update(binds)
        self.parent = parent
        self.own = frozenset(binds)
        self.memo = {}

    def home(self, deps):
        sc = self
        while sc is not None:
            if not sc.own.isdisjoint(deps):
                return sc.memo
            sc = sc.parent
        return None


class Interp:
    """one interpretation: env for symbols, seed for uninterpreted terms"""

    def __init__(self, seed, env=None, arrays=None, sizes=(1, 4), budget=400000, coarse=False, scale=None, big=False, mined=(), flat=0, base=0):
        self.flat, self.base, self.longest = flat, base, 0     # flat: uninterpreted functions are constant functions with rare exceptions
        self.seed = seed
        self.mined = mined                # constants the deciders compare with
        self.scale = scale                # magnitude of the reals drawn
        self.big = big                    # larger sizes
        self.coarse = coarse              # values from a very small set: ties and zeros are common
        self.env = dict(env or {})        # atom id -> value
        self.arrays = arrays or {}        # atom id -> fn(idx)->value
        self.memo = {}
        self.bv = Scope(None, {})
        self.sizes = sizes
        self.budget = budget
        self.depth = 0
        self.variants = {}

    # ------------------------------------------------------------ randomness
    def h(self, *key):
        seed = self.seed
        if self.flat and (key[0] == "var" and len(key) == 2 and isinstance(key[1], int) or isinstance(key[1], tuple) and key[1][0] in ("flat", "sym") and key[0] in "rb"):
            seed = ("base", self.base)
        s = hashlib.blake2b(repr((seed,) + key).encode(), digest_size=8).digest()
        return int.from_bytes(s, "big")

    def rnd_real(self, key, a=None):
        z = self.h("r", key)
        style = (z >> 8) % 4
        if self.coarse:
            v = Q((z >> 16) % 3 - 1) if style < 3 else Q((z >> 16) % 9 - 4, 2)
            if style == 0 and a is not None and a.pos and v == 0:
                v = Q(2)
        elif style == 0:
            v = Q((z >> 16) % 7 - 3)
        elif style == 1:
            v = Q((z >> 16) % 41 - 20, 4)
        else:
            v = Q((z >> 16) % 4001 - 2000, 500)
        if self.scale is not None:
            v = v * self.scale
        if self.mined and (z >> 40) % 3 == 0:
            v = self.mined[(z >> 42) % len(self.mined)]
            v = (v, v, v + 1, v - 1, 2 * v, v / 2)[(z >> 56) % 6]
        if a is not None and (a.pos or a.nn):
            v = abs(v)
            if a.pos and v == 0:
                v = Q(1, 2) if not self.coarse else Q(1)
        return v

    def rnd_int(self, key, a):
        z = self.h("i", key)
        lo = a.lo if a is not None and a.lo is not None else None
        if lo is None:
            return (z >> 8) % 9 - 3
        v = int(lo) + (z >> 8) % (12 if self.big else 5)
        if self.mined and ((z >> 40) % 4 == 0) != bool(self.flat):
            w = self.mined[(z >> 42) % len(self.mined)]
            w = abs(w.numerator // w.denominator)
            w = (w - 1, w, w + 1, 2 * w + 3)[(z >> 54) % 4] if not self.flat else (w, w + 1, 2 * w + 3, 3 * w)[(z >> 54) % 4]
            if int(lo) <= w <= 70000:
                v = w
        if a.hi is not None:
            v = min(v, int(a.hi))
        return v

    # ------------------------------------------------------------ terms
    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            raise Fail("budget")

    def num(self, x):
        n = self.poly(x.n)
        if x.is_poly():
            return n
        return div(n, self.poly(x.d))

    def poly(self, p):
        tot = 0
        for m, c in p.items():
            t = c
            for i, e in m:
                v = self.atom(N._atoms[i])
                t = mul(t, v if e == 1 else powi(v, e))
            tot = add(tot, t)
        return small(Q(tot) if isinstance(tot, int) else tot)

    def atom(self, a):
        if a.id in self.bv:
            return self.bv[a.id]
        memo = self.bv.home(a.deps) if self.bv else None
        if memo is None:
            memo = self.memo
        v = memo.get(a.id)
        if v is not None:
            return v
        v = self._atom(a)
        if T.ROUND[0] and isinstance(v, Q):
            v = _fl(v)
        memo[a.id] = v
        return v

    def _atom(self, a):
        self.tick()
        if a.id in self.env:
            return self.env[a.id]
        if a.kind == "sym":
            if a.sort == "r":
                f = SPECIAL.get(a.name)
                if f is not None:
                    return f()
                return self.rnd_real(("sym", a.id), a)
            if a.sort == "i":
                v = self.rnd_int(("sym", a.id), a)
                # respect simple upper-bound facts
                return v
            if a.sort == "b":
                return bool(self.h("b", "sym", a.id) & 1)
            return ("sym", a.id)
        if a.kind == "sqrt":
            x = self.num(a.args[0])
            if x is NANV:
                return x
            c = cmp0(x)
            if c < 0:
                raise Fail("sqrt of negative")
            if c == 0:
                return Q(0)
            if isinstance(x, (int, Q)):
                r = N._isqrt(Q(x))
                if r is not None:
                    return r
            x = toball(x)
            m = mpmath.sqrt(x.m)
            return B(m, x.r / m + ulp(m))
        return self.app(a)

    def arg(self, x):
        if isinstance(x, Num):
            return self.num(x)
        if isinstance(x, Atom):
            return self.atom(x)
        if isinstance(x, (str, int)):
            return x
        if isinstance(x, VKey):
            return self.value(x.val)
        raise Fail("argument %r" % (type(x),))

    def app(self, a):
        n = a.name
        f = EVAL.get(n)
        if f is not None:
            return f(self, a)
        if n == "sel":
            base, idx = a.args
            i = self.toint(self.num(idx))
            return self.select(base, i, a)
        args = tuple(rnd_key(self.arg(x)) for x in a.args)
        key = (n,) + args
        if self.flat and a.sort in "rib" and self.h("flat", key) % self.flat:
            # the same answer whatever the arguments, but for rare exceptions: long runs of loops over user supplied objects
            key = ("flat", n, a.sort) + tuple(x for x in a.args if isinstance(x, (str, int)))
        return self.uninterp(key, a)

    def uninterp(self, key, a):
        s = a.sort
        if key in self.env:
            return self.env[key]
        if s == "r":
            return self.rnd_real(key, a)
        if s == "i":
            if a.name == "len":
                lo, hi = self.sizes
                return lo + self.h("len", key) % (hi - lo + 1)
            return self.rnd_int(key, a)
        if s == "b":
            return bool(self.h("b", key) & 1)
        return ("t", self.h("o", key))

    def select(self, base, i, a):
        if base.id in self.arrays:
            return self.arrays[base.id](i)
        if base.kind == "app" and base.name == "fix":
            s, k = base.args
            arr = self.run_fix(s, self.toint(self.num(k)), base)
            return arr(i)
        if base.id in self.bv:
            return self.bv[base.id](i)
        t = self.atom(base)
        if callable(t):
            return t(i)
        return self.uninterp(("sel", rnd_key(t), i), a)

    def toint(self, v):
        if v is NANV:
            raise Fail("NaN as an integer")
        if isinstance(v, int):
            return v
        if isinstance(v, Q):
            if v.denominator != 1:
                raise Fail("non-integer index")
            return int(v)
        n = mpmath.nint(v.m)
        if abs(v.m - n) > 4 * v.r or v.r > FINE:
            raise Fail("non-integer index")
        return int(n)

    # ------------------------------------------------------------ binders
    def with_bv(self, binds, f):
        return self.within(Scope(self.bv, binds), f)

    def within(self, scope, f):
        old = self.bv
        self.bv = scope
        self.depth += 1
        if self.depth > 60:
            raise Fail("depth")
        try:
            return f()
        finally:
            self.bv = old
            self.depth -= 1

    def lam(self, l, *args):
        h = l.height - 1
        return self.with_bv({T.bv(h, i).id: x for i, x in enumerate(args)}, lambda: self.dd(l.body))

    def run_fix(self, s, K, a):
        ck = (s.id, tuple(sorted((k, rnd_key(v) if not callable(v) else id(v)) for k, v in self.bv.items() if k in s.deps)))
        memo = self.memo.setdefault("fix", {})
        e = memo.get(ck)
        if e is None:
            # the bindings are kept alive because the key names arrays by identity
            e = memo[ck] = ([[self.init_of(p) for p in s.phis]], self.bv)
        states = e[0]
        while len(states) <= K:
            if len(states) > 5000:
                raise Fail("iteration cap")
            states.append(self.step(s, len(states) - 1, states[-1]))
        return states[max(K, 0)][s.root]

    def init_of(self, p):
        if p.kind == "arr":
            return self.arrfn(p.init, self.bv)
        try:
            return self.dd(p.init)
        except Undef:
            return None

    def arrfn(self, fn, outer):
        """lazy memoised array function under the given bindings"""
        cache = {}

        def get(i):
            if i in cache:
                return cache[i]
            b = {}
            if fn.stride is None:
                b[fn.syms[0].id] = i
            else:
                old = self.bv
                self.bv = outer
                try:
                    n = self.toint(self.num(fn.stride))
                finally:
                    self.bv = old
                if n <= 0:
                    raise Fail("stride")
                b[fn.syms[0].id] = i // n
                b[fn.syms[1].id] = i % n
            old = self.bv
            self.bv = Scope(outer, b)
            self.depth += 1
            if self.depth > 300:
                raise Fail("depth")
            try:
                v = self.dd(fn.body)
            finally:
                self.bv = old
                self.depth -= 1
            cache[i] = v
            return v
        return get

    def scope_of(self, s, k, cur):
        binds = {s.k.id: k}
        for p, v in zip(s.phis, cur):
            if v is not None:
                binds[p.atom.id] = v
        return Scope(self.bv, binds)

    def step(self, s, k, cur):
        scope = self.scope_of(s, k, cur)
        self.tick()
        nxt = []
        for p in s.phis:
            if p.kind == "arr":
                nxt.append(self.arrfn(p.next, scope))
            else:
                try:
                    nxt.append(self.within(scope, lambda: self.dd(p.next)))
                except Undef:
                    nxt.append(None)
        return nxt

    def run_mu(self, s):
        cur = [self.init_of(p) for p in s.phis]
        for k in range(5000):
            if not self.within(self.scope_of(s, k, cur), lambda: self.dd(s.cond)):
                self.longest = max(self.longest, k)
                return k
            cur = self.step(s, k, cur)
        raise Fail("iteration cap")

    # ------------------------------------------------------------ deciders / DDs
    def dec(self, d):
        if d.kind == "lin":
            q = self.poly(d.q)
            x = add(q, -d.c)
            c = cmp0(x)
            return c < 0 or (c == 0 and not d.strict)
        if d.kind == "var":
            v = self.atom(d.atom)
            if isinstance(v, int) and not isinstance(v, bool):
                return v == d.variant
            n = self.nvar(d.atom)
            if self.flat and self.h("flatvar", rnd_key(v)) % self.flat:
                return self.h("var", n) % n == d.variant
            return self.h("var", rnd_key(v)) % n == d.variant
        v = self.atom(d.atom)
        if not isinstance(v, bool):
            raise Fail("bool")
        return v

    def nvar(self, a):
        return VARIANTS.get(vname(a), 2)

    def dd(self, x):
        while not x.leaf:
            self.tick()
            x = x.t if self.dec(x.dec) else x.f
        v = x.val
        if isinstance(v, Num):
            return self.num(v)
        if isinstance(v, Atom):
            return self.atom(v)
        if v is T.UNDEF_V:
            raise Undef()
        if isinstance(v, (bool, int, str)):
            return v
        if isinstance(v, Fn):
            return ("fn", v.key)
        raise Fail("leaf %r" % (type(v),))

    # ------------------------------------------------------------ whole values
    def value(self, v):
        """hashable evaluation of a structured value"""
        if isinstance(v, DD):
            try:
                return self.dd(v)
            except Undef:
                return ("undef",)
        if isinstance(v, Struct):
            return tuple(self.value(x) for x in v.fs)
        if isinstance(v, Enum):
            t = self.dd(v.tag)
            if not isinstance(t, int):
                raise Fail("tag")
            return ("tag", t) + tuple(self.value(x) for x in v.pay.get(t, []))
        if isinstance(v, Arr):
            n = self.toint(self.dd(v.len))
            return ("arr",) + tuple(self.value_at(v, i) for i in range(n))
        raise Fail("value %r" % (type(v),))

    def value_at(self, v, i):
        if v.stride is None:
            b = {v.syms[0].id: i}
        else:
            s = self.toint(self.num(v.stride))
            if s <= 0:
                raise Fail("stride")
            b = {v.syms[0].id: i // s, v.syms[1].id: i % s}
        return self.with_bv(b, lambda: self.value(v.body))


SPECIAL = {
    "inf": lambda: B(mpf(10) ** 400, ZERO),
    "f64max": lambda: toball(Q(2) ** 1024 - Q(2) ** 971),
    "pi": lambda: B(+mp.pi, ulp(+mp.pi)),
    "nan": lambda: NANV,
    "unboundedrange": lambda: Q(10) ** 18,
}
from .interp import VARIANTS, vname
EVAL = {}


def _fail(m):
    raise Fail(m)


def ev(*names):
    def deco(f):
        for n in names:
            EVAL[n] = f
        return f
    return deco


def _mpfun(fn):
    def g(ip, a):
        x = ip.num(a.args[0])
        if x is NANV:
            return x
        try:
            x = toball(x)
            y = fn(x.m)
            r = ulp(y)
            if x.r:
                # local slope, generously
                h = max(x.r, ulp(x.m), mpmath.ldexp(mpf(1), -mp.prec // 3))
                r += 4 * x.r * max(abs(fn(x.m + h) - y), abs(fn(x.m - h) - y)) / h
            return B(y, r)
        except (ValueError, ZeroDivisionError):
            raise Fail("domain")
    return g


def _clip_exp(x):
    if abs(x) > 2000:
        raise Fail("exp range")
    return mpmath.exp(x)


EVAL["isnan"] = lambda ip, a: ip.num(a.args[0]) is NANV


def _fl(x):
    """the nearest double"""
    if x is NANV:
        return x
    if isinstance(x, B):
        if x.r == 0:
            return Q(float(x.m))
        lo, hi = float(x.m - x.r), float(x.m + x.r)
        if lo != hi:
            raise Fail("precision")
        return Q(lo)
    try:
        return Q(float(Q(x)))
    except OverflowError:
        raise Fail("range")


EVAL["fl+"] = lambda ip, a: _fl(add(_fl(ip.num(a.args[0])), _fl(ip.num(a.args[1]))))
EVAL["fl*"] = lambda ip, a: _fl(mul(_fl(ip.num(a.args[0])), _fl(ip.num(a.args[1]))))
EVAL["fl/"] = lambda ip, a: _fl(div(_fl(ip.num(a.args[0])), _fl(ip.num(a.args[1]))))
EVAL["flfma"] = lambda ip, a: _fl(add(mul(_fl(ip.num(a.args[0])), _fl(ip.num(a.args[1]))), _fl(ip.num(a.args[2]))))


def _f32(x):
    import struct
    if x is NANV:
        return x
    if isinstance(x, B) and x.r:
        lo, hi = _f32(B(x.m - x.r, ZERO)), _f32(B(x.m + x.r, ZERO))
        if lo != hi:
            raise Fail("precision")
        return lo
    try:
        return Q(struct.unpack("f", struct.pack("f", float(x.m if isinstance(x, B) else Q(x))))[0])
    except OverflowError:
        raise Fail("range")


EVAL["f32"] = lambda ip, a: _f32(ip.num(a.args[0]))


def _narrow(bits, sg):
    lo = -(1 << bits - 1) if sg else 0
    return lambda ip, a: (ip.toint(ip.num(a.args[0])) - lo) % (1 << bits) + lo


for _t, _b in (("u8", (8, 0)), ("i8", (8, 1)), ("u16", (16, 0)), ("i16", (16, 1))):
    EVAL["narrow_" + _t] = _narrow(*_b)
EVAL["flpowi"] = lambda ip, a: _fl(powi(_fl(ip.num(a.args[0])), ip.toint(ip.num(a.args[1]))))
EVAL["exp"] = _mpfun(_clip_exp)
EVAL["ln"] = _mpfun(lambda x: mpmath.log(x) if x > 0 else _fail("log"))
EVAL["log2"] = _mpfun(lambda x: mpmath.log(x, 2) if x > 0 else _fail("log"))
EVAL["exp2"] = _mpfun(lambda x: mpf(2) ** x if abs(x) < 2000 else _fail("range"))
EVAL["cos"] = _mpfun(mpmath.cos)
EVAL["sin"] = _mpfun(mpmath.sin)
EVAL["tan"] = _mpfun(mpmath.tan)
EVAL["tanh"] = _mpfun(mpmath.tanh)
EVAL["acos"] = _mpfun(lambda x: mpmath.acos(x) if abs(x) <= 1 else _fail("acos"))
EVAL["asin"] = _mpfun(lambda x: mpmath.asin(x) if abs(x) <= 1 else _fail("asin"))
EVAL["atan"] = _mpfun(mpmath.atan)
EVAL["cbrt"] = _mpfun(lambda x: mpmath.cbrt(x) if x >= 0 else -mpmath.cbrt(-x))
EVAL["exp_m1"] = _mpfun(mpmath.expm1)
EVAL["ln_1p"] = _mpfun(lambda x: mpmath.log1p(x) if x > -1 else _fail("log1p"))


def _q(x):
    """exact if very close to an integer multiple of 1/2"""
    if x is NANV:
        raise Fail("rounding NaN")
    if isinstance(x, (int, Q)):
        return Q(x)
    n = mpmath.nint(x.m * 2)
    if abs(x.m * 2 - n) <= 8 * x.r:
        if x.r > FINE:
            raise Fail("precision")
        return Q(int(n), 2)
    return x


def _floor(x):
    x = _q(x)
    if isinstance(x, Q):
        return Q(x.numerator // x.denominator)
    return Q(int(mpmath.floor(x.m)))


EVAL["floor"] = lambda ip, a: _floor(ip.num(a.args[0]))
EVAL["ceil"] = lambda ip, a: -_floor(-ip.num(a.args[0]))


def _trunc(x):
    return _floor(x) if cmp0(x) >= 0 else -_floor(-x)


def _round(x):
    x = _q(x)
    h = Q(1, 2)
    return _floor(add(x, h)) if cmp0(x) >= 0 else -_floor(add(-x, h))


EVAL["trunc"] = lambda ip, a: _trunc(ip.num(a.args[0]))
EVAL["round"] = lambda ip, a: _round(ip.num(a.args[0]))
EVAL["fract"] = lambda ip, a: add(ip.num(a.args[0]), -_trunc(ip.num(a.args[0])))
EVAL["toint"] = lambda ip, a: _trunc(ip.num(a.args[0]))
EVAL["toint_u"] = lambda ip, a: max(Q(0), _trunc(ip.num(a.args[0])))
EVAL["log10"] = _mpfun(lambda x: mpmath.log10(x) if x > 0 else _fail("log"))
EVAL["sinh"] = _mpfun(lambda x: mpmath.sinh(x) if abs(x) < 2000 else _fail("range"))
EVAL["cosh"] = _mpfun(lambda x: mpmath.cosh(x) if abs(x) < 2000 else _fail("range"))


def _bits(f):
    def g(ip, a):
        x, y = ip.toint(ip.num(a.args[0])), ip.toint(ip.num(a.args[1]))
        if y < 0 or y > 10000:
            raise Fail("shift")
        return f(x, y)
    return g


EVAL["BitAnd"] = lambda ip, a: ip.toint(ip.num(a.args[0])) & ip.toint(ip.num(a.args[1]))
EVAL["BitOr"] = lambda ip, a: ip.toint(ip.num(a.args[0])) | ip.toint(ip.num(a.args[1]))
EVAL["BitXor"] = lambda ip, a: ip.toint(ip.num(a.args[0])) ^ ip.toint(ip.num(a.args[1]))
EVAL["Shl"] = _bits(lambda x, y: x << y)
EVAL["Shr"] = _bits(lambda x, y: x >> y)
EVAL["big"] = lambda ip, a: ip.num(a.args[0])


@ev("as_unsigned")
def _asu(ip, a):
    v = ip.num(a.args[0])
    return v if v >= 0 else v + 2 ** 64


@ev("powf")
def _powf(ip, a):
    x, e = ip.num(a.args[0]), ip.num(a.args[1])
    if isinstance(e, (int, Q)) and Q(e).denominator == 1 and abs(e) < 64:
        if isz(x) and e < 0:
            raise Fail("powf")
        return x ** int(e)
    if cmp0(x) <= 0:
        raise Fail("powf domain")
    x, e = toball(x), toball(e)
    m = mpmath.power(x.m, e.m)
    return B(m, abs(m) * 4 * (abs(e.m) * x.r / abs(x.m) + abs(mpmath.log(x.m)) * e.r) + 4 * ulp(m))


@ev("idiv")
def _idiv(ip, a):
    x, y = ip.toint(ip.num(a.args[0])), ip.toint(ip.num(a.args[1]))
    if y <= 0:
        raise Fail("idiv")
    return Q(x // y)


@ev("sdiv")
def _sdiv(ip, a):
    x, y = ip.toint(ip.num(a.args[0])), ip.toint(ip.num(a.args[1]))
    if y == 0:
        raise Fail("sdiv")
    q = abs(x) // abs(y)
    return Q(q if (x >= 0) == (y > 0) else -q)


@ev("div0")
def _div0(ip, a):
    raise DivZero("division by zero")


@ev("fmod")
def _fmod(ip, a):
    x, y = ip.num(a.args[0]), ip.num(a.args[1])
    if isz(y):
        raise Fail("fmod")
    return add(x, -mul(y, _trunc(div(x, y))))


@ev("rem_euclid")
def _reme(ip, a):
    x, y = ip.num(a.args[0]), ip.num(a.args[1])
    if isz(y):
        raise Fail("rem")
    return add(x, -mul(y, _floor(div(x, y)))) if cmp0(y) > 0 else _fail("rem")


@ev("sum")
def _sum(ip, a):
    n = ip.toint(ip.num(a.args[0]))
    l = a.args[1]
    if n > 300:
        raise Fail("long sum")
    tot = Q(0)
    for i in range(n):
        tot = add(tot, ip.lam(l, i))
    return small(tot)


@ev("fix")
def _fix(ip, a):
    s, k = a.args
    return ip.run_fix(s, ip.toint(ip.num(k)), a)


@ev("mu")
def _mu(ip, a):
    return Q(ip.run_mu(a.args[0]))


@ev("forall")
def _forall(ip, a):
    n = ip.toint(ip.num(a.args[0]))
    l = a.args[1]
    if len(a.args) > 2:
        s = ip.toint(ip.num(a.args[2]))
        return all(ip.lam(l, i // s, i % s) for i in range(n))
    return all(ip.lam(l, i) for i in range(n))


for _s in "riob":
    pass


@ev("same")
def _same(ip, a):
    return rnd_key(ip.arg(a.args[0])) == rnd_key(ip.arg(a.args[1]))


@ev("isinf")
def _isinf(ip, a):
    x = ip.num(a.args[0])
    return abs(tomp(x)) > mpf(10) ** 350


def _ssel(self, a):
    A, x, y = a.args
    i, j = sorted((self.toint(self.num(x)), self.toint(self.num(y))))
    f = self.arrays.get(A.id)
    if f is not None:
        return f((i, j))
    return self.uninterp(("ssel", A.id, i, j), a)


EVAL["ssel"] = _ssel


def _ssel3(self, a):
    A, s, x, y = a.args
    s, i, j = self.toint(self.num(s)), self.toint(self.num(x)), self.toint(self.num(y))
    if i > j:
        i, j = j, i
    return self.uninterp(("ssel3", A.id, s, i, j), a)


EVAL["ssel3"] = _ssel3
