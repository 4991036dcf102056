"""Decision diagrams over numeric terms, facts, substitution.

DD = Leaf(value) | Node(decider, T, F); hash-consed.  Boolean DDs have leaves True/False.
Numeric deciders compare a canonical polynomial with a constant.
"""
import sys
from fractions import Fraction as Q
from . import num as N
from .num import Num, Atom, Unsupported

sys.setrecursionlimit(100000)


class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF_V = _Undef()


class DD:
    __slots__ = ("id", "val", "dec", "t", "f", "deps", "height", "leaf", "_size")

    def __repr__(self):
        return show_dd(self)


_leaf_tab = {}
_node_tab = {}
_cnt = [0]


def _vk(v):
    if isinstance(v, Num):
        return ("n", v.id)
    if isinstance(v, Atom):
        return ("a", v.id)
    if v is True or v is False:
        return ("b", v)
    if v is UNDEF_V:
        return ("u",)
    if isinstance(v, int):
        return ("i", v)
    if isinstance(v, str):
        return ("s", v)
    return v.key


def leaf(v):
    k = _vk(v)
    r = _leaf_tab.get(k)
    if r is None:
        r = DD()
        _cnt[0] += 1
        r.id = _cnt[0]
        r.val = v
        r.leaf = True
        r.dec = r.t = r.f = None
        r.deps = getattr(v, "deps", frozenset())
        r.height = getattr(v, "height", 0)
        _leaf_tab[k] = r
    return r


TRUE = leaf(True)
FALSE = leaf(False)
UNDEF = leaf(UNDEF_V)


class Decider:
    __slots__ = ("kind", "fam", "c", "strict", "order", "deps", "height", "key", "q", "atom", "variant", "isint", "id")

    def __repr__(self):
        if self.kind == "lin":
            return "%s %s %s" % (N.show_poly(self.q), "<" if self.strict else "<=", self.c)
        if self.kind == "var":
            return "%s is v%s" % (self.atom, self.variant)
        return repr(self.atom)


_dec_tab = {}
_fam_tab = {}


def _fam(key):
    r = _fam_tab.get(key)
    if r is None:
        r = len(_fam_tab)
        _fam_tab[key] = r
    return r


def _poly_deps(q):
    dp = set()
    h = 0
    for i in N.p_atoms(q):
        a = N._atoms[i]
        dp |= a.deps
        h = max(h, a.height)
    return frozenset(dp), h


def dec_lin(q, c, strict, isint):
    qk = N.p_key(q)
    key = ("lin", qk, c, strict)
    d = _dec_tab.get(key)
    if d is None:
        d = Decider()
        d.kind, d.q, d.c, d.strict, d.isint = "lin", q, c, strict, isint
        d.fam = _fam(("lin", qk))
        d.order = (d.fam, c, 0 if strict else 1)
        d.deps, d.height = _poly_deps(q)
        d.atom = d.variant = None
        d.key = key
        d.id = len(_dec_tab)
        _dec_tab[key] = d
    return d


def dec_var(atom, variant):
    key = ("var", atom.id, variant)
    d = _dec_tab.get(key)
    if d is None:
        d = Decider()
        d.kind, d.atom, d.variant = "var", atom, variant
        d.fam = _fam(("var", atom.id))
        d.order = (d.fam, variant, 0)
        d.deps, d.height = atom.deps, atom.height
        d.q = d.c = d.strict = d.isint = None
        d.key = key
        d.id = len(_dec_tab)
        _dec_tab[key] = d
    return d


def dec_bool(atom):
    key = ("bool", atom.id)
    d = _dec_tab.get(key)
    if d is None:
        d = Decider()
        d.kind, d.atom = "bool", atom
        d.fam = _fam(key)
        d.order = (d.fam, 0, 0)
        d.deps, d.height = atom.deps, atom.height
        d.q = d.c = d.strict = d.isint = d.variant = None
        d.key = key
        d.id = len(_dec_tab)
        _dec_tab[key] = d
    return d


def mk(d, t, f):
    if t is f:
        return t
    if d.kind == "lin":
        while not t.leaf and t.dec.fam == d.fam:
            t = t.t
    elif d.kind == "var":
        while not t.leaf and t.dec.fam == d.fam:
            t = t.f
    if t is f or f is UNDEF:
        return t
    if t is UNDEF:
        return f
    if not f.leaf and f.dec.fam == d.fam and d.kind == "lin":
        # adjacent same-family node with same T-value: merge  (q<c ? t : (q<=c' ? t : f'))
        if f.t is t and d.order < f.dec.order:
            return f
    k = (d.id, t.id, f.id)
    r = _node_tab.get(k)
    if r is None:
        r = DD()
        _cnt[0] += 1
        r.id = _cnt[0]
        r.leaf = False
        r.val = None
        r.dec, r.t, r.f = d, t, f
        r.deps = d.deps | t.deps | f.deps
        r.height = max(d.height, t.height, f.height)
        _node_tab[k] = r
    return r


_ite_cache = {}


def _cof(x, d, side):
    """cofactor of x w.r.t. decider d being true (side) / false, when d <= top decider of x."""
    if x.leaf:
        return x
    e = x.dec
    if e is d:
        return x.t if side else x.f
    if e.fam == d.fam:
        if d.kind == "lin":
            if side:     # d true implies every later member of the family
                while not x.leaf and x.dec.fam == d.fam:
                    x = x.t
                return x
        elif d.kind == "var":
            if side:
                while not x.leaf and x.dec.fam == d.fam:
                    x = x.f
                return x
    return x


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c is UNDEF:
        return UNDEF
    if a is TRUE and b is FALSE:
        return c
    k = (c.id, a.id, b.id)
    r = _ite_cache.get(k)
    if r is not None:
        return r
    tops = [x.dec for x in (c, a, b) if not x.leaf]
    d = min(tops, key=lambda z: z.order)
    t = ite(_cof(c, d, True), _cof(a, d, True), _cof(b, d, True))
    f = ite(_cof(c, d, False), _cof(a, d, False), _cof(b, d, False))
    r = mk(d, t, f)
    _ite_cache[k] = r
    return r


def AND(a, b):
    return ite(a, b, FALSE)


def OR(a, b):
    return ite(a, TRUE, b)


def NOT(a):
    return ite(a, FALSE, TRUE)


MAXNODES = 20000


def dd_mapn(fn, dds):
    """apply fn to leaf values; fn returns a DD or plain value wrapped by leaf()."""
    memo = {}

    def go(xs):
        k = tuple(x.id for x in xs)
        r = memo.get(k)
        if r is not None:
            return r
        if len(memo) > MAXNODES:
            raise Unsupported("decision diagram too large")
        tops = [x.dec for x in xs if not x.leaf]
        if not tops:
            if any(x is UNDEF for x in xs):
                r = UNDEF
            else:
                r = fn(*[x.val for x in xs])
                if not isinstance(r, DD):
                    r = leaf(r)
        else:
            d = min(tops, key=lambda z: z.order)
            t = go(tuple(_cof(x, d, True) for x in xs))
            f = go(tuple(_cof(x, d, False) for x in xs))
            if (t.leaf or d.order < t.dec.order) and (f.leaf or d.order < f.dec.order):
                r = mk(d, t, f)
            else:
                r = ite(mk(d, TRUE, FALSE), t, f)
        memo[k] = r
        return r
    return go(tuple(dds))


def leaves(x, acc=None, seen=None):
    if acc is None:
        acc, seen = {}, set()
    if x.id in seen:
        return acc
    seen.add(x.id)
    if x.leaf:
        acc[x.id] = x.val
    else:
        leaves(x.t, acc, seen)
        leaves(x.f, acc, seen)
    return acc


def size(x, seen=None):
    seen = set() if seen is None else seen
    if x.id in seen:
        return 0
    seen.add(x.id)
    return 1 if x.leaf else 1 + size(x.t, seen) + size(x.f, seen)


def deciders(x, acc=None, seen=None):
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    if x.id in seen or x.leaf:
        return acc
    seen.add(x.id)
    acc[x.dec.id] = x.dec
    deciders(x.t, acc, seen)
    deciders(x.f, acc, seen)
    return acc


def show_dd(x, depth=0):
    if x.leaf:
        return repr(x.val)
    if depth > 8:
        return "…"
    return "[%r ? %s : %s]" % (x.dec, show_dd(x.t, depth + 1), show_dd(x.f, depth + 1))


# ------------------------------------------------------------------ facts
# constraint: (poly, strict)  meaning poly < 0 or poly <= 0

AF = {}          # atom id -> [constraints]


def add_fact(a, poly, strict=False):
    AF.setdefault(a.id, []).append((poly, strict))


class Ctx:
    """stack of assumed literals"""
    def __init__(self):
        self.lits = []       # list of (decider, truth)
        self.cons = []       # list of constraints
        self.gen = 0

    def push(self, lits):
        mark = (len(self.lits), len(self.cons))
        for d, v in lits:
            self.lits.append((d, v))
            if d.kind == "lin":
                self.cons.append(lit_con(d, v))
        self.gen = _newgen()
        return mark

    def pop(self, mark):
        del self.lits[mark[0]:]
        del self.cons[mark[1]:]
        self.gen = _newgen()


_gen = [0]


def _newgen():
    _gen[0] += 1
    return _gen[0]


CTX = Ctx()


def lit_con(d, v):
    p = N.p_add(d.q, N.p_const(-d.c))
    if v:
        return (p, d.strict)
    np = {m: -c for m, c in p.items()}
    if d.isint:
        return (N.p_add(np, N.p_const(1)), False)
    return (np, not d.strict)


def _mono_sign(m):
    """'pos','nn' or None for a monomial"""
    pos = True
    for i, e in m:
        a = N._atoms[i]
        if a.pos:
            continue
        if a.nn or e % 2 == 0:
            pos = False
            continue
        if a.lo is not None and a.lo >= 0:
            if a.lo == 0:
                pos = False
            continue
        return None
    return "pos" if pos else "nn"


def _intrinsic(monos):
    """constraints valid for the given monomials"""
    out = []
    seen = set()
    work = list(monos)
    seenm = set(work)
    while work:
        m = work.pop()
        if not m:
            continue
        s = _mono_sign(m)
        if s:
            out.append(({m: Q(-1)}, s == "pos" and not _int_mono(m)) if not (s == "pos" and _int_mono(m))
                       else (N.p_add({m: Q(-1)}, N.p_const(1)), False))
        if len(m) == 1 and m[0][1] == 1:
            a = N._atoms[m[0][0]]
            if a.id in seen:
                continue
            seen.add(a.id)
            if a.lo is not None:
                out.append((N.p_add({m: Q(-1)}, N.p_const(a.lo)), False))
            if a.hi is not None:
                out.append((N.p_add({m: Q(1)}, N.p_const(-a.hi)), False))
        for i, e in m:
            for (p, st) in AF.get(i, ()):
                out.append((p, st))
                for mm in p:
                    if mm not in seenm:
                        seenm.add(mm)
                        work.append(mm)
    return out


def _int_mono(m):
    return all(N._atoms[i].sort == "i" for i, _ in m)


def infeasible(cons):
    """Fourier-Motzkin over monomials-as-variables; True if surely infeasible over the reals."""
    work = []
    seen = set()
    for p, st in cons:
        p = {m: c for m, c in p.items() if c}
        if not p or (len(p) == 1 and () in p):
            v = p.get((), Q(0))
            if v > 0 or (v == 0 and st):
                return True
            continue
        k = (frozenset(p.items()), st)
        if k not in seen:
            seen.add(k)
            work.append((p, st))
    for _ in range(60):
        if not work:
            return False
        cnt = {}
        for p, st in work:
            for m, c in p.items():
                if m:
                    u, l = cnt.get(m, (0, 0))
                    cnt[m] = (u + 1, l) if c > 0 else (u, l + 1)
        m = min(cnt, key=lambda z: cnt[z][0] * cnt[z][1])
        ups, los, rest = [], [], []
        for p, st in work:
            c = p.get(m, 0)
            (ups if c > 0 else los if c < 0 else rest).append((p, st))
        if len(ups) * len(los) > 400:
            return False
        seen = set((frozenset(p.items()), st) for p, st in rest)
        work = rest
        for p, s1 in ups:
            for r, s2 in los:
                q = N.p_add({a: b / p[m] for a, b in p.items()}, {a: b / -r[m] for a, b in r.items()})
                st = s1 or s2
                if not q or (len(q) == 1 and () in q):
                    v = q.get((), Q(0))
                    if v > 0 or (v == 0 and st):
                        return True
                    continue
                # normalise
                lead = abs(q[max(q)])
                q = {a: b / lead for a, b in q.items()}
                k = (frozenset(q.items()), st)
                if k not in seen:
                    seen.add(k)
                    work.append((q, st))
        if len(work) > 300:
            return False
    return False


def _relevant(goal, cons):
    """constraints connected to goal's monomials"""
    monos = set(m for m in goal if m)
    pool = list(cons)
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for p, st in pool:
            if any(m in monos for m in p if m):
                out.append((p, st))
                for m in p:
                    if m and m not in monos:
                        monos.add(m)
                        changed = True
            else:
                rest.append((p, st))
        pool = rest
    return out, monos


def entails(goal, strict, extra=()):
    """is  goal<0 (strict) / goal<=0  implied by ctx + intrinsic facts?"""
    neg = ({m: -c for m, c in goal.items()}, not strict)
    if all(_int_mono(m) and c.denominator == 1 for m, c in goal.items()):
        # ints: not(goal<=0) -> goal>=1 ; not(goal<0) -> goal>=0
        neg = (N.p_add(neg[0], N.p_const(1 if not strict else 0)), False)
    pool = list(CTX.cons) + list(extra)
    monos = set(goal)
    for p, _ in pool:
        monos |= set(p)
    pool += _intrinsic(monos)
    cons, _ = _relevant(goal, pool)
    return infeasible(cons + [neg])


_decide_cache = {}


def decide(d):
    """True/False/None for decider d under ctx and intrinsic facts"""
    k = (d.id, CTX.gen)
    r = _decide_cache.get(k, 0)
    if r != 0:
        return r
    r = None
    if d.kind == "lin":
        p = N.p_add(d.q, N.p_const(-d.c))
        if entails(p, d.strict):
            r = True
        else:
            np = {m: -c for m, c in p.items()}
            if d.isint:
                if entails(N.p_add(np, N.p_const(1)), False):
                    r = False
            elif entails(np, not d.strict):
                r = False
    else:
        for e, v in CTX.lits:
            if e is d:
                r = v
                break
            if e.kind == "var" and d.kind == "var" and e.atom is d.atom and v:
                r = False
                break
    _decide_cache[k] = r
    return r


def lit(d):
    r = decide(d)
    if r is True:
        return TRUE
    if r is False:
        return FALSE
    return mk(d, TRUE, FALSE)


def restrict(x):
    """simplify x under ctx"""
    memo = {}

    def go(x):
        if x.leaf:
            return x
        r = memo.get(x.id)
        if r is None:
            v = decide(x.dec)
            if v is True:
                r = go(x.t)
            elif v is False:
                r = go(x.f)
            else:
                r = mk(x.dec, go(x.t), go(x.f))
            memo[x.id] = r
        return r
    return go(x)


def cond_lits(c):
    """literals implied by boolean DD c (necessary single-decider facts along a chain)"""
    out = []
    while not c.leaf:
        if c.f is FALSE:
            out.append((c.dec, True))
            c = c.t
        elif c.t is FALSE:
            out.append((c.dec, False))
            c = c.f
        else:
            break
    return out


class assume:
    def __init__(self, c, extra=()):
        self.lits = list(cond_lits(c)) + list(extra)

    def __enter__(self):
        self.mark = CTX.push(self.lits)

    def __exit__(self, *a):
        CTX.pop(self.mark)


# --------------------------------------------------------- numeric conditions
_sign_cache = {}


def _known_sign(p):
    """1 if poly surely >0, 2 if >=0, -1, -2, None"""
    if len(p) == 1:
        (m, c), = p.items()
        s = _mono_sign(m)
        if s == "pos":
            return 1 if c > 0 else -1
        if s == "nn":
            return 2 if c > 0 else -2
    if all(_mono_sign(m) for m in p):
        if all(c > 0 for c in p.values()):
            return 1 if any(_mono_sign(m) == "pos" for m in p) else 2
        if all(c < 0 for c in p.values()):
            return -1 if any(_mono_sign(m) == "pos" for m in p) else -2
    return None


def _lin_cond(p, strict):
    """p<0 / p<=0 for irreducible p (poly)"""
    if not p:
        return FALSE if strict else TRUE
    if len(p) == 1 and () in p:
        v = p[()]
        return TRUE if (v < 0 or (v == 0 and not strict)) else FALSE
    isint = all(_int_mono(m) for m in p)
    c0 = -p.get((), Q(0))
    q = {m: c for m, c in p.items() if m}
    # primitive, leading coefficient positive
    import math
    g = None
    for c in q.values():
        g = abs(c) if g is None else Q(math.gcd(g.numerator * c.denominator, c.numerator * g.denominator), g.denominator * c.denominator)
    q = {m: c / g for m, c in q.items()}
    c0 = c0 / g
    flip = q[max(q)] < 0
    if isint:
        # q < c0  or  q <= c0, integers
        if flip:
            # -q' </<= c0  <=>  q' >/>= -c0  <=> not (q' <=/< -c0)
            q = {m: -c for m, c in q.items()}
            c = -c0
            # not(q' <= c) if strict; not(q' < c) otherwise
            cc = _floor(c) if strict else _ceil(c) - 1
            r = _int_le(q, Q(cc))
            return NOT(r)
        cc = (_ceil(c0) - 1) if strict else _floor(c0)
        return _int_le(q, Q(cc))
    if flip:
        q = {m: -c for m, c in q.items()}
        return NOT(lit(dec_lin(q, -c0, not strict, False)))
    return lit(dec_lin(q, c0, strict, False))


def _floor(c):
    return c.numerator // c.denominator


def _ceil(c):
    return -((-c.numerator) // c.denominator)


def _int_le(q, c):
    return lit(dec_lin(q, c, False, True))


def _stride_split(p, strict):
    """A*n + B < 0 (<= 0) with |B| < n  <=>  A < 0 or (A = 0 and B < 0 (<= 0))"""
    for n in sorted(N.p_atoms(p)):
        a = N._atoms[n]
        if a.sort != "i" or _mono_sign(((n, 1),)) is None:
            continue
        A, B = split_stride(p, n)
        if not A or any(i == n for m in B for i, _ in m):
            continue
        nn = {((n, 1),): Q(1)}
        if B and not (entails(N.p_add(B, nn, -1), True) and
                      entails(N.p_add({m: -v for m, v in B.items()}, nn, -1), True)):
            continue
        if not B and _mono_sign(((n, 1),)) != "pos" and not entails({((n, 1),): Q(-1)}, True):
            continue
        Ax = N.mk(A)
        az = cond_cmp(Ax, True)
        ae = AND(cond_cmp(Ax, False), NOT(az))
        return OR(az, AND(ae, cond_cmp(N.mk(B), strict) if B else (FALSE if strict else TRUE)))
    return None


def split_stride(p, n):
    """p = A*n + B, A collecting every monomial divisible by atom n"""
    A, B = {}, {}
    for m, c in p.items():
        d = dict(m)
        if n in d:
            d[n] -= 1
            if not d[n]:
                del d[n]
            A[tuple(sorted(d.items()))] = c
        else:
            B[m] = c
    return A, B


def cond_cmp(x, strict):
    """Num x <0 (strict) or <=0  as boolean DD"""
    k = (x.id, strict, CTX.gen)
    r = _sign_cache.get(k)
    if r is None:
        r = _cond_cmp(x, strict)
        _sign_cache[k] = r
    return r


def _cond_cmp(x, strict):
    if not x.n:
        return FALSE if strict else TRUE
    if x.is_int() and any(sum(e for _, e in m) > 1 for m in x.n):
        r = _stride_split(x.n, strict)
        if r is not None:
            return r
    facs = []
    const = Q(1)
    for p, sgn in ((x.n, "n"), (x.d, "d")):
        if len(p) == 1 and () in p:
            const *= p[()]
            continue
        fs, c = N.factor(p)
        const *= c
        for f, e in fs:
            facs.append((f, e, sgn))
    neg = const < 0
    rest = []
    zero_ok = []     # factors that may be zero (even multiplicity or nn), numerator only
    for f, e, w in facs:
        s = _known_sign(f)
        if s is not None and s < 0:
            if e % 2:
                neg = not neg
            f = {m: -c for m, c in f.items()}
            s = -s
        if s == 1:
            continue
        if w == "d":
            if s == 2 or e % 2 == 0:
                continue
            rest.append((f, w))
            continue
        if s == 2 or e % 2 == 0:
            zero_ok.append(f)
            continue
        rest.append((f, w))
    # sign of product of rest times (-1)^neg
    if not rest:
        isneg = TRUE if neg else FALSE
        iszero = FALSE
    else:
        isneg = TRUE if neg else FALSE
        iszero = FALSE
        for f, w in rest:
            ln = _lin_cond(f, True)
            isneg = ite(ln, NOT(isneg), isneg)
            if w == "n":
                iszero = OR(iszero, AND(_lin_cond(f, False), NOT(ln)))
    for f in zero_ok:
        z = AND(_lin_cond(f, False), NOT(_lin_cond(f, True))) if _known_sign(f) != 2 else _lin_cond(f, False)
        iszero = OR(iszero, z)
    if len(rest) == 1 and not zero_ok:
        f, w = rest[0]
        if neg:
            f = {m: -c for m, c in f.items()}
        return _lin_cond(f, strict if w == "n" else True)
    if strict:
        return AND(isneg, NOT(iszero))
    return OR(isneg, iszero)


NAN = N.sym("nan", "r", unique=False)
ARITH = {"exp", "ln", "cos", "sin", "tan", "log10", "floor", "ceil", "trunc", "round", "cbrt", "exp2", "log2", "fract", "tanh", "powf"}
_nan_memo = {}


def is_nan(x):
    """the condition under which the term is not a number (NaN enters as a formal factor, it never cancels)"""
    if NAN.id not in x.deps:
        return FALSE
    r = _nan_memo.get(x.id)
    if r is None:
        r = FALSE
        for i in sorted(x.atoms()):
            r = OR(r, _nan_atom(N._atoms[i]))
        _nan_memo[x.id] = r
    return r


def _nan_atom(a):
    if a is NAN:
        return TRUE
    if NAN.id not in a.deps or a.sort != "r":
        return FALSE
    if a.kind == "sqrt" or a.kind == "app" and a.name in ARITH:
        r = FALSE
        for y in a.args:
            if isinstance(y, N.Num):
                r = OR(r, is_nan(y))
        return r
    if a.kind != "app" or a.name.startswith("call:"):
        return FALSE              # what an unknown function returns is a number unless said otherwise
    if a.name in ("sel", "ssel", "ssel3") and isinstance(a.args[0], Atom) and (a.args[0].kind == "sym" or NAN.id not in a.args[0].deps):
        return FALSE
    return lit(dec_bool(N.app("isnan", [N.from_atom(a)], "b")))


def _num_cmp(a, b, f):
    if NAN.id in a.deps or NAN.id in b.deps:
        bad = OR(is_nan(a), is_nan(b))
        return FALSE if bad is TRUE else AND(NOT(bad), f(N.sub(a, b)))
    return f(N.sub(a, b))


def lt(a, b):
    return _num_cmp(a, b, lambda x: cond_cmp(x, True))


def le(a, b):
    return _num_cmp(a, b, lambda x: cond_cmp(x, False))


def eqn(a, b):
    if a is b and NAN.id not in a.deps:
        return TRUE
    return _num_cmp(a, b, lambda x: AND(cond_cmp(x, False), NOT(cond_cmp(x, True))))


# ------------------------------------------------------------ DD arithmetic
def num(c):
    return leaf(N.const(c))


def dnum(x):
    return x if isinstance(x, DD) else leaf(x)


def d_add(a, b):
    return dd_mapn(N.add, (a, b))


def d_sub(a, b):
    return dd_mapn(N.sub, (a, b))


def d_mul(a, b):
    return dd_mapn(N.mul, (a, b))


def d_div(a, b):
    return dd_mapn(N.div, (a, b))


# Rounded reading.  Properties that speak of exact equality of floating point results are decided with + - * / as
# opaque rounded operations instead of as operations of the real field: only what IEEE 754 guarantees is used
# (commutativity, sign symmetry, exact scaling by powers of two, exact small integers, neutral elements).
ROUND = [False]


def _sgn(x):
    """(sign, canonical of x and -x)"""
    y = N.neg(x)
    return (1, x) if x.id <= y.id else (-1, y)


def _pow2(q):
    q = abs(q)
    return q != 0 and (q.numerator & (q.numerator - 1)) == 0 and (q.denominator & (q.denominator - 1)) == 0


def _signed(s, x):
    return leaf(x if s > 0 else N.neg(x))


def fl_round(q):
    return Q(float(q)) if abs(q) < Q(10) ** 300 else q


def fl_add(x, y):
    if x.const == 0:
        return leaf(y)
    if y.const == 0:
        return leaf(x)
    if x.const is not None and y.const is not None:
        return leaf(N.const(fl_round(x.const + y.const)))
    if x.is_int() and y.is_int():
        return leaf(N.add(x, y))
    if y is x:
        return leaf(N.mul(N.const(2), x))
    if y is N.neg(x):
        return num(0)
    a, b = sorted((x, y), key=lambda t: t.id)
    c, d = sorted((N.neg(x), N.neg(y)), key=lambda t: t.id)
    s = 1
    if (c.id, d.id) < (a.id, b.id):
        a, b, s = c, d, -1
    return _signed(s, N.from_atom(N.app("fl+", [a, b], "r")))


def fl_mul(x, y):
    for a, b in ((x, y), (y, x)):
        if a.const is not None and (a.const == 0 or _pow2(a.const)):
            return leaf(N.mul(a, b))
    if x.const is not None and y.const is not None:
        return leaf(N.const(fl_round(x.const * y.const)))
    if x.is_int() and y.is_int():
        return leaf(N.mul(x, y))
    s, a = _sgn(x)
    t, b = _sgn(y)
    a, b = sorted((a, b), key=lambda t: t.id)
    return _signed(s * t, N.from_atom(N.app("fl*", [a, b], "r", nn=a is b)))


def fl_div(x, y):
    if y.const is not None and _pow2(y.const) or x.const == 0:
        return leaf(N.div(x, y))
    if x.const is not None and y.const is not None and y.const != 0:
        return leaf(N.const(fl_round(x.const / y.const)))
    s, a = _sgn(x)
    t, b = _sgn(y)
    return _signed(s * t, N.from_atom(N.app("fl/", [a, b], "r")))


def fl_sub(x, y):
    return fl_add(x, N.neg(y))


def fl_powi(x, e):
    if e.const == 0:
        return num(1)
    if e.const == 1:
        return leaf(x)
    if e.const == 2:
        return fl_mul(x, x)
    return leaf(N.from_atom(N.app("flpowi", [x, e], "r")))


def f_add(a, b):
    return dd_mapn(fl_add, (a, b)) if ROUND[0] else d_add(a, b)


def f_sub(a, b):
    return dd_mapn(fl_sub, (a, b)) if ROUND[0] else d_sub(a, b)


def f_mul(a, b):
    return dd_mapn(fl_mul, (a, b)) if ROUND[0] else d_mul(a, b)


def f_div(a, b):
    return dd_mapn(fl_div, (a, b)) if ROUND[0] else d_div(a, b)


def f_fma(a, b, c):
    def g(x, y, z):
        s, p = _sgn(x)
        t, q = _sgn(y)
        p, q = sorted((p, q), key=lambda t: t.id)
        return leaf(N.from_atom(N.app("flfma", [p if s * t > 0 else N.neg(p), q, z], "r")))
    return dd_mapn(g, (a, b, c)) if ROUND[0] else d_add(d_mul(a, b), c)


def d_neg(a):
    return dd_mapn(N.neg, (a,))


def d_lt(a, b):
    return dd_mapn(lt, (a, b))


def d_le(a, b):
    return dd_mapn(le, (a, b))


def d_eq(a, b):
    return dd_mapn(eqn, (a, b))


# ------------------------------------------------------------------ lambdas
class Lam:
    """closed binder: nv integer variables, body a DD (free of its own bound symbols: they are BV atoms)"""
    __slots__ = ("nv", "body", "key", "deps", "height", "id")

    def __repr__(self):
        return "λ%d.%r" % (self.height - 1, self.body)


_lam_tab = {}


def bv(h, i):
    a = N.sym("b%d_%d" % (h, i), "i", unique=False)
    return a


def lam(syms, body):
    """close body over the given (fresh) symbols"""
    h = body.height
    if any(s.id in body.deps for s in syms):
        m = Map({s.id: leaf(N.from_atom(bv(h, i))) for i, s in enumerate(syms)}, raw=True)
        body = m.dd(body)
    k = (len(syms), body.id, h)
    r = _lam_tab.get(k)
    if r is None:
        r = Lam()
        r.nv = len(syms)
        r.body = body
        r.height = h + 1
        r.deps = body.deps - frozenset(bv(h, i).id for i in range(len(syms)))
        r.key = ("lam",) + k
        r.id = len(_lam_tab)
        _lam_tab[k] = r
    return r


def lam_open(l, args):
    """instantiate with DDs (or Nums)"""
    h = l.height - 1
    return Map({bv(h, i).id: dnum(a) for i, a in enumerate(args)}).dd(l.body)


# --------------------------------------------------------------- application
REBUILD = {}      # name -> fn(args list of arg) -> DD     (args: Num/Atom/str/int/Lam/...)


def rebuild(name):
    def deco(f):
        REBUILD[name] = f
        return f
    return deco


REBUILD["fl+"] = lambda args: fl_add(args[0], args[1])
REBUILD["fl*"] = lambda args: fl_mul(args[0], args[1])
REBUILD["flpowi"] = lambda args: fl_powi(args[0], args[1])
REBUILD["fl/"] = lambda args: fl_div(args[0], args[1])
REBUILD["isnan"] = lambda args: is_nan(args[0])


class Map:
    """substitution  atom id -> DD | ('arr', fn idxDD->DD)"""

    def __init__(self, m, raw=False):
        self.m = m
        self.dom = frozenset(m)
        self.dmemo = {}
        self.nmemo = {}
        self.amemo = {}

    def dd(self, x):
        if not (x.deps & self.dom):
            return x
        r = self.dmemo.get(x.id)
        if r is not None:
            return r
        if x.leaf:
            r = self.val(x.val)
        else:
            c = self.dec(x.dec)
            if c is TRUE:
                r = self.dd(x.t)
            elif c is FALSE:
                r = self.dd(x.f)
            else:
                r = ite(c, self.dd(x.t), self.dd(x.f))
        self.dmemo[x.id] = r
        return r

    def dec(self, d):
        if not (d.deps & self.dom):
            return lit(d)
        if d.kind == "lin":
            v = self.poly(d.q)
            c = N.const(d.c)
            if NAN.id in v.deps:
                if NAN.id in d.deps:          # the guard against NaN is a decider of its own
                    return dd_mapn(lambda z: cond_cmp(N.sub(z, c), d.strict), (v,))
                if any(isinstance(z, Num) and is_nan(z) is not FALSE for z in leaves(v).values()):
                    raise Unsupported("comparison that meets NaN after a substitution")
            return dd_mapn(lambda z: (lt if d.strict else le)(z, c), (v,))
        v = self.atom(d.atom)
        if d.kind == "var":
            return dd_mapn(lambda t: is_variant(t, d.variant), (v,))
        return v

    def val(self, v):
        if isinstance(v, Num):
            return self.num(v)
        if isinstance(v, Atom):
            return self.atom(v)
        if hasattr(v, "subst"):
            return v.subst(self)
        return leaf(v)

    def poly(self, p):
        ats = sorted(N.p_atoms(p))
        dds = [self.atom(N._atoms[i]) for i in ats]
        idx = {i: k for k, i in enumerate(ats)}

        def ev(*vals):
            return _poly_eval(p, idx, vals)
        return dd_mapn(ev, dds)

    def num(self, x):
        if not (x.deps & self.dom):
            return leaf(x)
        r = self.nmemo.get(x.id)
        if r is None:
            ats = sorted(x.atoms())
            dds = [self.atom(N._atoms[i]) for i in ats]
            idx = {i: k for k, i in enumerate(ats)}
            if x.is_poly():
                r = dd_mapn(lambda *v: _poly_eval(x.n, idx, v), dds)
            else:
                r = dd_mapn(lambda *v: N.div(_poly_eval(x.n, idx, v), _poly_eval(x.d, idx, v)), dds)
            self.nmemo[x.id] = r
        return r

    def atom(self, a):
        if not (a.deps & self.dom):
            return _atom_leaf(a)
        r = self.amemo.get(a.id)
        if r is None:
            if a.id in self.m:
                r = self.m[a.id]
                if not isinstance(r, DD):
                    raise Unsupported("array symbol used as a scalar")
            elif a.kind == "sqrt":
                r = dd_mapn(N.sqrt, (self.num(a.args[0]),))
            else:
                r = self.app(a)
            self.amemo[a.id] = r
        return r

    def app(self, a):
        f = REBUILD.get(a.name)
        if f is not None and getattr(f, "custom", False):
            return f(self, a)
        args = []
        dds = []
        for x in a.args:
            if isinstance(x, Num):
                args.append(("d", len(dds)))
                dds.append(self.num(x))
            elif isinstance(x, Atom):
                args.append(("d", len(dds)))
                dds.append(self.atom(x))
            elif isinstance(x, (str, int)):
                args.append(("c", x))
            elif isinstance(x, Lam):
                args.append(("c", self.lam(x)))
            else:
                args.append(("c", x.subst_arg(self)))
        def go(*vals):
            aa = [vals[k] if t == "d" else k for t, k in args]
            if f is not None:
                return f(aa)
            na = N.app(a.name, aa, a.sort, nn=a.nn, pos=a.pos, extra=a.extra)
            if na.lo is None:
                na.lo = a.lo
            return _atom_leaf(na)
        return dd_mapn(go, dds)

    def lam(self, l):
        if not (l.deps & self.dom):
            return l
        syms = [N.sym("k", "i", lo=0) for _ in range(l.nv)]
        h = l.height - 1
        m = dict(self.m)
        for i, s in enumerate(syms):
            m[bv(h, i).id] = leaf(N.from_atom(s))
        return lam(syms, Map(m).dd(l.body))


def _atom_leaf(a):
    if a.sort in ("r", "i"):
        return leaf(N.from_atom(a))
    if a.sort == "b":
        return lit(dec_bool(a))
    return leaf(a)


def _poly_eval(p, idx, vals):
    """evaluate polynomial at Num values"""
    tot = N.ZERO
    # accumulate polynomial parts in bulk
    acc = {}
    for m, c in p.items():
        t = N.const(c)
        for i, e in m:
            v = vals[idx[i]]
            t = N.mul(t, v if e == 1 else N.powi(v, e))
        if t.is_poly():
            acc = N.p_add(acc, t.n)
        else:
            tot = N.add(tot, t)
    if acc:
        tot = N.add(tot, N.mk(acc))
    return tot


VARIANT_FN = [None]


def is_variant(t, v):
    """t: opaque atom / int"""
    if isinstance(t, Atom):
        return lit(dec_var(t, v))
    if isinstance(t, int):
        return TRUE if t == v else FALSE
    raise Unsupported("variant of %r" % (t,))


def subst(x, m):
    return Map(m).dd(x)


@rebuild("big")
def _rb_big(args):
    x = args[0]
    return leaf(N.wrap(x))


def ssel(A, x, y):
    """entry of a symmetric matrix symbol"""
    if x.id > y.id:
        x, y = y, x
    return N.app("ssel", [A, x, y], "r")


@rebuild("ssel")
def _rb_ssel(args):
    A, x, y = args
    return _atom_leaf(ssel(A, x, y))


def ssel3(A, s, x, y):
    """entry of the s-th matrix of a family of symmetric matrices"""
    if x.id > y.id:
        x, y = y, x
    return N.app("ssel3", [A, s, x, y], "r")


@rebuild("ssel3")
def _rb_ssel3(args):
    return _atom_leaf(ssel3(*args))
