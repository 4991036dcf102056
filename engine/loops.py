"""Loop summarisation: inductions, reductions, array comprehensions, recurrences."""
from fractions import Fraction as Q
import itertools
from . import num as N
from . import terms as T
from . import values as V
from .num import Num, Atom, Unsupported
from .terms import DD, leaf, ite, AND, OR, NOT, TRUE, FALSE, UNDEF, Map, Lam
from .values import Struct, Enum, Arr, Ptr

UNROLL = 8
SMALL = 4


# ==================================================================== sums
def mk_sum(ln, sym, body):
    """sum over 0 <= sym < ln of body;  ln DD, body DD"""
    return T.dd_mapn(lambda n: sum_dd(n, sym, body), (ln,))


def fresh_idx(ln=None, name="j"):
    s = N.sym(name, "i", lo=0)
    if ln is not None and ln.is_poly():
        T.add_fact(s, N.p_add(N.p_add({((s.id, 1),): Q(1)}, ln.n, -1), N.p_const(1)))
    return s


def lin_in(d, sym):
    """decider lin in sym with coefficient +-1: returns ('le', E) meaning sym<=E iff true, or ('ge', L)"""
    if d.kind != "lin" or not d.isint:
        return None
    m = ((sym.id, 1),)
    a = d.q.get(m)
    if a is None:
        return None
    rest = {k: v for k, v in d.q.items() if k != m}
    for i in N.p_atoms(rest):
        if sym.id in N._atoms[i].deps:
            return None
    r = N.mk(rest) if rest else N.ZERO
    if a == 1:
        return "le", N.sub(N.const(d.c), r)
    if a == -1:
        return "ge", N.sub(r, N.const(d.c))
    return None


_sum_memo = {}


def sum_dd(n, sym, body):
    k = (n.id, sym.id, body.id, T.CTX.gen)
    r = _sum_memo.get(k)
    if r is None:
        if len(_sum_memo) > 20000:
            _sum_memo.clear()
        r = _sum_dd(n, sym, body)
        _sum_memo[k] = r
    return r


def _sum_dd(n, sym, body):
    c = n.const
    if c is not None and c <= 0:
        return T.num(0)
    if body.leaf:
        if body is UNDEF:
            return UNDEF
        return sum_leaf(n, sym, body.val)
    if c is not None and c <= UNROLL and sym.id in body.deps:
        tot = T.num(0)
        for i in range(int(c)):
            tot = T.d_add(tot, T.subst(body, {sym.id: T.num(i)}))
        return tot
    d = body.dec
    if sym.id not in d.deps:
        return ite(T.lit(d), sum_dd(n, sym, body.t), sum_dd(n, sym, body.f))
    le = lin_in(d, sym)
    if le is not None:
        # three-way: sym<E, sym==E, sym>E
        kind, E = le
        t, f = body.t, body.f
        if kind == "ge":
            # sym >= L true  ->  sym <= L-1 ? f : t
            t, f = f, t
            E = N.sub(E, N.ONE)
        if kind == "le" and not f.leaf and f.dec.fam == d.fam:
            le2 = lin_in(f.dec, sym)
            if le2 and le2[0] == "le" and N.sub(le2[1], E) is N.ONE:
                at = le2[1]
                mid, hi = f.t, f.f
                inr = AND(T.le(N.ZERO, at), T.lt(at, n))
                pick = T.subst(mid, {sym.id: leaf(at)})
                if hi is t:
                    base = sum_dd(n, sym, t)
                    return ite(inr, T.d_add(T.d_sub(base, T.subst(t, {sym.id: leaf(at)})), pick), base)
        if kind == "ge" and not body.f.leaf and body.f.dec.fam == d.fam:
            # q = -sym + rest ;  (sym >= L ? t : (sym >= L-1 ? mid : lo))
            le2 = lin_in(body.f.dec, sym)
            if le2 and le2[0] == "ge" and N.sub(N.add(E, N.ONE), le2[1]) is N.ONE:
                at = le2[1]
                mid, lo = body.f.t, body.f.f
                if lo is body.t:
                    inr = AND(T.le(N.ZERO, at), T.lt(at, n))
                    base = sum_dd(n, sym, lo)
                    pick = T.subst(mid, {sym.id: leaf(at)})
                    return ite(inr, T.d_add(T.d_sub(base, T.subst(lo, {sym.id: leaf(at)})), pick), base)
        M = N.add(E, N.ONE)
        sn_f = sum_dd(n, sym, f)
        mid = T.d_add(sum_dd(M, sym, t), T.d_sub(sn_f, sum_dd(M, sym, f)))
        return ite(T.le(M, N.ZERO), sn_f, ite(T.le(n, M), sum_dd(n, sym, t), mid))
    return leaf(N.from_atom(sum_atom(n, sym, body)))


def sum_atom(n, sym, body, nn=False):
    l1 = T.lam([sym], body)
    # canonical direction
    j = fresh_idx(n)
    rev = T.subst(body, {sym.id: leaf(N.sub(N.sub(n, N.ONE), N.from_atom(j)))})
    l2 = T.lam([j], rev)
    l = l1 if l1.id <= l2.id else l2
    return N.app("sum", [n, l], "r", nn=nn)


def sum_leaf(n, sym, x):
    if sym.id not in x.deps:
        return leaf(N.mul(x, n))
    c = n.const
    if c is not None and c <= UNROLL:
        tot = T.num(0)
        for i in range(int(c)):
            tot = T.d_add(tot, T.subst(leaf(x), {sym.id: T.num(i)}))
        return tot
    ddep = any(sym.id in N._atoms[i].deps for i in N.p_atoms(x.d))
    groups = {}
    for m, c in x.n.items():
        dep = tuple((i, e) for i, e in m if sym.id in N._atoms[i].deps)
        ind = tuple((i, e) for i, e in m if sym.id not in N._atoms[i].deps)
        g = groups.setdefault(dep, {})
        g[ind] = g.get(ind, 0) + c
    tot = N.ZERO
    one = N.p_const(1)
    for dep, ind in groups.items():
        coef = N.mk(ind)
        if ddep:
            body = N.norm({dep: Q(1)}, x.d)
        else:
            coef = N.div(coef, N.mk(x.d))
            body = N.mk({dep: Q(1)})
        if sym.id not in body.deps:
            tot = N.add(tot, N.mul(coef, N.mul(body, n)))
            continue
        nn = (not ddep) and T._mono_sign(dep) is not None
        tot = N.add(tot, N.mul(coef, N.from_atom(sum_atom(n, sym, leaf(body), nn))))
    return leaf(tot)


@T.rebuild("sum")
def _rb_sum(args):
    n, l = args
    j = fresh_idx(n)
    return sum_dd(n, j, T.lam_open(l, [N.from_atom(j)]))


# ============================================================ array functions
class ArrFn:
    """function of a flat index; syms/stride/body as in values.Arr"""
    __slots__ = ("syms", "stride", "body")

    def __init__(self, syms, stride, body):
        self.syms, self.stride, self.body = syms, stride, body

    def sel(self, idx):
        if self.body is UNDEF:
            return UNDEF
        if self.stride is None:
            return T.subst(self.body, {self.syms[0].id: idx})
        st = self.stride
        r = T.dd_mapn(lambda e: V.idiv(e, st), (idx,))
        c = T.dd_mapn(lambda e: V.imod(e, st), (idx,))
        return T.subst(self.body, {self.syms[0].id: r, self.syms[1].id: c})

    def map(self, m):
        st = self.stride
        body, syms = self.body, self.syms
        if st is not None and (st.deps & m.dom):
            s2 = m.num(st)
            if not s2.leaf:
                raise Unsupported("conditional stride")
            if s2.val.const is not None:
                s = fresh_idx(name="s")
                r, c = V.decomp(N.from_atom(s), st)
                body = T.subst(body, {syms[0].id: leaf(r), syms[1].id: leaf(c)})
                syms = [s]
                st = None
            else:
                st = s2.val
        if not (body.deps & m.dom):
            return ArrFn(syms, st, body)
        ns = V.fresh_syms(None, st)
        m2 = dict(m.m)
        for a, b in zip(syms, ns):
            m2[a.id] = leaf(N.from_atom(b))
        return ArrFn(ns, st, Map(m2).dd(body))

    def key(self):
        return (None if self.stride is None else self.stride.id, T.lam(self.syms, self.body).id)

    @property
    def deps(self):
        d = self.body.deps - frozenset(s.id for s in self.syms)
        return d if self.stride is None else d | self.stride.deps

    def with_syms(self, syms, stride):
        """body expressed over the given syms"""
        if self.stride is stride:
            return T.subst(self.body, {a.id: leaf(N.from_atom(b)) for a, b in zip(self.syms, syms)}) \
                if self.syms is not syms else self.body
        return self.sel(leaf(flat(syms, stride)))


def flat(syms, stride):
    if stride is None:
        return N.from_atom(syms[0])
    return N.add(N.mul(N.from_atom(syms[0]), stride), N.from_atom(syms[1]))


class Rename:
    """array symbol -> another array symbol"""
    def __init__(self, atom):
        self.atom = atom

    def sel(self, idx):
        return T.dd_mapn(lambda i: T._atom_leaf(N.app("sel", [self.atom, i], self.atom.extra or "r")), (idx,))


# ====================================================================== sys
class Phi:
    __slots__ = ("atom", "kind", "init", "next", "sort")
    # kind: num bool tag tok arr ; init/next: DD or ArrFn


class Sys:
    """system of simultaneous recurrences; root = index of the component of interest or None (then cond)"""
    def __init__(self, phis, k, cond, root):
        self.phis, self.k, self.cond, self.root = phis, k, cond, root
        dp = frozenset()
        h = 0
        bound = frozenset(p.atom.id for p in phis) | frozenset([k.id])
        for p in phis:
            dp |= p.init.deps | p.next.deps
            h = max(h, _h(p.init), _h(p.next))
        if cond is not None:
            dp |= cond.deps
            h = max(h, cond.height)
        self.deps = dp - bound
        self.height = h
        self.id = None
        self.key = None

    def sig(self):
        return (self.root is None, len(self.phis), tuple(sorted(str((p.kind, p.sort)) for p in self.phis)))

    def subst_arg(self, m):
        """rename bound symbols, substitute, intern"""
        m2 = dict(m.m)
        ks = N.sym("k", "i", lo=0)
        m2[self.k.id] = leaf(N.from_atom(ks))
        np = []
        for p in self.phis:
            a = fresh_phi(p.kind, p.sort)
            m2[p.atom.id] = Rename(a) if p.kind == "arr" else phi_dd(a, p)
            np.append(a)
        mm = Map(m2)
        out = []
        for p, a in zip(self.phis, np):
            q = Phi()
            q.atom, q.kind, q.sort = a, p.kind, p.sort
            if p.kind == "arr":
                q.init, q.next = p.init.map(m), p.next.map(mm)
            else:
                q.init, q.next = m.dd(p.init), mm.dd(p.next)
            out.append(q)
        return intern(Sys(out, ks, None if self.cond is None else mm.dd(self.cond), self.root))

    def __repr__(self):
        return "sys#%s{%s%s}" % (self.id, "; ".join("%r: %s -> %s" % (p.atom, _short(p.init), _short(p.next)) for p in self.phis),
                                 "" if self.cond is None else " while %r" % self.cond)


def _short(x):
    s = repr(x.body if isinstance(x, ArrFn) else x)
    return s if len(s) < 300 else s[:300] + "…"


def _h(x):
    return x.body.height if isinstance(x, ArrFn) else x.height


def fresh_phi(kind, sort):
    if kind == "num":
        return N.sym("φ", sort)
    if kind == "bool":
        return N.sym("φ", "b")
    if kind == "arr":
        a = N.sym("φA", "a")
        a.extra = sort
        return a
    return N.sym("φ", "o")


def phi_dd(a, p):
    if p.kind == "num":
        return leaf(N.from_atom(a))
    if p.kind == "bool":
        return T.lit(T.dec_bool(a))
    if p.kind == "tag":
        n = p.sort
        r = leaf(n - 1)
        for i in range(n - 2, -1, -1):
            r = ite(T.lit(T.dec_var(a, i)), leaf(i), r)
        return r
    return leaf(a)


_sys_tab = {}
_sys_list = []


def _initkey(p):
    return p.init.key() if isinstance(p.init, ArrFn) else p.init.id


def intern(s):
    sg = s.sig()
    inits = tuple(sorted(str(_initkey(p)) for p in s.phis))
    b = _sys_tab.setdefault((sg, inits), [])
    for o in b:
        if same_sys(s, o):
            return o
    s.id = len(_sys_list)
    s.key = ("sys", s.id)
    _sys_list.append(s)
    b.append(s)
    return s


def same_sys(s, o):
    n = len(s.phis)
    cands = []
    for i, p in enumerate(s.phis):
        c = [j for j, q in enumerate(o.phis) if q.kind == p.kind and q.sort == p.sort and _initkey(p) == _initkey(q)]
        if s.root is not None and i == s.root:
            c = [j for j in c if j == o.root]
        if not c:
            return False
        cands.append(c)
    tries = 0
    for perm in itertools.product(*cands):
        if len(set(perm)) != n:
            continue
        tries += 1
        if tries > 60:
            return False
        m = {s.k.id: leaf(N.from_atom(o.k))}
        for i, j in enumerate(perm):
            p, q = s.phis[i], o.phis[j]
            m[p.atom.id] = Rename(q.atom) if p.kind == "arr" else phi_dd(q.atom, q)
        mm = Map(m)
        ok = True
        if s.cond is not None:
            ok = mm.dd(s.cond) is o.cond
        if ok:
            for i, j in enumerate(perm):
                p, q = s.phis[i], o.phis[j]
                if p.kind == "arr":
                    a, b = p.next.map(mm), q.next
                    ok = a.key() == b.key()
                else:
                    ok = mm.dd(p.next) is q.next
                if not ok:
                    break
        if ok:
            return True
    return False


def mk_fix(s, K):
    """value of s.root after K iterations (DD; for arrays an atom of sort 'a')"""
    root = s.phis[s.root]

    def one(k):
        c = k.const
        if c is not None and 0 <= c <= UNROLL:
            r = unroll(s, int(c))[s.root]
            return r
        if root.kind == "num":
            return leaf(N.from_atom(N.app("fix", [s, k], root.sort)))
        if root.kind == "bool":
            return T.lit(T.dec_bool(N.app("fix", [s, k], "b")))
        a = N.app("fix", [s, k], "a" if root.kind == "arr" else "o", extra=root.sort)
        if root.kind == "tag":
            return phi_dd(a, root)
        if root.kind == "arr":
            return Rename(a)
        return leaf(a)
    if root.kind == "arr":
        if K.leaf:
            return one(K.val)
        # conditional iteration count: function selecting per leaf
        return CondArr(K, one)
    return T.dd_mapn(one, (K,))


class CondArr:
    def __init__(self, K, one):
        self.K, self.one = K, one
        self.cache = {}

    def sel(self, idx):
        def f(k):
            r = self.cache.get(k.id)
            if r is None:
                r = self.one(k)
                self.cache[k.id] = r
            return r.sel(idx)
        return T.dd_mapn(f, (self.K,))


def unroll(s, n):
    cur = [p.init for p in s.phis]
    for i in range(n):
        m = {s.k.id: T.num(i)}
        for p, v in zip(s.phis, cur):
            m[p.atom.id] = v
        mm = Map(m)
        cur = [p.next.map(mm) if p.kind == "arr" else mm.dd(p.next) for p in s.phis]
    return cur


def _fix_custom(m, a):
    s, k = a.args
    s2 = s.subst_arg(m)
    r = mk_fix(s2, m.num(k))
    if isinstance(r, DD):
        if s.phis[s.root].kind == "tag":
            # occurrences are variant deciders on the atom: give the tag value itself
            return r
        return r
    if isinstance(r, Rename):
        return leaf(r.atom)
    raise Unsupported("array recurrence under substitution")


_fix_custom.custom = True
T.REBUILD["fix"] = _fix_custom


def _sel_wrap(m, a):
    """sel(fix-array, idx) with substitution"""
    base, idx = a.args
    if base.kind == "app" and base.name == "fix" and (base.deps & m.dom):
        s, k = base.args
        r = mk_fix(s.subst_arg(m), m.num(k))
        return r.sel(m.num(idx))
    return _sel_old(m, a)


_sel_wrap.custom = True


def install():
    global _sel_old
    from . import interp
    _sel_old = T.REBUILD["sel"]
    T.REBUILD["sel"] = _sel_wrap


def upper_bounds(c, k):
    """necessary upper bounds E (k<=E) implied by boolean DD c"""
    out = []
    for d, v in T.cond_lits(c):
        le = lin_in(d, k)
        if le is None:
            continue
        if le[0] == "le" and v:
            out.append(le[1])
        elif le[0] == "ge" and not v:
            out.append(N.sub(le[1], N.ONE))
    return out


def mk_mu(s):
    """number of iterations until s.cond first fails"""
    ub = upper_bounds(s.cond, s.k)
    cb = [u.const for u in ub if u.const is not None]
    if cb and min(cb) < UNROLL:
        n = int(min(cb)) + 1
        cur = [p.init for p in s.phis]
        conds = []
        for i in range(n + 1):
            m = {s.k.id: T.num(i)}
            for p, v in zip(s.phis, cur):
                m[p.atom.id] = v
            mm = Map(m)
            conds.append(mm.dd(s.cond))
            cur = [p.next.map(mm) if p.kind == "arr" else mm.dd(p.next) for p in s.phis]
        r = T.num(n + 1)
        for i in range(n, -1, -1):
            r = ite(conds[i], r, T.num(i))
        return r
    a = N.app("mu", [s], "i")
    a.lo = 0
    r = leaf(N.from_atom(a))
    first = a.id not in T.AF
    for E in ub:
        Tn = N.add(E, N.ONE)
        if not Tn.is_poly():
            continue
        if T.entails(N.neg(Tn).n, False):
            if first:
                T.add_fact(a, N.sub(N.from_atom(a), Tn).n)
        else:
            if first:
                T.add_fact(a, N.sub(N.from_atom(a), Tn).n)
            r = ite(T.le(Tn, N.ZERO), T.num(0), r)
    return r


EXIT = {}        # mu atom id -> continuation condition at the exit (false by definition)


def _mu_custom(m, a):
    r = mk_mu(a.args[0].subst_arg(m))
    if a.id in EXIT:
        for v in T.leaves(r).values():
            if isinstance(v, Num):
                for i in N.p_atoms(v.n):
                    if N._atoms[i].name == "mu" and i not in EXIT and i != a.id:
                        EXIT[i] = FALSE
                        EXIT[i] = m.dd(EXIT[a.id])
    return r


_mu_custom.custom = True
T.REBUILD["mu"] = _mu_custom


# =============================================================== loop closing
class Reg:
    def __init__(self, ip):
        self.ip = ip
        self.phi = {}        # path -> Phi (atom,kind,sort)
        self.closed = {}     # path -> DD in k
        self.noclose = set()


def leafkind(reg, name, *dds):
    """kind of a scalar position from its values"""
    kind = None
    sort = "i"
    for d in dds:
        if d is None or d is UNDEF:
            continue
        for v in T.leaves(d).values():
            if v is T.UNDEF_V:
                continue
            if isinstance(v, Num):
                k = "num"
                if not v.is_int():
                    sort = "r"
            elif v is True or v is False:
                k = "bool"
            elif isinstance(v, Atom):
                k = "tok"
            elif isinstance(v, int):
                k = "tag"
            else:
                raise Unsupported("loop-carried %s" % type(v).__name__)
            if kind is None:
                kind = k
            elif kind != k:
                raise Unsupported("loop-carried value of mixed kind")
    return kind, sort


def close_loop(ip, st, body, rec, what=""):
    reg = Reg(ip)
    k = N.sym("k", "i", lo=0)
    kd = leaf(N.from_atom(k))
    for rnd in range(14):
        hdr = build_header(reg, st, kd)
        res = body(hdr)
        if rec not in res:
            return res
        crec, srec = res[rec]
        new = diff_states(reg, st, hdr, srec)
        if new:
            continue
        # check closed inductions and look for new ones
        again = False
        nk = Map({k.id: T.d_add(kd, T.num(1))})
        for path, c in list(reg.closed.items()):
            want = nk.dd(c)
            got = get_at(srec, path)
            if got is not want:
                g2 = ite(crec, got, UNDEF)
                w2 = ite(crec, want, UNDEF)
                if g2 is not w2:
                    with T.assume(crec):
                        same = T.restrict(g2) is T.restrict(w2)
                    if not same:
                        reg.noclose.add(path)
                        del reg.closed[path]
                        again = True
        if again:
            continue
        for path, p in list(reg.phi.items()):
            if path in reg.closed or path in reg.noclose or p.kind != "num" or path[-1] == "body":
                continue
            nx = get_at(srec, path)
            nx = ite(crec, nx, UNDEF)
            if nx.leaf and isinstance(nx.val, Num):
                d = N.sub(nx.val, N.from_atom(p.atom))
                if d.const is not None and p.sort == "i":
                    init = get_at(st, path)
                    reg.closed[path] = T.d_add(init, T.d_mul(leaf(d), kd))
                    again = True
        if again:
            continue
        if bound_k(crec, k):
            continue
        break
    else:
        raise Unsupported("loop state did not stabilise in %s" % what)
    for e in range(1, SMALL + 1):
        with T.assume(T.d_le(T.num(e), kd)):
            if T.restrict(crec) is FALSE:
                return peel(st, body, rec, e)
    return solve(ip, reg, st, hdr, res, rec, k, what)


def peel(st, body, rec, n):
    """a loop that surely leaves within n rounds is its own unrolling"""
    from .interp import combine
    res = body(st)
    if rec not in res:
        return res
    if n == 0:
        raise Unsupported("loop bound not respected")
    crec, srec = res.pop(rec)
    outs = [(c, {stop: (TRUE, s)}) for stop, (c, s) in res.items()]
    with T.assume(crec):
        outs.append((crec, peel(srec, body, rec, n - 1)))
    return combine(outs)


def bound_k(crec, k):
    """a loop that leaves exactly at k == E (0 <= E) keeps k <= E; record that fact"""
    if upper_bounds(crec, k) or T.AF.get(k.id):
        return False
    for d in list(T.deciders(crec).values()):
        le = lin_in(d, k)
        if le is None:
            continue
        kind, E = le
        for e in ((E, N.add(E, N.ONE)) if kind == "le" else (N.sub(E, N.ONE), E)):
            if not e.is_poly() or not T.entails(N.neg(e).n, False):
                continue
            if T.subst(crec, {k.id: leaf(e)}) is FALSE:
                T.add_fact(k, N.sub(N.from_atom(k), e).n)
                T.CTX.gen = T._newgen()
                return True
    return False


# ---- header construction / differences -----------------------------------
def build_header(reg, st, kd):
    out = dict(st)
    cells = {}
    for path in list(reg.phi):
        cells.setdefault(path[0], []).append(path)
    for cell, paths in cells.items():
        v = st[cell]
        # shorter paths first
        for path in sorted(paths, key=len):
            v = put_at(reg, v, path[1:], path, kd)
        out[cell] = v
    return out


def phi_leaf(reg, path):
    if path in reg.closed:
        return reg.closed[path]
    p = reg.phi[path]
    return phi_dd(p.atom, p)


def put_at(reg, v, rel, path, kd):
    if not rel:
        return phi_leaf(reg, path)
    e = rel[0]
    if e == "body":
        raise Unsupported("array path")
    if e[0] == "f":
        fs = list(v.fs)
        fs[e[1]] = put_at(reg, fs[e[1]], rel[1:], path, kd)
        return Struct(v.name, fs, v.ty)
    if e[0] == "tag":
        return Enum(v.name, phi_leaf(reg, path), v.pay)
    if e[0] == "v":
        pay = dict(v.pay)
        lst = list(pay.get(e[1]) or [])
        while len(lst) <= e[2]:
            lst.append(UNDEF)
        cur = lst[e[2]]
        if cur is UNDEF and len(rel) > 1:
            cur = reg.phi[path].shape(rel[1:]) if hasattr(reg.phi[path], "shape") else _shell(reg, path, rel)
        lst[e[2]] = put_at(reg, cur, rel[1:], path, kd)
        pay[e[1]] = lst
        return Enum(v.name, v.tag, pay)
    if e[0] == "len":
        syms = V.fresh_syms(None, v.stride)
        return Arr(phi_leaf(reg, path), syms, v.stride,
                   V.vsubst(v.body, Map({a.id: leaf(N.from_atom(b)) for a, b in zip(v.syms, syms)})))
    if e[0] == "b":
        # scalar component of the array body: e = ('b', inner path)
        p = reg.phi[path]
        if ("a",) in e[1]:
            n = nested(v, e[1])
            elt = T.dd_mapn(lambda i: T._atom_leaf(N.app("sel", [p.atom, i], p.sort)), (leaf(flat(n.syms, n.stride)),))
            return Arr(v.len, v.syms, v.stride, body_put(v.body, e[1], elt))
        st2 = PHI_STRIDE.get(p.atom.id)
        if st2 is not None and v.stride is not st2:
            v = V.to_2d(v, st2)
        elt = T.dd_mapn(lambda i: T._atom_leaf(N.app("sel", [p.atom, i], p.sort)), (leaf(flat(v.syms, v.stride)),))
        return Arr(v.len, v.syms, v.stride, body_put(v.body, e[1], elt))
    raise Unsupported("path %s" % (e,))


SHELL = {}
PHI_STRIDE = {}


def _shell(reg, path, rel):
    key = path[:len(path) - len(rel) + 1]
    return SHELL.get((id(reg), key), UNDEF)


def body_put(b, rel, elt):
    if not rel:
        return elt
    e = rel[0]
    if e[0] == "f":
        fs = list(b.fs)
        fs[e[1]] = body_put(fs[e[1]], rel[1:], elt)
        return Struct(b.name, fs, b.ty)
    if e[0] == "a":
        return Arr(b.len, b.syms, b.stride, body_put(b.body, rel[1:], elt))
    raise Unsupported("array of enums in a loop")


def nested(v, rel):
    """the array of arrays v seen as one array over (outer index, inner index)"""
    i = rel.index(("a",))
    if ("a",) in rel[i + 1:]:
        raise Unsupported("arrays nested three deep in a loop")
    inner = body_get(v.body, rel[:i])
    if v.stride is not None or inner.stride is not None or not inner.len.leaf or inner.len.deps & frozenset(s.id for s in v.syms):
        raise Unsupported("ragged array of arrays in a loop")
    return Arr(T.d_mul(v.len, inner.len), [v.syms[0], inner.syms[0]], inner.len.val, body_get(inner.body, rel[i + 1:]))


def body_get(b, rel):
    for e in rel:
        if e[0] == "f":
            b = b.fs[e[1]]
        elif e[0] == "a":
            b = b.body
        else:
            raise Unsupported("array of enums in a loop")
    return b


def get_at(st, path):
    v = st.get(path[0], UNDEF)
    for e in path[1:]:
        if v is UNDEF:
            return UNDEF
        if e[0] == "f":
            v = v.fs[e[1]]
        elif e[0] == "tag":
            v = v.tag
        elif e[0] == "v":
            p = v.pay.get(e[1])
            v = p[e[2]] if p and len(p) > e[2] else UNDEF
        elif e[0] == "len":
            v = v.len
        elif e[0] == "b":
            if ("a",) in e[1]:
                n = nested(v, e[1])
                return n, n.body
            return v, body_get(v.body, e[1])
    return v


def diff_states(reg, st, hdr, srec):
    """discover new loop-carried positions; returns True if any were added"""
    n0 = (len(reg.phi), sum(1 for p in reg.phi.values() if p.sort == "r"))
    added = [False]

    def addphi(path, kind, sort):
        p = reg.phi.get(path)
        if p is not None:
            if p.kind == "num" and p.sort == "i" and sort == "r":
                p.sort = "r"
                p.atom = fresh_phi("num", "r")
                reg.closed.pop(path, None)
                reg.noclose.add(path)
                added[0] = True
            return
        p = Phi()
        p.kind, p.sort = kind, sort
        p.atom = fresh_phi(kind, sort)
        reg.phi[path] = p
        added[0] = True

    def walk(path, e, h, r):
        if r is h or r is UNDEF:
            return
        if h is UNDEF:
            return
        if isinstance(h, DD):
            if not isinstance(r, DD):
                raise Unsupported("loop-carried value changes shape")
            kind, sort = leafkind(reg, path, e, r)
            if path in reg.phi:
                if kind == "num":
                    addphi(path, kind, sort)
                return
            if kind == "tag":
                raise Unsupported("bare tag")
            addphi(path, kind, sort)
            return
        if isinstance(h, Struct):
            if not isinstance(r, Struct) or len(h.fs) != len(r.fs):
                raise Unsupported("loop-carried struct changes shape")
            for i, (a, b) in enumerate(zip(h.fs, r.fs)):
                walk(path + (("f", i),), e.fs[i] if isinstance(e, Struct) else UNDEF, a, b)
            return
        if isinstance(h, Enum):
            if not isinstance(r, Enum):
                raise Unsupported("loop-carried enum changes shape")
            tp = path + (("tag",),)
            if r.tag is not h.tag and tp not in reg.phi:
                ad = reg.ip.P.adt(h.name)
                nv = len(ad["variants"]) if ad else 2
                addphi(tp, "tag", nv)
            for v, pl in r.pay.items():
                hp = h.pay.get(v) or []
                ep = (e.pay.get(v) or []) if isinstance(e, Enum) else []
                for i, x in enumerate(pl):
                    pp = path + (("v", v, i),)
                    hx = hp[i] if i < len(hp) else UNDEF
                    ex = ep[i] if i < len(ep) else UNDEF
                    if hx is UNDEF and x is not UNDEF:
                        seed(pp, x)
                    else:
                        walk(pp, ex, hx, x)
            return
        if isinstance(h, Arr):
            if not isinstance(r, Arr):
                raise Unsupported("loop-carried array changes shape")
            if r.len is not h.len:
                addphi(path + (("len",),), "num", "i")
            if r.body is h.body and r.syms is h.syms:
                return
            a, b = V.align(r, h)
            wbody(path, (), a, a.body, b.body)
            return
        raise Unsupported("loop-carried %s" % type(h).__name__)

    def wbody(path, rel, arr, rb, hb):
        if rb is hb:
            return
        if isinstance(rb, DD) and isinstance(hb, DD):
            pp = path + (("b", rel),)
            if pp in reg.phi:
                p = reg.phi[pp]
                if PHI_STRIDE.get(p.atom.id) is not arr.stride and arr.stride is not None:
                    PHI_STRIDE[p.atom.id] = arr.stride
                    added[0] = True
                if p.sort == "i" and leafkind(reg, pp, rb)[1] == "r":
                    p.sort = "r"
                    st_ = PHI_STRIDE.get(p.atom.id)
                    p.atom = fresh_phi("arr", "r")
                    if st_ is not None:
                        PHI_STRIDE[p.atom.id] = st_
                    added[0] = True
                return
            kind, sort = leafkind(reg, pp, rb, hb)
            s = {"num": sort, "bool": "b", "tok": "o"}.get(kind)
            if s is None:
                raise Unsupported("array of tags in a loop")
            if s == "i":
                s = "r" if False else "i"
            addphi(pp, "arr", s)
            if arr.stride is not None:
                PHI_STRIDE[reg.phi[pp].atom.id] = arr.stride
            return
        if isinstance(rb, Struct) and isinstance(hb, Struct):
            for i, (x, y) in enumerate(zip(rb.fs, hb.fs)):
                wbody(path, rel + (("f", i),), arr, x, y)
            return
        if isinstance(rb, Arr) and isinstance(hb, Arr) and arr.stride is None:
            if rb.len is not hb.len:
                raise Unsupported("array of arrays of changing length in a loop")
            x, y = V.align(rb, hb)
            if x.stride is not None or not x.len.leaf or x.len.deps & frozenset(s.id for s in arr.syms):
                raise Unsupported("ragged array of arrays in a loop")
            wbody(path, rel + (("a",),), Arr(T.d_mul(arr.len, x.len), [arr.syms[0], x.syms[0]], x.len.val, x.body), x.body, y.body)
            return
        raise Unsupported("array of %s in a loop" % type(rb).__name__)

    def seed(path, x):
        """position undefined at entry: every leaf of x becomes loop-carried"""
        if isinstance(x, DD):
            kind, sort = leafkind(reg, path, x)
            addphi(path, kind, sort)
            return
        SHELL[(id(reg), path)] = shell_of(x)
        if isinstance(x, Struct):
            for i, y in enumerate(x.fs):
                seed(path + (("f", i),), y)
        elif isinstance(x, Enum):
            ad = reg.ip.P.adt(x.name)
            addphi(path + (("tag",),), "tag", len(ad["variants"]) if ad else 2)
            for v, pl in x.pay.items():
                for i, y in enumerate(pl):
                    seed(path + (("v", v, i),), y)
        elif isinstance(x, Arr):
            addphi(path + (("len",),), "num", "i")
            sb(path, (), x.body)
        else:
            raise Unsupported("seed")

    def sb(path, rel, b):
        if isinstance(b, DD):
            kind, sort = leafkind(reg, path, b)
            addphi(path + (("b", rel),), "arr", {"num": "r" if sort == "r" else sort, "bool": "b", "tok": "o"}[kind])
        elif isinstance(b, Struct):
            for i, y in enumerate(b.fs):
                sb(path, rel + (("f", i),), y)
        else:
            raise Unsupported("seed body")

    for cell, e in st.items():
        h = hdr.get(cell)
        r = srec.get(cell, UNDEF)
        if h is None or h is r:
            continue
        walk((cell,), e, h, r)
    return added[0]


def shell_of(x):
    if isinstance(x, DD):
        return UNDEF
    if isinstance(x, Struct):
        return Struct(x.name, [shell_of(y) for y in x.fs], x.ty)
    if isinstance(x, Enum):
        return Enum(x.name, UNDEF, {v: [shell_of(y) for y in p] for v, p in x.pay.items()})
    if isinstance(x, Arr):
        syms = V.fresh_syms(None, None)
        return Arr(UNDEF, syms, None, shell_of(x.body))
    raise Unsupported("shell")


# ------------------------------------------------------------------ solving
def solve(ip, reg, st, hdr, res, rec, k, what):
    crec, srec = res[rec]
    kd = leaf(N.from_atom(k))
    open_ = {}
    for path, p in reg.phi.items():
        if path in reg.closed:
            continue
        q = Phi()
        q.atom, q.kind, q.sort = p.atom, p.kind, p.sort
        if p.kind == "arr":
            r = get_at(srec, path)
            e = get_at(st, path)
            if r is UNDEF:
                raise Unsupported("array lost in loop")
            arr, b = r
            stride = PHI_STRIDE.get(p.atom.id, arr.stride)
            fn = ArrFn(arr.syms, arr.stride, b)
            syms = V.fresh_syms(arr.len if e is not UNDEF and e[0].len is arr.len else None, stride)
            nb = fn.with_syms(syms, stride)
            nb = ite(crec, nb, UNDEF)
            with T.assume(crec):
                nb = T.restrict(nb)
            q.next = ArrFn(syms, stride, nb)
            if e is UNDEF:
                q.init = ArrFn(syms, stride, UNDEF)
            else:
                ea, eb = e
                q.init = ArrFn(syms, stride, ArrFn(ea.syms, ea.stride, eb).with_syms(syms, stride))
        else:
            nx = get_at(srec, path)
            nx = ite(crec, nx, UNDEF)
            with T.assume(crec):
                nx = T.restrict(nx)
            q.next = nx
            q.init = get_at(st, path)
        open_[p.atom.id] = q
    closed = {}      # atom id -> DD in k  / ArrFn with k
    cond = crec
    progress = True
    while progress and open_:
        progress = False
        for aid, q in list(open_.items()):
            # dependence on other open phis
            c = try_close(q, k, open_)
            if c is not None:
                closed[aid] = c
                del open_[aid]
                mm = Map({aid: c})
                for o in open_.values():
                    if o.kind == "arr":
                        if aid in o.next.deps:
                            o.next = o.next.map(mm)
                    else:
                        o.next = mm.dd(o.next)
                for b in list(closed):
                    if b != aid and aid in closed[b].deps:
                        closed[b] = closed[b].map(mm) if isinstance(closed[b], ArrFn) else mm.dd(closed[b])
                cond = mm.dd(cond)
                progress = True
    merge_congruent(open_, closed, k)
    if any(q.kind == "same" for q in open_.values()):
        mm = Map({a: (Rename(q.next) if q.sort == "arr" else q.init) for a, q in open_.items() if q.kind == "same"})
        same = {a: q for a, q in open_.items() if q.kind == "same"}
        for a in same:
            del open_[a]
        for o in open_.values():
            o.next = o.next.map(mm) if o.kind == "arr" else mm.dd(o.next)
        for b in list(closed):
            closed[b] = closed[b].map(mm) if isinstance(closed[b], ArrFn) else mm.dd(closed[b])
        cond = mm.dd(cond)
        crec = mm.dd(crec)
    else:
        same = {}
    # iteration count
    K = None
    if not any(a in cond.deps for a in open_):
        K = trip(cond, k)
    if K is None:
        s = slice_sys(open_, k, cond, None)
        K = mk_mu(intern(s))
    final = {}
    kk = Map({k.id: K})
    for aid, c in closed.items():
        final[aid] = c.map(kk) if isinstance(c, ArrFn) else kk.dd(c)
    for aid, q in open_.items():
        s = slice_sys(open_, k, None, aid)
        r = mk_fix(intern(s), K)
        final[aid] = r
    # closed forms never mention open phis except ... substitute both levels
    m1 = Map({a: final[a] for a in open_})
    for aid in closed:
        f = final[aid]
        final[aid] = f.map(m1) if isinstance(f, ArrFn) else m1.dd(f)
    for aid, q in same.items():
        final[aid] = final[q.rep]
    m = dict(final)
    m[k.id] = K
    mm = Map(m)
    cf = mm.dd(crec)
    for v in T.leaves(K).values():
        if isinstance(v, Num):
            for i in N.p_atoms(v.n):
                if N._atoms[i].name == "mu":
                    EXIT[i] = cf
    out = {}
    for stop, (c, s) in res.items():
        if stop == rec:
            continue
        c2 = mm.dd(c)
        if cf is not FALSE:
            c2 = ite(cf, UNDEF, c2)
        if c2 is UNDEF:
            continue
        if c2 is FALSE:
            continue
        if s is None:
            out[stop] = (c2, None)
            continue
        s2 = {}
        for cell, v in s.items():
            s2[cell] = V.vsubst(v, mm) if v is not UNDEF else v
        out[stop] = (c2, s2)
    return out


class Same:
    kind = "same"


def merge_congruent(open_, closed, k):
    """optimistic congruence of loop variables: same start, same step -> same variable"""
    cls = {}
    for a, q in open_.items():
        if q.init is UNDEF or isinstance(q.init, ArrFn) and q.init.body is UNDEF:
            continue
        cls.setdefault((q.kind, str(q.sort), _initkey(q)), []).append(a)
    parts = [sorted(c) for c in cls.values() if len(c) > 1]
    while parts:
        m = {}
        for c in parts:
            r = open_[c[0]]
            for a in c[1:]:
                m[a] = Rename(r.atom) if r.kind == "arr" else phi_dd(r.atom, r)
        mm = Map(m)
        new = []
        split = False
        for c in parts:
            g = {}
            for a in c:
                q = open_[a]
                if q.kind == "arr":
                    key = q.next.map(mm).key()
                else:
                    key = mm.dd(q.next).id
                g.setdefault(key, []).append(a)
            if len(g) > 1:
                split = True
            new += [x for x in g.values() if len(x) > 1]
        parts = new
        if not split:
            break
    for c in parts:
        r = open_[c[0]]
        for a in c[1:]:
            q = Same()
            q.rep = r.atom.id
            q.sort = r.kind
            q.next = r.atom
            q.init = None if r.kind == "arr" else phi_dd(r.atom, r)
            open_[a] = q


def slice_sys(open_, k, cond, root):
    need = []
    def visit(a):
        if a in need or a not in open_:
            return
        need.append(a)
        for b in sorted(open_[a].next.deps):
            visit(b)
    if root is not None:
        visit(root)
    if cond is not None:
        for b in sorted(cond.deps):
            visit(b)
    phis = [open_[a] for a in need]
    return Sys(phis, k, cond, None if root is None else need.index(root))


def trip(c, k):
    """K = first k with c false, for monotone conditions; DD or None"""
    INF = object()

    def go(c):
        if c is TRUE:
            return INF
        if c is FALSE:
            return T.num(0)
        d = c.dec
        if k.id not in d.deps:
            a, b = go(c.t), go(c.f)
            if a is None or b is None or a is INF or b is INF:
                return None
            return ite(T.lit(d), a, b)
        le = lin_in(d, k)
        if le is None:
            le = lin_scaled(d, k)
            if le is None:
                return None
        kind, E = le
        t, f = c.t, c.f
        if kind == "ge":
            t, f = f, t
            E = N.sub(E, N.ONE)
        # now: k <= E ? t : f
        if f is FALSE:
            a = go(t)
            if a is None:
                return None
            n = N.add(E, N.ONE)
            n = ite(T.le(n, N.ZERO), T.num(0), leaf(n))
            if a is INF:
                return n
            return T.dd_mapn(lambda x, y: ite(T.le(x, y), leaf(x), leaf(y)), (a, n))
        if t is FALSE:
            # continues only beyond E
            b = go(f)
            if b is None or b is INF:
                return None
            return ite(T.le(N.ZERO, E), T.num(0), b)
        return None
    r = go(c)
    return None if r is INF else r


def lin_scaled(d, sym):
    """a*sym + rest <= c with constant |a|>1"""
    if d.kind != "lin" or not d.isint:
        return None
    m = ((sym.id, 1),)
    a = d.q.get(m)
    if a is None:
        return None
    rest = {x: v for x, v in d.q.items() if x != m}
    for i in N.p_atoms(rest):
        if sym.id in N._atoms[i].deps:
            return None
    r = N.mk(rest) if rest else N.ZERO
    if a > 1:
        return "le", V.idiv(N.sub(N.const(d.c), r), N.const(a))
    if a < -1:
        # sym >= ceil((r-c)/-a)
        b = -a
        return "ge", V.idiv(N.add(N.sub(r, N.const(d.c)), N.const(b - 1)), N.const(b))
    return None


# ----------------------------------------------------------- closing one phi
def try_close(q, k, open_):
    others = set(open_)
    kd = leaf(N.from_atom(k))
    if q.kind == "arr":
        return close_arr(q, k, open_)
    nx = q.next
    deps = nx.deps & frozenset(others)
    if q.kind == "num" and q.init is not UNDEF:
        try:
            D = T.dd_mapn(lambda x: N.sub(x, N.from_atom(q.atom)), (nx,))
        except Unsupported:
            D = None
        if D is not None and not (D.deps & frozenset(others)):
            if k.id not in D.deps:
                return T.d_add(q.init, T.d_mul(D, kd))
            j = fresh_idx(N.from_atom(k))
            return T.d_add(q.init, mk_sum(kd, j, T.subst(D, {k.id: leaf(N.from_atom(j))})))
    if not deps:
        prev = T.subst(nx, {k.id: T.d_sub(kd, T.num(1))})
        return ite(T.le(N.from_atom(k), N.ZERO), q.init, prev) if q.init is not UNDEF else prev
    return None


def close_arr(q, k, open_):
    fn = q.next
    syms, stride, B = fn.syms, fn.stride, fn.body
    me = N.from_atom
    fl = flat(syms, stride)
    self_at = N.app("sel", [q.atom, fl], q.sort)
    selfv = T._atom_leaf(self_at)
    others = frozenset(a for a in open_ if a != q.atom.id)
    if B.deps & others:
        return None
    kd = leaf(N.from_atom(k))
    sids = frozenset(s.id for s in syms)
    # ---- collect leaves with their path equalities
    items = []     # (leaf DD, k-solution or None, written?)
    okinj = True
    sols = []

    def walk(x, lits):
        nonlocal okinj
        if not okinj:
            return
        if len(items) > 400:
            okinj = False
            return
        if q.sort == "b":
            pass
        if x.leaf:
            if x is selfv or x is UNDEF:
                return
            E = solve_k(lits, k)
            if E is None:
                okinj = False
                return
            items.append((x, E))
            if not any(e is E for e in sols):
                sols.append(E)
            return
        walk(x.t, lits + [(x.dec, True)])
        walk(x.f, lits + [(x.dec, False)])
    if q.sort == "b":
        # boolean arrays: leaves are TRUE/FALSE; unchanged parts appear as deciders on self
        okinj = False
    else:
        walk(B, [])
    if okinj and sols and len(sols) <= 2:
        r = inj_close(q, k, sols, B, selfv, syms, stride)
        if r is not None:
            return r
    # ---- pointwise: all reads of the array are at the same index
    P = N.sym("p", q.sort if q.sort in ("r", "i") else "r")
    if q.sort in ("r", "i"):
        B2 = pointwise(B, q.atom, syms, stride, N.from_atom(P))
        if B2 is not None:
            D = T.dd_mapn(lambda x: N.sub(x, N.from_atom(P)), (B2,))
            init = q.init.with_syms(syms, stride)
            if P.id not in D.deps and init is not UNDEF:
                j = fresh_idx(N.from_atom(k))
                s = mk_sum(kd, j, T.subst(D, {k.id: leaf(N.from_atom(j))}))
                return ArrFn(syms, stride, T.d_add(init, s))
            if P.id not in B2.deps:
                prev = T.subst(B2, {k.id: T.d_sub(kd, T.num(1))})
                if init is UNDEF:
                    return ArrFn(syms, stride, prev)
                return ArrFn(syms, stride, ite(T.le(N.from_atom(k), N.ZERO), init, prev))
    return None


def solve_k(lits, k):
    """a k-free E with  k == E  implied by the literals"""
    les, ges = [], []
    for d, v in lits:
        le = lin_in(d, k)
        if le is None:
            continue
        kind, E = le
        if kind == "le":
            if v:
                les.append(E)
            else:
                ges.append(N.add(E, N.ONE))
        else:
            if v:
                ges.append(E)
            else:
                les.append(N.sub(E, N.ONE))
    for a in les:
        for b in ges:
            if a is b:
                return a
    return None


def inj_close(q, k, sols, B, selfv, syms, stride):
    kd = leaf(N.from_atom(k))
    marker = N.sym("unchanged", "o")
    init = q.init.with_syms(syms, stride)
    Ws = []

    def repl_self(x):
        """leaf-level: unchanged leaf -> marker"""
        def go(y):
            return y
        memo = {}

        def rec(y):
            if y.leaf:
                return leaf(marker) if y is selfv else y
            r = memo.get(y.id)
            if r is None:
                r = ite(T.mk(y.dec, TRUE, FALSE), rec(y.t), rec(y.f))
                memo[y.id] = r
            return r
        return rec(x)
    Bm = repl_self(B)
    for E in sols:
        W = T.subst(Bm, {k.id: leaf(E)})
        Ws.append((E, W))

    def written(W):
        return T.dd_mapn(lambda v: FALSE if v is marker else TRUE, (W,))
    if len(Ws) == 2:
        both = AND(written(Ws[0][1]), written(Ws[1][1]))
        both = AND(both, NOT(T.eqn(Ws[0][0], Ws[1][0])))
        if feasible(both):
            return None

    # reads of the array inside the written values must hit positions not written before
    def check_reads(E, W):
        """replace sel(A, idx) by init(idx) if safe"""
        bad = []

        class Reader:
            def sel(self_, idx):
                def f(i):
                    for E2, W2 in Ws:
                        if stride is None:
                            e2 = T.subst(leaf(E2), {syms[0].id: leaf(i)})
                            w2 = T.subst(written(W2), {syms[0].id: leaf(i)})
                        else:
                            r, c = V.decomp(i, stride)
                            sm = {syms[0].id: leaf(r), syms[1].id: leaf(c)}
                            e2 = T.subst(leaf(E2), sm)
                            w2 = T.subst(written(W2), sm)
                        early = AND(w2, AND(T.d_le(T.num(0), e2), T.d_lt(e2, leaf(E))))
                        if early is not FALSE and feasible(early):
                            bad.append(i)
                            return UNDEF
                    return q.init.sel(leaf(i))
                return T.dd_mapn(f, (idx,))
        if q.atom.id not in W.deps:
            return W
        # evaluate under the path conditions of W
        out = rebuild_paths(W, q.atom.id, Reader())
        return None if bad else out

    res = init
    for E, W in reversed(Ws):
        W2 = check_reads(E, W)
        if W2 is None:
            return None
        inr = AND(T.le(N.ZERO, E), T.lt(E, N.from_atom(k)))
        w = written(W2) if True else None
        val = T.dd_mapn(lambda v: leaf(UNDEF.val) if v is marker else leaf(v), (W2,))
        res = ite(AND(inr, written(W2)), val, res)
    if marker.id in res.deps:
        return None
    return ArrFn(syms, stride, res)


def rebuild_paths(W, aid, reader):
    """substitute the array symbol under accumulated path facts"""
    def go(x):
        if x.leaf:
            if aid in x.deps:
                return Map({aid: reader}).dd(x)
            return x
        c = Map({aid: reader}).dec(x.dec) if aid in x.dec.deps else T.mk(x.dec, TRUE, FALSE)
        with T.assume(c):
            t = go(x.t)
        with T.assume(NOT(c)):
            f = go(x.f)
        return ite(c, t, f)
    return go(W)


def feasible(c):
    """can boolean DD c be true? (walk with linear pruning)"""
    cnt = [0]

    def go(x):
        if x is FALSE:
            return False
        if x is TRUE:
            return True
        cnt[0] += 1
        if cnt[0] > 400:
            return True
        v = T.decide(x.dec)
        if v is not False:
            m = T.CTX.push([(x.dec, True)])
            try:
                if consistent() and go(x.t):
                    return True
            finally:
                T.CTX.pop(m)
        if v is not True:
            m = T.CTX.push([(x.dec, False)])
            try:
                if consistent() and go(x.f):
                    return True
            finally:
                T.CTX.pop(m)
        return False
    return go(c)


def consistent():
    cons = list(T.CTX.cons)
    if not cons:
        return True
    # only check around the newest literal
    last = cons[-1]
    monos = set()
    for p, _ in cons:
        monos |= set(p)
    pool = cons + T._intrinsic(monos)
    rel, _ = T._relevant(last[0], pool)
    return not T.infeasible(rel)


def pointwise(B, arr, syms, stride, P):
    """replace sel(arr, e) by P wherever the path forces e == own index; None if some read is elsewhere"""
    fl = flat(syms, stride)
    bad = []

    class R:
        def sel(self, idx):
            def f(i):
                if i is fl:
                    return leaf(P)
                e = T.eqn(i, fl)
                if e is TRUE:
                    return leaf(P)
                bad.append(i)
                return UNDEF
            return T.dd_mapn(f, (idx,))
    out = rebuild_paths(B, arr.id, R())
    return None if bad else out


