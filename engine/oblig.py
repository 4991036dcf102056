"""Obligations: the same script is interpreted over the analysed crate and over the reference
crate; the observed value graphs must be equal."""
import time
from fractions import Fraction as Q
from . import num as N
from . import terms as T
from . import values as V
from . import interp as I
from . import loops
from . import evalr as E
from .num import Num, Atom, Unsupported
from .terms import DD, leaf, ite, AND, OR, NOT, TRUE, FALSE, UNDEF
from .values import Struct, Enum, Arr, Ptr, Fn, UNIT

F64 = {"k": "prim", "n": "f64"}
USIZE = {"k": "prim", "n": "usize"}
BOOL = {"k": "prim", "n": "bool"}
_installed = [False]


def install():
    if not _installed[0]:
        loops.install()
        _installed[0] = True


def adt(p, *a):
    return {"k": "adt", "p": p, "a": list(a)}


def ref(t, m=False):
    return {"k": "ref", "t": t, "m": m}


def param(n, i=0):
    return {"k": "param", "n": n, "i": i}


class Missing(Unsupported):
    pass


class Ctx:
    """one side of an obligation"""

    def __init__(self, prog, name, side):
        self.P, self.name, self.side = prog, name, side
        self.ip = getattr(prog, "interp_class", I.Interp)(prog)
        self.st = {}
        self.panic = FALSE
        self.obs = []
        self.req = TRUE
        self.marks = []
        self.arrays = {}
        self.sites = []

    # ------------------------------------------------------------- inputs
    def real(self, nm, pos=False, nn=False):
        a = N.sym("%s" % nm, "r", pos=pos, nn=nn, unique=False)
        return leaf(N.from_atom(a))

    def nat(self, nm, lo=0, hi=None):
        a = N.sym("%s>=%d" % (nm, lo) if hi is None else "%s in %d..%d" % (nm, lo, hi), "i", lo=lo, hi=hi, unique=False)
        return leaf(N.from_atom(a))

    def int(self, nm):
        return leaf(N.from_atom(N.sym(nm, "i", unique=False)))

    def bool(self, nm):
        return T.lit(T.dec_bool(N.sym(nm, "b", unique=False)))

    def tok(self, nm):
        return leaf(N.sym(nm, "o", unique=False))

    def num(self, q):
        return T.num(Q(q))

    def vec(self, nm, n):
        """Vec<f64>/slice contents of length n with arbitrary entries"""
        A = N.sym("[%s]" % nm, "a", unique=False)
        return V.mk_arr(n, lambda s: T.dd_mapn(lambda i: T._atom_leaf(N.app("sel", [A, i], "r")), (s,)))

    def ivec(self, nm, n):
        """Vec of arbitrary integers"""
        A = N.sym("[%s]" % nm, "a", unique=False)
        return V.mk_arr(n, lambda s: T.dd_mapn(lambda i: T._atom_leaf(N.app("sel", [A, i], "i")), (s,)))

    def opaque(self, nm, ty):
        return self.ip.expand(N.sym(nm, "o", unique=False), ty)

    def lit_vec(self, xs):
        return I.arr_lit(list(xs))

    def ref(self, v):
        return leaf(Ptr(self.ip.new_cell(self.st, v)))

    def get(self, p):
        return self.ip.load(self.st, p)

    def slice(self, v):
        return self.ref(v)

    def require(self, c):
        self.req = AND(self.req, c)
        self.marks.append(T.CTX.push(T.cond_lits(c)))

    # ------------------------------------------------------------- calls
    def fn(self, path):
        f = self.P.fns.get(path)
        if f is None or not f.get("body"):
            raise Missing("function %s not found" % path)
        return f

    def call(self, path, *args, targs=()):
        f = self.fn(path)
        return self._finish(self.ip.invoke(f, list(targs), list(args), self.st), f)

    def tcall(self, trait, tys, name, *args, targs=()):
        """call a trait method on concrete types tys=[Self,...]"""
        im = self.ip.find_impl(trait, tys) or self.ip.find_impl(trait, tys, True)
        if im is None:
            raise Missing("no impl of %s" % trait)
        imp, ta = im
        p = imp["items"].get(name)
        f = self.P.fns.get(p) if p else None
        if f is None:
            f = self.P.fns.get(trait + "::" + name)
            if f is None or not f.get("body"):
                raise Missing("no method %s of %s" % (name, trait))
            ta = list(tys)
        return self._finish(self.ip.invoke(f, list(ta) + list(targs), list(args), self.st), f)

    def std(self, path, trait, name, a, args, aty, dty):
        """call a std item through the models (e.g. an operator)"""
        fty = {"k": "fndef", "p": path, "name": name, "trait": trait, "a": a, "ntr": len(a)}
        return self._finish(self.ip.call_fn(fty, list(args), aty, dty, self.st, None, None), None)

    def _finish(self, r, f):
        pc, v, st = r
        if f is not None:
            self.sites.append("%s (%s)" % (f["path"], f["span"]))
        if pc is not FALSE:
            self.panic = OR(self.panic, AND(NOT(self.panic), pc))
            self.marks.append(T.CTX.push(T.cond_lits(NOT(pc))))
        if st is None or v is None:
            raise AlwaysPanics()
        self.st = st
        return v

    def observe(self, nm, v):
        self.obs.append((nm, self.ip.deep(self.st, v)))

    def method_ty(self, path, *a):
        return adt(path, *a)

    def close(self):
        for m in reversed(self.marks):
            T.CTX.pop(m)
        self.marks = []


class AlwaysPanics(Exception):
    pass


class Mismatch:
    def __init__(self, path, a, b, guard):
        self.path, self.a, self.b, self.guard = path, a, b, guard


class Comparer:
    def __init__(self, p1, p2):
        self.p1, self.p2 = p1, p2
        self.n = 0
        self.out = []

    def scalar(self, path, a, b, guard):
        self.n += 1
        if a is b or a is UNDEF or b is UNDEF:
            return
        x, y = ite(guard, a, UNDEF), ite(guard, b, UNDEF)
        if x is y or x is UNDEF or y is UNDEF:
            return
        cnt = [0]
        bad = []

        def go(x, y):
            """True when equal on every feasible path"""
            if x is y or x is UNDEF or y is UNDEF:
                return True
            cnt[0] += 1
            if cnt[0] > 3000:
                return False
            if x.leaf and y.leaf:
                return leaf_eq(x.val, y.val) or exit_eq(x.val, y.val)
            d = min((z.dec for z in (x, y) if not z.leaf), key=lambda z: z.order)
            v = T.decide(d)
            for side in (True, False):
                if v is (not side):
                    continue
                m = T.CTX.push([(d, side)])
                try:
                    if d.kind == "lin" and not loops.consistent():
                        continue
                    if not go(T._cof(x, d, side), T._cof(y, d, side)):
                        return False
                finally:
                    T.CTX.pop(m)
            return True
        with T.assume(guard):
            if not go(x, y):
                self.out.append(Mismatch(path, a, b, guard))

    def cmp(self, path, a, b, guard):
        if a is UNDEF or b is UNDEF:
            return
        if isinstance(a, DD) and isinstance(b, DD):
            return self.scalar(path, a, b, guard)
        if isinstance(a, Struct) and isinstance(b, Struct):
            ia, ib = order(self.p1, a), order(self.p2, b)
            if ia and ib and set(ia) == set(ib):
                for f in ib:
                    self.cmp(path + "." + f, a.fs[ia[f]], b.fs[ib[f]], guard)
                return
            if len(a.fs) != len(b.fs):
                raise Unsupported("different representation of %s" % path)
            for i, (x, y) in enumerate(zip(a.fs, b.fs)):
                self.cmp("%s.%d" % (path, i), x, y, guard)
            return
        if isinstance(a, Enum) and isinstance(b, Enum):
            ta, tb = tags(self.p1, a), tags(self.p2, b)
            if ta and tb and ta != tb:
                if set(ta) != set(tb):
                    raise Unsupported("different variants in %s" % path)
                mp = {i: tb.index(n) for i, n in enumerate(ta)}
                a = Enum(a.name, T.dd_mapn(lambda t: leaf(mp[t]), (a.tag,)), {mp[k]: p for k, p in a.pay.items()})
            self.scalar(path + ".variant", a.tag, b.tag, guard)
            for k in set(a.pay) & set(b.pay):
                g = AND(guard, T.dd_mapn(lambda t: TRUE if t == k else FALSE, (b.tag,)))
                g = AND(g, T.dd_mapn(lambda t: TRUE if t == k else FALSE, (a.tag,)))
                if g is FALSE:
                    continue
                with T.assume(g):
                    for i, (x, y) in enumerate(zip(a.pay[k], b.pay[k])):
                        self.cmp("%s.%s.%d" % (path, (tb[k] if tb and k < len(tb) else k), i), x, y, g)
            return
        if isinstance(a, Arr) and isinstance(b, Arr):
            self.scalar(path + ".len", a.len, b.len, guard)
            if a.len is not b.len:
                x, y = ite(guard, a.len, UNDEF), ite(guard, b.len, UNDEF)
                ln = b.len
            else:
                ln = a.len
            # fresh index with its range fact
            stride = b.stride if b.stride is not None else a.stride
            a2 = V.to_2d(a, stride) if stride is not None else a
            b2 = V.to_2d(b, stride) if stride is not None else b
            gl = restrict_under(guard, ln)
            syms = V.fresh_syms(gl, stride)
            ma = T.Map({o.id: leaf(N.from_atom(s)) for o, s in zip(a2.syms, syms)})
            mb = T.Map({o.id: leaf(N.from_atom(s)) for o, s in zip(b2.syms, syms)})
            fl = leaf(loops.flat(syms, stride))
            g = AND(guard, T.d_lt(fl, ln)) if not gl.leaf else guard
            with T.assume(g):
                self.cmp(path + "[i]", V.vsubst(a2.body, ma), V.vsubst(b2.body, mb), g)
            return
        if isinstance(a, Struct) and a.name == "closure" or isinstance(b, Struct) and b.name == "closure":
            return
        raise Unsupported("cannot compare %s with %s at %s" % (type(a).__name__, type(b).__name__, path))


def restrict_under(g, d):
    with T.assume(g):
        return T.restrict(d)


def mus_of(p, acc):
    for i in N.p_atoms(p):
        if i in loops.EXIT:
            acc.add(i)
        a = N._atoms[i]
        if a.kind == "app":
            for x in a.args:
                if isinstance(x, Num):
                    for j in N.p_atoms(x.n):
                        if j in loops.EXIT:
                            acc.add(j)


def exit_eq(x, y):
    """equality using that each loop's continuation condition is false where it stopped"""
    ms = set()
    for v in (x, y):
        if isinstance(v, Num):
            mus_of(v.n, ms)
    for d, _ in T.CTX.lits:
        if d.kind == "lin":
            mus_of(d.q, ms)
    for i in sorted(ms)[:6]:
        cf = T.restrict(loops.EXIT[i])
        if cf is TRUE:
            return True
        if cf is FALSE:
            continue
        l = T.cond_lits(NOT(cf))
        if not l:
            continue
        m = T.CTX.push(l)
        try:
            if not loops.consistent() or leaf_eq(x, y):
                return True
        finally:
            T.CTX.pop(m)
    return False


def settle(a, depth=0):
    """value of an element of a loop-updated array that no iteration changes under the current facts, or None"""
    if a.kind != "app" or a.name != "sel" or depth > 4:
        return None
    base, idx = a.args
    if base.kind != "app" or base.name != "fix" or not isinstance(idx, Num):
        return None
    s = base.args[0]
    root = s.phis[s.root]
    if root.kind != "arr" or not isinstance(root.next, loops.ArrFn) or not isinstance(root.init, loops.ArrFn):
        return None
    own = N.app("sel", [root.atom, idx], root.sort)
    own = N.from_atom(own)

    def same(d):
        if d is UNDEF:
            return True
        if d.leaf:
            return isinstance(d.val, Num) and (d.val is own or settle_num(d.val, depth + 1) is own)
        v = T.decide(d.dec)
        for side in (True, False):
            if v is (not side):
                continue
            m = T.CTX.push([(d.dec, side)])
            try:
                if d.dec.kind == "lin" and not loops.consistent():
                    continue
                if not same(d.t if side else d.f):
                    return False
            finally:
                T.CTX.pop(m)
        return True
    with T.assume(T.d_lt(leaf(N.from_atom(s.k)), leaf(base.args[1]))):
        if not same(root.next.sel(leaf(idx))):
            return None
    r = T.restrict(root.init.sel(leaf(idx)))
    return r.val if r.leaf else None


def settle_num(x, depth=0):
    """x with every unchanged array element replaced by its initial value"""
    ats = sorted(x.atoms())
    vals = [settle(N._atoms[i], depth) for i in ats]
    if not any(isinstance(v, Num) for v in vals):
        return x
    vals = [v if isinstance(v, Num) else N.from_atom(N._atoms[i]) for i, v in zip(ats, vals)]
    idx = {i: k for k, i in enumerate(ats)}
    r = T._poly_eval(x.n, idx, vals)
    return r if x.is_poly() else N.div(r, T._poly_eval(x.d, idx, vals))


def leaf_eq(x, y):
    if isinstance(x, Num) and isinstance(y, Num):
        if x is y or settle_num(x) is settle_num(y):
            return True
        # equal under the path facts (e.g. both bounded to the same value)
        d = N.sub(x, y)
        if d.is_poly() and len(d.n) < 12:
            return T.entails(d.n, False) and T.entails(N.neg(d).n, False)
        return False
    if isinstance(x, Ptr) or isinstance(y, Ptr):
        return getattr(x, "key", None) == getattr(y, "key", None)
    if isinstance(x, Fn) and isinstance(y, Fn):
        return True
    return x is y or (not isinstance(x, (Num, Atom)) and x == y)


def order(prog, s):
    ad = prog.adt(s.name) if s.name else None
    if not ad or ad["kind"] != "struct":
        return None
    fs = [f[0] for f in ad["variants"][0]["fields"]]
    if len(fs) != len(s.fs):
        return None
    return {f: i for i, f in enumerate(fs)}


def tags(prog, e):
    ad = prog.adt(e.name)
    return [v["name"] for v in ad["variants"]] if ad else None


# ----------------------------------------------------------------- confirming
def atoms_of(dds):
    """free symbols and simple applications in the compared diagrams"""
    ids = set()
    for d in dds:
        ids |= set(d.deps)
    return ids


def gather(v, acc):
    if isinstance(v, DD):
        acc.append(v)
    elif isinstance(v, Struct):
        for x in v.fs:
            gather(x, acc)
    elif isinstance(v, Enum):
        acc.append(v.tag)
        for p in v.pay.values():
            for x in p:
                gather(x, acc)
    elif isinstance(v, Arr):
        acc.append(v.len)
        gather(v.body, acc)


def solvable(d):
    """(atom, coefficient poly) pairs: symbols occurring linearly in the decider"""
    out = []
    if d.kind != "lin":
        return out
    for i in N.p_atoms(d.q):
        a = N._atoms[i]
        if a.sort == "i" and not (a.kind == "sym" and len(a.key) == 2):
            continue
        if a.sort not in ("r", "i") or not (simple(a) or element(a)) or a.name in E.SPECIAL:
            continue
        deg = max(dict(m).get(i, 0) for m in d.q)
        if deg == 1 and not any(i in N._atoms[j].deps or a.deps & N._atoms[j].deps and j != i and N._atoms[j].kind != "sym" and i in N._atoms[j].deps
                                for j in N.p_atoms(d.q) if j != i):
            out.append(a)
    return out


def element(a):
    """an element of an input array at a known place"""
    return a.kind == "app" and a.name == "sel" and a.sort == "r" and isinstance(a.args[0], Atom) and simple(a.args[0])


def simple(a):
    if a.kind == "sym":
        return True
    if a.kind == "app" and (a.name == "fld" or a.name.startswith("as_")):
        return all(isinstance(x, (int, str)) or (isinstance(x, Atom) and simple(x)) for x in a.args)
    return False


class Witness:
    def __init__(self, text):
        self.text = text


def eval_side(ip, ctx_obs, panic, req):
    if not ip.dd(req):
        raise E.Fail("precondition")
    if ip.dd(panic):
        return ("PANIC",)
    return None


def vcompare(ip, p1, p2, path, a, b):
    """first difference under interpretation ip, or None; Undef is don't-care"""
    if a is UNDEF or b is UNDEF:
        return None
    if isinstance(a, DD) and isinstance(b, DD):
        try:
            y = ip.dd(b)
            try:
                x = ip.dd(a)
            except E.DivZero:
                return (path, "no finite value (divides by zero)", y)
        except E.Undef:
            return None
        except E.Fail as e:
            # no value for one side: cannot be used to tell them apart
            return None
        if isinstance(x, bool) or isinstance(y, bool) or isinstance(x, (str, tuple)) or isinstance(y, (str, tuple)):
            return None if E.rnd_key(x) == E.rnd_key(y) else (path, x, y)
        return None if E.same(x, y) else (path, x, y)
    if isinstance(a, Struct) and isinstance(b, Struct):
        ia, ib = order(p1, a), order(p2, b)
        if ia and ib and set(ia) == set(ib):
            prs = [(f, a.fs[ia[f]], b.fs[ib[f]]) for f in ib]
        elif len(a.fs) == len(b.fs):
            prs = [(str(i), x, y) for i, (x, y) in enumerate(zip(a.fs, b.fs))]
        else:
            return None
        for f, x, y in prs:
            r = vcompare(ip, p1, p2, path + "." + f, x, y)
            if r:
                return r
        return None
    if isinstance(a, Enum) and isinstance(b, Enum):
        try:
            y = ip.dd(b.tag)
            try:
                x = ip.dd(a.tag)
            except E.DivZero:
                return (path, "undetermined (divides by zero)", y)
        except (E.Undef, E.Fail):
            return None
        ta, tb = tags(p1, a), tags(p2, b)
        nx = ta[x] if ta else x
        ny = tb[y] if tb else y
        if nx != ny:
            return (path, nx, ny)
        for i, (u, v) in enumerate(zip(a.pay.get(x, []), b.pay.get(y, []))):
            r = vcompare(ip, p1, p2, "%s.%s.%d" % (path, ny, i), u, v)
            if r:
                return r
        return None
    if isinstance(a, Arr) and isinstance(b, Arr):
        try:
            x, y = ip.toint(ip.dd(a.len)), ip.toint(ip.dd(b.len))
        except (E.Undef, E.Fail):
            return None
        if x != y:
            return (path + ".len", x, y)
        if x > 64:
            return None
        for i in range(x):
            try:
                ba, bb = arr_binds(ip, a, i), arr_binds(ip, b, i)
            except E.Fail:
                return None
            bb.update(ba)
            r = ip.with_bv(bb, lambda: vcompare(ip, p1, p2, "%s[%d]" % (path, i), a.body, b.body))
            if r:
                return r
        return None
    return None


def arr_binds(ip, v, i):
    if v.stride is None:
        return {v.syms[0].id: i}
    s = ip.toint(ip.num(v.stride))
    if s <= 0:
        raise E.Fail("stride")
    return {v.syms[0].id: i // s, v.syms[1].id: i % s}


def show(x):
    if isinstance(x, (E.Q,)):
        return str(x) if x.denominator < 10 ** 6 else ("%.17g" if T.ROUND[0] else "%.6g") % float(x)
    if isinstance(x, E.B):
        return repr(x)
    return str(x)


SCALES = {3: Q(10) ** 10, 5: Q(1, 10 ** 4), 9: Q(10) ** 80, 13: Q(1, 10 ** 12), 12: Q(1, 100), 8: Q(100)}
TRIED = [0, 0]


def confirm(c1, c2, mism, trials=6000, deadline=40.0, seed=1):
    """search an interpretation under which the two sides differ; returns text or None"""
    from .evalr import Interp, Fail, Undef
    t0 = time.time()
    dds = []
    for m in mism:
        gather(m.a, dds)
        gather(m.b, dds)
        dds.append(m.guard)
    gather_obs = [c1.panic, c2.panic]
    decs = {}
    for d in dds + gather_obs:
        T.deciders(d, decs)
    bnd = []
    for d in sorted(decs.values(), key=lambda z: z.id):
        for a in solvable(d):
            bnd.append((d, a))
    mined = sorted({E.Q(d.c) for d in decs.values() if d.kind == "lin" and isinstance(d.c, (int, E.Q)) and abs(d.c) not in (0, 1)})[:40]
    mined += sorted({E.Q(1 << I.NARROW[a.name[7:]][0]) for a in N._atoms if a.kind == "app" and a.name.startswith("narrow_")})
    # thresholds inside loops: a run has to get that far
    late = sorted({E.Q(abs(d.c)) for d in T._dec_tab.values() if d.kind == "lin" and d.isint and isinstance(d.c, (int, E.Q)) and 6 < abs(d.c) < 4000})[:12]
    if late:
        mined = mined + [x for x in late if x not in mined] * 2
    tried, good, tl = 0, [], 0.0
    for t in range(trials * 5 if late else trials):
        el = time.time() - t0
        if el > deadline or t > 500 and el > deadline / 3 and not late:
            break
        env = {}
        coarse = t % 4 == 2 or t % 8 == 7
        scale = SCALES.get(t % 16)
        E.mp.prec = 1500 if scale is not None and scale > 10 ** 20 else 320
        big = t % 16 in (4, 11)
        mn = mined if t % 8 in (1, 4, 6) else ()
        flat = base = 0
        if late and (t % 4 == 1 or t % 16 == 12) and (tl < el / 2 + 1 or late and 0 < len(good) < 8):
            flat = (40, 400)[t // 16 % 2]
            if late:
                mn = late * 3 + mined
                flat = max(40, int(late[t // 4 % len(late)]) * (2, 6)[t // 16 % 2])
            base = good[t // 4 % len(good)] if good and t // 4 % 4 and tl < el / 2 + 1 else t
        for r in range(400):
            # an interpretation that meets the precondition
            ip = Interp((t + 7919 * (seed - 1)) * 1009 + r, env=env, arrays={} if coarse else bind_arrays(c1, t), coarse=coarse, scale=scale, big=big, mined=mn, flat=flat, base=base, budget=30000 if (t < 120 or t % 4) and not (late and flat) else 400000)
            try:
                if ip.dd(c2.req):
                    break
            except (Fail, Undef):
                pass
            if time.time() - t0 > deadline:
                break
        if bnd and t % 2 == 1:
            # put the interpretation on a decision boundary
            for r in range(1 + (t // 2) % 2):
                d, a = bnd[(t // 2 * 7 + r * 13) % len(bnd)]
                try:
                    set_boundary(ip, d, a, env)
                except (Fail, Undef):
                    pass
            ip = Interp(ip.seed, env=env, arrays=ip.arrays, coarse=coarse, scale=scale, big=big, mined=mn, flat=flat, base=base, budget=30000 if (t < 120 or t % 4) and not (late and flat) else 400000)
        try:
            if not ip.dd(c2.req):
                if flat:
                    tl += time.time() - t0 - el
                continue
            pb = ip.dd(c2.panic)
            try:
                pa = ip.dd(c1.panic)
            except E.DivZero:
                pa = "undetermined (divides by zero)"
        except (Fail, Undef):
            if flat:
                tl += time.time() - t0 - el
            continue
        tried += 1
        diff = None
        if pa != pb:
            diff = ("panics", pa, pb)
        elif pa:
            continue
        else:
            for (nm, x), (_, y) in zip(c1.obs, c2.obs):
                try:
                    diff = vcompare(ip, c1.P, c2.P, nm, x, y)
                except (Fail, Undef):
                    diff = None
                except RecursionError:
                    diff = None
                if diff:
                    break
        TRIED[0], TRIED[1] = tried, t
        if flat:
            tl += time.time() - t0 - el
        if flat and ip.longest > 15 and base not in good:
            good.append(base)
        if diff:
            ins = []
            ids = sorted(set().union(*[d.deps for d in dds + gather_obs]) if dds else set())
            for i in ids:
                a = N._atoms[i]
                if a.kind == "sym" and a.sort in ("r", "i", "b") and not a.name.startswith("b") and a.name not in E.SPECIAL and len(ins) < 14:
                    try:
                        ins.append("%s=%s" % (a.name, show(ip.atom(a))))
                    except (Fail, Undef):
                        pass
            return "%s: code gives %s, required %s   under {%s}" % (diff[0], show(diff[1]), show(diff[2]), ", ".join(ins))
    return None


def bind_arrays(ctx, seed):
    """symmetric matrices declared positive definite: diagonally dominant two times out of three"""
    out = {}
    for aid in ctx.arrays:
        if seed % 3 == 2:
            continue

        def f(ij, seed=seed, aid=aid):
            i, j = ij
            z = E.Interp(seed).h("spd", aid, i, j)
            v = Q(z % 9 - 4, 4)
            return abs(v) + 12 if i == j else v
        out[aid] = f
    return out


def set_boundary(ip, d, a, env):
    A, B = {}, {}
    for m, c in d.q.items():
        dm = dict(m)
        if a.id in dm:
            del dm[a.id]
            A[tuple(sorted(dm.items()))] = c
        else:
            B[m] = c
    co = ip.poly(A)
    if E.isz(co):
        return
    v = E.div(E.add(d.c, -ip.poly(B)), co)
    if a.sort == "i":
        # sizes and counts: the nearest integers
        try:
            v = Q(v)
        except (TypeError, ValueError):
            return
        v = v.numerator // v.denominator + ip.h("boundary", a.id) % 2
        if a.lo is not None and v < a.lo or a.hi is not None and v > a.hi or abs(v) > 3000:
            return
    if (a.pos and E.cmp0(v) <= 0) or (a.nn and E.cmp0(v) < 0):
        return
    if element(a):
        base = a.args[0]
        if base.id in ip.arrays:
            return
        env[("sel", E.rnd_key(ip.atom(base)), ip.toint(ip.num(a.args[1])))] = v
        return
    env[a.id] = v


# -------------------------------------------------------------------- running
class Result:
    def __init__(self, name, status, detail="", sites=(), n=0, fns=(), opaque=(), seconds=0.0):
        self.name, self.status, self.detail, self.sites = name, status, detail, sites
        self.n, self.fns, self.opaque, self.seconds = n, fns, opaque, seconds


def run_side(prog, name, script, side):
    c = Ctx(prog, name, side)
    try:
        script(c)
    except AlwaysPanics:
        pass
    finally:
        c.close()
    return c


def check(repo, spec, name, script, trials=6000, deadline=40.0, seed=1):
    install()
    T.ROUND[0] = getattr(script, "rounded", False)
    try:
        return _check(repo, spec, name, script, trials, deadline, seed)
    finally:
        T.ROUND[0] = False


def _check(repo, spec, name, script, trials, deadline, seed):
    t0 = time.time()
    T.CTX.lits.clear()
    T.CTX.cons.clear()
    try:
        c2 = run_side(repo if getattr(script, "self_reference", False) else spec, name, script, "spec")
    except Unsupported as e:
        return Result(name, "UNDECIDED", "reference: %s [%s]" % (e, getattr(e, "where", "")), seconds=time.time() - t0)
    try:
        c1 = run_side(repo, name, script, "repo")
    except Unsupported as e:
        return Result(name, "UNDECIDED", "%s [%s]" % (e, getattr(e, "where", "")), seconds=time.time() - t0)
    if getattr(script, "own_panics", False):
        # the obligation is about what holds when the call returns; whether it may refuse is another property's business
        c2.panic = OR(c2.panic, c1.panic)
        c1.panic = c2.panic
    if getattr(script, "extra_panics", False):
        # the left side may refuse more: compare where it does not
        c2.req = AND(c2.req, NOT(c1.panic))
        c1.req = AND(c1.req, NOT(c1.panic))
        c1.panic = FALSE
    if getattr(script, "new_panics", False):
        # only panics where the reference has none
        c1.panic, c2.panic = AND(c1.panic, NOT(c2.panic)), FALSE
    cmp_ = Comparer(repo, repo if getattr(script, "self_reference", False) else spec)
    fns = sorted(c1.ip.called)
    opq = sorted(c1.ip.opaque)
    try:
        mk = T.CTX.push(T.cond_lits(c2.req))
        cmp_.scalar("panics", c1.panic, c2.panic, c2.req)
        guard = AND(c2.req, AND(NOT(c1.panic), NOT(c2.panic)))
        if guard is not FALSE:
            if len(c1.obs) != len(c2.obs):
                pass
            with T.assume(guard):
                for (nm, a), (_, b) in zip(c1.obs, c2.obs):
                    cmp_.cmp(nm, a, b, guard)
        T.CTX.pop(mk)
    except Unsupported as e:
        T.CTX.lits.clear()
        T.CTX.cons.clear()
        return Result(name, "UNDECIDED", "%s" % e, c1.sites, cmp_.n, fns, opq, time.time() - t0)
    if not cmp_.out:
        return Result(name, "HOLDS", "", c1.sites, cmp_.n, fns, opq, time.time() - t0)
    w = confirm(c1, c2, cmp_.out, trials, deadline, seed)
    what = ", ".join(sorted(set(m.path for m in cmp_.out))[:6])
    if w is None:
        return Result(name, "UNDECIDED", "normal forms differ at %s, no distinguishing interpretation (%d evaluated)" % (what, TRIED[0]),
                      c1.sites, cmp_.n, fns, opq, time.time() - t0)
    return Result(name, "VIOLATED", "differs at %s; %s" % (what, w), c1.sites, cmp_.n, fns, opq, time.time() - t0)
