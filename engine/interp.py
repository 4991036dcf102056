"""Gated evaluation of MIR into value graphs."""
import json
from fractions import Fraction as Q
from . import num as N
from . import terms as T
from . import values as V
from .num import Num, Atom, Unsupported
from .terms import DD, leaf, ite, AND, OR, NOT, TRUE, FALSE, UNDEF
from .values import Struct, Enum, Arr, Ptr, Fn, UNIT

PANIC = "PANIC"
RET = "RET"
INT_TYPES = {"usize", "isize", "i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "char"}
UNSIGNED = {"usize", "u8", "u16", "u32", "u64", "u128", "char"}
TRANSPARENT = {"core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop"}
BOXY = {"alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull", "alloc::boxed::BoxRaw"}


VARIANTS = {}       # opaque term id -> number of variants of its enum type


def vname(a):
    """name of an opaque term up to substitution inside it"""
    if a.kind == "app":
        return (a.name,) + tuple(x if isinstance(x, (int, str)) else vname(x) if isinstance(x, Atom) and a.name == "fld" else "_" for x in a.args)
    return a.name


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns, self.ext, self.adts = d["fns"], d["ext"], d["adts"]
        self.traits, self.impls = d["traits"], d["impls"]
        self.statics, self.mods = d["statics"], d["mods"]
        self.cfg = {}

    def adt(self, p):
        return self.adts.get(p)


class Opts:
    max_depth = 60
    steps = 0
    max_steps = 60000


# -------------------------------------------------------------------- CFG
def succs(t):
    k = t["t"]
    if k in ("goto", "drop", "assert"):
        return [t["to"]]
    if k == "switch":
        return list(dict.fromkeys([a[1] for a in t["arms"]] + [t["other"]]))
    if k == "call":
        return [t["to"]] if t["to"] is not None else []
    return []


class CFG:
    def __init__(self, body):
        bl = body["blocks"]
        n = len(bl)
        self.succ = [succs(b["t"]) for b in bl]
        reach = set()
        work = [0]
        while work:
            b = work.pop()
            if b in reach:
                continue
            reach.add(b)
            work += self.succ[b]
        # blocks that can reach a return
        pred = {b: [] for b in range(n)}
        for b in reach:
            for s in self.succ[b]:
                pred[s].append(b)
        good = set()
        work = [b for b in reach if bl[b]["t"]["t"] == "return"]
        while work:
            b = work.pop()
            if b in good:
                continue
            good.add(b)
            work += pred[b]
        self.good = good
        self.reach = reach
        self.pred = pred
        # postdominators over good blocks
        EXIT = -1
        order = []
        seen = set()

        def dfs(b):
            stack = [(b, iter(pr(b)))]
            seen.add(b)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        stack.append((y, iter(pr(y))))
                        break
                else:
                    order.append(x)
                    stack.pop()

        def pr(b):
            if b == EXIT:
                return [x for x in good if bl[x]["t"]["t"] == "return"]
            return [p for p in pred[b] if p in good]
        dfs(EXIT)
        idx = {b: i for i, b in enumerate(order)}
        ipd = {EXIT: EXIT}
        changed = True
        while changed:
            changed = False
            for b in reversed(order):
                if b == EXIT:
                    continue
                ss = [s for s in self.succ[b] if s in good]
                if bl[b]["t"]["t"] == "return":
                    ss = [EXIT]
                new = None
                for s in ss:
                    if s in ipd:
                        if new is None:
                            new = s
                        else:
                            x, y = s, new
                            while x != y:
                                while idx[x] < idx[y]:
                                    x = ipd[x]
                                while idx[y] < idx[x]:
                                    y = ipd[y]
                            new = x
                if new is not None and ipd.get(b) != new:
                    ipd[b] = new
                    changed = True
        self.ipdom = ipd
        # dominators
        order = []
        seen = set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(self.succ[y])))
                    break
            else:
                order.append(x)
                stack.pop()
        idx = {b: i for i, b in enumerate(order)}
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in reversed(order):
                if b == 0:
                    continue
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] < idx[y]:
                                    x = idom[x]
                                while idx[y] < idx[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.dominates = dominates
        # natural loops
        self.loops = {}
        for b in reach:
            for s in self.succ[b]:
                if dominates(s, b):
                    body_ = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body_:
                            continue
                        body_.add(x)
                        work += [p for p in pred[x] if p in reach]
        self.irreducible = False
        # liveness
        self._liveness(body)

    def _liveness(self, body):
        bl = body["blocks"]
        addr = set()
        use, dfn = [], []

        def pl_uses(p, acc):
            if p["p"] and True:
                acc.add(p["l"])
            for e in p["p"]:
                if e[0] == "index":
                    acc.add(e[1])

        def op_uses(o, acc):
            if o[0] in ("copy", "move"):
                acc.add(o[1]["l"])
                pl_uses(o[1], acc)

        for b in bl:
            u, d = set(), set()

            def U(x):
                if x not in d:
                    u.add(x)
            for s in b["s"]:
                acc = set()
                if s[0] == "assign":
                    rv_uses(s[2], acc, op_uses, pl_uses, addr)
                    if s[1]["p"]:
                        acc.add(s[1]["l"])
                        pl_uses(s[1], acc)
                    for x in acc:
                        U(x)
                    if not s[1]["p"]:
                        d.add(s[1]["l"])
                elif s[0] == "setdiscr":
                    U(s[1]["l"])
                elif s[0] in ("live", "dead"):
                    d.add(s[1])
                else:
                    for x in _all_locals(s):
                        U(x)
            t = b["t"]
            acc = set()
            k = t["t"]
            if k == "call":
                for a in t["args"]:
                    op_uses(a, acc)
                op_uses(t["f"], acc)
                if t["dst"]["p"]:
                    acc.add(t["dst"]["l"])
                    pl_uses(t["dst"], acc)
            elif k in ("switch", "assert"):
                op_uses(t["o"], acc)
            elif k == "return":
                acc.add(0)
            for x in acc:
                U(x)
            if k == "call" and not t["dst"]["p"]:
                d.add(t["dst"]["l"])
            use.append(u)
            dfn.append(d)
        n = len(bl)
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                new = use[b] | (out - dfn[b])
                if new != live[b]:
                    live[b] = new
                    changed = True
        self.live = live
        self.addr = addr


def _all_locals(s):
    out = []
    if isinstance(s, dict) and "l" in s:
        out.append(s["l"])
    if isinstance(s, dict):
        for v in s.values():
            out += _all_locals(v)
    elif isinstance(s, list):
        for v in s:
            out += _all_locals(v)
    return out


def rv_uses(r, acc, op_uses, pl_uses, addr):
    k = r[0]
    if k in ("use",):
        op_uses(r[1], acc)
    elif k == "repeat":
        op_uses(r[1], acc)
    elif k in ("ref", "rawptr"):
        p = r[2]
        if not any(e[0] == "deref" for e in p["p"]):
            addr.add(p["l"])
        acc.add(p["l"])
        pl_uses(p, acc)
    elif k == "cast":
        op_uses(r[2], acc)
    elif k == "bin":
        op_uses(r[2], acc)
        op_uses(r[3], acc)
    elif k == "un":
        op_uses(r[2], acc)
    elif k == "discr":
        acc.add(r[1]["l"])
        pl_uses(r[1], acc)
    elif k == "agg":
        for o in r[2]:
            op_uses(o, acc)
    elif k == "pyfn":
        for p in r[2]:
            if not p["p"]:
                addr.add(p["l"])
            acc.add(p["l"])
    else:
        for x in _all_locals(r):
            acc.add(x)


# -------------------------------------------------------------------- types
def subst_ty(t, args):
    if not args:
        return t
    k = t["k"]
    if k == "param":
        i = t["i"]
        return args[i] if i < len(args) and args[i] is not None else t
    if k in ("adt", "tuple", "fndef", "closure", "alias"):
        a = t["a"]
        na = [subst_ty(x, args) for x in a]
        if all(x is y for x, y in zip(a, na)):
            return t
        return dict(t, a=na)
    if k in ("ref", "slice", "rawptr", "array"):
        nt = subst_ty(t["t"], args)
        return t if nt is t["t"] else dict(t, t=nt)
    return t


def is_opaque_ty(t):
    return t["k"] in ("param", "alias", "dyn", "other", "fnptr")


class Frame:
    _n = 0

    def __init__(self, fn, body, targs, cfg):
        Frame._n += 1
        self.id = Frame._n
        self.fn, self.body, self.targs, self.cfg = fn, body, targs, cfg


class Raises(Exception):
    """the statement being evaluated always raises (Python)"""


class Interp:
    def __init__(self, prog):
        self.P = prog
        self.depth = 0
        self.steps = 0
        self.max_steps = 40000
        self.promo = {}
        self.ncell = 0
        self.called = set()       # local functions analysed
        self.opaque = set()       # uninterpreted callees
        self.stack = []

    # ---------------------------------------------------------- types
    def norm_ty(self, t):
        """resolve projections"""
        k = t["k"]
        if k == "alias":
            a = [self.norm_ty(x) for x in t["a"]]
            if t.get("trait") and a:
                im = self.find_impl(t["trait"], a)
                if im is not None:
                    imp, ta = im
                    r = imp["types"].get(t["name"])
                    if r is not None:
                        return self.norm_ty(subst_ty(r, ta))
            return dict(t, a=a)
        if k in ("adt", "tuple", "fndef", "closure"):
            return dict(t, a=[self.norm_ty(x) for x in t["a"]])
        if k in ("ref", "slice", "rawptr", "array"):
            return dict(t, t=self.norm_ty(t["t"]))
        return t

    def ty(self, fr, t):
        return self.norm_ty(subst_ty(t, fr.targs))

    def find_impl(self, trait, args, lenient=False):
        """args: [Self, ...]; returns (impl, targs) or None"""
        args = [a for a in args]
        for im in self.P.impls:
            if im["trait"] != trait:
                continue
            bind = {}
            ta = im["targs"]
            if all(unify(p, a, bind) for p, a in zip(ta, args)):
                n = len(im["generics"])
                tt = [bind.get(i) for i in range(n)]
                ok = True
                for pr in im["preds"]:
                    if pr[0] != "trait" or pr[1].startswith("core::marker"):
                        continue
                    pa = [self.norm_ty(subst_ty(x, tt)) for x in pr[2]]
                    if not lenient and not self.holds(pr[1], pa):
                        ok = False
                        break
                if ok:
                    return im, tt
        return None

    def holds(self, trait, args):
        if trait.startswith("core::") or trait.startswith("alloc::") or trait.startswith("std::"):
            return True
        if args and args[0]["k"] in ("param", "alias"):
            return False
        return self.find_impl(trait, args) is not None

    # ---------------------------------------------------------- expand
    def expand(self, term, ty):
        """value of type ty denoted by the opaque term (Atom of sort 'o')"""
        ty = self.norm_ty(ty)
        k = ty["k"]
        if k == "prim":
            n = ty["n"]
            if n in ("f64", "f32"):
                return leaf(N.from_atom(retag(term, "r")))
            if n in INT_TYPES:
                a = retag(term, "i")
                if n in UNSIGNED and a.lo is None:
                    a.lo = 0
                return leaf(N.from_atom(a))
            if n == "bool":
                return T.lit(T.dec_bool(retag(term, "b")))
            return leaf(term)
        if k == "tuple":
            return Struct("tuple", [self.expand(fld(term, 0, i), x) for i, x in enumerate(ty["a"])])
        if k == "adt":
            p = ty["p"]
            if p == "alloc::vec::Vec":
                return self.expand_arr(term, ty["a"][0])
            if p in BOXY:
                return leaf(Ptr(V.term_cell(fld(term, 0, 0), ty["a"][0])))
            ad = self.P.adt(p)
            if ad is None or p in ("alloc::string::String",):
                return leaf(term)
            if ad["kind"] == "struct":
                fs = ad["variants"][0]["fields"]
                if not ad.get("local") and p not in ("core::ops::range::Range",):
                    return leaf(term)
                return Struct(p, [self.expand(fld(term, 0, i), subst_ty(f[1], ty["a"])) for i, f in enumerate(fs)])
            if ad["kind"] == "enum":
                vs = ad["variants"]
                VARIANTS[vname(term)] = len(vs)
                tag = leaf(len(vs) - 1)
                for i in range(len(vs) - 2, -1, -1):
                    tag = ite(T.lit(T.dec_var(term, i)), leaf(i), tag)
                pay = {i: [self.expand(fld(term, i + 1, j), subst_ty(f[1], ty["a"])) for j, f in enumerate(v["fields"])]
                       for i, v in enumerate(vs)}
                return Enum(p, tag, pay)
            return leaf(term)
        if k == "array":
            n = const_len(ty)
            et = ty["t"]
            return self.expand_arr(term, et, leaf(N.const(n)))
        if k == "slice":
            return self.expand_arr(term, ty["t"])
        if k in ("ref", "rawptr"):
            return leaf(Ptr(V.term_cell(term, ty["t"])))
        return leaf(term)

    def expand_arr(self, term, ety, ln=None):
        if ln is None:
            la = N.app("len", [term], "i")
            la.lo = 0
            ln = leaf(N.from_atom(la))
        return V.mk_arr(ln, lambda s: self.expand_sel(term, s.val, ety))

    def expand_sel(self, term, idx, ety):
        return self.expand(N.app("sel", [term, idx], "o"), ety)

    # ---------------------------------------------------------- memory
    def new_cell(self, st, v):
        self.ncell += 1
        c = ("h", self.ncell)
        st[c] = v
        return c

    def cell(self, st, c):
        v = st.get(c)
        if v is None:
            if isinstance(c, tuple) and c[0] == "t":
                v = self.expand(N.atom(c[1]), V.TERM_CELLS[c])
                st[c] = v
            else:
                return UNDEF
        return v

    def load(self, st, p):
        """p: pointer DD"""
        if not isinstance(p, DD):
            raise Unsupported("dereference of %s" % type(p).__name__)
        if p.leaf:
            q = p.val
            if isinstance(q, Ptr):
                return V.getp(self.cell(st, q.cell), q.path)
            raise Unsupported("dereference of %r" % (q,))
        a, b = self.load(st, p.t), self.load(st, p.f)
        return V.merge(T.mk(p.dec, TRUE, FALSE), a, b)

    def store(self, st, p, v):
        if p.leaf:
            q = p.val
            if not isinstance(q, Ptr):
                raise Unsupported("store through %r" % (q,))
            st[q.cell] = V.setp(self.cell(st, q.cell), q.path, v)
            return
        # conditional pointer
        c = T.mk(p.dec, TRUE, FALSE)
        old_t = self.load(st, p.t)
        old_f = self.load(st, p.f)
        self.store(st, p.t, V.merge(c, v, old_t))
        self.store(st, p.f, V.merge(c, self.load(st, p.f), v))

    def lcell(self, fr, l):
        return (fr.id, l)

    def place_ptr(self, fr, st, pl):
        """resolve a place to (pointer DD)"""
        t = fr.body["locals"][pl["l"]]
        cur = leaf(Ptr((fr.id, pl["l"])))
        cty = self.ty(fr, t)
        variant = None
        for e in pl["p"]:
            k = e[0]
            if k == "deref":
                v = self.load(st, cur)
                if not isinstance(v, DD):
                    raise Unsupported("deref of aggregate")
                cur = v
                cty = deref_ty(cty)
            elif k == "field":
                skip = cty["k"] == "adt" and (cty["p"] in TRANSPARENT or cty["p"] in BOXY)
                if not skip:
                    el = ("f", e[1]) if variant is None else ("v", variant, e[1])
                    cur = T.dd_mapn(lambda q: leaf(q.add(el)), (cur,))
                variant = None
                cty = self.ty(fr, e[2])
            elif k == "index":
                i = self.load(st, leaf(Ptr((fr.id, e[1]))))
                cur = T.dd_mapn(lambda q: leaf(q.add(("x", i))), (cur,))
                cty = elem_ty(cty)
            elif k == "cindex":
                off = e[1]
                if e[3]:
                    ln = V.vlen(self.load(st, cur))
                    i = T.d_sub(ln, T.num(off))
                else:
                    i = T.num(off)
                cur = T.dd_mapn(lambda q: leaf(q.add(("x", i))), (cur,))
                cty = elem_ty(cty)
            elif k == "downcast":
                variant = e[1]
            elif k == "subslice":
                frm, to, fe = e[1], e[2], e[3]
                ln = V.vlen(self.load(st, cur))
                n = T.d_sub(ln, T.num(frm + to)) if fe else T.num(to - frm)
                cur = T.dd_mapn(lambda q: leaf(q.add(("w", T.num(frm), n))), (cur,))
            else:
                raise Unsupported("projection %s" % k)
        return cur, cty

    def read_place(self, fr, st, pl):
        p, ty = self.place_ptr(fr, st, pl)
        return self.load(st, p)

    def write_place(self, fr, st, pl, v):
        if not pl["p"]:
            st[(fr.id, pl["l"])] = v
            return
        # writing a field of an uninitialised aggregate local
        p, ty = self.place_ptr_w(fr, st, pl)
        self.store(st, p, v)

    def place_ptr_w(self, fr, st, pl):
        c = (fr.id, pl["l"])
        if st.get(c, UNDEF) is UNDEF and pl["p"] and pl["p"][0][0] == "field":
            t = self.ty(fr, fr.body["locals"][pl["l"]])
            if t["k"] == "tuple":
                st[c] = Struct("tuple", [UNDEF] * len(t["a"]))
            elif t["k"] == "adt":
                ad = self.P.adt(t["p"])
                if ad and ad["kind"] == "struct":
                    st[c] = Struct(t["p"], [UNDEF] * len(ad["variants"][0]["fields"]))
        return self.place_ptr(fr, st, pl)

    # ---------------------------------------------------------- operands
    def operand(self, fr, st, o):
        k = o[0]
        if k in ("copy", "move"):
            return self.read_place(fr, st, o[1])
        if k == "const":
            return self.constant(fr, st, o[1])
        if k == "rtcheck":
            return FALSE
        raise Unsupported("operand %s" % k)

    def constant(self, fr, st, c):
        ck = c["c"]
        ty = self.ty(fr, c["ty"])
        if ck == "fn":
            return leaf(Fn(ty))
        if ck == "zst":
            if ty["k"] == "tuple":
                return Struct("tuple", [])
            if ty["k"] == "closure":
                return Struct("closure", [], ty)
            if ty["k"] == "adt":
                ad = self.P.adt(ty["p"])
                return Struct(ty["p"], [])
            if ty["k"] == "fndef":
                return leaf(Fn(ty))
            if ty["k"] == "array":
                return V.mk_arr(T.num(0), lambda s: UNDEF)
            return Struct("tuple", [])
        if ck == "val":
            return self.const_val(c["v"], ty)
        if ck == "str":
            cell = ("str", c["v"])
            V.TERM_CELLS.setdefault(cell, None)
            st.setdefault(cell, leaf("str:" + c["v"]))
            return leaf(Ptr(cell))
        if ck == "promoted":
            return self.promoted(fr, st, c)
        if ck == "agg":
            return self.const_val(c["v"] if "v" in c else c, ty)
        if c.get("static") in self.P.fns:
            cell = ("static", c["static"])
            if cell not in st:
                st[cell] = self.const_item(c["static"], [], st)
            return leaf(Ptr(cell))
        if c.get("def") in self.P.fns:
            return self.const_item(c["def"], fr.targs, st)
        if ck == "ptr":
            t = ty.get("t") or {}
            if t.get("k") in ("array", "slice") and t["t"] == {"k": "prim", "n": "u8"}:
                # message text
                cell = ("str", json.dumps(c, sort_keys=True))
                V.TERM_CELLS.setdefault(cell, None)
                st.setdefault(cell, leaf("str:" + cell[1]))
                return leaf(Ptr(cell))
            raise Unsupported("constant pointer")
        raise Unsupported("constant %s" % ck)

    def const_val(self, v, ty):
        k = v["c"]
        if k == "bool":
            return TRUE if v["v"] else FALSE
        if k == "int":
            return T.num(int(v["v"]))
        if k == "float":
            return float_const(v)
        if k == "bits" and ty["k"] == "adt":
            ad = self.P.adt(ty["p"])
            if ad and ad["kind"] == "enum" and all(not x["fields"] for x in ad["variants"]):
                for i, x in enumerate(ad["variants"]):
                    if x["discr"] == v["v"]:
                        return Enum(ty["p"], leaf(i), {i: []})
        raise Unsupported("const value %s" % k)

    def const_item(self, path, targs, st):
        fn = self.P.fns[path]
        f2 = Frame(fn, fn["body"], targs, self.get_cfg(("const", path), fn["body"]))
        res = self.run(f2, 0, dict(st), {RET})
        if RET not in res:
            raise Unsupported("constant %s" % path)
        st2 = res[RET][1]
        for kk, vv in st2.items():
            if kk not in st:
                st[kk] = vv
        return st2[(f2.id, 0)]

    def promoted(self, fr, st, c):
        key = (c["of"], c["i"])
        fn = self.P.fns.get(c["of"]) or self.P.ext.get(c["of"])
        if fn is None:
            raise Unsupported("promoted of unknown fn")
        body = fn["promoted"][c["i"]]
        f2 = Frame(fn, body, fr.targs if fn is fr.fn else [], self.get_cfg(("promoted",) + key, body))
        res = self.run(f2, 0, st, {RET})
        if RET not in res:
            raise Unsupported("promoted")
        st2 = res[RET][1]
        v = st2[(f2.id, 0)]
        for kk, vv in st2.items():
            if kk not in st:
                st[kk] = vv
        return v

    # ---------------------------------------------------------- rvalues
    def rvalue(self, fr, st, r):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k in ("ref", "rawptr"):
            p, _ = self.place_ptr_w(fr, st, r[2])
            return p
        if k == "bin":
            return self.binop(fr, r[1], self.operand(fr, st, r[2]), self.operand(fr, st, r[3]), self.ty(fr, r[4]))
        if k == "un":
            v = self.operand(fr, st, r[2])
            if r[1] == "Neg":
                return T.d_neg(v)
            if r[1] == "Not":
                if all(isinstance(x, bool) for x in T.leaves(v).values()):
                    return NOT(v)
                raise Unsupported("bitwise not")
            if r[1] == "PtrMetadata":
                return self.ptr_len(st, v)
            raise Unsupported("unop %s" % r[1])
        if k == "cast":
            return self.cast(fr, r[1], self.operand(fr, st, r[2]), self.ty(fr, r[3]), self.ty(fr, r[4]), st)
        if k == "discr":
            p, ty = self.place_ptr(fr, st, r[1])
            v = self.load(st, p)
            return self.discr(v, ty)
        if k == "agg":
            ops = [self.operand(fr, st, o) for o in r[2]]
            a = r[1]
            if a[0] == "tuple":
                return Struct("tuple", ops)
            if a[0] == "array":
                return arr_lit(ops)
            if a[0] == "closure":
                ty = {"k": "closure", "p": a[1], "a": [self.ty(fr, x) for x in a[2]]}
                return Struct("closure", ops, ty)
            if a[0] == "adt":
                path, var = a[1], a[2]
                if path in TRANSPARENT:
                    return ops[0]
                ad = self.P.adt(path)
                if ad is None:
                    raise Unsupported("aggregate of unknown type %s" % path)
                if ad["kind"] == "enum":
                    return Enum(path, leaf(var), {var: ops})
                return Struct(path, ops)
            raise Unsupported("aggregate %s" % a[0])
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            n = r[2]
            n = const_len({"n": n}) if not isinstance(n, int) else n
            return V.mk_arr(T.num(n), lambda s: v)
        raise Unsupported("rvalue %s" % k)

    def ptr_len(self, st, v):
        if not isinstance(v, DD):
            raise Unsupported("metadata")
        def f(q):
            if isinstance(q, Ptr):
                if q.path and q.path[-1][0] == "w":
                    return q.path[-1][2]
                return V.vlen(self.load(st, leaf(q)))
            raise Unsupported("metadata of %r" % (q,))
        return T.dd_mapn(f, (v,))

    def discr(self, v, ty):
        ad = self.P.adt(ty["p"]) if ty["k"] == "adt" else None
        if isinstance(v, Enum):
            def f(i):
                if ad is None:
                    return leaf(N.const(i))
                return leaf(N.const(discr_value(ty["p"], ad["variants"][i]["discr"])))
            return T.dd_mapn(f, (v.tag,))
        raise Unsupported("discriminant of %s" % type(v).__name__)

    def cast(self, fr, kind, v, frm, to, st):
        if kind in ("IntToInt",):
            if frm["k"] == "prim" and frm["n"] == "bool":
                return ite(v, T.num(1), T.num(0))
            if frm["k"] == "adt":
                return v
            fn_, tn = frm.get("n"), to.get("n")
            if tn in NARROW and NARROW.get(fn_, (99, 0)) != NARROW[tn]:
                return T.dd_mapn(lambda x: narrow(x, tn), (v,))
            if fn_ in UNSIGNED or tn not in UNSIGNED:
                return v
            # signed to unsigned: identity when provably non-negative, else opaque
            def f(x):
                if x.const is not None and x.const >= 0:
                    return leaf(x)
                if T.entails(N.neg(x).n, False):
                    return leaf(x)
                a = N.app("as_unsigned", [x], "i")
                a.lo = 0
                return leaf(N.from_atom(a))
            return T.dd_mapn(f, (v,))
        if kind == "IntToFloat":
            return v
        if kind == "FloatToFloat":
            return T.dd_mapn(single, (v,)) if to.get("n") == "f32" and frm.get("n") != "f32" else v
        if kind == "FloatToInt":
            uns = to.get("n") in UNSIGNED
            return T.dd_mapn(lambda x: trunc(x, uns), (v,))
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Transmute", "BoxDerefTransmute", "Subtype") or "Pointer" in kind or "Transmute" in kind:
            if isinstance(v, DD):
                ok = all(isinstance(x, (Ptr, Fn)) for x in T.leaves(v).values())
                if ok:
                    return v
                if kind == "Transmute" and frm == to:
                    return v
            if isinstance(v, Struct) and v.name == "closure":
                return v
        raise Unsupported("cast %s" % kind)

    def binop(self, fr, op, a, b, ty):
        if not isinstance(a, DD) or not isinstance(b, DD):
            raise Unsupported("binop on aggregate")
        isbool = ty["k"] == "prim" and ty["n"] == "bool"
        if op.endswith("Unchecked"):
            op = op[:-9]
        if isbool:
            if op in ("BitAnd",):
                return AND(a, b)
            if op == "BitOr":
                return OR(a, b)
            if op in ("BitXor", "Ne"):
                return ite(a, NOT(b), b)
            if op == "Eq":
                return ite(a, b, NOT(b))
            raise Unsupported("bool op %s" % op)
        if ty["k"] in ("rawptr", "ref"):
            if op in ("Eq", "Ne"):
                r = T.dd_mapn(lambda x, y: TRUE if x.key == y.key else _uns("pointer comparison"), (a, b))
                return r if op == "Eq" else NOT(r)
            raise Unsupported("pointer arithmetic")
        isint = ty["k"] == "prim" and ty["n"] in INT_TYPES
        if op == "Add":
            return T.f_add(a, b)
        if op == "Sub":
            return T.f_sub(a, b)
        if op == "Mul":
            return T.f_mul(a, b)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            r = {"A": T.d_add, "S": T.d_sub, "M": T.d_mul}[op[0]](a, b)
            return Struct("tuple", [r, FALSE])
        if op == "Div":
            if isint:
                uns = ty["n"] in UNSIGNED
                return T.dd_mapn(lambda x, y: int_div(x, y, uns), (a, b))
            return T.f_div(a, b)
        if op == "Rem":
            if isint:
                uns = ty["n"] in UNSIGNED
                return T.dd_mapn(lambda x, y: N.sub(x, N.mul(y, dleaf(int_div(x, y, uns)))), (a, b))
            return T.dd_mapn(lambda x, y: leaf(N.from_atom(N.app("fmod", [x, y], "r"))), (a, b))
        if op == "Lt":
            return T.d_lt(a, b)
        if op == "Le":
            return T.d_le(a, b)
        if op == "Gt":
            return T.d_lt(b, a)
        if op == "Ge":
            return T.d_le(b, a)
        if op == "Eq":
            return T.d_eq(a, b)
        if op == "Ne":
            return NOT(T.d_eq(a, b))
        if op in ("BitAnd", "BitXor", "BitOr", "Shl", "Shr"):
            return T.dd_mapn(lambda x, y: bitop(op, x, y), (a, b))
        raise Unsupported("binop %s" % op)

    # ---------------------------------------------------------- statements
    def stmt(self, fr, st, s):
        k = s[0]
        if k == "assign":
            v = self.rvalue(fr, st, s[2])
            self.write_place(fr, st, s[1], v)
        elif k in ("live", "dead"):
            st[(fr.id, s[1])] = UNDEF
        elif k == "setdiscr":
            raise Unsupported("set discriminant")
        elif k == "intrinsic":
            if s[1] == "assume" or (isinstance(s[1], list) and s[1] and s[1][0] == "assume"):
                return
            raise Unsupported("intrinsic %s" % (s[1],))

    # ---------------------------------------------------------- running
    def get_cfg(self, key, body):
        c = self.P.cfg.get(key)
        if c is None:
            c = CFG(body)
            self.P.cfg[key] = c
        return c

    def prune(self, fr, st, bb):
        """drop dead locals of the current frame at block entry"""
        if bb == RET or not isinstance(bb, int):
            return st
        live = fr.cfg.live[bb]
        addr = fr.cfg.addr
        for l in range(len(fr.body["locals"])):
            c = (fr.id, l)
            if c in st and l not in live and l not in addr:
                st[c] = UNDEF
        return st

    def run(self, fr, bb, st, stops, start=False):
        """evaluate from bb until a stop; returns {stop: (cond, state)}"""
        acc = {}
        reach = TRUE
        mark0 = None
        npush = 0
        marks = []

        def add(stop, c, s):
            if c is FALSE:
                return
            if stop in acc:
                c0, s0 = acc[stop]
                acc[stop] = (OR(c0, c), merge_states(c0, s0, s) if stop != PANIC else None)
            else:
                acc[stop] = (c, s)

        try:
            while True:
                if bb in stops and not start:
                    add(bb, reach, st)
                    return acc
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Unsupported("analysis budget exceeded")
                if bb in fr.cfg.loops and not start:
                    res = self.loop(fr, bb, st, stops)
                    J = fr.cfg.ipdom.get(bb)
                    st = None
                else:
                    start = False
                    blk = fr.body["blocks"][bb]
                    cur = None
                    try:
                        for s in blk["s"]:
                            cur = s
                            self.stmt(fr, st, s)
                    except Unsupported as e:
                        note(e, fr, cur)
                        raise
                    except Raises:
                        add(PANIC, reach, None)
                        return acc
                    t = blk["t"]
                    k = t["t"]
                    if k == "goto":
                        bb = t["to"]
                        continue
                    if k in ("drop",):
                        bb = t["to"]
                        continue
                    if k == "assert":
                        bb = t["to"]
                        continue
                    if k == "return":
                        add(RET, reach, st)
                        return acc
                    if k == "unreachable":
                        return acc
                    if k == "call":
                        try:
                            pc, st = self.call(fr, st, t)
                        except Unsupported as e:
                            note(e, fr, blk.get("sp") or t.get("sp"))
                            raise
                        if pc is not FALSE:
                            add(PANIC, AND(reach, pc), None)
                        if t["to"] is None or st is None or pc is TRUE:
                            return acc
                        if pc is not FALSE:
                            np = NOT(pc)
                            reach = AND(reach, np)
                            marks.append(T.CTX.push(T.cond_lits(np)))
                        bb = t["to"]
                        continue
                    if k == "switch":
                        J = fr.cfg.ipdom.get(bb)
                        res = self.switch(fr, st, t, stops, J)
                        st = None
                    else:
                        raise Unsupported("terminator %s" % k)
                # combine res
                nxt = None
                for stop, (c, s) in res.items():
                    if stop == J and J not in stops:
                        nxt = (c, s)
                    else:
                        add(stop, AND(reach, c), s)
                if nxt is None:
                    return acc
                c, st = nxt
                if c is not TRUE:
                    reach = AND(reach, c)
                    if reach is FALSE:
                        return acc
                    marks.append(T.CTX.push(T.cond_lits(c)))
                bb = J
                self.prune(fr, st, bb)
        finally:
            for m in reversed(marks):
                T.CTX.pop(m)

    def switch(self, fr, st, t, stops, J):
        o = self.operand(fr, st, t["o"])
        if not isinstance(o, DD):
            raise Unsupported("switch on aggregate")
        o = T.restrict(o)
        arms = []
        rest = TRUE
        groups = {}
        for v, to in t["arms"]:
            def f(x):
                if x is True or x is False:
                    return TRUE if int(x) == v else FALSE
                if isinstance(x, Num):
                    return T.eqn(x, N.const(v))
                if isinstance(x, int):
                    return TRUE if x == v else FALSE
                raise Unsupported("switch on %r" % (x,))
            c = AND(rest, T.dd_mapn(f, (o,)))
            rest = AND(rest, NOT(c))
            groups[to] = OR(groups.get(to, FALSE), c)
        groups[t["other"]] = OR(groups.get(t["other"], FALSE), rest)
        arms = [(c, to) for to, c in groups.items() if c is not FALSE]
        arms = [(c, to) for c, to in arms if fr.body["blocks"][to]["t"]["t"] != "unreachable" or fr.body["blocks"][to]["s"]]
        if not arms:
            return {}
        inner = stops | ({J} if J is not None and J != -1 else set())
        if len(arms) == 1:
            c, to = arms[0]
            return self.run(fr, to, st, inner)
        outs = []
        for c, to in arms:
            with T.assume(c):
                s2 = dict(st)
                self.prune(fr, s2, to)
                outs.append((c, self.run(fr, to, s2, inner)))
        return combine(outs)

    # ---------------------------------------------------------- loops
    def loop(self, fr, h, st, stops):
        from .loops import close_loop
        body_blocks = fr.cfg.loops[h]
        exits = set()
        for b in body_blocks:
            for s in fr.cfg.succ[b]:
                if s not in body_blocks:
                    exits.add(s)
        J = fr.cfg.ipdom.get(h)
        self.prune(fr, st, h)

        def body(s):
            s = dict(s)
            r = self.run(fr, h, s, {h} | exits | (stops - {RET, PANIC}), start=True)
            if h in r:
                c, s2 = r[h]
                self.prune(fr, s2, h)
            return r
        res = close_loop(self, st, body, h, "%s (%s)" % (fr.fn["path"], fr.fn["span"]))
        outs = []
        inner = stops | ({J} if J is not None and J != -1 else set())
        for e, (c, s) in res.items():
            if e == PANIC or e == RET or e in inner:
                outs.append((c, {e: (TRUE, s)}))
            else:
                with T.assume(c):
                    s = dict(s)
                    self.prune(fr, s, e)
                    outs.append((c, self.run(fr, e, s, inner)))
        return combine(outs)

    # ---------------------------------------------------------- calls
    def call(self, fr, st, t):
        """returns (panic cond, state) with the result written to dst"""
        f = t["f"]
        args = [self.operand(fr, st, a) for a in t["args"]]
        aty = [self.ty(fr, x) for x in t["aty"]]
        dty = self.ty(fr, t["dty"])
        if f[0] == "const" and f[1]["c"] == "fn" or (f[0] == "const" and f[1]["ty"]["k"] == "fndef"):
            fty = self.ty(fr, f[1]["ty"])
            pc, ret, st = self.call_fn(fty, args, aty, dty, st, t.get("resolved"), fr)
        else:
            fv = self.operand(fr, st, f)
            pc, ret, st = self.call_value(fv, args, dty, st)
        if st is None or ret is None:
            return pc, None
        if t["to"] is not None:
            self.write_place(fr, st, t["dst"], ret)
        return pc, st

    def call_value(self, fv, args, dty, st):
        if isinstance(fv, DD) and fv.leaf and isinstance(fv.val, Fn):
            ft = fv.val.ty
            return self.call_fn(ft, args, None, dty, st, None, None)
        if isinstance(fv, DD) and fv.leaf and isinstance(fv.val, Atom):
            return self.opaque_call("call", [fv] + list(args), [None] * (len(args) + 1), dty, st)
        raise Unsupported("indirect call")

    def call_fn(self, fty, args, aty, dty, st, resolved, fr):
        from . import models
        path = fty["p"]
        if fty.get("ctor") is not None:
            return self.ctor(fty, args, st)
        trait = fty.get("trait")
        if trait:
            r = self.resolve_trait(fty, resolved, fr)
            if r is not None:
                fn, targs = r
                return self.invoke(fn, targs, args, st)
        elif path in self.P.fns and self.P.fns[path].get("body"):
            return self.invoke(self.P.fns[path], fty["a"], args, st)
        m = models.lookup(self, fty, resolved)
        if m is not None:
            r = m(self, models.Call(fty, args, aty, dty, st, fr))
            if isinstance(r, models.PanicResult):
                return r.cond, r.val, (st if r.val is not None else None)
            return FALSE, r, st
        if trait:
            selfty = fty["a"][0] if fty["a"] else None
            if trait.startswith("core::ops::function"):
                return self.call_closure_trait(fty, args, dty, st)
            if selfty is not None and self.is_user_opaque(selfty):
                return self.opaque_call(trait + "::" + fty["name"], args, aty, dty, st)
        # small std functions whose MIR is available
        rp = subst_ty(resolved, fr.targs)["p"] if resolved and fr is not None else path
        raise Unsupported("call to %s" % (rp if rp else path))

    def is_user_opaque(self, t):
        return t["k"] in ("param", "alias")

    def ctor(self, fty, args, st):
        p = fty["p"]
        adt, var = fty["ctor"], 0
        ad = self.P.adt(adt)
        if ad is None:
            base, _, vn = adt.rpartition("::")
            ad = self.P.adt(base)
            if ad is None:
                raise Unsupported("constructor %s" % p)
            adt = base
            var = [v["name"] for v in ad["variants"]].index(vn)
        if ad["kind"] == "enum":
            return FALSE, Enum(adt, leaf(var), {var: list(args)}), st
        return FALSE, Struct(adt, list(args)), st

    def resolve_trait(self, fty, resolved, fr):
        trait, name = fty["trait"], fty["name"]
        ntr = fty.get("ntr") or 1
        targs = fty["a"]
        im = self.find_impl(trait, targs[:ntr])
        if im is not None:
            imp, ta = im
            ip = imp["items"].get(name)
            if ip is not None and ip in self.P.fns:
                return self.P.fns[ip], ta + targs[ntr:]
        if im is not None or (trait in self.P.traits and not self.is_user_opaque(targs[0])):
            d = self.P.fns.get(fty["p"])
            if d is not None and d.get("body"):
                return d, targs
        return None

    def invoke(self, fn, targs, args, st):
        body = fn["body"]
        path = fn["path"]
        if self.depth > 40:
            raise Unsupported("call depth")
        if path in self.stack:
            raise Unsupported("recursion through %s" % path)
        self.called.add(path)
        fr = Frame(fn, body, targs, self.get_cfg(path, body))
        for i, a in enumerate(args):
            st[(fr.id, i + 1)] = a
        if body.get("spread") is not None:
            raise Unsupported("spread args")
        self.depth += 1
        self.stack.append(path)
        try:
            res = self.run(fr, 0, st, {RET})
        finally:
            self.depth -= 1
            self.stack.pop()
        pc = res[PANIC][0] if PANIC in res else FALSE
        if RET not in res:
            return TRUE, None, None
        c, st2 = res[RET]
        ret = st2.get((fr.id, 0), UNDEF)
        out = {k: v for k, v in st2.items() if not (isinstance(k, tuple) and k[0] == fr.id)}
        if ret is UNDEF:
            ret = Struct("tuple", [])
        return pc, ret, out

    def call_closure(self, clo, args, st, dty=None):
        """call closure / fn item value with argument list; returns (panic, value, state)"""
        if isinstance(clo, DD) and clo.leaf and isinstance(clo.val, Ptr):
            inner = self.load(st, clo)
            if isinstance(inner, Struct) and inner.name == "closure" or (isinstance(inner, DD)):
                return self.call_closure(inner, args, st, dty) if not (isinstance(inner, Struct) and inner.name == "closure") else self.invoke_closure(inner, clo, args, st)
        if isinstance(clo, Struct) and clo.name == "closure":
            return self.invoke_closure(clo, None, args, st)
        if isinstance(clo, DD) and clo.leaf and isinstance(clo.val, Fn):
            return self.call_fn(clo.val.ty, args, None, dty, st, None, None)
        if isinstance(clo, DD) and clo.leaf and isinstance(clo.val, Atom):
            if dty is None:
                raise Unsupported("opaque closure with unknown result type")
            pc, v, s2 = self.opaque_call("call", [clo] + list(args), [None] * (1 + len(args)), dty, st)
            if clo.val.kind == "sym" and clo.val.name == "nan elem":
                v = nan_from(args[0], args[1], v)
            return pc, v, s2
        raise Unsupported("call of %r" % (clo,))

    def invoke_closure(self, clo, ptr, args, st):
        path = clo.ty["p"]
        fn = self.P.fns.get(path)
        if fn is None or not fn.get("body"):
            raise Unsupported("closure body %s" % path)
        t1 = fn["body"]["locals"][1]
        tmp = None
        if t1["k"] == "ref":
            if ptr is None:
                tmp = self.new_cell(st, clo)
                ptr = leaf(Ptr(tmp))
            a0 = ptr
        else:
            a0 = clo
        pc, v, st2 = self.invoke(fn, clo.ty["a"], [a0] + list(args), st)
        return pc, v, st2

    def call_closure_trait(self, fty, args, dty, st):
        clo, tup = args
        if not isinstance(tup, Struct):
            raise Unsupported("closure args")
        return self.call_closure(clo, tup.fs, st, dty)

    def opaque_call(self, name, args, aty, dty, st):
        """uninterpreted, state-passing call"""
        self.opaque.add(name)
        keyargs = []
        muts = []
        for i, a in enumerate(args):
            t = aty[i] if aty else None
            if isinstance(a, DD) and a.leaf and isinstance(a.val, Ptr):
                keyargs.append(self.deep(st, self.load(st, a)))
                if t is not None and t["k"] == "ref" and t["m"]:
                    muts.append((i, a, t["t"]))
            else:
                keyargs.append(self.deep(st, a))
        vals = [restrict_v(x) for x in keyargs]
        app = lambda what, vs: N.app("call:" + name + what, [V.VKey(x) for x in vs], "o")

        def build(what, ty):
            return lift_vals(vals, lambda vs: self.expand(app(what, vs), ty))
        ret = build("", dty)
        for i, p, ty in muts:
            self.store(st, p, build("/out%d" % i, ty))
        return FALSE, ret, st

    def deep(self, st, v):
        """replace pointers by the values they point to"""
        if isinstance(v, DD):
            lv = T.leaves(v).values()
            if any(isinstance(x, Ptr) for x in lv):
                if v.leaf:
                    return self.deep(st, self.load(st, v))
                return V.merge(T.mk(v.dec, TRUE, FALSE), self.deep(st, v.t), self.deep(st, v.f))
            return v
        if isinstance(v, Struct):
            return Struct(v.name, [self.deep(st, x) for x in v.fs], v.ty)
        if isinstance(v, Enum):
            return Enum(v.name, v.tag, {k: [self.deep(st, x) for x in p] for k, p in v.pay.items()})
        if isinstance(v, Arr):
            return Arr(v.len, v.syms, v.stride, self.deep(st, v.body))
        return v


def lift_vals(vals, fn):
    """lift scalar decision nodes out of the argument values"""
    dds = []

    def collect(v):
        if isinstance(v, DD):
            if not v.leaf:
                dds.append(v)
        elif isinstance(v, Struct):
            for x in v.fs:
                collect(x)
        elif isinstance(v, Enum):
            if not v.tag.leaf:
                dds.append(v.tag)
            for p in v.pay.values():
                for x in p:
                    collect(x)
        elif isinstance(v, Arr):
            if not v.len.leaf:
                dds.append(v.len)
    for v in vals:
        collect(v)
    if not dds:
        return fn([trim(v) for v in vals])
    d = min((x.dec for x in dds), key=lambda z: z.order)
    if len(dds) > 60:
        raise Unsupported("too many conditional arguments")
    with T.assume(T.mk(d, TRUE, FALSE)):
        a = lift_vals([restrict_v(v) for v in vals], fn)
    with T.assume(T.mk(d, FALSE, TRUE)):
        b = lift_vals([restrict_v(v) for v in vals], fn)
    return V.merge(T.mk(d, TRUE, FALSE), a, b)


def trim(v):
    """drop payloads of variants that are not the (known) tag"""
    if isinstance(v, Enum) and v.tag.leaf and isinstance(v.tag.val, int):
        return Enum(v.name, v.tag, {k: [trim(x) for x in p] for k, p in v.pay.items() if k == v.tag.val})
    if isinstance(v, Struct):
        return Struct(v.name, [trim(x) for x in v.fs], v.ty)
    return v


def restrict_v(v):
    return V.vmap(T.restrict, v)


def _uns(m):
    raise Unsupported(m)


def note(e, fr, s):
    if not getattr(e, "where", None):
        sp = None
        if isinstance(s, list) and s and s[0] == "assign":
            sp = s[3]
        elif isinstance(s, str):
            sp = s
        e.where = "%s%s" % (fr.fn["path"], " " + sp if sp else "")


def dleaf(d):
    if not d.leaf:
        raise Unsupported("conditional division")
    return d.val


def float_const(v):
    s = v["v"]
    if s in ("inf", "Infinity", "+inf"):
        return leaf(N.from_atom(INF))
    if s in ("-inf", "-Infinity"):
        return leaf(N.neg(N.from_atom(INF)))
    if "nan" in s.lower():
        return leaf(N.from_atom(NAN))
    import struct
    if s == "3.141592653589793e0" or s == "3.141592653589793":
        return leaf(N.from_atom(PI))
    q = Q(s) if "e" not in s.lower() else Q(s)
    if q == Q("3.141592653589793"):
        return leaf(N.from_atom(PI))
    if abs(q) >= Q(10) ** 307:
        a = N.sym("f64:%s" % s, "r", pos=True, unique=False)
        return leaf(N.from_atom(BIG) if q > 0 else N.neg(N.from_atom(BIG)))
    return leaf(N.const(q))


INF = N.sym("inf", "r", pos=True, unique=False)
BIG = N.sym("f64max", "r", pos=True, unique=False)
NAN = T.NAN
NAN_ROW = N.sym("first NaN row>=0", "i", lo=0, unique=False)


def nan_from(i, j, v):
    """entry (i, j) of a matrix whose rows and columns from NAN_ROW on are NaN (a formal factor: it cannot cancel)"""
    t = leaf(N.from_atom(NAN_ROW))
    return T.ite(T.OR(T.d_le(t, i), T.d_le(t, j)), T.d_mul(leaf(N.from_atom(NAN)), v), v)
PI = N.sym("pi", "r", pos=True, unique=False)


def discr_value(path, bits):
    """the dump holds raw bits; Ordering is an i8, and negative isize values do not occur as large positive ones"""
    if path == "core::cmp::Ordering":
        return bits - 256 if bits >= 128 else bits
    return bits - 2 ** 64 if bits >= 2 ** 63 else bits


def retag(a, sort):
    """same term with another sort"""
    if a.sort == sort:
        return a
    if a.kind == "sym":
        r = N._mk(("retag", a.id, sort), "app", "as_" + sort, (a,), sort, a.deps, a.height)
        return r
    return N.app(a.name, a.args, sort, nn=a.nn, pos=a.pos, extra=a.extra)


for _s in "riob":
    def _mkrb(sort):
        def f(args):
            x = args[0]
            if isinstance(x, Atom):
                return T._atom_leaf(retag(x, sort))
            return leaf(x)
        return f
    T.REBUILD["as_" + _s] = _mkrb(_s)


@T.rebuild("len")
def _rb_len(args):
    if not isinstance(args[0], Atom):
        raise Unsupported("len of %r" % (args[0],))
    a = N.app("len", [args[0]], "i")
    a.lo = 0
    return leaf(N.from_atom(a))


def fld(term, v, i):
    return N.app("fld", [term, v, i], "o")


def const_len(ty):
    n = ty["n"]
    if isinstance(n, int):
        return n
    if isinstance(n, dict):
        if n.get("k") == "const":
            for key in ("n", "v"):
                if isinstance(n.get(key), int):
                    return n[key]
                if isinstance(n.get(key), str) and n[key].isdigit():
                    return int(n[key])
    if isinstance(n, str) and n.isdigit():
        return int(n)
    raise Unsupported("array length %s" % (n,))


def deref_ty(t):
    if t["k"] in ("ref", "rawptr"):
        return t["t"]
    if t["k"] == "adt" and t["p"] in BOXY:
        return t["a"][0]
    return {"k": "other"}


def elem_ty(t):
    if t["k"] in ("slice", "array"):
        return t["t"]
    return {"k": "other"}


def arr_lit(ops):
    def f(s):
        if not ops:
            return UNDEF
        r = ops[-1]
        for i in range(len(ops) - 2, -1, -1):
            r = V.merge(T.le(s.val, N.const(i)), ops[i], r)
        return r
    return V.mk_arr(T.num(len(ops)), f)


NARROW = {"u8": (8, 0), "i8": (8, 1), "u16": (16, 0), "i16": (16, 1)}


def narrow(x, tn):
    """integer as an 8 or 16 bit integer (wider ones are read as unbounded)"""
    bits, sg = NARROW[tn]
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
    if x.const is not None:
        return leaf(N.const((int(x.const) - lo) % (1 << bits) + lo))
    a = N.app("narrow_" + tn, [x], "i")
    a.lo, a.hi = lo, hi
    return leaf(N.from_atom(a))


for _t in NARROW:
    T.REBUILD["narrow_" + _t] = (lambda t: lambda args: narrow(args[0], t))(_t)


def single(x):
    """f64 as f32"""
    if x.const is not None and abs(x.const) < 1 << 24 and (x.const * 256).denominator == 1 and abs(x.const * 256) < 1 << 24:
        return leaf(x)
    return leaf(N.from_atom(N.app("f32", [x], "r")))


T.REBUILD["f32"] = lambda args: single(args[0])


def trunc(x, uns):
    """f64 as int"""
    if x.is_int():
        return leaf(x)
    c = x.const
    if c is not None:
        v = int(c)
        if uns and v < 0:
            v = 0
        return leaf(N.const(v))
    a = x.single()
    if a is not None and a.kind == "app" and a.name in ("floor", "round", "ceil", "trunc"):
        a2 = N.app("toint_u" if uns else "toint", [x], "i")
    else:
        a2 = N.app("toint_u" if uns else "toint", [x], "i")
    if uns:
        a2.lo = 0
    return leaf(N.from_atom(a2))


@T.rebuild("toint_u")
def _rb1(args):
    return trunc(args[0], True)


@T.rebuild("toint")
def _rb2(args):
    return trunc(args[0], False)


@T.rebuild("as_unsigned")
def _rb_asu(args):
    x = args[0]
    if x.const is not None and x.const >= 0:
        return leaf(x)
    if T.entails(N.neg(x).n, False):
        return leaf(x)
    a = N.app("as_unsigned", [x], "i")
    a.lo = 0
    return leaf(N.from_atom(a))


def int_div(x, y, uns):
    if uns or (T.entails(N.neg(x).n, False) and T.entails(N.sub(N.ONE, y).n, False)):
        if y.const == 0:
            raise Unsupported("division by zero")
        return leaf(V.idiv(x, y))
    return leaf(N.from_atom(N.app("sdiv", [x, y], "i")))


@T.rebuild("sdiv")
def _rb_sdiv(args):
    return int_div(args[0], args[1], False)


def bitop(op, x, y):
    if x.const is not None and y.const is not None:
        a, b = int(x.const), int(y.const)
        return leaf(N.const({"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b, "Shl": a << b, "Shr": a >> b}[op]))
    if op == "Shl" and y.const is not None:
        return leaf(N.mul(x, N.const(2 ** int(y.const))))
    if op == "Shr" and y.const is not None:
        return leaf(V.idiv(x, N.const(2 ** int(y.const))))
    if op == "BitAnd" and y.const == 1:
        return leaf(V.imod(x, N.const(2)))
    if op == "BitXor" and x.const == 1:
        x, y = y, x
    if op == "BitXor" and y.const == 1:
        return leaf(N.sub(N.add(x, N.const(1)), N.mul(N.const(2), V.imod(x, N.const(2)))))
    return leaf(N.from_atom(N.app(op, [x, y], "i")))


def merge_states(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    out = dict(b)
    for k, v in a.items():
        w = b.get(k)
        if w is None or w is UNDEF:
            out[k] = v
        elif v is w or v is UNDEF:
            pass
        else:
            try:
                out[k] = V.merge(c, v, w)
            except Unsupported as e:
                raise
    return out


def combine(outs):
    """outs: [(cond, {stop:(c,s)})], conds exclusive and exhaustive"""
    if len(outs) == 1:
        return outs[0][1]
    res = {}
    for c, r in reversed(outs):
        for stop, (c2, s2) in r.items():
            cc = AND(c, c2)
            if stop in res:
                c0, s0 = res[stop]
                res[stop] = (OR(cc, c0), None if stop == PANIC else merge_states(c, s2, s0))
            else:
                res[stop] = (cc, s2)
    return res


def unify(p, a, bind):
    """one-way matching of impl type pattern p against concrete a"""
    if p["k"] == "param":
        i = p["i"]
        if i in bind:
            return V.ty_key(bind[i]) == V.ty_key(a)
        bind[i] = a
        return True
    if p["k"] == "lt" or a["k"] == "lt":
        return True
    if p["k"] != a["k"]:
        return False
    k = p["k"]
    if k == "prim":
        return p["n"] == a["n"]
    if k == "adt":
        return p["p"] == a["p"] and len(p["a"]) == len(a["a"]) and all(unify(x, y, bind) for x, y in zip(p["a"], a["a"]))
    if k == "ref":
        return p["m"] == a["m"] and unify(p["t"], a["t"], bind)
    if k in ("slice", "rawptr"):
        return unify(p["t"], a["t"], bind)
    if k == "array":
        return unify(p["t"], a["t"], bind)
    if k == "tuple":
        return len(p["a"]) == len(a["a"]) and all(unify(x, y, bind) for x, y in zip(p["a"], a["a"]))
    if k in ("closure", "fndef", "alias"):
        return V.ty_key(p) == V.ty_key(a)
    return V.ty_key(p) == V.ty_key(a)


# sel on arrays: substitution may replace the array symbol
def _sel_custom(m, a):
    base, idx = a.args
    di = m.num(idx)
    r = m.m.get(base.id) if base.id in m.dom else None
    if r is not None and not isinstance(r, DD):
        return r.sel(di)
    db = m.atom(base)
    def go(b, i):
        if isinstance(b, Atom):
            na = N.app("sel", [b, i], a.sort, nn=a.nn, pos=a.pos)
            if a.lo is not None and na.lo is None:
                na.lo = a.lo
            return T._atom_leaf(na)
        raise Unsupported("sel of %r" % (b,))
    return T.dd_mapn(go, (db, di))


_sel_custom.custom = True
T.REBUILD["sel"] = _sel_custom
