"""Termination rule.

prove(): lexicographic ranking over the control-flow graph.  A loop (strongly connected component) is discharged when one of
  * an iterator of a finite type, created outside the component, is advanced by next(): the Some edge of the result can be taken finitely
    often, so it may be removed;
  * an integer place that every write in the component moves in one direction, compared with a bound that does not change in the
    component: no infinite path takes both the moving edges and the 'not yet there' edges infinitely often, so both remainders must be discharged;
and what remains is discharged recursively.

stuck(): looks for a cycle, feasible with respect to the constants and branch outcomes known along it, on which nothing that could count
(iterator, integer feeding an exit condition, collection, closure state) moves.  Such a cycle is a violation: the loop can be left only
through the values of real numbers or of a caller supplied object.
"""
from .mirlib import *

FINITE = {"core::ops::range::Range", "core::ops::range::RangeInclusive", "core::slice::iter::Iter", "core::slice::iter::IterMut",
          "core::slice::iter::Chunks", "core::slice::iter::ChunksExact", "core::slice::iter::ChunksMut", "core::slice::iter::ChunksExactMut",
          "core::slice::iter::Windows", "core::slice::iter::RChunks", "alloc::vec::into_iter::IntoIter", "alloc::vec::drain::Drain",
          "core::option::Iter", "core::option::IterMut", "core::option::IntoIter", "core::array::iter::IntoIter", "core::iter::adapters::take::Take",
          "core::iter::sources::once::Once", "core::iter::sources::empty::Empty", "core::str::iter::Chars", "core::result::IntoIter",
          "core::iter::sources::repeat_n::RepeatN"}
INNER = {"rev::Rev", "enumerate::Enumerate", "map::Map", "filter::Filter", "filter_map::FilterMap", "skip::Skip", "skip_while::SkipWhile",
         "take_while::TakeWhile", "map_while::MapWhile", "step_by::StepBy", "cloned::Cloned", "copied::Copied", "peekable::Peekable",
         "inspect::Inspect", "fuse::Fuse", "scan::Scan", "by_ref_sized::ByRefSized"}
INFINITE = {"core::ops::range::RangeFrom", "core::iter::sources::repeat::Repeat", "core::iter::sources::repeat_with::RepeatWith",
            "core::iter::adapters::cycle::Cycle", "core::iter::sources::successors::Successors", "core::iter::sources::from_fn::FromFn"}


def finite(t):
    """True, False or None (unknown)"""
    k = t.get("k")
    if k == "ref":
        return finite(t["t"])
    if k != "adt":
        return None
    p = t["p"]
    if p in FINITE:
        return True
    if p in INFINITE:
        return False
    a = [x for x in t["a"] if isinstance(x, dict) and x.get("k") != "lt"]
    if p.startswith("core::iter::adapters::"):
        s = p[len("core::iter::adapters::"):]
        if s in INNER:
            return finite(a[0])
        if s == "zip::Zip":
            r = [finite(a[0]), finite(a[1])]
            return True if True in r else (None if None in r else False)
        if s == "chain::Chain":
            r = [finite(a[0]), finite(a[1])]
            return False if False in r else (None if None in r else True)
        if s.endswith("FlatMap"):
            return finite(a[0]) and (finite(a[1]) if a[1].get("p", "").startswith("core::") else None)
    return None


NEXT = ("core::iter::traits::iterator::Iterator::next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back")
PURE_INT = ("len", "size", "rows", "cols", "is_empty", "is_2d")
CMP = {"Lt", "Le", "Gt", "Ge", "Ne", "Eq"}
STEP_CALLS = {"saturating_add": 1, "wrapping_add": 1, "saturating_sub": -1, "wrapping_sub": -1}
# external calls through &mut that cannot move an integer or shrink a collection
QUIET = ("index_mut", "iter_mut", "deref_mut", "as_mut", "as_mut_slice", "fill", "copy_from_slice", "clone_from_slice", "push", "swap", "clone_from",
         "add_assign", "sub_assign", "mul_assign", "div_assign", "into_iter", "borrow_mut", "write_fmt", "get_mut", "split_at_mut", "first_mut", "last_mut", "replace")


KEEPLEN = ("index_mut", "iter_mut", "deref_mut", "as_mut", "as_mut_slice", "fill", "copy_from_slice", "swap", "get_mut", "set", "data_mut", "at_mut")


class Loop:
    def __init__(self, m, b, memo):
        self.m, self.b, self.memo = m, b, memo

    # ---- tracing temporaries
    def one_def(self, l, S=None):
        d = self.b.defs.get(l, [])
        if S is not None:
            d = [x for x in d if x[0] in S]
        return d[0] if len(d) == 1 and not d[0][2]["p"] else None

    def root(self, op, depth=0):
        """place an operand reads, through single-definition temporaries: ('int', v) | ('place', key) | None"""
        c = const_int(op)
        if c is not None:
            return ("int", c)
        if op[0] not in ("copy", "move"):
            return None
        return self.root_place(op[1], depth)

    def root_place(self, p, depth=0):
        if depth > 20:
            return None
        l = p["l"]
        if l > self.b.nargs and not self.is_named(l):
            d = self.one_def(l)
            if d and d[1] != "call":
                rv = d[3]
                if rv[0] == "use" and not p["p"]:
                    return self.root(rv[1], depth + 1)
                if rv[0] in ("ref", "rawptr") and p["p"] and p["p"][0][0] == "deref":
                    q = [x for x in rv if isinstance(x, dict) and "l" in x][0]
                    return self.root_place({"l": q["l"], "p": q["p"] + p["p"][1:]}, depth + 1)
                if rv[0] == "use" and rv[1][0] in ("copy", "move"):
                    q = rv[1][1]
                    return self.root_place({"l": q["l"], "p": q["p"] + p["p"]}, depth + 1)
        return ("place", pkey(p))

    def is_named(self, l):
        return l in self.b.names

    # ---- effects inside a component
    def writes(self, S):
        """place key -> [(block, kind, info)] for everything assigned or mutably borrowed in S"""
        w = {}
        for i in S:
            for j, s in enumerate(self.b.blocks[i]["s"]):
                if s[0] != "assign":
                    continue
                w.setdefault(s[1]["l"], []).append((i, "set", s[1], s[2]))
                if s[2][0] in ("ref", "rawptr") and s[2][1] is True:
                    q = [x for x in s[2] if isinstance(x, dict) and "l" in x][0]
                    r = self.root_place(q)
                    if r and r[0] == "place":
                        w.setdefault(r[1][0], []).append((i, "mutref", q, s[1]["l"]))
            t = self.b.blocks[i]["t"]
            if t["t"] == "call":
                w.setdefault(t["dst"]["l"], []).append((i, "set", t["dst"], t))
        return w

    def invariant(self, op, S, w, depth=0):
        """does the operand have the same value every time it is evaluated in S?"""
        if depth > 12:
            return False
        if op[0] == "const":
            return True
        p = op[1]
        return self.inv_place(p, S, w, depth)

    def inv_place(self, p, S, w, depth=0):
        l = p["l"]
        ws = w.get(l, [])
        if ws and all(k == "mutref" for _, k, _, _ in ws) and self.b.locals[l].get("k") == "adt":
            # only lent out to operations that keep the length; the caller asks for len() and the like
            if all(u.split("::")[-1] in KEEPLEN for _, _, _, x in ws for u in self.ref_uses(x, S)):
                ws = []
        if not ws:
            # what it points to must not be written either: shared references and owned values only
            t = self.b.locals[l]
            if any(e[0] == "deref" for e in p["p"]) and t.get("k") == "ref" and t["m"]:
                return self.ref_mut_quiet(l, p, S, w)
            return True
        if all(k == "set" for _, k, _, _ in ws) and len(ws) == 1 and not ws[0][2]["p"]:
            rv = ws[0][3]
            if isinstance(rv, dict):
                nm = callees(rv)
                if not nm or nm[-1].split("::")[-1] not in PURE_INT + ("max", "min", "deref", "as_ref", "unwrap", "clone", "into_iter", "iter", "first", "last", "saturating_sub", "wrapping_sub", "from", "into"):
                    if not nm or nm[-1] not in self.m.fns or not pure_fn(self.m, nm[-1], self.memo):
                        return False
                return all(self.invariant(a, S, w, depth + 1) for a in rv["args"])
            ops, pls = operands(rv)
            if rv[0] in ("ref",) and rv[1] is True:
                return False
            return all(self.invariant(o, S, w, depth + 1) for o in ops) and all(self.inv_place(q, S, w, depth + 1) for q in pls)
        return False

    def ref_mut_quiet(self, l, p, S, w):
        """(*l).f with l: &mut T never assigned in S: no write or mutable borrow of that field through l"""
        fk = pkey(p)
        for i in S:
            for s in self.b.blocks[i]["s"]:
                if s[0] != "assign":
                    continue
                k = pkey(s[1])
                if k[0] == l and (k[:len(fk)] == fk or fk[:len(k)] == k):
                    return False
                if s[2][0] in ("ref", "rawptr") and s[2][1] is True:
                    q = [x for x in s[2] if isinstance(x, dict) and "l" in x][0]
                    r = self.root_place(q)
                    if r and r[0] == "place" and r[1][0] == l and (r[1][:len(fk)] == fk or fk[:len(r[1])] == r[1]):
                        return False
        return True

    # ---- candidates
    def iterators(self, S, w):
        for i in sorted(S):
            t = self.b.blocks[i]["t"]
            if t["t"] != "call" or t["to"] is None:
                continue
            f = fndef(t["f"])
            if not f or f["p"] not in NEXT:
                continue
            r = self.root(t["args"][0])
            r = self.root_place({"l": t["args"][0][1]["l"], "p": [["deref"]]}) if r and r[0] == "place" else None
            if not r or r[0] != "place":
                continue
            base = r[1]
            ty = t["aty"][0]["t"] if t["aty"][0].get("k") == "ref" else t["aty"][0]
            fin = finite(ty)
            # everything that touches the iterator in S must be a next() on it
            clean = True
            for (bi, k, q, x) in w.get(base[0], []):
                if k == "set":
                    clean = False
                else:
                    uses = self.ref_uses(x, S)
                    if not all(u in NEXT for u in uses):
                        clean = False
            some = set()
            D = t["dst"]["l"]
            if not t["dst"]["p"] and len([x for x in w.get(D, []) if x[1] == "set"]) == 1:
                for j in S:
                    bt = self.b.blocks[j]["t"]
                    if bt["t"] != "switch":
                        continue
                    d = None
                    if bt["o"][0] in ("copy", "move") and not bt["o"][1]["p"]:
                        d = self.one_def(bt["o"][1]["l"], S)
                    if d and d[1] != "call" and d[3][0] == "discr" and pkey(d[3][1]) == (D,):
                        for v, to in self.b.succ[j]:
                            if v == 1 or (v is None and {a for a, _ in bt["arms"]} == {0}):
                                some.add((j, v, to))
            yield i, base, ty, fin, clean, some, D

    def ref_uses(self, l, S, depth=0):
        """names of the calls a temporary reference is passed to (through reborrows)"""
        out = []
        for i in S:
            for s in self.b.blocks[i]["s"]:
                if s[0] == "assign":
                    ops, pls = operands(s[2])
                    if any(o[0] != "const" and o[1]["l"] == l for o in ops) or any(q["l"] == l for q in pls):
                        if depth < 6 and not s[1]["p"]:
                            out += self.ref_uses(s[1]["l"], S, depth + 1)
                        else:
                            out.append("?")
            t = self.b.blocks[i]["t"]
            if t["t"] == "call" and any(a[0] != "const" and a[1]["l"] == l for a in t["args"]):
                out.append((callees(t) or ["?"])[0])
        return out

    def step(self, key, rv, dst):
        """delta of an assignment to the counter: int, ('reset',) or None"""
        if isinstance(rv, dict):
            nm = callees(rv)
            n = nm[-1].split("::")[-1] if nm else ""
            if n in STEP_CALLS:
                r = self.root(rv["args"][0])
                c = const_int(rv["args"][1])
                if r == ("place", key) and c is not None and not (r is None):
                    return STEP_CALLS[n] * c
            return None
        if rv[0] == "use":
            c = const_int(rv[1])
            if c is not None:
                return ("reset",)
            if rv[1][0] in ("copy", "move"):
                q = rv[1][1]
                d = self.one_def(q["l"])
                if d and d[1] != "call" and not q["p"] and not self.is_named(q["l"]):
                    return self.step(key, d[3], None)
                if d and d[1] == "call" and not q["p"] and not self.is_named(q["l"]):
                    return self.step(key, d[3], None)
            return None
        if rv[0] == "bin":
            op, x, y = rv[1], rv[2], rv[3]
            rx, ry = self.root(x), self.root(y)
            if op.startswith("Add"):
                if rx == ("place", key) and ry and ry[0] == "int":
                    return ry[1]
                if ry == ("place", key) and rx and rx[0] == "int":
                    return rx[1]
            if op.startswith("Sub") and rx == ("place", key) and ry and ry[0] == "int":
                return -ry[1]
        return None

    def counters(self, S, w):
        """integer places written in S whose every write has a known step: key -> [(block, delta)]"""
        cand = {}
        bad = set()
        for l, ws in w.items():
            for (i, k, q, x) in ws:
                key = pkey(q)
                if k == "mutref":
                    bad.add(key)
                    continue
                t = self.place_ty(q)
                if t is None or not is_int(t):
                    continue
                if not self.is_named(l) and not q["p"]:
                    continue
                st = self.step(key, x, q)
                if st is None:
                    bad.add(key)
                cand.setdefault(key, []).append((i, st))
        return {k: v for k, v in cand.items() if k not in bad and not any(b[:len(k)] == k or k[:len(b)] == b for b in bad)}

    def place_ty(self, p):
        t = self.b.locals[p["l"]]
        for e in p["p"]:
            if e[0] == "deref":
                t = t.get("t") if t.get("k") in ("ref", "rawptr") else None
            elif e[0] == "field":
                t = e[2]
            elif e[0] == "index":
                t = t.get("t")
            elif e[0] == "downcast":
                continue
            else:
                return None
            if t is None:
                return None
        return t

    def tests(self, key, sign, S, w):
        """edges that can be taken only while the counter has not reached an invariant bound"""
        out = set()
        for j in S:
            t = self.b.blocks[j]["t"]
            if t["t"] != "switch" or t["o"][0] == "const" or t["o"][1]["p"]:
                continue
            if t["ty"].get("n") != "bool":
                r = self.root(t["o"])
                if r == ("place", key) and sign < 0:
                    arms = {v for v, _ in t["arms"]}
                    if 0 in arms:
                        out |= {(j, v, to) for v, to in self.b.succ[j] if v != 0}
                continue
            d = self.one_def(t["o"][1]["l"], S)
            if not d or d[1] == "call" or d[3][0] != "bin" or d[3][1] not in CMP:
                continue
            op, x, y = d[3][1], d[3][2], d[3][3]
            rx, ry = self.root(x), self.root(y)
            if ry == ("place", key) and rx != ("place", key):
                x, y, rx, ry = y, x, ry, rx
                op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
            if rx != ("place", key) or not self.invariant(y, S, w):
                continue
            zero = ry == ("int", 0)
            for v, to in self.b.succ[j]:
                truth = (v != 0) if v is not None else True
                if (op in ("Lt", "Le") and truth and sign > 0) or (op in ("Gt", "Ge") and not truth and sign > 0) or \
                   (op in ("Gt", "Ge") and truth and sign < 0) or (op in ("Lt", "Le") and not truth and sign < 0) or \
                   (op == "Ne" and truth and sign < 0 and zero) or (op == "Eq" and not truth and sign < 0 and zero):
                    if not (op == "Ge" and truth and sign < 0 and zero):
                        out.add((j, v, to))
        return out

    def prove(self, S, E, depth=0):
        """None when discharged, else the component that is left"""
        if depth > 12:
            return (S, E)
        w = self.writes(S)
        for i, base, ty, fin, clean, some, D in self.iterators(S, w):
            if fin and clean and some & E:
                rest = E - some
                bad = self.rest(S, rest, depth)
                if bad is None:
                    self.how.append((i, "iterator " + show_ty(ty), None))
                    return None
        for key, st in self.counters(S, w).items():
            ds = [d for _, d in st]
            if any(not isinstance(d, int) or d == 0 for d in ds) or not (all(d > 0 for d in ds) or all(d < 0 for d in ds)):
                continue
            sign = 1 if ds[0] > 0 else -1
            te = self.tests(key, sign, S, w) & E
            if not te:
                continue
            blk = {i for i, _ in st}
            inc = {e for e in E if e[0] in blk}
            if self.rest(S, E - te, depth) is None and self.rest(S, E - inc, depth) is None:
                self.how.append((min(S), "counter %s" % self.b.name(key[0]), None))
                return None
        return (S, E)

    def rest(self, S, E, depth):
        for c, e in sccs(S, E):
            r = self.prove(c, e, depth + 1)
            if r is not None:
                return r
        return None

    # ---- violations
    def slice(self, S, E, w):
        """locals the exit conditions of the component depend on"""
        need, st = set(), []
        for j in S:
            t = self.b.blocks[j]["t"]
            if t["t"] == "switch" and any((j, v, to) not in E for v, to in self.b.succ[j]) or t["t"] == "assert":
                if t["o"][0] != "const":
                    st.append(t["o"][1]["l"])
        ctl = False
        while st:
            l = st.pop()
            if l in need:
                continue
            need.add(l)
            for (i, k, q, x) in w.get(l, []):
                if k == "mutref":
                    continue
                if isinstance(x, dict):
                    for a in x["args"]:
                        if a[0] != "const":
                            st.append(a[1]["l"])
                else:
                    ops, pls = operands(x)
                    st += [o[1]["l"] for o in ops if o[0] != "const"] + [p["l"] for p in pls]
                # an assigned flag depends on the branches of the component
                if not ctl and len([y for y in w.get(l, []) if y[1] == "set"]) > 1:
                    ctl = True
                    for j in S:
                        t = self.b.blocks[j]["t"]
                        if t["t"] == "switch" and t["o"][0] != "const":
                            st.append(t["o"][1]["l"])
        return need

    def payload_needed(self, D, S, E, w):
        """is the item an endless iterator yields part of an exit condition?"""
        for l in self.slice(S, E, w):
            for (i, k, q, x) in w.get(l, []):
                if k != "set":
                    continue
                ops, pls = ([a for a in x["args"]], []) if isinstance(x, dict) else operands(x)
                for p in [o[1] for o in ops if o[0] != "const"] + pls:
                    if p["l"] == D and p["p"]:
                        return True
        return False

    def movers(self, S, E):
        """blocks / edges on which something that could count may move; and counters with known steps"""
        w = self.writes(S)
        need = self.slice(S, E, w)
        blocks, edges = set(), set()
        for i, base, ty, fin, clean, some, D in self.iterators(S, w):
            if fin is not False:
                if some:
                    edges |= some
                else:
                    blocks.add(i)
            elif self.payload_needed(D, S, E, w):
                blocks.add(i)
        nexts = {i for i, *_ in self.iterators(S, w)}
        steps = {}
        ctr = self.counters(S, w)
        for l, ws in w.items():
            for (i, k, q, x) in ws:
                if k != "set" or l not in need:
                    continue
                t = self.place_ty(q)
                if t is None or (is_int(t) and (self.is_named(l) or q["p"])):
                    key = pkey(q)
                    if t is not None and key in ctr:
                        steps[key] = ctr[key]
                    else:
                        # a named value recomputed from scratch each round carries nothing over
                        if self.carried(l, S, w):
                            blocks.add(i)
        for i in S:
            t = self.b.blocks[i]["t"]
            if t["t"] != "call" or i in nexts:
                continue
            nm = callees(t)
            for a, at in zip(t["args"], t["aty"]):
                if at.get("k") == "ref" and at["m"]:
                    u = at["t"]
                    if u.get("k") == "param" or (u.get("k") == "prim" and u["n"] in ("f64", "f32", "bool")):
                        continue
                    if nm and nm[-1] in self.m.fns:
                        if not moves_int(self.m, nm[-1], self.memo):
                            continue
                    elif nm and nm[-1].split("::")[-1] in QUIET:
                        continue
                    blocks.add(i)
                elif at.get("k") == "closure" or (at.get("k") == "ref" and at["t"].get("k") == "closure"):
                    blocks.add(i)
        return blocks, edges, steps

    def carried(self, l, S, w):
        """does local l, written in S, keep information from one round to the next (conservatively yes unless temporary)?"""
        return True

    def stuck(self, S, E, limit=60000):
        blocks, edges, steps = self.movers(S, E)
        E2 = {e for e in E if e not in edges and e[0] not in blocks}
        if len(steps) > 1:
            # several integers move: only cycles on which none does
            hot = {i for v in steps.values() for i, _ in v}
            E2 = {e for e in E2 if e[0] not in hot}
            steps = {}
        delta = {}
        for key, v in steps.items():
            for i, d in v:
                if not isinstance(d, int):
                    delta[i] = None if i not in delta else None
                elif delta.get(i, 0) is not None:
                    delta[i] = delta.get(i, 0) + d
        up = any(isinstance(d, int) and d > 0 for v in steps.values() for _, d in v)
        dn = any(isinstance(d, int) and d < 0 for v in steps.values() for _, d in v)
        dirs = 0
        self.same_reset = False
        if steps:
            key = next(iter(steps))
            # reset value equals the value the counter has on entry (constant), so whatever led to the reset can happen again
            rv = {const_int(x[1]) for (i, k, q, x) in self.writes(S).get(key[0], []) if k == "set" and pkey(q) == key and not isinstance(x, dict) and x[0] == "use"}
            ent = {const_int(x[3][1]) if x[1] != "call" and x[3][0] == "use" else None for x in self.b.defs.get(key[0], []) if x[0] not in S and pkey(x[2]) == key}
            self.same_reset = len(rv) == 1 and rv == ent and None not in rv
            w = self.writes(S)
            tu, td = self.tests(key, 1, S, w) & E, self.tests(key, -1, S, w) & E
            if tu and not td:
                dirs = 1
            elif td and not tu:
                dirs = -1
        for c, e in sccs(S, E2):
            r = self.cycle(c, e, delta, dirs, limit)
            if r is not None:
                return r
        return None

    def cycle(self, S, E, delta, dirs, limit):
        """search the graph of (block, known facts) for a cycle whose counter does not get closer to its bound"""
        out = {}
        for (a, v, b2) in E:
            out.setdefault(a, []).append((v, b2))
        head = min(S)
        start = (head, frozenset())
        g, todo = {}, [start]
        while todo:
            st = todo.pop()
            if st in g:
                continue
            if len(g) > limit:
                return None
            g[st] = self.nexts(st, out)
            todo += [x for x in g[st]]
        # cycles: no weight at all, or weight of the wrong sign
        nodes = list(g)
        num = {s: i for i, s in enumerate(nodes)}
        flat = {(num[a], None, num[x]) for a in g for x in g[a]}
        for c, e in sccs(set(range(len(nodes))), flat):
            zero = {x for x in e if nodes[x[0]][0] not in delta}
            z = sccs(c, zero)
            if z:
                return sorted({nodes[i][0] for i in z[0][0]})
            # a round that puts the only counter back to a constant: needs a test towards a bound the counter can stay short of
            rs = [i for i in c if nodes[i][0] in delta and delta[nodes[i][0]] is None]
            if rs and dirs and self.same_reset:
                return sorted({nodes[i][0] for i in c})
            if dirs and len(c) < 400:
                # Bellman-Ford for a cycle of total weight <= 0 (in the direction of the bound), resets excluded
                wgt = {}
                for x in e:
                    d = delta.get(nodes[x[0]][0], 0)
                    if d is None:
                        continue
                    wgt[x] = d * dirs * 100000 - 1
                # a cycle of total step <= 0 has negative total weight here
                dist = {i: 0 for i in c}
                pre = {}
                last = None
                for _ in range(len(c) + 1):
                    last = None
                    for (a, _v, b2), ww in wgt.items():
                        if dist[a] + ww < dist[b2]:
                            dist[b2] = dist[a] + ww
                            pre[b2] = a
                            last = b2
                    if last is None:
                        break
                if last is not None:
                    for _ in range(len(c)):
                        last = pre[last]
                    cyc, x = [last], pre[last]
                    while x != last:
                        cyc.append(x)
                        x = pre[x]
                    tot = sum(delta.get(nodes[i][0], 0) or 0 for i in cyc) * dirs
                    if tot <= 0:
                        return sorted({nodes[i][0] for i in cyc})
        return None

    def nexts(self, st, out):
        i, facts = st
        env = dict(facts)

        def kill(l):
            for k in [k for k in env if k == ("l", l) or (k[0] == "e" and l in k[1]) or (isinstance(env[k], tuple) and l in env[k][1])]:
                del env[k]

        def val(op):
            c = const_int(op)
            if c is not None:
                return c
            if op[0] in ("copy", "move") and not op[1]["p"]:
                return env.get(("l", op[1]["l"]))
            return None

        def sym(op):
            v = val(op)
            if v is not None:
                return v
            if op[0] in ("copy", "move"):
                p = op[1]
                if all(e[0] in ("field", "deref") for e in p["p"]):
                    return ("v", (p["l"],), pkey(p))
            return None
        for s in self.b.blocks[i]["s"]:
            if s[0] == "dead":
                for k in [k for k in env if k == ("l", s[1])]:
                    del env[k]
            if s[0] != "assign":
                continue
            l, rv = s[1]["l"], s[2]
            new = None
            if not s[1]["p"]:
                if rv[0] == "use":
                    new = val(rv[1])
                    if new is None:
                        new = sym(rv[1])
                elif rv[0] == "un" and rv[1] == "Not":
                    v = val(rv[2])
                    if v in (0, 1):
                        new = 1 - v
                    elif isinstance(v, tuple):
                        new = ("not", v[1], v)
                elif rv[0] == "bin" and rv[1] in CMP:
                    x, y = sym(rv[2]), sym(rv[3])
                    if x is not None and y is not None:
                        ls = tuple(a for z in (x, y) if isinstance(z, tuple) for a in z[1])
                        new = ("cmp", ls, (rv[1], x, y))
                elif rv[0] == "discr" and all(e[0] in ("field", "deref") for e in rv[1]["p"]):
                    new = ("disc", (rv[1]["l"],), pkey(rv[1]))
            kill(l)
            if new is not None and not (isinstance(new, tuple) and l in new[1]):
                env[("l", l)] = new
        t = self.b.blocks[i]["t"]
        if t["t"] == "call":
            kill(t["dst"]["l"])
            for a, at in zip(t["args"], t["aty"]):
                if at.get("k") == "ref" and at["m"]:
                    r = self.root_place({"l": a[1]["l"], "p": [["deref"]]}) if a[0] != "const" else None
                    if r and r[0] == "place":
                        kill(r[1][0])
        res = []
        for v, to in out.get(i, []):
            e2 = dict(env)
            if t["t"] == "switch" and t["o"][0] != "const" and not t["o"][1]["p"]:
                l = t["o"][1]["l"]
                cur = e2.get(("l", l))
                arms = [a for a, _ in t["arms"]]
                neg = False
                x = cur
                while isinstance(x, tuple) and x[0] == "not":
                    neg, x = not neg, x[2]
                if isinstance(x, tuple):
                    known = e2.get(("e", x[1], x))
                    if known is not None:
                        known = 1 - known if neg else known
                else:
                    known = (1 - x if neg else x) if x is not None else None
                if isinstance(known, int):
                    if v is None:
                        if known in arms:
                            continue
                    elif known != v:
                        continue
                got = v
                if v is None and t["ty"].get("n") == "bool" and arms == [0]:
                    got = 1
                if v is None and got is None and x is not None and isinstance(x, tuple) and x[0] == "disc" and arms in ([0], [1]):
                    got = 1 - arms[0]
                if got is not None:
                    if isinstance(x, tuple):
                        e2[("e", x[1], x)] = 1 - got if neg else got
                    else:
                        e2[("l", l)] = got
            res.append((to, frozenset(e2.items())))
        return res


def moves_int(m, p, memo, stack=()):
    """may a local function change an integer or shorten a collection reachable from its arguments?"""
    key = ("moves", p)
    if key in memo:
        return memo[key]
    if p in stack:
        return True
    f = m.fns.get(p)
    if not f or not f.get("body"):
        return True
    b = Body(p, f)
    L = Loop(m, b, memo)
    r = False
    for i in b.reach:
        for s in b.blocks[i]["s"]:
            if s[0] == "assign" and any(e[0] == "deref" for e in s[1]["p"]):
                t = L.place_ty(s[1])
                if t is None or not (t.get("k") == "prim" and not is_int(t)):
                    r = True
        t = b.blocks[i]["t"]
        if t["t"] == "call":
            nm = callees(t)
            for at in t["aty"]:
                if at.get("k") == "ref" and at["m"]:
                    u = at["t"]
                    if u.get("k") == "param" or finite(u) is not None:
                        continue
                    if nm and nm[-1] in m.fns:
                        if moves_int(m, nm[-1], memo, stack + (p,)):
                            r = True
                    elif not nm or nm[-1].split("::")[-1] not in QUIET:
                        r = True
    memo[key] = r
    return r


def pure_fn(m, p, memo):
    """local function without mutable arguments, mutable captures or calls into caller supplied objects"""
    key = ("pure", p)
    if key in memo:
        return memo[key]
    memo[key] = False
    f = m.fns.get(p)
    r = bool(f and f.get("body"))
    if r:
        b = Body(p, f)
        for l in range(1, b.nargs + 1):
            if any(n.get("k") == "ref" and n.get("m") for n in walk_ty(b.locals[l])) or any(n.get("k") in ("param", "closure", "dyn") for n in walk_ty(b.locals[l])):
                r = False
    memo[key] = r
    return r


def analyse(m):
    """[(function, line, status, text)] for every outermost loop, plus consumers of endless iterators and recursion"""
    memo, res = {}, []
    for p, f, b in m.bodies():
        L = Loop(m, b, memo)
        for S, E in sccs(b.reach, b.edges()):
            L.how = []
            left = L.prove(S, E)
            ln = b.line(min(S))
            if left is None:
                res.append((p, ln, "HOLDS", "; ".join(sorted(set(x for _, x, _ in L.how)))))
                continue
            S2, E2 = left
            cyc = L.stuck(S2, E2)
            if cyc is None and (S2, E2) != (S, E):
                cyc = L.stuck(S, E)
            if cyc is not None:
                lines = sorted({b.line(i) for i in cyc}, key=lambda s: (s.rsplit(":", 1)[0], int(s.rsplit(":", 1)[1]) if s.rsplit(":", 1)[1].isdigit() else 0))
                res.append((p, b.line(min(S2)), "VIOLATED", "a way round this loop moves no counter, iterator or collection that its exit conditions depend on: " + " -> ".join(lines[:12])))
            else:
                res.append((p, b.line(min(S2)), "UNDECIDED", "no ranking argument found"))
        for i in b.reach:
            t = b.blocks[i]["t"]
            if t["t"] == "call":
                fd = fndef(t["f"])
                if fd and fd.get("trait") == "core::iter::traits::iterator::Iterator" and fd["name"] != "next" and t["aty"] and finite(t["aty"][0]) is False:
                    if fd["name"] in ("fold", "sum", "product", "count", "collect", "for_each", "last", "max", "min", "max_by", "min_by", "reduce", "unzip", "partition"):
                        res.append((p, b.line(i), "VIOLATED", "%s over the endless iterator %s" % (fd["name"], show_ty(t["aty"][0]))))
                    elif fd["name"] in ("find", "any", "all", "position", "try_fold", "try_for_each", "find_map", "nth"):
                        res.append((p, b.line(i), "UNDECIDED", "%s over the endless iterator %s" % (fd["name"], show_ty(t["aty"][0]))))
    return res


def recursion(m):
    g = callgraph(m)
    ids = {p: i for i, p in enumerate(sorted(g))}
    nm = sorted(g)
    ed = {(ids[a], ln, ids[c]) for a in g for c, ln in g[a] if c in ids and not c.startswith(a + "::{closure")}
    ed |= {(ids[a], ln, ids[c]) for a in g for c, ln in g[a] if c in ids}
    out = []
    for c, e in sccs(set(ids.values()), ed):
        out.append(([nm[i] for i in sorted(c)], sorted({ln for _, ln, _ in e if ln})))
    return out, len(g), len(ed)
