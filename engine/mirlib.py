"""Small library for rules over the dumped MIR: control flow, places, callees, call graph."""
import json


class Mir:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns, self.ext, self.adts, self.traits, self.impls, self.statics = (d[k] for k in ("fns", "ext", "adts", "traits", "impls", "statics"))

    def bodies(self):
        for p, f in self.fns.items():
            if f.get("body"):
                yield p, f, Body(p, f)


def fndef(op):
    """the fndef type of a call operand, if it is a constant function"""
    if op[0] == "const" and op[1]["ty"].get("k") == "fndef":
        return op[1]["ty"]
    return None


def callees(t):
    """[declared path, resolved path] of a call terminator"""
    out = []
    f = fndef(t["f"])
    if f:
        out.append(f["p"])
    if t.get("resolved"):
        out.append(t["resolved"]["p"])
    return out


def walk_ty(t):
    if isinstance(t, dict):
        yield t
        for v in t.values():
            if isinstance(v, (dict, list)):
                yield from walk_ty(v)
    elif isinstance(t, list):
        for x in t:
            yield from walk_ty(x)


def show_ty(t):
    k = t.get("k")
    if k == "prim":
        return t["n"]
    if k == "param":
        return t["n"]
    if k == "adt":
        a = [show_ty(x) for x in t["a"] if isinstance(x, dict) and x.get("k") != "lt"]
        return t["p"].split("::")[-1] + ("<%s>" % ", ".join(a) if a else "")
    if k == "ref":
        return ("&mut " if t["m"] else "&") + show_ty(t["t"])
    if k in ("slice", "array"):
        return "[%s]" % show_ty(t["t"])
    return k or "?"


INTS = {"usize", "isize"} | {s + b for s in "ui" for b in ("8", "16", "32", "64", "128")}


def is_int(t):
    return t.get("k") == "prim" and t["n"] in INTS


def operands(rv):
    """operands and places read by an rvalue: (operands, places)"""
    k = rv[0]
    if k in ("use",):
        return [rv[1]], []
    if k == "repeat":
        return [rv[1]], []
    if k in ("ref", "rawptr", "reborrow"):
        return [], [p for p in rv if isinstance(p, dict) and "l" in p]
    ops, pls = [], []

    def go(x):
        if isinstance(x, list):
            if len(x) >= 2 and x[0] in ("copy", "move") and isinstance(x[1], dict) and "l" in x[1]:
                ops.append(x)
                return
            if len(x) >= 2 and x[0] == "const" and isinstance(x[1], dict):
                ops.append(x)
                return
            for y in x:
                go(y)
        elif isinstance(x, dict) and "l" in x and "p" in x:
            pls.append(x)
    for x in rv[1:]:
        go(x)
    return ops, pls


def const_int(op):
    if op[0] == "const":
        c = op[1]
        if c.get("c") == "val" and isinstance(c.get("v"), dict) and c["v"].get("c") in ("int", "bool"):
            return int(c["v"]["v"])
    return None


def pkey(p):
    """hashable form of a place without types"""
    out = [p["l"]]
    for e in p["p"]:
        if e[0] == "field":
            out.append(("f", e[1]))
        elif e[0] == "downcast":
            out.append(("d", e[1]))
        elif e[0] == "deref":
            out.append("*")
        else:
            out.append((e[0], json.dumps(e[1:])))
    return tuple(out)


class Body:
    def __init__(self, path, f):
        self.path, self.f, b = path, f, f["body"]
        self.blocks, self.locals, self.nargs = b["blocks"], b["locals"], b["nargs"]
        self.names = {}
        for nm, p in b["names"]:
            if not p["p"]:
                self.names.setdefault(p["l"], nm)
        self.succ = {}
        for i, blk in enumerate(self.blocks):
            t = blk["t"]
            k = t["t"]
            if k == "switch":
                s = [(v, b) for v, b in t["arms"]] + [(None, t["other"])]
            elif k in ("goto", "drop", "assert"):
                s = [(None, t["to"])]
            elif k == "call":
                s = [(None, t["to"])] if t["to"] is not None else []
            else:
                s = []
            self.succ[i] = [(v, b) for v, b in s if self.blocks[b]["t"]["t"] != "unreachable"]
        self.reach = set()
        st = [0]
        while st:
            x = st.pop()
            if x in self.reach:
                continue
            self.reach.add(x)
            st += [b for _, b in self.succ[x]]
        # definitions of every local: (block, index or 'call', rvalue or terminator)
        self.defs = {}
        for i in self.reach:
            for j, s in enumerate(self.blocks[i]["s"]):
                if s[0] == "assign":
                    self.defs.setdefault(s[1]["l"], []).append((i, j, s[1], s[2]))
            t = self.blocks[i]["t"]
            if t["t"] == "call":
                self.defs.setdefault(t["dst"]["l"], []).append((i, "call", t["dst"], t))

    def edges(self):
        return {(i, v, b) for i in self.reach for v, b in self.succ[i]}

    def line(self, i):
        sp = self.blocks[i].get("sp")
        if sp and "/" in sp:
            return sp
        for s in self.blocks[i]["s"]:
            if s[0] == "assign":
                return s[3]
        return self.f["span"]

    def whole_defs(self, l):
        return [d for d in self.defs.get(l, []) if not d[2]["p"]]

    def name(self, l):
        return self.names.get(l, "_%d" % l)


def sccs(nodes, edges):
    """strongly connected components with at least one edge inside, as (nodes, edges)"""
    adj = {n: [] for n in nodes}
    for e in edges:
        if e[0] in adj and e[2] in adj:
            adj[e[0]].append(e[2])
    idx, low, on, st, out, cnt = {}, {}, set(), [], [], [0]
    for root in sorted(adj):
        if root in idx:
            continue
        work = [(root, iter(adj[root]))]
        idx[root] = low[root] = cnt[0]
        cnt[0] += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(adj[w])))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.add(w)
                        if w == v:
                            break
                    ins = {e for e in edges if e[0] in c and e[2] in c}
                    if ins:
                        out.append((c, ins))
    return out


def callgraph(m):
    """local function -> {(callee, line)}: direct calls, resolved trait calls, function items and closures mentioned"""
    g = {}
    for p, f, b in m.bodies():
        s = g.setdefault(p, set())
        for i in b.reach:
            blk = b.blocks[i]
            t = blk["t"]
            if t["t"] == "call":
                fd = fndef(t["f"])
                r = t.get("resolved")
                if r and r["p"] in m.fns:
                    s.add((r["p"], b.line(i)))
                elif fd and fd["p"] in m.fns and not r:
                    if not fd.get("trait") or m.fns[fd["p"]].get("body") is None:
                        s.add((fd["p"], b.line(i)))
            for n in walk_ty([x for x in blk["s"] if x[0] == "assign"] + [blk["t"]]):
                if n.get("k") == "closure" and n.get("p") in m.fns:
                    s.add((n["p"], b.line(i)))
                elif n.get("k") == "fndef" and n.get("p") in m.fns and not n.get("trait"):
                    s.add((n["p"], b.line(i)))
    return g
