"""Python front end: compiles the functions of a Python package to the control-flow form the value-graph analysis works on.

Only the syntax tree is read, nothing is imported or run.  A function becomes basic blocks over numbered locals, like the MIR of
the Rust side, so branches, loops and calls go through the same engine.  Operations on values are dynamic ("py" right-hand sides):

  numbers, booleans      decision diagrams                      None            Option variant 0 (anything else may be variant 1)
  tuple                  Struct("tuple")                        str             leaf
  ndarray                Struct("py::ndarray", [data, ndim, d0, d1, note]), behind a pointer once it has an identity
  list                   pointer to Struct("py::list", [Arr])   object          pointer to Struct(class path)
  function               PyFn leaf (path, captured cells, bound object)

Arrays are passed and stored by reference as in Python, so missing copies show up as changes of the caller's arrays."""
import ast, os
from fractions import Fraction as Q
from . import num as N, terms as T, values as V, interp as I, models as M, loops as L
from .num import Num, Atom, Unsupported
from .terms import DD, leaf, ite, AND, OR, NOT, TRUE, FALSE, UNDEF
from .values import Struct, Enum, Arr, Ptr

OPTION = M.OPTION
ANY = {"k": "other", "n": "py"}
F64T = {"k": "prim", "n": "f64"}
BOOLT = {"k": "prim", "n": "bool"}
OPQ = {"k": "param", "n": "py", "i": 0}
ND = "py::ndarray"
LIST = "py::list"
NONE = Enum(OPTION, leaf(0), {0: []})


class PyFn:
    __slots__ = ("path", "env", "bound", "key", "deps", "height")

    def __init__(self, path, env=(), bound=None):
        self.path, self.env, self.bound = path, tuple(env), bound
        self.key = ("pyfn", path, tuple(p.key for p in self.env), None if bound is None else bound.id)
        self.deps = frozenset() if bound is None else bound.deps
        self.height = 0

    def __repr__(self):
        return "fn " + self.path

    def subst(self, m):
        return leaf(PyFn(self.path, self.env, None if self.bound is None else m.dd(self.bound)))


class PyCls:
    __slots__ = ("path", "key", "deps", "height")

    def __init__(self, path):
        self.path = path
        self.key = ("pycls", path)
        self.deps = frozenset()
        self.height = 0

    def __repr__(self):
        return "class " + self.path


class Ext:
    """item of an external module (numpy, math, builtins)"""
    __slots__ = ("path", "key", "deps", "height")

    def __init__(self, path):
        self.path = path
        self.key = ("pyext", path)
        self.deps = frozenset()
        self.height = 0

    def __repr__(self):
        return self.path


# ---------------------------------------------------------------------------------------------------------------- program
class Cls:
    def __init__(self, path, node, mod):
        self.path, self.node, self.mod = path, node, mod
        self.bases, self.methods, self.props, self.kinds = [], {}, set(), {}
        self.fields, self.members, self.consts, self.dataclass = [], None, {}, False
        self.is_protocol = False


class PyProgram:
    """same interface as interp.Program where the engine needs it"""
    def __init__(self, root, pkg="ellalgo", overlay=None):
        """overlay: {module: other root to take it from}"""
        self.fns, self.ext, self.adts, self.traits, self.impls, self.statics, self.mods = {}, {}, {}, {}, [], [], []
        self.cfg = {}
        self.classes, self.modules, self.errors = {}, {}, []
        self.pkg = pkg
        from .pyinterp import PyInterp
        self.interp_class = PyInterp
        base = os.path.join(root, pkg)
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, base)[:-3].replace(os.sep, ".")
                if rel == "__init__":
                    rel = ""
                elif rel.endswith(".__init__"):
                    rel = rel[:-9]
                if overlay and rel in overlay:
                    p = os.path.join(overlay[rel], pkg, os.path.relpath(p, base))
                    if not os.path.exists(p):
                        continue
                self.load(rel, p, f == "__init__.py")
        for m in list(self.modules):
            self.bind(m)
        self.layout()
        self.adts[ND] = {"kind": "struct", "local": True, "variants": [{"name": ND, "discr": 0, "fields": [[x, ANY] for x in ("data", "ndim", "d0", "d1", "note")]}]}
        self.adts[LIST] = {"kind": "struct", "local": True, "variants": [{"name": LIST, "discr": 0, "fields": [["items", ANY]]}]}
        self.adts[OPTION] = {"kind": "enum", "local": False, "variants": [{"name": "None", "discr": 0, "fields": []}, {"name": "Some", "discr": 1, "fields": [["0", {"k": "param", "n": "T", "i": 0}]]}]}
        for c in list(self.classes.values()):
            self.compile_class(c)
        for m, ns in self.modules.items():
            for nm, b in list(ns.items()):
                if b[0] == "fn" and b[1] not in self.fns:
                    self.compile_fn(b[1], b[2], b[3], None)

    def adt(self, p):
        return self.adts.get(p)

    def load(self, mod, path, is_pkg):
        src = open(path, encoding="utf-8").read()
        tree = ast.parse(src, path)
        self.modules[mod] = {"__tree__": ("tree", tree, path, is_pkg)}

    def resolve_mod(self, mod, is_pkg, level, name):
        if level == 0:
            parts = (name or "").split(".")
            if parts[0] == self.pkg:
                return ".".join(parts[1:])
            return None
        base = mod.split(".") if mod else []
        if not is_pkg:
            base = base[:-1]
        base = base[:len(base) - (level - 1)] if level > 1 else base
        return ".".join(base + ([name] if name else []))

    def bind(self, mod):
        ns = self.modules[mod]
        _, tree, path, is_pkg = ns["__tree__"]
        for s in tree.body:
            self.bind_stmt(mod, ns, s, path, is_pkg)

    def bind_stmt(self, mod, ns, s, path, is_pkg):
        pre = mod + "." if mod else ""
        if isinstance(s, ast.Import):
            for a in s.names:
                ns[a.asname or a.name.split(".")[0]] = ("ext", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(s, ast.ImportFrom):
            tgt = self.resolve_mod(mod, is_pkg, s.level, s.module)
            for a in s.names:
                if tgt is None:
                    ns[a.asname or a.name] = ("ext", (s.module or "") + "." + a.name)
                else:
                    ns[a.asname or a.name] = ("import", tgt, a.name)
        elif isinstance(s, (ast.FunctionDef,)):
            ns[s.name] = ("fn", pre + s.name, s, mod)
        elif isinstance(s, ast.ClassDef):
            c = Cls(pre + s.name, s, mod)
            self.classes[c.path] = c
            ns[s.name] = ("class", c.path)
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in ts:
                if isinstance(t, ast.Name) and s.value is not None:
                    ns[t.id] = ("expr", s.value, mod)
        elif isinstance(s, (ast.If, ast.Try)):
            for x in s.body:
                self.bind_stmt(mod, ns, x, path, is_pkg)

    def lookup(self, mod, name, depth=0):
        b = self.modules.get(mod, {}).get(name)
        if b is None:
            return None
        if b[0] == "import":
            if depth > 10:
                return None
            r = self.lookup(b[1], b[2], depth + 1)
            if r is None and (b[1] + "." + b[2] if b[1] else b[2]) in self.modules:
                return ("module", b[1] + "." + b[2] if b[1] else b[2])
            return r
        return b

    def layout(self):
        for c in self.classes.values():
            for b in c.node.bases:
                x = b.value if isinstance(b, ast.Subscript) else b
                if isinstance(x, ast.Name):
                    r = self.lookup(c.mod, x.id)
                    if r and r[0] == "class":
                        c.bases.append(r[1])
                    elif r and r[0] == "ext":
                        c.bases.append("!" + r[1].split(".")[-1])
                elif isinstance(x, ast.Attribute):
                    c.bases.append("!" + x.attr)
            for d in c.node.decorator_list:
                n = ast.unparse(d)
                if "dataclass" in n:
                    c.dataclass = True
            for s in c.node.body:
                if isinstance(s, ast.FunctionDef):
                    decs = [ast.unparse(d) for d in s.decorator_list]
                    if "property" in decs:
                        c.props.add(s.name)
                    if any(x.endswith(".setter") for x in decs):
                        c.methods[s.name + "="] = s
                        c.kinds[s.name + "="] = "inst"
                        continue
                    c.methods[s.name] = s
                    c.kinds[s.name] = "class" if "classmethod" in decs else "static" if "staticmethod" in decs else "inst"
                elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    c.consts[s.targets[0].id] = s.value
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    if c.dataclass:
                        c.fields.append(s.target.id)
                    if s.value is not None:
                        c.consts[s.target.id] = s.value
        for c in self.classes.values():
            anc = self.mro(c.path)
            if any(x in ("!Enum", "!IntEnum", "!StrEnum") for x in anc):
                c.members = sorted(c.consts)
                self.adts[c.path] = {"kind": "enum", "local": True, "variants": [{"name": m, "discr": i, "fields": []} for i, m in enumerate(c.members)]}
            if "!Protocol" in c.bases:
                c.is_protocol = True
        for c in self.classes.values():
            if c.members is not None:
                continue
            fs = list(c.fields)
            for p in reversed(self.mro(c.path)):
                k = self.classes.get(p)
                if k is None:
                    continue
                for s in k.node.body:
                    if isinstance(s, ast.FunctionDef) and s.args.args:
                        me = s.args.args[0].arg
                        for x in ast.walk(s):
                            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and isinstance(x.ctx, ast.Store) and x.attr not in fs and x.attr not in k.props:
                                fs.append(x.attr)
            c.fields = fs
            self.adts[c.path] = {"kind": "struct", "local": True, "variants": [{"name": c.path, "discr": 0, "fields": [[f, ANY] for f in fs]}]}

    def mro(self, path):
        out = [path]
        c = self.classes.get(path)
        if c:
            for b in c.bases:
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
        return out

    def find_method(self, path, name):
        for p in self.mro(path):
            c = self.classes.get(p)
            if c and name in c.methods:
                return c, p + "." + name
        return None, None

    def protocol_attrs(self, path):
        out = set()
        for p in self.mro(path):
            c = self.classes.get(p)
            if c:
                out |= {m for m in c.methods if not m.startswith("_")}
        return sorted(out)

    def compile_class(self, c):
        for nm, s in c.methods.items():
            self.compile_fn(c.path + "." + nm, s, c.mod, c)
        if c.dataclass and "__init__" not in c.methods:
            src = "def __init__(self, %s):\n" % ", ".join(f + ("=" + ast.unparse(c.consts[f]) if f in c.consts else "") for f in c.fields)
            src += "".join("    self.%s = %s\n" % (f, f) for f in c.fields) or "    pass\n"
            if "__post_init__" in c.methods:
                src += "    self.__post_init__()\n"
            s = ast.parse(src).body[0]
            for x in ast.walk(s):
                if hasattr(x, "lineno"):
                    x.lineno = c.node.lineno
            c.methods["__init__"] = s
            c.kinds["__init__"] = "inst"
            self.compile_fn(c.path + ".__init__", s, c.mod, c)

    def compile_fn(self, path, node, mod, cls, free=()):
        try:
            fc = FnCompiler(self, path, node, mod, cls, free)
            self.fns[path] = fc.finish()
        except Unsupported as e:
            self.errors.append("%s: %s" % (path, e))


# ---------------------------------------------------------------------------------------------------------------- compiler
def assigned_names(node):
    """names bound in a function body (not in nested functions)"""
    out = set()

    def tgt(t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)

    def walk(s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            out.add(s.name)
            return
        if isinstance(s, ast.Lambda):
            return
        if isinstance(s, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            return
        if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
            out.add(s.id)
        for c in ast.iter_child_nodes(s):
            walk(c)
    for s in node.body if isinstance(node.body, list) else [node.body]:
        walk(s)
    return out


class FnCompiler:
    def __init__(self, prog, path, node, mod, cls, free=()):
        self.P, self.path, self.node, self.mod, self.cls = prog, path, node, mod, cls
        self.file = os.path.relpath(prog.modules[mod]["__tree__"][2], "/") if mod in prog.modules else "?"
        self.file = "/" + self.file
        self.blocks = []
        self.locals = [ANY]
        self.vars = {}
        self.deref = set()
        self.nlam = 0
        self.nonlocals = set()
        self.loopstack = []
        a = node.args
        if a.vararg or a.kwarg:
            raise Unsupported("variadic function %s" % path)
        self.free = list(free)
        params = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        for f in self.free:
            self.vars[f] = self.newlocal()
            self.deref.add(f)
        for p in params + kwonly:
            self.vars[p] = self.newlocal()
            self.deref.discard(p)
        self.nargs = len(self.locals) - 1
        self.params, self.kwonly = params, kwonly
        nd = len(a.defaults)
        self.defaults = {p: d for p, d in zip(params[len(params) - nd:], a.defaults)}
        self.defaults.update({p: d for p, d in zip(kwonly, a.kw_defaults) if d is not None})
        for s in ast.walk(node):
            if isinstance(s, ast.Nonlocal):
                self.nonlocals |= set(s.names)
        if isinstance(node.body, list):
            for n in sorted(assigned_names(node) - self.nonlocals):
                if n not in self.vars or n in self.deref and n not in self.nonlocals:
                    self.vars[n] = self.newlocal()
                    self.deref.discard(n)
        self.shared = self.escaping(node)
        self.cur = self.newblock()
        if isinstance(node.body, list):
            self.stmts(node.body)
            if self.cur is not None:
                self.assign(0, ["py", "none", [], None], node)
                self.term({"t": "return"})
        else:
            v = self.expr(node.body)
            self.assign(0, ["use", v], node)
            self.term({"t": "return"})

    def escaping(self, node):
        """names whose array may become reachable by another name"""
        out = set()

        def bare(e):
            if isinstance(e, ast.Name):
                out.add(e.id)
            elif isinstance(e, (ast.Tuple, ast.List)):
                for x in e.elts:
                    bare(x)
            elif isinstance(e, ast.IfExp):
                bare(e.body)
                bare(e.orelse)
        for s in ast.walk(node):
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and s.value is not None:
                bare(s.value)
            elif isinstance(s, ast.Call):
                ext = self.ext_call(s.func)
                if not ext:
                    for x in list(s.args) + [k.value for k in s.keywords]:
                        bare(x)
            elif isinstance(s, (ast.Lambda, ast.FunctionDef)) and s is not node:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name):
                        out.add(x.id)
            elif isinstance(s, (ast.List, ast.Tuple, ast.Dict)) and not (isinstance(s, ast.Tuple) and isinstance(s.ctx, ast.Store)):
                for x in ast.iter_child_nodes(s):
                    bare(x)
        # a returned tuple only hands the value out
        return out

    def ext_call(self, f):
        while isinstance(f, ast.Attribute):
            f = f.value
        if not isinstance(f, ast.Name) or f.id in self.vars:
            return False
        b = self.P.lookup(self.mod, f.id)
        return b is None or b[0] == "ext"

    # ---- plumbing
    def newlocal(self):
        self.locals.append(ANY)
        return len(self.locals) - 1

    def newblock(self):
        self.blocks.append({"s": [], "t": None})
        return len(self.blocks) - 1

    def span(self, n):
        return "%s:%d" % (self.file, getattr(n, "lineno", 0))

    def emit(self, place, rv, n):
        self.blocks[self.cur]["s"].append(["assign", place, rv, self.span(n)])

    def assign(self, l, rv, n):
        self.emit({"l": l, "p": []}, rv, n)

    def op(self, name, args, n, extra=None):
        l = self.newlocal()
        self.assign(l, ["py", name, args, extra], n)
        return ["copy", {"l": l, "p": []}]

    def term(self, t):
        self.blocks[self.cur]["t"] = t
        self.cur = None

    def goto(self, b):
        if self.cur is not None:
            self.term({"t": "goto", "to": b})

    def call(self, kind, args, n, **kw):
        l = self.newlocal()
        nb = self.newblock()
        t = {"t": "call", "py": kind, "f": ["const", {"c": "zst", "ty": {"k": "tuple", "a": []}}], "args": args, "aty": [], "dty": ANY, "dst": {"l": l, "p": []}, "to": nb, "sp": self.span(n)}
        t.update(kw)
        self.term(t)
        self.cur = nb
        return ["copy", {"l": l, "p": []}]

    def unsupported(self, why, n):
        self.op("unsupported", [], n, why)
        return self.op("none", [], n)

    def branch(self, v, n):
        """two fresh blocks for truth / falsehood of v"""
        c = self.op("truth", [v], n)
        t, f = self.newblock(), self.newblock()
        self.term({"t": "switch", "o": c, "arms": [[0, f]], "other": t})
        return t, f

    # ---- names
    def read(self, name, n):
        if name in self.vars:
            p = {"l": self.vars[name], "p": [["deref"]] if name in self.deref else []}
            return ["copy", p]
        return self.op("global", [], n, self.resolve(name))

    def resolve(self, name):
        b = self.P.lookup(self.mod, name)
        if b is None:
            return ("ext", "builtins." + name)
        if b[0] == "expr":
            return ("expr", ast.unparse(b[1]), b[2], name)
        if b[0] == "ext":
            return ("ext", canon(b[1]))
        return b[:2]

    def store(self, t, v, n):
        if isinstance(t, ast.Name):
            x = self.op("own" if t.id in self.shared else "bind", [v], n)
            self.emit({"l": self.vars[t.id], "p": [["deref"]] if t.id in self.deref else []}, ["use", x], n)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                return self.unsupported("starred assignment", n)
            for i, x in enumerate(t.elts):
                self.store(x, self.op("unpack", [v], n, (i, len(t.elts))), n)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            self.call("setattr", [o, v], n, attr=t.attr)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            i = self.index(t.slice)
            r = self.op("setitem", [o, i, v], n)
            if isinstance(t.value, ast.Name) and t.value.id in self.vars:
                self.emit({"l": self.vars[t.value.id], "p": [["deref"]] if t.value.id in self.deref else []}, ["use", r], n)
        else:
            self.unsupported("assignment target", n)

    # ---- statements
    def stmts(self, ss):
        for s in ss:
            if self.cur is None:
                return
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return
            self.expr(s.value)
        elif isinstance(s, ast.Assign):
            v = self.expr(s.value)
            for t in s.targets:
                self.store(t, v, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.store(s.target, self.expr(s.value), s)
        elif isinstance(s, ast.AugAssign):
            self.aug(s)
        elif isinstance(s, ast.Return):
            v = self.expr(s.value) if s.value is not None else self.op("none", [], s)
            self.assign(0, ["use", v], s)
            self.term({"t": "return"})
        elif isinstance(s, ast.If):
            t, f = self.branch(self.expr(s.test), s)
            j = self.newblock()
            self.cur = t
            self.stmts(s.body)
            self.goto(j)
            self.cur = f
            self.stmts(s.orelse)
            self.goto(j)
            self.cur = j
            if not any(b["t"] and j in I.succs(b["t"]) for b in self.blocks):
                self.term({"t": "unreachable"})
        elif isinstance(s, ast.While):
            h, e = self.newblock(), self.newblock()
            self.goto(h)
            self.cur = h
            t, f = self.branch(self.expr(s.test), s)
            self.loopstack.append((h, e))
            self.cur = t
            self.stmts(s.body)
            self.goto(h)
            self.loopstack.pop()
            self.cur = f
            self.stmts(s.orelse)
            self.goto(e)
            self.cur = e
            if not any(b["t"] and e in I.succs(b["t"]) for b in self.blocks):
                self.term({"t": "unreachable"})
        elif isinstance(s, ast.For):
            self.forloop(s.target, s.iter, s, lambda: self.stmts(s.body), s.orelse)
        elif isinstance(s, ast.Break):
            self.goto(self.loopstack[-1][1])
        elif isinstance(s, ast.Continue):
            self.goto(self.loopstack[-1][0])
        elif isinstance(s, ast.Raise):
            self.raise_(s)
        elif isinstance(s, ast.Assert):
            t, f = self.branch(self.expr(s.test), s)
            self.cur = f
            self.raise_(s)
            self.cur = t
        elif isinstance(s, (ast.Pass, ast.Nonlocal, ast.Import, ast.ImportFrom)):
            pass
        elif isinstance(s, ast.FunctionDef):
            v = self.closure(s, s.name)
            self.emit({"l": self.vars[s.name], "p": []}, ["use", v], s)
        elif isinstance(s, ast.Match):
            self.match(s)
        else:
            self.unsupported(type(s).__name__, s)

    def match(self, s):
        v = self.expr(s.subject)
        j = self.newblock()
        for c in s.cases:
            p = c.pattern
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                if p.name:
                    self.store(ast.Name(id=p.name, ctx=ast.Store(), lineno=s.lineno), v, s)
                cond = None
            else:
                alts = p.patterns if isinstance(p, ast.MatchOr) else [p]
                conds = []
                for a in alts:
                    if isinstance(a, ast.MatchValue):
                        conds.append(self.op("cmp", [v, self.expr(a.value)], s, "Eq"))
                    elif isinstance(a, ast.MatchSingleton):
                        conds.append(self.op("cmp", [v, self.op("const", [], s, a.value)], s, "Is"))
                    else:
                        self.unsupported("match pattern", s)
                        conds.append(self.op("const", [], s, False))
                cond = conds[0]
                for x in conds[1:]:
                    cond = self.op("or", [cond, x], s)
            if cond is None and c.guard is None:
                self.stmts(c.body)
                self.goto(j)
                self.cur = None
                break
            if cond is not None:
                t, f = self.branch(cond, s)
                self.cur = t
            else:
                f = self.newblock()
            if c.guard is not None:
                t2, f2 = self.branch(self.expr(c.guard), s)
                self.cur = f2
                self.goto(f)
                self.cur = t2
            self.stmts(c.body)
            self.goto(j)
            self.cur = f
        self.goto(j)
        self.cur = j
        if not any(b["t"] and j in I.succs(b["t"]) for b in self.blocks):
            self.term({"t": "unreachable"})

    def raise_(self, s):
        self.call("raise", [], s, to=None)
        self.cur = None

    def aug(self, s):
        v = self.expr(s.value)
        o = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.read(t.id, s)
            r = self.op("iop", [cur, v], s, o)
            self.emit({"l": self.vars[t.id], "p": [["deref"]] if t.id in self.deref else []}, ["use", r], s)
        elif isinstance(t, ast.Attribute):
            obj = self.expr(t.value)
            cur = self.getattr(obj, t.attr, s)
            r = self.op("iop", [cur, v], s, o)
            self.call("setattr", [obj, r], s, attr=t.attr)
        elif isinstance(t, ast.Subscript):
            obj = self.expr(t.value)
            i = self.index(t.slice)
            cur = self.op("getitem", [obj, i], s)
            r = self.op("bin", [cur, v], s, o)
            r = self.op("setitem", [obj, i, r], s)
            if isinstance(t.value, ast.Name) and t.value.id in self.vars:
                self.emit({"l": self.vars[t.value.id], "p": [["deref"]] if t.value.id in self.deref else []}, ["use", r], s)
        else:
            self.unsupported("augmented assignment", s)

    def forloop(self, target, it, n, body, orelse=()):
        v = self.expr(it)
        itr = self.op("iter", [v], n)
        k = self.newlocal()
        self.assign(k, ["py", "const", [], 0], n)
        kk = ["copy", {"l": k, "p": []}]
        h, e = self.newblock(), self.newblock()
        self.goto(h)
        self.cur = h
        t, f = self.branch(self.op("iterhas", [itr, kk], n), n)
        self.cur = t
        item = self.op("iteritem", [itr, kk], n)
        nk = self.op("bin", [kk, self.op("const", [], n, 1)], n, "Add")
        self.assign(k, ["use", nk], n)
        if isinstance(target, str):
            self.assign(self.vars[target], ["use", item], n)
        else:
            self.store(target, item, n)
        self.loopstack.append((h, e))
        body()
        self.goto(h)
        self.loopstack.pop()
        self.cur = f
        self.stmts(orelse)
        self.goto(e)
        self.cur = e

    # ---- expressions
    def index(self, s):
        if isinstance(s, ast.Slice):
            lo = self.expr(s.lower) if s.lower is not None else self.op("none", [], s)
            hi = self.expr(s.upper) if s.upper is not None else self.op("none", [], s)
            st = self.expr(s.step) if s.step is not None else self.op("none", [], s)
            return self.op("slice", [lo, hi, st], s)
        if isinstance(s, ast.Tuple):
            return self.op("tuple", [self.index(x) for x in s.elts], s)
        return self.expr(s)

    def getattr(self, o, attr, n):
        if any(attr in c.props for c in self.P.classes.values()):
            return self.call("getprop", [o], n, attr=attr)
        return self.op("getattr", [o], n, attr)

    def closure(self, node, name):
        self.nlam += 1
        path = "%s.<%s#%d>" % (self.path, name, self.nlam)
        used = {x.id for x in ast.walk(node) if isinstance(x, ast.Name)} | {n for x in ast.walk(node) if isinstance(x, ast.Nonlocal) for n in x.names}
        own = {a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs}
        inner = (assigned_names(node) if isinstance(node.body, list) else set()) - {n for x in ast.walk(node) if isinstance(x, ast.Nonlocal) for n in x.names}
        free = sorted(x for x in used if x in self.vars and x not in own and x not in inner)
        self.P.compile_fn(path, node, self.mod, self.cls, free)
        places = []
        for f in free:
            places.append({"l": self.vars[f], "p": [["deref"]] if f in self.deref else []})
        l = self.newlocal()
        self.assign(l, ["pyfn", path, places], node)
        return ["copy", {"l": l, "p": []}]

    def expr(self, e):
        n = e
        if isinstance(e, ast.Constant):
            return self.op("const", [], n, e.value)
        if isinstance(e, ast.Name):
            return self.read(e.id, n)
        if isinstance(e, ast.BinOp):
            a = self.expr(e.left)
            b = self.expr(e.right)
            return self.op("bin", [a, b], n, type(e.op).__name__)
        if isinstance(e, ast.UnaryOp):
            a = self.expr(e.operand)
            return self.op("un", [a], n, type(e.op).__name__)
        if isinstance(e, ast.BoolOp):
            l = self.newlocal()
            j = self.newblock()
            for i, x in enumerate(e.values):
                v = self.expr(x)
                self.assign(l, ["use", v], n)
                if i + 1 < len(e.values):
                    t, f = self.branch(v, n)
                    stop, go = (f, t) if isinstance(e.op, ast.And) else (t, f)
                    self.cur = stop
                    self.goto(j)
                    self.cur = go
            self.goto(j)
            self.cur = j
            return ["copy", {"l": l, "p": []}]
        if isinstance(e, ast.Compare):
            left = self.expr(e.left)
            res = None
            for o, c in zip(e.ops, e.comparators):
                right = self.expr(c)
                r = self.op("cmp", [left, right], n, type(o).__name__)
                res = r if res is None else self.op("and", [res, r], n)
                left = right
            return res
        if isinstance(e, ast.IfExp):
            l = self.newlocal()
            t, f = self.branch(self.expr(e.test), n)
            j = self.newblock()
            self.cur = t
            self.assign(l, ["use", self.expr(e.body)], n)
            self.goto(j)
            self.cur = f
            self.assign(l, ["use", self.expr(e.orelse)], n)
            self.goto(j)
            self.cur = j
            return ["copy", {"l": l, "p": []}]
        if isinstance(e, ast.Tuple):
            return self.op("tuple", [self.expr(x) for x in e.elts], n)
        if isinstance(e, ast.List):
            return self.op("list", [self.expr(x) for x in e.elts], n)
        if isinstance(e, ast.Attribute):
            g = self.static_attr(e)
            if g is not None:
                return self.op("global", [], n, g)
            return self.getattr(self.expr(e.value), e.attr, n)
        if isinstance(e, ast.Subscript):
            return self.op("getitem", [self.expr(e.value), self.index(e.slice)], n)
        if isinstance(e, ast.Call):
            return self.callexpr(e)
        if isinstance(e, ast.Lambda):
            return self.closure(e, "lambda")
        if isinstance(e, ast.JoinedStr):
            return self.op("const", [], n, "f-string")
        if isinstance(e, ast.NamedExpr):
            v = self.expr(e.value)
            self.store(e.target, v, n)
            return v
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            if len(e.generators) != 1 or e.generators[0].ifs or e.generators[0].is_async:
                return self.unsupported("filtered or nested comprehension", n)
            g = e.generators[0]
            names = [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]
            # element as a function of the item
            lam = ast.parse("lambda __item: 0").body[0].value
            if isinstance(g.target, ast.Name):
                lam.args.args[0].arg = g.target.id
                lam.body = e.elt
            else:
                fn = ast.parse("def elt(__item):\n    pass").body[0]
                fn.body = [ast.Assign(targets=[g.target], value=ast.Name(id="__item", ctx=ast.Load()), lineno=n.lineno), ast.Return(value=e.elt)]
                lam = ast.fix_missing_locations(fn)
            ast.copy_location(lam, e)
            ast.fix_missing_locations(lam)
            it = self.op("iter", [self.expr(g.iter)], n)
            f = self.closure(lam, "item")
            return self.call("comp", [it, f], n)
        return self.unsupported(type(e).__name__, n)

    def static_attr(self, e):
        """dotted access into a module or a class"""
        parts = []
        x = e
        while isinstance(x, ast.Attribute):
            parts.append(x.attr)
            x = x.value
        if not isinstance(x, ast.Name) or x.id in self.vars:
            return None
        parts.reverse()
        b = self.P.lookup(self.mod, x.id)
        if b is None:
            return None
        if b[0] == "ext":
            return ("ext", canon(b[1] + "." + ".".join(parts)))
        if b[0] == "module":
            r = self.P.lookup(b[1], parts[0])
            if r and len(parts) == 1:
                return r[:2] if r[0] != "expr" else ("expr", ast.unparse(r[1]), r[2], parts[0])
            if r and r[0] == "class" and len(parts) == 2:
                return ("member", r[1], parts[1])
            return None
        if b[0] == "class" and len(parts) == 1:
            return ("member", b[1], parts[0])
        return None

    def callexpr(self, e):
        n = e
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            return self.unsupported("starred call", n)
        f = e.func
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            me = self.read(self.params[0], n) if self.params else self.unsupported("super", n)
            args = [self.expr(a) for a in e.args]
            return self.call("super", [me] + args, n, attr=f.attr, cls=self.cls.path if self.cls else None, kw=[])
        # reductions over a generator become loops
        if isinstance(f, ast.Name) and f.id not in self.vars and self.P.lookup(self.mod, f.id) is None and f.id in ("sum", "any", "all", "max", "min") and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp) and not e.keywords:
            return self.genred(f.id, e.args[0], n)
        if isinstance(f, ast.Attribute) and self.static_attr(f) is None:
            recv = self.expr(f.value)
            args = [self.expr(a) for a in e.args]
            kws = [self.expr(k.value) for k in e.keywords]
            return self.call("method", [recv] + args + kws, n, attr=f.attr, kw=[k.arg for k in e.keywords])
        fv = self.expr(f)
        args = [self.expr(a) for a in e.args]
        kws = [self.expr(k.value) for k in e.keywords]
        return self.call("call", [fv] + args + kws, n, kw=[k.arg for k in e.keywords])

    def genred(self, what, g, n):
        if len(g.generators) != 1:
            return self.unsupported("nested generator", n)
        gen = g.generators[0]
        saved = {}
        for x in ast.walk(gen.target):
            if isinstance(x, ast.Name):
                saved[x.id] = (self.vars.get(x.id), x.id in self.deref)
                self.vars[x.id] = self.newlocal()
                self.deref.discard(x.id)
        acc = self.newlocal()
        A = ["copy", {"l": acc, "p": []}]
        if what in ("max", "min"):
            return self.unsupported("max/min of a generator", n)
        self.assign(acc, ["py", "const", [], {"sum": 0, "any": False, "all": True}[what]], n)

        def body():
            h, e = self.loopstack[-1]
            for c in gen.ifs:
                t, f = self.branch(self.expr(c), n)
                self.cur = f
                self.goto(h)
                self.cur = t
            v = self.expr(g.elt)
            if what == "sum":
                self.assign(acc, ["use", self.op("bin", [A, v], n, "Add")], n)
            else:
                t, f = self.branch(v, n)
                hit, miss = (t, f) if what == "any" else (f, t)
                self.cur = hit
                self.assign(acc, ["py", "const", [], what == "any"], n)
                self.goto(e)
                self.cur = miss
        self.forloop(gen.target, gen.iter, n, body)
        for k, (v, d) in saved.items():
            if v is None:
                del self.vars[k]
            else:
                self.vars[k] = v
                if d:
                    self.deref.add(k)
        return A

    def finish(self):
        for b in self.blocks:
            if b["t"] is None:
                b["t"] = {"t": "unreachable"}
        body = {"locals": self.locals, "nargs": self.nargs, "blocks": self.blocks}
        return {"path": self.path, "span": self.span(self.node), "body": body, "vis": "Public", "kind": "Fn", "params": self.params, "kwonly": self.kwonly,
                "defaults": {k: ast.unparse(v) for k, v in self.defaults.items()}, "free": self.free, "mod": self.mod, "generics": []}


def canon(p):
    if p == "numpy" or p.startswith("numpy."):
        return "np" + p[5:]
    return p
