"""Project model: every module of edk2toollib parsed, with symbols, classes, functions and callee resolution."""
import ast
import builtins
import json
import os

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "edk2toollib"


class Broken(Exception):
    """The source cannot be analysed at all (a module vanished or does not parse)."""


class Func:
    def __init__(self, mod, cls, node, parent=None):
        self.mod, self.cls, self.node, self.parent = mod, cls, node, parent
        self.name = node.name
        self.decos = []
        for d in node.decorator_list:
            t = d.func if isinstance(d, ast.Call) else d
            try:
                self.decos.append(ast.unparse(t))
            except Exception:
                self.decos.append("?")
        last = [d.split(".")[-1] for d in self.decos]
        self.is_static = "staticmethod" in last
        self.is_class = "classmethod" in last
        self.is_prop = "property" in last or "cached_property" in last
        self.is_setter = "setter" in last
        self.is_ctx = "contextmanager" in last
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))
        if parent is not None:
            self.qual = parent.qual + "." + node.name
        elif cls is not None:
            self.qual = cls.qual + "." + node.name + ("=" if self.is_setter else "")
        else:
            self.qual = mod.short + ":" + node.name
        self.nested = {}

    @property
    def params(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args]

    def where(self, node=None):
        n = node if node is not None and hasattr(node, "lineno") else self.node
        return f"{self.mod.rel}:{n.lineno}"

    def __repr__(self):
        return f"<Func {self.qual}>"


def own_nodes(fn):
    """Nodes of a function body, not descending into nested functions/classes/lambdas."""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                yield c
                continue
            stack.append(c)


def all_nodes(fn):
    for n in ast.walk(fn):
        yield n


class Class:
    def __init__(self, mod, node, outer=None):
        self.mod, self.node, self.outer = mod, node, outer
        self.name = node.name
        self.qual = (outer.qual + "." if outer else mod.short + ":") + node.name
        self.methods = {}     # name -> Func (last definition; property getter kept under name)
        self.setters = {}
        self.attrs = {}       # class-level name -> value expr
        self.classes = {}
        self.bases = []       # Class or dotted string
        self.is_enum = False
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(mod, self, st)
                if f.is_setter:
                    self.setters[f.name] = f
                else:
                    self.methods[f.name] = f
                index_nested(f)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(mod, st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
                    elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple):
                        for a, b in zip(t.elts, st.value.elts):
                            if isinstance(a, ast.Name):
                                self.attrs[a.id] = b
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.attrs[st.target.id] = st.value

    def mro(self):
        out, seen = [], set()

        def go(c):
            if not isinstance(c, Class) or c.qual in seen:
                return
            seen.add(c.qual)
            out.append(c)
            for b in c.bases:
                go(b)
        go(self)
        return out

    def external_bases(self):
        return [b for c in self.mro() for b in c.bases if not isinstance(b, Class)]

    def method(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def class_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def nested_class(self, name):
        for c in self.mro():
            if name in c.classes:
                return c.classes[name]
        return None

    def all_funcs(self):
        yield from self.methods.values()
        yield from self.setters.values()

    def where(self):
        return f"{self.mod.rel}:{self.node.lineno}"

    def __repr__(self):
        return f"<Class {self.qual}>"


def index_nested(f):
    for n in own_nodes(f.node):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            g = Func(f.mod, None, n, parent=f)
            g.outer_cls = f.cls
            f.nested[n.name] = g
            index_nested(g)


class Module:
    def __init__(self, proj, path):
        self.proj = proj
        self.path = path
        self.rel = os.path.relpath(path, proj.root)
        parts = self.rel[:-3].split(os.sep)
        self.is_pkg = parts[-1] == "__init__"
        if self.is_pkg:
            parts = parts[:-1]
        self.name = ".".join(parts)
        self.short = ".".join(parts[1:]) or parts[0]
        tree = None
        if path in proj.overrides:
            self.src = proj.overrides[path]
            if isinstance(self.src, tuple):
                self.src, tree = self.src
        else:
            with open(path, encoding="utf-8") as f:
                self.src = f.read()
        try:
            self.tree = tree if tree is not None else ast.parse(self.src, path)
        except SyntaxError as e:
            raise Broken(f"{self.rel} does not parse: {e}")
        self.lines = self.src.splitlines()
        self.imports = {}
        self.funcs = {}
        self.classes = {}
        self.globals = {}      # name -> list of value exprs
        self.star = []
        self._scan(self.tree.body)
        for n in ast.walk(self.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self._imp(n)

    def _imp(self, n):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    self.imports[a.asname] = ("mod", a.name)
                else:
                    self.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
        else:
            base = n.module or ""
            if n.level:
                pk = self.name.split(".")
                if not self.is_pkg:
                    pk = pk[:-1]
                pk = pk[: len(pk) - (n.level - 1)]
                base = ".".join(pk + ([n.module] if n.module else []))
            for a in n.names:
                if a.name == "*":
                    self.star.append(base)
                else:
                    self.imports[a.asname or a.name] = ("sym", base, a.name)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(self, None, st)
                self.funcs[st.name] = f
                index_nested(f)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(self, st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.globals.setdefault(t.id, []).append(st.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self.globals.setdefault(e.id, []).append(None)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.globals.setdefault(st.target.id, []).append(st.value)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                self.globals.setdefault(st.target.id, []).append(None)
            elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for fld in ("body", "orelse", "finalbody"):
                    self._scan(getattr(st, fld, []) or [])
                for h in getattr(st, "handlers", []):
                    self._scan(h.body)


class Project:
    def __init__(self, root=None, overrides=None):
        self.root = root or REPO
        self.overrides = overrides or {}
        self.modules = {}
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise Broken(f"{base} is missing")
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".py"):
                    m = Module(self, os.path.join(d, f))
                    self.modules[m.name] = m
        self.by_short = {m.short: m for m in self.modules.values()}
        for m in self.modules.values():
            for c in list(self.iter_classes(m)):
                c.bases = []
                for b in c.node.bases:
                    r = self.resolve_expr(b, m, c.outer)
                    if isinstance(r, Class):
                        c.bases.append(r)
                    else:
                        c.bases.append(r if isinstance(r, str) else ast.unparse(b))
                c.is_enum = False
        for m in self.modules.values():
            for c in self.iter_classes(m):
                c.is_enum = any(str(b).split(".")[-1] in ("Enum", "IntEnum", "Flag", "IntFlag")
                                for b in c.external_bases())
        self.reannotate()

    def reannotate(self):
        """Parameter and result annotations as they were when the contracts were confirmed: they say what the analysis may assume
        about arguments, and editing them changes nothing at run time."""
        fn = os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec", "annots.json")
        if not os.path.exists(fn):
            return
        with open(fn, encoding="utf-8") as f:
            table = json.load(f)
        for f in self.iter_funcs(nested=False):
            t = table.get(f.qual)
            if t is None:
                continue
            for a in own_args(f.node):
                if a.arg in t:
                    a.annotation = self.usable(t[a.arg], f)
            f.node.returns = self.usable(t.get("return"), f)

    def usable(self, src, f):
        if src is None:
            return None
        e = ast.parse(src, mode="eval").body
        names = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
        ok = all(x in dir(builtins) or self.resolve_expr(ast.Name(x), f.mod, f.cls) is not None for x in names)
        return ast.fix_missing_locations(ast.copy_location(e, f.node)) if ok else None

    # -- iteration
    def iter_classes(self, m=None):
        mods = [m] if m else self.modules.values()

        def go(c):
            yield c
            for k in c.classes.values():
                yield from go(k)
        for mm in mods:
            for c in mm.classes.values():
                yield from go(c)

    def iter_funcs(self, m=None, nested=True):
        mods = [m] if m else self.modules.values()

        def sub(f):
            yield f
            if nested:
                for g in f.nested.values():
                    yield from sub(g)
        for mm in mods:
            for f in mm.funcs.values():
                yield from sub(f)
            for c in self.iter_classes(mm):
                for f in c.all_funcs():
                    yield from sub(f)

    # -- lookup
    def mod(self, short):
        m = self.by_short.get(short)
        if m is None:
            raise Broken(f"module {short} is missing")
        return m

    def cls(self, spec):
        """'uefi.wincert:WinCert' or nested 'm:A.B'."""
        mod, _, path = spec.partition(":")
        m = self.by_short.get(mod)
        if m is None:
            return None
        cur = None
        for i, p in enumerate(path.split(".")):
            cur = (m.classes if i == 0 else cur.classes).get(p)
            if cur is None:
                # a class moved elsewhere and imported back is still that class
                if i == 0:
                    r = self.resolve_name(p, m)
                    if isinstance(r, Class):
                        cur = r
                        continue
                return None
        return cur

    def func(self, spec):
        """'m:f' or 'm:C.f' (method found through the MRO)."""
        mod, _, path = spec.partition(":")
        m = self.by_short.get(mod)
        if m is None:
            return None
        parts = path.split(".")
        if len(parts) == 1:
            f = m.funcs.get(parts[0])
            if f is None:
                r = self.resolve_name(parts[0], m)
                f = r if isinstance(r, Func) else None
            return f
        c = self.cls(mod + ":" + ".".join(parts[:-1]))
        if c is None:
            return None
        return c.setter(parts[-1][:-1]) if parts[-1].endswith("=") else c.method(parts[-1])

    # -- name resolution
    def resolve_dotted(self, dotted):
        """dotted path -> Module/Class/Func/('global',mod,name)/str"""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            mn = ".".join(parts[:i])
            if mn in self.modules:
                cur = self.modules[mn]
                for p in parts[i:]:
                    cur = self.member(cur, p)
                    if cur is None:
                        return dotted
                return cur
        return dotted

    def member(self, obj, name):
        if isinstance(obj, Module):
            r = self.resolve_name(name, obj)
            if r is None and obj.name + "." + name in self.modules:
                return self.modules[obj.name + "." + name]
            return r
        if isinstance(obj, Class):
            m = obj.method(name)
            if m:
                return m
            n = obj.nested_class(name)
            if n:
                return n
            a = obj.class_attr(name)
            if a:
                return ("cattr", a[0], name)
            return None
        if isinstance(obj, str):
            return obj + "." + name
        return None

    def resolve_name(self, name, mod, _seen=None):
        if name in mod.funcs:
            return mod.funcs[name]
        if name in mod.classes:
            return mod.classes[name]
        if name in mod.globals:
            return ("global", mod, name)
        if name in mod.imports:
            imp = mod.imports[name]
            key = (mod.name, name)
            _seen = _seen or set()
            if key in _seen:
                return None
            _seen.add(key)
            if imp[0] == "mod":
                return self.modules.get(imp[1], imp[1])
            base, sym = imp[1], imp[2]
            if base in self.modules:
                r = self.resolve_name(sym, self.modules[base], _seen)
                if r is None and base + "." + sym in self.modules:
                    return self.modules[base + "." + sym]
                return r if r is not None else base + "." + sym
            if base + "." + sym in self.modules:
                return self.modules[base + "." + sym]
            return (base + "." if base else "") + sym
        for s in mod.star:
            if s in self.modules:
                r = self.resolve_name(name, self.modules[s], _seen)
                if r is not None:
                    return r
        return None

    def resolve_expr(self, e, mod, cls=None):
        if isinstance(e, ast.Name):
            c = cls
            while c is not None:
                if e.id in c.classes:
                    return c.classes[e.id]
                c = c.outer
            r = self.resolve_name(e.id, mod)
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value, mod, cls)
            if b is None:
                return None
            return self.member(b, e.attr)
        return None

    def subclasses(self, c):
        return [k for k in self.iter_classes() if k is not c and c in k.mro()]


def own_args(fn):
    a = fn.args
    return a.posonlyargs + a.args + a.kwonlyargs


def annotations(p):
    """the table spec/annots.json is written from"""
    return {f.qual: {**{a.arg: ast.unparse(a.annotation) if a.annotation is not None else None for a in own_args(f.node)},
                     "return": ast.unparse(f.node.returns) if f.node.returns is not None else None}
            for f in p.iter_funcs(nested=False)}


_cache = {}


def load(root=None):
    root = root or REPO
    if root not in _cache:
        _cache[root] = Project(root)
    return _cache[root]
