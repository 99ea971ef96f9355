"""G02: names, attributes, call arity, formats, codecs and stdlib members on every path."""
import ast
import builtins
import codecs
import importlib
import inspect
import string
import struct
import sys

import constev
from project import Class, Func, Module, own_nodes

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__path__", "__class__", "WindowsError"}
NOSTD = {"ctypes", "msvcrt", "winreg", "_winreg", "nt", "ntpath", "typing", "typing_extensions"}
KNOWN_DECOS = {"staticmethod", "classmethod", "property", "contextmanager", "contextlib.contextmanager", "lru_cache", "cache", "functools.lru_cache",
               "functools.cache", "abstractmethod", "abc.abstractmethod", "wraps", "functools.wraps", "override"}
PLAIN_BASES = {"object", "ABC", "abc.ABC", "Exception", "ValueError", "RuntimeError", "builtins.object", "NamedTuple"}


# ---------------------------------------------------------------- scopes
def bound_names(node):
    """names bound in the scope of a function (not nested scopes)"""
    out, glob = set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        out.add(x.arg)
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            stack.extend(n.decorator_list)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            stack.append(n.generators[0].iter)
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    out.add(w.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.MatchAs) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Global):
            glob |= set(n.names)
        elif isinstance(n, ast.Nonlocal):
            glob |= set(n.names)
        stack.extend(ast.iter_child_nodes(n))
    return out - glob


def module_names(p, m):
    out = set(m.funcs) | set(m.classes) | set(m.globals) | set(m.imports)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            out |= set(n.names)
    stack = list(m.tree.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return out


def star_open(p, m):
    return any(s not in p.modules for s in m.star)


class Bind:
    """Definite-assignment of one function's locals. State: dict name -> 0 unbound, 1 maybe, 2 bound."""

    def __init__(self, fnode, locs):
        self.locs = locs
        self.reads = {}       # (name node) -> worst state
        self.fn = fnode

    def run(self):
        st = {x: 0 for x in self.locs}
        a = self.fn.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            st[x.arg] = 2
        self.brk, self.cont = [], []
        self.block(self.fn.body if isinstance(self.fn.body, list) else [ast.Expr(self.fn.body)], st)
        return self.reads

    @staticmethod
    def join(a, b):
        if a is None:
            return dict(b) if b is not None else None
        if b is None:
            return dict(a)
        return {k: (a[k] if a[k] == b.get(k, 0) else 1) for k in a}

    def expr(self, e, st):
        """reads in evaluation order, bound by walrus"""
        if e is None or st is None:
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                self.expr(d, st)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            own = set()
            for g in e.generators:
                for w in ast.walk(g.target):
                    if isinstance(w, ast.Name):
                        own.add(w.id)
            self.expr(e.generators[0].iter, st)
            sub = {k: (2 if k in own else v) for k, v in st.items()}
            parts = [g.iter for g in e.generators[1:]] + [c for g in e.generators for c in g.ifs]
            parts += [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
            for x in parts:
                self.expr(x, sub)
            for w in ast.walk(e):
                if isinstance(w, ast.NamedExpr) and w.target.id in st and st[w.target.id] == 0:
                    st[w.target.id] = 1
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in st:
                self.reads[e] = min(self.reads.get(e, 2), st[e.id])
            elif isinstance(e.ctx, ast.Store) and e.id in st:
                st[e.id] = 2
            elif isinstance(e.ctx, ast.Del) and e.id in st:
                self.reads[e] = min(self.reads.get(e, 2), st[e.id])
                st[e.id] = 0
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, st)
            if e.target.id in st:
                st[e.target.id] = 2
            return
        if isinstance(e, ast.BoolOp):
            self.expr(e.values[0], st)
            for v in e.values[1:]:
                s2 = dict(st)
                self.expr(v, s2)
                for k in st:
                    if st[k] != s2[k]:
                        st[k] = 1 if not isinstance(e.op, ast.And) else max(st[k], 1)
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, st)
            a, b = dict(st), dict(st)
            self.expr(e.body, a)
            self.expr(e.orelse, b)
            st.update(self.join(a, b))
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.comprehension, ast.keyword, ast.slice if hasattr(ast, "slice") else ast.expr)):
                self.expr(c, st)

    def target(self, t, st):
        if isinstance(t, ast.Name):
            if t.id in st:
                st[t.id] = 2
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, st)
        elif isinstance(t, ast.Starred):
            self.target(t.value, st)
        else:
            self.expr(t, st)

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def note_raise(self, st):
        if self.handlers:
            h = self.handlers[-1]
            h[0] = self.join(h[0], st)

    handlers = ()

    def stmt(self, s, st):
        if self.handlers:
            self.note_raise(st)
        r = self.stmt1(s, st)
        return r

    def stmt1(self, s, st):
        if isinstance(s, (ast.Assign,)):
            self.expr(s.value, st)
            for t in s.targets:
                self.target(t, st)
        elif isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                if s.target.id in st:
                    self.reads[s.target] = min(self.reads.get(s.target, 2), st[s.target.id])
                self.expr(s.value, st)
                if s.target.id in st:
                    st[s.target.id] = 2
            else:
                self.expr(s.target, st)
                self.expr(s.value, st)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value, st)
                self.target(s.target, st)
        elif isinstance(s, (ast.Expr, ast.Return, ast.Raise, ast.Assert, ast.Delete)):
            for c in ast.iter_child_nodes(s):
                self.expr(c, st)
            if isinstance(s, (ast.Return, ast.Raise)):
                if isinstance(s, ast.Raise) and self.handlers:
                    self.note_raise(st)
                return None
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("sys.exit", "exit", "os._exit", "quit"):
                return None
        elif isinstance(s, ast.If):
            self.expr(s.test, st)
            a = self.block(s.body, dict(st)) if not (isinstance(s.test, ast.Constant) and not s.test.value) else None
            b = self.block(s.orelse, dict(st)) if not (isinstance(s.test, ast.Constant) and s.test.value) else None
            return self.join(a, b) if a is not None or b is not None else None
        elif isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            always = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            if isinstance(s, ast.While):
                self.expr(s.test, st)
            else:
                self.expr(s.iter, st)
            entry = dict(st)
            self.brk.append([None])
            self.cont.append([None])
            cur = dict(entry)
            out = None
            for _ in range(2):
                b = dict(cur)
                if not isinstance(s, ast.While):
                    self.target(s.target, b)
                b = self.block(s.body, b)
                b = self.join(b, self.cont[-1][0]) if b is not None or self.cont[-1][0] is not None else None
                out = b
                if b is None:
                    break
                if isinstance(s, ast.While):
                    self.expr(s.test, b)
                # second iteration reads see loop-carried states; a name bound by an earlier iteration counts as maybe
                cur = {k: (entry[k] if entry[k] == b[k] else 1) for k in entry}
            br = self.brk.pop()[0]
            self.cont.pop()
            done = None if always else (self.join(entry, out) if out is not None else dict(entry))
            # a for loop that runs zero times is taken as bound when its body always binds (not decided here)
            if done is not None and out is not None and not always:
                done = {k: (2 if out[k] == 2 and not always else done[k]) for k in done}
            if s.orelse and done is not None:
                done = self.block(s.orelse, done)
            return self.join(done, br) if done is not None or br is not None else None
        elif isinstance(s, ast.Break):
            if self.brk:
                self.brk[-1][0] = self.join(self.brk[-1][0], st)
            return None
        elif isinstance(s, ast.Continue):
            if self.cont:
                self.cont[-1][0] = self.join(self.cont[-1][0], st)
            return None
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                self.expr(it.context_expr, st)
                if it.optional_vars is not None:
                    self.target(it.optional_vars, st)
            return self.block(s.body, st)
        elif isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            hs = list(self.handlers)
            self.handlers = hs + [[dict(st)]]
            body = self.block(s.body, dict(st))
            exc = self.handlers[-1][0]
            self.handlers = hs
            if body is not None and s.orelse:
                body = self.block(s.orelse, body)
            out = body
            for h in s.handlers:
                hst = dict(exc)
                if h.type is not None:
                    self.expr(h.type, hst)
                if h.name and h.name in hst:
                    hst[h.name] = 2
                r = self.block(h.body, hst)
                if r is not None:
                    if h.name and h.name in r:
                        r[h.name] = 0
                    out = self.join(out, r) if out is not None else r
            if s.finalbody:
                f = dict(out) if out is not None else dict(exc)
                if out is not None:
                    j = self.join(out, exc)
                    tmp = self.block(s.finalbody, dict(j))
                    if tmp is None:
                        return None
                    return {k: (2 if tmp[k] == 2 else out[k] if tmp[k] == j[k] else tmp[k]) for k in out}
                self.block(s.finalbody, f)
                return None
            return out
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if s.name in st:
                st[s.name] = 2
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for al in s.names:
                nm = (al.asname or al.name).split(".")[0]
                if nm in st:
                    st[nm] = 2
        elif isinstance(s, ast.Match):
            self.expr(s.subject, st)
            out = None
            irref = False
            for c in s.cases:
                b = dict(st)
                for w in ast.walk(c.pattern):
                    nm = getattr(w, "name", None)
                    if isinstance(w, (ast.MatchAs, ast.MatchStar)) and nm and nm in b:
                        b[nm] = 2
                if c.guard is not None:
                    self.expr(c.guard, b)
                elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    irref = True
                r = self.block(c.body, b)
                out = self.join(out, r) if out is not None or r is not None else None
            return out if irref else (self.join(out, st))
        return st


def check_names(chk, p):
    for m in p.modules.values():
        mn = module_names(p, m)
        if star_open(p, m):
            chk.undec(m.rel, "star import of an external module")
            continue
        starred = set()
        for s in m.star:
            if s in p.modules:
                starred |= module_names(p, p.modules[s])
        visible = mn | starred | BUILTINS
        for n in ast.walk(m.tree):
            n_ = n
        enc = {}
        for f in p.iter_funcs(m):
            enc[f] = bound_names(f.node)
        for f in p.iter_funcs(m):
            locs = enc[f]
            outer = set()
            g = f.parent
            while g is not None:
                outer |= enc[g]
                g = g.parent
            b = Bind(f.node, locs)
            reads = b.run()
            for nd, stt in sorted(reads.items(), key=lambda x: (x[0].lineno, x[0].col_offset)):
                if stt == 0:
                    chk.violation("unbound-name", f"{f.qual}#{nd.id}", f"{nd.id} is read in {f.qual} where no path has bound it", f.where(nd))
                elif stt == 1:
                    chk.undec(f"{f.qual} {nd.id}", "bound on some paths only")
                else:
                    chk.ok("local reads bound")
            free_names(chk, f, f.node, locs | outer, visible)
        for c in p.iter_classes(m):
            chain = set()
            k = c
            while k is not None:
                chain |= set(k.attrs) | set(k.methods) | set(k.classes)
                k = None
            for st in c.node.body:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    continue
                cb = {w.id for w in ast.walk(c.node) if isinstance(w, ast.Name) and isinstance(w.ctx, ast.Store)}
                comp = {w.id for w in ast.walk(st) if isinstance(w, ast.Name) and isinstance(w.ctx, ast.Store)}
                for w in ast.walk(st):
                    if isinstance(w, ast.Name) and isinstance(w.ctx, ast.Load) and w.id not in chain | visible | cb | comp:
                        chk.violation("undefined-name", f"{c.qual}#{w.id}", f"{w.id} is not defined anywhere", f"{m.rel}:{w.lineno}")


def free_names(chk, f, node, known, visible):
    """names loaded in this scope and its lambdas/comprehensions that nothing defines"""
    def go(n, ks):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                go(d, ks)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    go(d, ks)
            return
        if isinstance(n, ast.Lambda):
            ks2 = ks | {a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]}
            go(n.body, ks2)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            ks = ks | {w.id for g in n.generators for w in ast.walk(g.target) if isinstance(w, ast.Name)}
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            if n.id not in ks and n.id not in visible:
                chk.violation("undefined-name", f"{f.qual}#{n.id}", f"{n.id} is not defined in {f.qual}, its module or the builtins", f.where(n))
            else:
                chk.ok("names resolved")
            return
        if isinstance(n, ast.arg):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                go(n.value, ks)
            go(n.target, ks)
            return
        for c in ast.iter_child_nodes(n):
            go(c, ks)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        go(s, known)


# ---------------------------------------------------------------- types
GONE = object()


class Types:
    """Sound-enough local types: instances of library classes and builtin values, from constructions only (annotations are not trusted)."""

    def __init__(self, p):
        self.p = p
        self.defs = {}
        self.writes = {}          # attribute name -> set of classes it is assigned on ('*' when unknown)
        self.dynamic = set()      # classes that set attributes dynamically
        for f in p.iter_funcs():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    own = None
                    c = self.owner(f)
                    if isinstance(n.value, ast.Name) and c is not None and self.selfname(f) == n.value.id:
                        own = c
                    self.writes.setdefault(self.mangle(n.attr, c), set()).add(own.qual if own is not None else "*")
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                    c = self.owner(f)
                    nm = n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else None
                    if nm:
                        self.writes.setdefault(nm, set()).add("*")
                    elif c is not None:
                        self.dynamic.add(c.qual)
                if isinstance(n, ast.Attribute) and n.attr == "__dict__" or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "vars":
                    c = self.owner(f)
                    if c is not None and isinstance(getattr(n, "ctx", None), ast.Load) and f.name in ("__init__", "__setattr__", "__getattr__"):
                        self.dynamic.add(c.qual)
        for m in p.modules.values():
            for n in m.tree.body:
                for w in ast.walk(n) if not isinstance(n, (ast.FunctionDef, ast.ClassDef)) else ():
                    if isinstance(w, ast.Attribute) and isinstance(w.ctx, ast.Store):
                        self.writes.setdefault(w.attr, set()).add("*")

    def owner(self, f):
        while f.parent is not None:
            f = f.parent
        return f.cls

    def selfname(self, f):
        while f.parent is not None:
            f = f.parent
        if f.cls is None or f.is_static or not f.params or f.params[0] not in ("self", "cls", "this", "klass", "mcs"):
            return None
        return f.params[0]

    @staticmethod
    def mangle(name, cls):
        if cls is not None and name.startswith("__") and not name.endswith("__"):
            return "_" + cls.name.lstrip("_") + name
        return name

    def closed(self, c):
        """every attribute of instances of c is visible in the source"""
        for k in c.mro():
            if k.qual in self.dynamic or "__getattr__" in k.methods or "__getattribute__" in k.methods or "__slots__" in k.attrs:
                return False
            for b in k.bases:
                if not isinstance(b, Class) and str(b).split("[")[0] not in PLAIN_BASES:
                    return False
            for d in k.node.decorator_list:
                return False
        return not c.is_enum

    def has_attr(self, c, name):
        if name.startswith("__") and name.endswith("__"):
            return True
        for k in c.mro():
            if name in k.methods or name in k.setters or name in k.attrs or name in k.classes:
                return True
            for st in k.node.body:          # class-level conditional definitions
                if not isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Assign, ast.AnnAssign, ast.Expr)):
                    for w in ast.walk(st):
                        if isinstance(w, ast.Name) and isinstance(w.ctx, ast.Store) and w.id == name or isinstance(w, ast.FunctionDef) and w.name == name:
                            return True
            for mname, ff in k.methods.items():
                if mname == name or self.mangle(mname, k) == name:
                    return True
            if any(self.mangle(a, k) == name for a in k.attrs):
                return True
        ws = self.writes.get(name, ())
        if "*" in ws:
            return True
        quals = {k.qual for k in c.mro()} | {k.qual for k in self.p.subclasses(c)}
        return bool(quals & set(ws))

    # expression types: Class instance -> ('i', cls); class object -> ('c', cls); builtin type -> ('b', type); module str -> ('m', name)
    def typ(self, e, f, depth=0):
        p = self.p
        if depth > 5:
            return None
        if isinstance(e, ast.Constant):
            t = type(e.value)
            return ("b", t) if t in (str, bytes, int, float) else None
        if isinstance(e, ast.JoinedStr):
            return ("b", str)
        if isinstance(e, (ast.List, ast.ListComp)):
            return ("b", list)
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return ("b", dict)
        if isinstance(e, ast.Tuple):
            return ("b", tuple)
        if isinstance(e, ast.Name):
            if e.id == self.selfname(f) and (f.parent is None or e.id not in f.params):
                g = f
                while g.parent is not None:
                    g = g.parent
                if self.rebound(e.id, g):
                    return None
                return ("c" if g.is_class else "i", g.cls)
            locs = self.locals(f)
            if e.id in locs:
                vs = locs[e.id]
                if not vs or any(v is None for v in vs):
                    return None
                ts = {self.typ(v, f, depth + 1) for v in vs}
                return ts.pop() if len(ts) == 1 else None
            g = f.parent
            while g is not None:
                if e.id in self.locals(g):
                    return None
                g = g.parent
            r = p.resolve_name(e.id, f.mod)
            if isinstance(r, Class):
                return ("c", r)
            if isinstance(r, Module):
                return ("M", r)
            if isinstance(r, str) and e.id in f.mod.imports:
                return ("m", r)
            return None
        if isinstance(e, ast.Attribute):
            b = self.typ(e.value, f, depth + 1)
            if b is None:
                return None
            if b[0] in ("M",):
                r = p.member(b[1], e.attr)
                if isinstance(r, Class):
                    return ("c", r)
                if isinstance(r, Module):
                    return ("M", r)
                return None
            if b[0] == "m":
                return ("m", b[1] + "." + e.attr)
            if b[0] in ("c", "i"):
                n = b[1].nested_class(e.attr)
                if n is not None:
                    return ("c", n)
                if b[0] == "i":
                    return self.attr_type(b[1], e.attr, depth + 1)
            return None
        if isinstance(e, ast.Call):
            b = self.typ(e.func, f, depth + 1)
            if b is not None and b[0] == "c":
                c = b[1]
                if any("__new__" in k.methods for k in c.mro()) or c.is_enum:
                    return None
                return ("i", c)
            if isinstance(e.func, ast.Name) and e.func.id in ("str", "bytes", "int", "list", "dict", "tuple", "len", "bytearray", "hex", "repr", "sorted", "float") \
                    and e.func.id not in self.locals(f) and e.func.id not in f.mod.funcs and e.func.id not in f.mod.imports:
                return ("b", {"str": str, "bytes": bytes, "int": int, "list": list, "dict": dict, "tuple": tuple, "len": int, "bytearray": bytearray,
                              "hex": str, "repr": str, "sorted": list, "float": float}[e.func.id])
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Constant) and isinstance(e.func.value.value, str) and e.func.attr in ("join", "format"):
                return ("b", str)
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            return ("b", str)
        return None

    def rebound(self, name, f):
        return any(isinstance(w, ast.Name) and w.id == name and isinstance(w.ctx, ast.Store) for w in ast.walk(f.node))

    def locals(self, f):
        d = self.defs.get(f)
        if d is None:
            d = {}
            a = f.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                d[x.arg] = [None]
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    d.setdefault(n.targets[0].id, []).append(n.value)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        for w in ast.walk(t):
                            if isinstance(w, ast.Name) and isinstance(w.ctx, ast.Store):
                                d.setdefault(w.id, []).append(None)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    d.setdefault(n.target.id, []).append(n.value)
                elif isinstance(n, ast.NamedExpr):
                    d.setdefault(n.target.id, []).append(n.value)
                elif isinstance(n, ast.withitem) and isinstance(n.optional_vars, ast.Name):
                    d.setdefault(n.optional_vars.id, []).append(None)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    d.setdefault(n.target.id, []).append(None)
                elif isinstance(n, (ast.For, ast.comprehension, ast.ExceptHandler, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.MatchAs)):
                    for w in ([n.target] if isinstance(n, (ast.For, ast.comprehension)) else []):
                        for x in ast.walk(w):
                            if isinstance(x, ast.Name):
                                d.setdefault(x.id, []).append(None)
                    if isinstance(n, (ast.ExceptHandler, ast.MatchAs)) and n.name:
                        d.setdefault(n.name, []).append(None)
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f.node:
                        d.setdefault(n.name, []).append(None)
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        pass
                    if isinstance(n, ast.Lambda):
                        for x in n.args.args:
                            d.setdefault(x.arg, []).append(None)
            self.defs[f] = d
        return d

    def attr_type(self, c, name, depth):
        """type of an instance attribute when every assignment in the package agrees"""
        key = ("at", c.qual, name)
        if key in self.defs:
            return self.defs[key]
        self.defs[key] = None
        if not self.closed(c) or c.method(name) is not None or c.class_attr(name) is not None:
            return None
        ws = self.writes.get(name, set())
        quals = {k.qual for k in c.mro()} | {k.qual for k in self.p.subclasses(c)}
        if "*" in ws or not (ws & quals):
            return None
        ts = set()
        for k in list(c.mro()) + self.p.subclasses(c):
            for f in k.all_funcs():
                for n in ast.walk(f.node):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)):
                        tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                        for t in tg:
                            if isinstance(t, ast.Attribute) and t.attr == name:
                                ts.add(self.typ(n.value, f, depth + 1) if n.value is not None else None)
                            elif any(isinstance(w, ast.Attribute) and w.attr == name and isinstance(w.ctx, ast.Store) for w in ast.walk(t)):
                                ts.add(None)
                    elif isinstance(n, (ast.AugAssign, ast.For, ast.withitem)):
                        t = n.optional_vars if isinstance(n, ast.withitem) else n.target
                        if t is not None and any(isinstance(w, ast.Attribute) and w.attr == name and isinstance(w.ctx, ast.Store) for w in ast.walk(t)):
                            ts.add(None)
        r = ts.pop() if len(ts) == 1 else None
        self.defs[key] = r
        return r


def std(name):
    """stdlib object for a dotted name, FAIL when it cannot be looked up here, GONE when it does not exist"""
    parts = name.split(".")
    if parts[0] not in sys.stdlib_module_names or parts[0] in NOSTD:
        return constev.FAIL
    try:
        cur = importlib.import_module(parts[0])
    except Exception:
        return constev.FAIL
    path = parts[0]
    for x in parts[1:]:
        path += "." + x
        if not hasattr(cur, x):
            if inspect.ismodule(cur):
                if cur.__name__ in ("os", "subprocess", "signal", "time", "socket", "sys", "asyncio"):
                    return constev.FAIL
                try:
                    cur = importlib.import_module(path)
                    continue
                except Exception:
                    return GONE
            return GONE
        cur = getattr(cur, x)
    return cur


def guarded(f, node):
    """inside a hasattr/getattr/AttributeError-guarded region or a platform test"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Try) and any(h.type is None or "AttributeError" in ast.unparse(h.type) or ast.unparse(h.type) in ("Exception", "BaseException") for h in n.handlers):
            if any(w is node for s in n.body for w in ast.walk(s)):
                return True
        if isinstance(n, (ast.If, ast.IfExp)) and ("hasattr" in ast.unparse(n.test) or "platform" in ast.unparse(n.test) or "os.name" in ast.unparse(n.test)):
            if any(w is node for w in ast.walk(n)):
                return True
    return False


def check_attrs(chk, p, ty):
    for f in p.iter_funcs():
        own = ty.owner(f)
        for n in own_nodes(f.node):
            if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load):
                continue
            t = ty.typ(n.value, f)
            if t is None:
                continue
            if t[0] in ("i", "c"):
                c = t[1]
                if not ty.closed(c) or t[0] == "c" and c.is_enum:
                    continue
                nm = ty.mangle(n.attr, own)
                if ty.has_attr(c, nm) or n.attr in ("mro",):
                    chk.ok("attribute reads defined")
                elif not guarded(f, n):
                    chk.violation("no-attribute", f"{f.qual}#{c.name}.{n.attr}", f"{ast.unparse(n)}: no class of {c.name} defines {n.attr}", f.where(n))
            elif t[0] == "b":
                if hasattr(t[1], n.attr):
                    chk.ok("attribute reads defined")
                elif not guarded(f, n):
                    chk.violation("no-attribute", f"{f.qual}#{t[1].__name__}.{n.attr}", f"{ast.unparse(n)}: {t[1].__name__} has no {n.attr}", f.where(n))
            elif t[0] == "m":
                o = std(t[1])
                if o is constev.FAIL or o is GONE:
                    continue
                if std(t[1] + "." + n.attr) is GONE and not guarded(f, n) and (inspect.ismodule(o) or inspect.isclass(o)):
                    chk.violation("no-attribute", f"{f.qual}#{t[1]}.{n.attr}", f"{t[1]} has no {n.attr}", f.where(n))
                else:
                    chk.ok("attribute reads defined")
            elif t[0] == "M":
                if p.member(t[1], n.attr) is None and n.attr not in module_names(p, t[1]) and not (n.attr.startswith("__")) and not star_open(p, t[1]):
                    chk.violation("no-attribute", f"{f.qual}#{t[1].short}.{n.attr}", f"module {t[1].name} defines no {n.attr}", f.where(n))
                else:
                    chk.ok("attribute reads defined")
    for m in p.modules.values():
        for nm, imp in m.imports.items():
            if imp[0] == "sym" and imp[1] in p.modules:
                t = p.modules[imp[1]]
                if p.member(t, imp[2]) is None and imp[2] not in module_names(p, t) and not star_open(p, t):
                    chk.violation("no-attribute", f"{m.short}#import {imp[2]}", f"{imp[1]} defines no {imp[2]}", f"{m.rel}:1")
                else:
                    chk.ok("imports defined")
            elif imp[0] == "sym" and std(imp[1]) not in (GONE, constev.FAIL):
                if std(imp[1] + "." + imp[2]) is GONE:
                    chk.violation("no-attribute", f"{m.short}#import {imp[2]}", f"{imp[1]} has no {imp[2]}", f"{m.rel}:1")
                else:
                    chk.ok("imports defined")


# ---------------------------------------------------------------- calls
def sig_accepts(fn, nargs, kws, skip_first, star, dstar):
    """None when the call fits; text otherwise"""
    a = fn.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if skip_first:
        if not pos:
            return None if a.vararg else "takes no receiver"
        pos = pos[1:]
    posonly = {x.arg for x in a.posonlyargs}
    ndef = len(a.defaults)
    req = pos[: len(pos) - ndef] if ndef else list(pos)
    if len(pos) < ndef:
        req = []
    if nargs > len(pos) and not a.vararg:
        return f"takes {len(pos)} positional arguments, {nargs} given"
    kwonly = [x.arg for x in a.kwonlyargs]
    for k in kws:
        if k in pos and k not in posonly:
            if pos.index(k) < nargs:
                return f"argument {k} given twice"
        elif k not in kwonly and not a.kwarg:
            return f"has no parameter {k}"
    if not star and not dstar:
        for i, r in enumerate(req):
            if i >= nargs and r not in kws:
                return f"required argument {r} missing"
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and x.arg not in kws:
                return f"required argument {x.arg} missing"
    return None


def read_keys(fn, name):
    """literal keys a function reads from its keyword dictionary; None when it also uses the dictionary as a whole"""
    keys, uses, seen = set(), 0, 0
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Name) and n.id == name:
            uses += 1
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == name and isinstance(n.slice, ast.Constant):
            keys.add(n.slice.value)
            seen += 1
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name \
                and n.func.attr in ("get", "pop", "setdefault") and n.args and isinstance(n.args[0], ast.Constant):
            keys.add(n.args[0].value)
            seen += 1
        if isinstance(n, ast.Compare) and isinstance(n.left, ast.Constant) and len(n.comparators) == 1 and isinstance(n.comparators[0], ast.Name) \
                and n.comparators[0].id == name:
            keys.add(n.left.value)
            seen += 1
    return keys if uses == seen else None


def kwarg_problem(g, n, f, kws):
    a = g.node.args
    named = {x.arg for x in a.args + a.kwonlyargs}
    if a.kwarg is not None:
        keys = read_keys(g, a.kwarg.arg)
        if keys:
            for k in kws:
                if k not in named and k not in keys:
                    return f"keyword {k} is neither a parameter nor a key it reads"
    own = f.node.args.kwarg
    for k in n.keywords:
        if k.arg is None and own is not None and isinstance(k.value, ast.Name) and k.value.id == own.arg:
            for w in ast.walk(f.node):
                if isinstance(w, ast.Call) and isinstance(w.func, ast.Attribute) and isinstance(w.func.value, ast.Name) and w.func.value.id == own.arg \
                        and w.func.attr == "get" and w.args and isinstance(w.args[0], ast.Constant) and w.args[0].value in kws:
                    return f"keyword {w.args[0].value} is passed explicitly and again by **{own.arg}"
    return None


def callee(p, ty, e, f):
    """-> list of (Func, skip_first) that the call may reach, all known; or a stdlib object; or None"""
    fn = e.func
    if isinstance(fn, ast.Name):
        if fn.id in ty.locals(f):
            g = f.nested.get(fn.id)
            if g is not None and ty.locals(f)[fn.id] == [None]:
                return [(g, False)]
            t = ty.typ(fn, f)
            return ctor(t[1]) if t and t[0] == "c" else None
        g = f.parent
        while g is not None:
            if fn.id in ty.locals(g):
                h = g.nested.get(fn.id)
                return [(h, False)] if h is not None and ty.locals(g)[fn.id] == [None] else None
            g = g.parent
        r = p.resolve_name(fn.id, f.mod)
        if isinstance(r, Func):
            return [(r, False)]
        if isinstance(r, Class):
            return ctor(r)
        if isinstance(r, str) and fn.id in f.mod.imports:
            o = std(r)
            return o if o is not constev.FAIL and o is not GONE and callable(o) else None
        if r is None and fn.id not in f.mod.imports and hasattr(builtins, fn.id):
            return getattr(builtins, fn.id)
        return None
    if isinstance(fn, ast.Attribute):
        if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and ty.owner(f) is not None:
            c = ty.owner(f)
            for k in c.mro()[1:]:
                if fn.attr in k.methods:
                    m = k.methods[fn.attr]
                    return [(m, not m.is_static)]
            return None
        t = ty.typ(fn.value, f)
        if t is None:
            return None
        if t[0] == "m":
            o = std(t[1] + "." + fn.attr)
            return o if o is not constev.FAIL and o is not GONE and callable(o) else None
        if t[0] == "M":
            r = p.member(t[1], fn.attr)
            if isinstance(r, Func):
                return [(r, False)]
            return ctor(r) if isinstance(r, Class) else None
        if t[0] == "b":
            return getattr(t[1], fn.attr, None) if not isinstance(fn.value, ast.Constant) or True else None
        c = t[1]
        m = c.method(fn.attr)
        if m is None or m.is_prop:
            n = c.nested_class(fn.attr)
            return ctor(n) if n is not None else None
        if fn.attr in {k for k in c.mro()[0].attrs} or ty.writes.get(fn.attr):
            return None
        if t[0] == "c":
            return [(m, m.is_class)]
        outs = [(m, not m.is_static)]
        for s in p.subclasses(c):
            if fn.attr in s.methods:
                outs.append((s.methods[fn.attr], not s.methods[fn.attr].is_static))
        return outs
    return None


def ctor(c):
    if c.is_enum or c.node.decorator_list:
        return None
    for k in c.mro():
        if "__new__" in k.methods:
            return None
        if "__init__" in k.methods:
            return [(k.methods["__init__"], True)]
        if any(not isinstance(b, Class) and str(b) not in ("object", "ABC", "abc.ABC") for b in k.bases):
            return None
    return "noinit"


def check_calls(chk, p, ty):
    for f in p.iter_funcs():
        for n in own_nodes(f.node):
            if not isinstance(n, ast.Call):
                continue
            cs = callee(p, ty, n, f)
            if cs is None:
                continue
            nargs = sum(1 for a in n.args if not isinstance(a, ast.Starred))
            star = any(isinstance(a, ast.Starred) for a in n.args)
            dstar = any(k.arg is None for k in n.keywords)
            kws = [k.arg for k in n.keywords if k.arg is not None]
            text = ast.unparse(n.func)
            if cs == "noinit":
                if nargs or kws:
                    chk.violation("call-arity", f"{f.qual}#{text}", f"{text} takes no arguments", f.where(n))
                continue
            if isinstance(cs, list):
                bad = []
                for g, skip in cs:
                    if any(d.split("(")[0] not in KNOWN_DECOS and not d.endswith((".setter",)) for d in g.decos):
                        bad = [None]
                        break
                    why = sig_accepts(g, nargs, kws, skip, star, dstar)
                    if why is None:
                        why = kwarg_problem(g, n, f, kws)
                    bad.append(why)
                if bad and all(bad):
                    chk.violation("call-arity", f"{f.qual}#{text}", f"call {text}(...) does not fit {cs[0][0].qual}: {bad[0]}", f.where(n))
                elif bad and bad != [None]:
                    chk.undec(f"{f.qual} {text}", "call fits only some of the possible receivers")
                else:
                    chk.ok("calls fit their callee")
            elif not star and not dstar:
                if inspect.isclass(cs) and issubclass(cs, (BaseException, type)):
                    continue
                try:
                    s = inspect.signature(cs)
                except (ValueError, TypeError):
                    continue
                args = [None] * nargs
                if isinstance(n.func, ast.Attribute) and isinstance(ty.typ(n.func.value, f), tuple) and ty.typ(n.func.value, f)[0] == "b" and not inspect.isclass(cs):
                    args = [None] + args
                try:
                    s.bind(*args, **{k: None for k in kws})
                    chk.ok("stdlib calls fit their callee")
                except TypeError as e:
                    chk.violation("call-arity", f"{f.qual}#{text}", f"call {text}(...) does not fit: {e}", f.where(n))


# ---------------------------------------------------------------- formats
def percent(s):
    """(number of arguments, names) a %-format consumes; None when malformed"""
    import re
    n, names = 0, set()
    i = 0
    pat = re.compile(r"%(?:\(([^)]*)\))?([-#0 +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)", re.S)
    while True:
        j = s.find("%", i)
        if j < 0:
            return n, names
        m = pat.match(s, j)
        if not m or m.group(5) not in "diouxXeEfFgGcrsab%":
            return None
        i = m.end()
        if m.group(5) == "%":
            continue
        if m.group(1) is not None:
            names.add(m.group(1))
        else:
            n += 1 + (m.group(3) == "*") + (m.group(4) == "*")


LOGM = {"debug", "info", "warning", "warn", "error", "critical", "exception", "log"}


def islog(e):
    t = ast.unparse(e.func)
    if not isinstance(e.func, ast.Attribute) or e.func.attr not in LOGM:
        return False
    b = ast.unparse(e.func.value).lower()
    return b == "logging" or "logger" in b or b.endswith("log") or "getlogger" in b


def cstr(p, e, f):
    v = constev.ev(p, e, f.mod, f.cls)
    if v is constev.FAIL and isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.cls is not None and e.value.id == f.cls.name:
        a = f.cls.class_attr(e.attr)
        if a:
            v = constev.ev(p, a[1], a[0].mod, a[0])
    return v


def check_formats(chk, p, ty):
    for f in p.iter_funcs():
        locs = ty.locals(f)
        for n in own_nodes(f.node):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                s = n.left.value if isinstance(n.left, ast.Constant) else None
                if not isinstance(s, (str, bytes)):
                    continue
                if isinstance(s, bytes):
                    s = s.decode("latin-1")
                r = percent(s)
                key = f"{f.qual}#{s[:40]!r}"
                if r is None:
                    chk.violation("format", key, f"malformed format {s!r}", f.where(n))
                    continue
                cnt, names = r
                if isinstance(n.right, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in n.right.elts):
                    if len(n.right.elts) != cnt or names:
                        chk.violation("format", key, f"{s!r} takes {cnt} arguments, {len(n.right.elts)} given", f.where(n))
                        continue
                elif isinstance(n.right, ast.Dict):
                    ks = {k.value for k in n.right.keys if isinstance(k, ast.Constant)}
                    if names - ks and all(k is not None for k in n.right.keys):
                        chk.violation("format", key, f"{s!r} needs {sorted(names - ks)}", f.where(n))
                        continue
                elif isinstance(n.right, (ast.Constant, ast.JoinedStr, ast.BinOp)) and cnt != 1:
                    chk.violation("format", key, f"{s!r} takes {cnt} arguments, 1 given", f.where(n))
                    continue
                elif cnt == 0 and not names:
                    chk.violation("format", key, f"{s!r} takes no argument", f.where(n))
                    continue
                chk.ok("formats fit")
            if not isinstance(n, ast.Call):
                if isinstance(n, (ast.Assign,)) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute):
                    unpack_targets(chk, p, f, n)
                continue
            if isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
                s = n.func.value.value
                key = f"{f.qual}#{s[:40]!r}"
                try:
                    fields = [x for x in string.Formatter().parse(s) if x[1] is not None]
                except ValueError:
                    chk.violation("format", key, f"malformed format {s!r}", f.where(n))
                    continue
                auto = 0
                need, names = -1, set()
                sub = []
                for _, fld, spec, _c in fields:
                    sub.append(fld)
                    if spec and "{" in spec:
                        sub += [x[1] for x in string.Formatter().parse(spec) if x[1] is not None]
                for fld in sub:
                    head = fld.split(".")[0].split("[")[0]
                    if head == "":
                        need = max(need, auto)
                        auto += 1
                    elif head.isdigit():
                        need = max(need, int(head))
                    else:
                        names.add(head)
                star = any(isinstance(a, ast.Starred) for a in n.args)
                dstar = any(k.arg is None for k in n.keywords)
                kws = {k.arg for k in n.keywords}
                if not star and need >= len(n.args):
                    chk.violation("format", key, f"{s!r} needs {need + 1} positional arguments, {len(n.args)} given", f.where(n))
                elif not dstar and names - kws:
                    chk.violation("format", key, f"{s!r} needs {sorted(names - kws)}", f.where(n))
                else:
                    chk.ok("formats fit")
            elif islog(n):
                a = n.args[1:] if n.func.attr == "log" else n.args
                if len(a) > 1 and not any(isinstance(x, ast.Starred) for x in a):
                    s = cstr(p, a[0], f)
                    if isinstance(s, str):
                        r = percent(s)
                        one_dict = len(a) == 2 and r is not None and r[1]
                        if r is None or (r[0] != len(a) - 1 and not one_dict):
                            chk.violation("format", f"{f.qual}#{s[:40]!r}", f"log message {s!r} does not fit its {len(a) - 1} arguments", f.where(n))
                        else:
                            chk.ok("formats fit")
                    elif isinstance(a[0], ast.JoinedStr):
                        s = "".join(x.value for x in a[0].values if isinstance(x, ast.Constant))
                        r = percent(s)
                        if r is not None and r[0] == 0 and not r[1]:
                            chk.violation("format", f"{f.qual}#{s[:40]!r}", "log message takes none of its arguments", f.where(n))
            elif isinstance(n.func, (ast.Attribute, ast.Name)) and ast.unparse(n.func).split(".")[-1] in ("Exception", "ValueError", "RuntimeError", "TypeError", "KeyError") \
                    and len(n.args) > 1 and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                r = percent(n.args[0].value)
                if r is not None and r[0]:
                    chk.violation("format", f"{f.qual}#{n.args[0].value[:40]!r}", f"{n.args[0].value!r} is never formatted with its arguments", f.where(n))
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "struct" and n.func.attr in ("pack", "unpack", "unpack_from", "calcsize", "iter_unpack"):
                fm = cstr(p, n.args[0], f) if n.args else constev.FAIL
                if isinstance(n.args[0], ast.Name) and n.args[0].id in locs:
                    fm = constev.FAIL
                if fm is constev.FAIL or not isinstance(fm, (str, bytes)):
                    continue
                try:
                    struct.calcsize(fm)
                except struct.error as e:
                    chk.violation("struct-format", f"{f.qual}#{fm}", f"struct format {fm!r}: {e}", f.where(n))
                    continue
                cnt = fields_of(fm)
                if n.func.attr == "pack" and not any(isinstance(a, ast.Starred) for a in n.args):
                    if len(n.args) - 1 != cnt:
                        chk.violation("struct-format", f"{f.qual}#{fm}", f"struct format {fm!r} takes {cnt} values, {len(n.args) - 1} given", f.where(n))
                        continue
                chk.ok("struct formats fit")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("encode", "decode") and (n.args or n.keywords):
                a = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == "encoding"), None)
                v = constev.ev(p, a, f.mod, f.cls) if a is not None and isinstance(a, ast.Constant) else None
                if isinstance(v, str) and not isinstance(ty.typ(n.func.value, f), type(None)) or isinstance(v, str) and ty.typ(n.func.value, f) is None:
                    t = ty.typ(n.func.value, f)
                    if t is not None and t[0] in ("i", "c"):
                        continue
                    try:
                        ok = v in ("mbcs", "oem") or codecs.lookup(v)._is_text_encoding
                    except LookupError:
                        ok = False
                    if not ok:
                        chk.violation("codec", f"{f.qual}#{v}", f"{ast.unparse(n)[:60]}: {v!r} is no text encoding", f.where(n))
                    else:
                        chk.ok("codecs exist")


def fields_of(fm):
    import re
    if isinstance(fm, bytes):
        fm = fm.decode()
    n = 0
    for c, t in re.findall(r"(\d*)([a-zA-Z?])", fm):
        if t == "x":
            continue
        n += 1 if t in "sp" else int(c or 1)
    return n


def unpack_targets(chk, p, f, n):
    c = n.value
    if not (isinstance(c.func.value, ast.Name) and c.func.value.id == "struct" and c.func.attr in ("unpack", "unpack_from") and c.args):
        return
    t = n.targets[0]
    if not isinstance(t, (ast.Tuple, ast.List)) or any(isinstance(x, ast.Starred) for x in t.elts):
        return
    fm = cstr(p, c.args[0], f)
    if not isinstance(fm, (str, bytes)):
        return
    try:
        struct.calcsize(fm)
    except struct.error:
        return
    if fields_of(fm) != len(t.elts):
        chk.violation("struct-format", f"{f.qual}#{fm}", f"struct format {fm!r} yields {fields_of(fm)} values, {len(t.elts)} targets", f.where(n))
    else:
        chk.ok("struct formats fit")


def rule_g02(chk, p, tier):
    ty = Types(p)
    check_names(chk, p)
    check_attrs(chk, p, ty)
    check_calls(chk, p, ty)
    check_formats(chk, p, ty)
    for what, least in (("names resolved", 5000), ("attribute reads defined", 2000), ("calls fit their callee", 500), ("formats fit", 50), ("struct formats fit", 80)):
        chk.need(what, least)
