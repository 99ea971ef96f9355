"""Undo extractions: helpers and constants the confirmed tree does not have are substituted back where they are used, so that rules over the
syntax tree judge the code that runs and not how it is cut into functions."""
import ast
import copy

import constev
from project import Project, own_nodes

SIMPLE = (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Return, ast.Raise, ast.Assert)


def quals(p):
    return sorted({f.qual for f in p.iter_funcs()})


def global_names(p):
    out = {f"{m.short}:{n}" for m in p.modules.values() for n in m.globals}
    for c in p.iter_classes():
        out |= {f"{c.qual}.{n}" for n in c.attrs}
    return sorted(out)


def plain(e):
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and plain(e.value)


def has_return(n):
    return any(isinstance(x, ast.Return) for x in walk_own(n))


def walk_own(n):
    yield n
    for c in ast.iter_child_nodes(n):
        if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        yield from walk_own(c)


def always_leaves(body):
    if not body:
        return False
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    if isinstance(s, ast.If):
        return always_leaves(s.body) and always_leaves(s.orelse)
    if isinstance(s, ast.With):
        return always_leaves(s.body)
    return False


class No(Exception):
    pass


def tailed(body, emit, depth=0):
    """single-exit form of a statement list: every `return e` replaced by emit(e); falling off the end is emit(None)"""
    if depth > 12:
        raise No
    out = []
    for i, s in enumerate(body):
        rest = body[i + 1:]
        if isinstance(s, ast.Return):
            return out + emit(s.value, s)
        if isinstance(s, ast.Raise):
            return out + [s]
        if not has_return(s):
            out.append(s)
            continue
        if isinstance(s, ast.If):
            b = tailed(s.body if always_leaves(s.body) else s.body + rest, emit, depth + 1)
            o = tailed(s.orelse if always_leaves(s.orelse) else s.orelse + rest, emit, depth + 1)
            return out + [ast.copy_location(ast.If(s.test, b or [ast.Pass()], o), s)]
        if isinstance(s, ast.With) and (not rest or always_leaves(s.body)):
            return out + [ast.copy_location(ast.With(s.items, tailed(s.body, emit, depth + 1) or [ast.Pass()], None), s)]
        if isinstance(s, ast.Try) and not s.orelse and not any(has_return(x) for x in s.finalbody):
            if not rest or always_leaves(s.body) and all(always_leaves(h.body) for h in s.handlers):
                hs = [ast.copy_location(ast.ExceptHandler(h.type, h.name, tailed(h.body, emit, depth + 1) or [ast.Pass()]), h) for h in s.handlers]
                return out + [ast.copy_location(ast.Try(tailed(s.body, emit, depth + 1) or [ast.Pass()], hs, [], s.finalbody), s)]
        raise No
    return out + emit(None, None)


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            r = self.m[n.id]
            if isinstance(n.ctx, ast.Load):
                return ast.copy_location(copy.deepcopy(r), n)
            if not isinstance(r, ast.Name):
                raise No
            return ast.copy_location(ast.Name(r.id, n.ctx), n)
        return n

    def visit_ExceptHandler(self, h):
        self.generic_visit(h)
        if h.name in self.m:
            if not isinstance(self.m[h.name], ast.Name):
                raise No
            h.name = self.m[h.name].id
        return h

    def visit_Global(self, n):
        raise No
    visit_Nonlocal = visit_Global


class Inliner:
    def __init__(self, p, known, kglobals):
        self.p = p
        self.known, self.kglobals = set(known), set(kglobals)
        self.trees = {m: None for m in p.modules.values()}
        self.k = 0
        self.tainted = set()

    # -- what is new
    def helpers(self, m):
        mods, methods = {}, {}
        for f in self.p.iter_funcs(m):
            if f.qual in self.known or f.parent is not None or f.is_prop or f.is_setter or f.is_gen or f.is_ctx:
                continue
            n = f.node
            if isinstance(n, ast.AsyncFunctionDef) or n.args.vararg or n.args.kwarg or f.name.startswith("__") and f.name.endswith("__"):
                continue
            if any(d not in ("staticmethod", "classmethod") for d in f.decos):
                continue
            if any(isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(n) if x is not n):
                continue
            (mods if f.cls is None else methods).setdefault(f.name, []).append(f)
        # a method name that other classes also define is left alone
        allm = {}
        for c in self.p.iter_classes():
            for k in c.methods:
                allm.setdefault(k, []).append(c)
        methods = {k: v[0] for k, v in methods.items() if len(v) == 1 and len(allm.get(k, [])) == 1}
        mods = {k: v[0] for k, v in mods.items() if len(v) == 1}
        return mods, methods

    def consts(self, m):
        g, c = {}, {}
        for n, vs in m.globals.items():
            if f"{m.short}:{n}" not in self.kglobals and len(vs) == 1 and vs[0] is not None:
                v = constev.ev(self.p, vs[0], m, None)
                if isinstance(v, (str, bytes, int, float, tuple)) and v is not constev.FAIL and literal(v) is not None:
                    g[n] = literal(v)
        for k in self.p.iter_classes(m):
            for n, e in k.attrs.items():
                if f"{k.qual}.{n}" not in self.kglobals and isinstance(e, ast.AST) and not k.is_enum:
                    v = constev.ev(self.p, e, m, k)
                    if isinstance(v, (str, bytes, int, float, tuple)) and v is not constev.FAIL and literal(v) is not None:
                        c.setdefault(n, []).append((k, literal(v)))
        return g, {n: x[0] for n, x in c.items() if len(x) == 1}

    def run(self):
        over = {}
        for m in self.p.modules.values():
            fs, ms = self.helpers(m)
            g, c = self.consts(m)
            if not fs and not ms and not g and not c:
                continue
            tree = copy.deepcopy(m.tree)
            self.m, self.fs, self.ms = m, fs, ms
            if g or c:
                ConstSub(g, c).visit(tree)
            for _ in range(5):
                if not self.step(tree):
                    break
            self.drop(tree)
            ast.fix_missing_locations(tree)
            over[m.path] = (m.src, tree)
        return over

    def step(self, tree):
        # current definitions of the helpers in the working tree
        self.defs, self.mdefs = {}, {}
        for st in tree.body:
            if isinstance(st, ast.FunctionDef) and st.name in self.fs:
                self.defs[st.name] = st
            if isinstance(st, ast.ClassDef):
                for x in ast.walk(st):
                    if isinstance(x, ast.ClassDef):
                        for y in x.body:
                            if isinstance(y, ast.FunctionDef) and y.name in self.ms and x.name == self.ms[y.name].cls.node.name:
                                self.mdefs[y.name] = y
        self.changed = False
        for st in ast.walk(tree):
            if isinstance(st, ast.FunctionDef):
                self.cur = st
                st.body = self.block(st.body)
        return self.changed

    def target(self, call):
        """(definition, map of params to argument expressions) of a call of a new helper"""
        f = call.func
        d = first = None
        if isinstance(f, ast.Name) and f.id in self.defs:
            d = self.defs[f.id]
        elif isinstance(f, ast.Attribute) and f.attr in self.mdefs and isinstance(f.value, ast.Name):
            d = self.mdefs[f.attr]
            F = self.ms[f.attr]
            if F.is_static:
                pass
            elif f.value.id[:1].isupper() and not F.is_class:
                pass            # Class.method(obj, ...)
            else:
                first = f.value
        if d is None or d is self.cur:
            return None
        ps = [a.arg for a in d.args.posonlyargs + d.args.args]
        m = {}
        args = ([first] if first is not None else []) + list(call.args)
        if any(isinstance(a, ast.Starred) for a in args) or any(k.arg is None for k in call.keywords) or len(args) > len(ps):
            return None
        for a, v in zip(ps, args):
            m[a] = v
        for k in call.keywords:
            m[k.arg] = k.value
        dm = dict(zip(ps[::-1], d.args.defaults[::-1]))
        dm.update({a.arg: v for a, v in zip(d.args.kwonlyargs, d.args.kw_defaults) if v is not None})
        for a in ps + [x.arg for x in d.args.kwonlyargs]:
            if a not in m:
                if a not in dm:
                    return None
                m[a] = dm[a]
        if any(isinstance(x, ast.Call) and self.callee(x) is d for x in ast.walk(d)):
            return None
        return d, m

    def callee(self, x):
        f = x.func
        if isinstance(f, ast.Name):
            return self.defs.get(f.id)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            return self.mdefs.get(f.attr)
        return None

    @staticmethod
    def body_of(d):
        b = d.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
            b = b[1:]
        return b

    # -- expression helpers
    def expr(self, e):
        """substitute calls of single-expression helpers inside e"""
        me = self

        class T(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                t = me.target(n)
                if t is None:
                    return n
                d, m = t
                b = me.body_of(d)
                if len(b) != 1 or not isinstance(b[0], ast.Return) or b[0].value is None:
                    return n
                v = b[0].value
                uses = {}
                for x in ast.walk(v):
                    if isinstance(x, ast.Name):
                        uses[x.id] = uses.get(x.id, 0) + 1
                for a, arg in m.items():
                    if not plain(arg) and uses.get(a, 0) > 1:
                        return n
                bound = {x.id for x in ast.walk(v) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {
                    x.arg for y in ast.walk(v) if isinstance(y, ast.Lambda) for x in y.args.args}
                if bound & ({x.id for arg in m.values() for x in ast.walk(arg) if isinstance(x, ast.Name)} | set(m)):
                    return n
                try:
                    r = Rename(m).visit(copy.deepcopy(v))
                except No:
                    return n
                me.changed = True
                return ast.copy_location(r, n)

            def visit_FunctionDef(self, n):
                return n
        return T().visit(e)

    # -- statement helpers
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                out.append(s)
                continue
            pre = []
            for fld in ("value", "test", "iter", "exc", "targets", "target", "items", "subject"):
                v = getattr(s, fld, None)
                if isinstance(v, ast.AST):
                    setattr(s, fld, self.expr(v))
                elif isinstance(v, list):
                    setattr(s, fld, [self.expr(x) for x in v])
            r = self.stmt(s)
            if r is not None:
                out += r
                continue
            h = None
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Return, ast.Raise)):
                h = [f for f in ("value", "exc") if isinstance(getattr(s, f, None), ast.AST)]
            elif isinstance(s, ast.If):
                h = ["test"]
            elif isinstance(s, (ast.For,)):
                h = ["iter"]
            for fld in h or []:
                call = self.first_call(getattr(s, fld))
                if call is not None and self.target(call) is not None:
                    nm = self.fresh(self.target(call)[0].name.lstrip("_") + "_result")
                    a = ast.copy_location(ast.Assign([ast.Name(nm, ast.Store())], call), s)
                    ast.fix_missing_locations(a)
                    r = self.stmt(a)
                    if r is not None:
                        pre += r
                        setattr(s, fld, swap(getattr(s, fld), call, ast.copy_location(ast.Name(nm, ast.Load()), call)))
                        break
            for fld in ("body", "orelse", "finalbody"):
                v = getattr(s, fld, None)
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                    setattr(s, fld, self.block(v))
            for hd in getattr(s, "handlers", []):
                hd.body = self.block(hd.body)
            for cs in getattr(s, "cases", []):
                cs.body = self.block(cs.body)
            out += pre + [s]
        return out

    def first_call(self, e):
        """a helper call that is evaluated unconditionally in e"""
        if isinstance(e, ast.Call) and self.callee(e) is not None:
            return e
        if isinstance(e, ast.BoolOp):
            return self.first_call(e.values[0])
        if isinstance(e, ast.IfExp):
            return self.first_call(e.test)
        if isinstance(e, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return None
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.FormattedValue)):
                r = self.first_call(c)
                if r is not None:
                    return r
        return None

    def fresh(self, base):
        names = {x.id for x in ast.walk(self.cur) if isinstance(x, ast.Name)} | {a.arg for a in ast.walk(self.cur) if isinstance(a, ast.arg)}
        if base not in names:
            return base
        while True:
            self.k += 1
            if f"{base}_{self.k}" not in names:
                return f"{base}_{self.k}"

    def stmt(self, s):
        """[statements] replacing s when it is `call`, `x = call` or `return call` of a helper"""
        if isinstance(s, (ast.Expr, ast.Return)) or isinstance(s, ast.Assign) and len(s.targets) == 1:
            call = s.value
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            call = s.value
        else:
            return None
        if not isinstance(call, ast.Call):
            return None
        t = self.target(call)
        if t is None:
            return None
        d, m = t
        try:
            return self.expand(s, d, m)
        except No:
            return None

    def expand(self, s, d, m):
        body = self.body_of(d)
        stored = {x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {
            x.name for b in body for x in ast.walk(b) if isinstance(x, ast.ExceptHandler) and x.name}
        tgt = []
        if isinstance(s, ast.Assign):
            t = s.targets[0]
            tgt = [t] if not isinstance(t, ast.Tuple) else list(t.elts)
        elif isinstance(s, ast.AnnAssign):
            tgt = [s.target]
        rets = [x.value for b in body for x in walk_own(b) if isinstance(x, ast.Return)]
        last = rets[0] if len(rets) == 1 else None
        rv = []
        if last is not None:
            rv = list(last.elts) if isinstance(last, ast.Tuple) and len(tgt) > 1 else [last]
        argnames = {x.id for v in m.values() for x in ast.walk(v) if isinstance(x, ast.Name)}
        ren, pre = {}, []
        tn = [x.id if isinstance(x, ast.Name) else None for x in tgt]
        for a, v in m.items():
            if a not in stored and plain(v) and not (isinstance(v, ast.Name) and v.id in tn and v.id in stored):
                ren[a] = v
            elif a in stored and isinstance(v, ast.Name) and v.id in tn and sum(1 for w in m.values() for x in ast.walk(w) if isinstance(x, ast.Name) and x.id == v.id) == 1 \
                    and len(rv) == len(tgt) and all(isinstance(r, ast.Name) for r in rv) and rv[tn.index(v.id)].id == a:
                ren[a] = v
            else:
                nm = self.fresh(a)
                ren[a] = ast.Name(nm, ast.Load())
                pre.append(ast.copy_location(ast.Assign([ast.Name(nm, ast.Store())], v), s))
        used = {x.id for r in ren.values() for x in ast.walk(r) if isinstance(x, ast.Name)}
        curnames = {x.id for x in ast.walk(self.cur) if isinstance(x, ast.Name)}
        for n in sorted(stored - set(m)):
            i = next((j for j, r in enumerate(rv) if len(rv) == len(tgt) and isinstance(r, ast.Name) and r.id == n), None)
            if i is not None and tn[i] and tn[i] not in argnames and tn[i] not in stored - {n}:
                ren[n] = ast.Name(tn[i], ast.Load())
            elif n in curnames or n in used:
                ren[n] = ast.Name(self.fresh(n), ast.Load())
        new = [Rename(ren).visit(copy.deepcopy(b)) for b in body]

        def emit(v, at):
            if isinstance(s, ast.Return):
                return [ast.copy_location(ast.Return(v), at or s)]
            if isinstance(s, ast.Expr):
                return [ast.copy_location(ast.Expr(v), at)] if v is not None and not plain(v) else []
            v = v if v is not None else ast.Constant(None)
            t = s.targets[0] if isinstance(s, ast.Assign) else s.target
            if ast.unparse(t) == ast.unparse(v):
                return []
            return [ast.copy_location(ast.Assign([copy.deepcopy(t)], v), at or s)]
        if isinstance(s, ast.Return):
            out = new if always_leaves(new) else new + [ast.copy_location(ast.Return(None), s)]
        else:
            out = tailed(new, emit)
        self.changed = True
        out = pre + out
        for x in out:
            ast.fix_missing_locations(x)
        return out or [ast.copy_location(ast.Pass(), s)]

    def drop(self, tree):
        """definitions nothing refers to any more are removed; functions that still call a new helper are tainted"""
        refs = {}
        for x in ast.walk(tree):
            if isinstance(x, ast.Name):
                refs[x.id] = refs.get(x.id, 0) + 1
            elif isinstance(x, ast.Attribute):
                refs[x.attr] = refs.get(x.attr, 0) + 1
        gone = {n for n in list(self.fs) + list(self.ms) if not refs.get(n)}

        class D(ast.NodeTransformer):
            def visit_FunctionDef(self, n):
                if n.name in gone:
                    return None
                self.generic_visit(n)
                return n

            def visit_ClassDef(self, n):
                self.generic_visit(n)
                if not n.body:
                    n.body = [ast.Pass()]
                return n
        D().visit(tree)


def swap(tree, old, new):
    class T(ast.NodeTransformer):
        def visit(self, n):
            return new if n is old else self.generic_visit(n)
    return T().visit(tree)


def literal(v):
    try:
        return ast.parse(repr(v), mode="eval").body
    except SyntaxError:
        return None


class ConstSub(ast.NodeTransformer):
    def __init__(self, g, c):
        self.g, self.c = g, c

    def visit_FunctionDef(self, n):
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in ast.walk(n) if isinstance(a, ast.arg)}
        keep = self.g
        self.g = {k: v for k, v in keep.items() if k not in loc}
        self.generic_visit(n)
        self.g = keep
        return n

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.g:
            return ast.copy_location(copy.deepcopy(self.g[n.id]), n)
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and n.attr in self.c and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls", self.c[n.attr][0].node.name):
            return ast.copy_location(copy.deepcopy(self.c[n.attr][1]), n)
        return n


def normalized(p, spec):
    """(project with the extractions undone, names of functions that still involve a helper that could not be)"""
    known = spec["attrs"].get("quals")
    if not known:
        return p, set()
    i = Inliner(p, known, spec["attrs"].get("globals", []))
    over = i.run()
    q = p
    if over:
        o = dict(p.overrides)
        o.update(over)
        q = Project(p.root, overrides=o)
    ks = set(known)
    new = {f for f in q.iter_funcs() if f.qual not in ks and not any(g.qual in ks and f.qual.startswith(g.qual + ".") for g in [f.parent] if g)}
    names = {f.name for f in new}
    taint = {f.qual for f in new}
    for f in q.iter_funcs():
        for n in own_nodes(f.node):
            if isinstance(n, ast.Name) and n.id in names or isinstance(n, ast.Attribute) and n.attr in names:
                taint.add(f.qual)
    return q, taint
