"""Interprocedural mutation effects: which access paths rooted at self, a parameter, a module or a class a call may write."""
import ast

from project import Class, Func, Module

MUT = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "add", "discard", "setdefault",
       "popitem", "appendleft", "popleft", "intersection_update", "difference_update"}
IO = {"write", "seek", "read", "readline", "readlines", "truncate", "writelines", "flush", "close"}
SHALLOW = {"list", "tuple", "set", "sorted", "dict", "frozenset", "reversed", "enumerate", "zip", "iter", "filter"}
PASS = {"values", "items", "keys", "get", "copy", "split"}
MAXP = 4


class Eff:
    def __init__(self, func):
        self.func = func
        self.writes = {}     # (root, path, kind) -> witness (Func, node)
        self.sure = set()    # keys of writes whose target is the location on every definition that reaches it
        self.rets = set()    # alias paths of the result
        self.unres = 0
        self.calls = set()

    def may_write_self(self, attr):
        return any(r == "self" and (not p or p[0] in (attr, "*")) for r, p, kd in self.writes if not kd.startswith("io"))

    @property
    def may_write_args(self):
        return any(r != "self" for r, p, kd in self.writes if isinstance(r, tuple) and r[0] == "p" and not kd.startswith("io"))


class Analysis:
    def __init__(self, p):
        self.p = p
        self.eff = {}
        self.funcs = list(p.iter_funcs())
        self.byname = {}
        for c in p.iter_classes():
            for nm, f in c.methods.items():
                self.byname.setdefault(nm, []).append(f)
        for f in self.funcs:
            self.eff[f] = Eff(f)
        self.loc = {}
        for rnd in range(8):
            changed = False
            for f in self.funcs:
                if self.analyse(f):
                    changed = True
            if not changed:
                break

    # -- types of simple expressions
    def type_of(self, e, f, depth=0):
        import vf
        if depth > 4:
            return None
        if isinstance(e, ast.Name):
            if f.cls is not None and not f.is_static and f.params and e.id == f.params[0]:
                return f.cls
            a = f.node.args
            for pa in a.posonlyargs + a.args + a.kwonlyargs:
                if pa.arg == e.id and pa.annotation is not None:
                    an = pa.annotation
                    if isinstance(an, ast.Constant) and isinstance(an.value, str):
                        try:
                            an = ast.parse(an.value, mode="eval").body
                        except SyntaxError:
                            return None
                    c = self.p.resolve_expr(an, f.mod, f.cls)
                    return c if isinstance(c, Class) else None
            cs = set()
            for v in self.local_defs(f).get(e.id, ()):
                if v is None:
                    return None
                c = self.type_of(v, f, depth + 1)
                if c is None:
                    return None
                cs.add(c)
            return cs.pop() if len(cs) == 1 else None
        if isinstance(e, ast.Call):
            r = self.p.resolve_expr(e.func, f.mod, f.cls)
            if r is None and isinstance(e.func, ast.Attribute):
                t = self.type_of(e.func.value, f, depth + 1)
                if t is not None:
                    r = t.nested_class(e.func.attr)
            return r if isinstance(r, Class) else None
        if isinstance(e, ast.Attribute):
            t = self.type_of(e.value, f, depth + 1)
            if t is not None:
                c = vf.attr_info(self.p, t).get(e.attr)
                if c and len(c["cls"]) == 1:
                    return next(iter(c["cls"]))
        if isinstance(e, ast.Subscript):
            return self.elem_type(e.value, f, depth + 1)
        return None

    def elem_type(self, e, f, depth=0):
        import vf
        if isinstance(e, ast.Attribute):
            t = self.type_of(e.value, f, depth + 1)
            if t is not None:
                c = vf.attr_info(self.p, t).get(e.attr)
                if c and len(c["elem"]) == 1:
                    return next(iter(c["elem"]))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in SHALLOW and e.args:
            return self.elem_type(e.args[0], f, depth + 1)
        return None

    def local_defs(self, f):
        d = self.loc.get(f)
        if d is None:
            d = {}
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        self.bind_names(t, x.value, d)
                elif isinstance(x, (ast.AnnAssign, ast.NamedExpr)) and x.value is not None:
                    self.bind_names(x.target, x.value, d)
                elif isinstance(x, (ast.For, ast.comprehension)):
                    self.bind_names(x.target, ("elem", x.iter), d)
                elif isinstance(x, ast.withitem) and x.optional_vars is not None:
                    self.bind_names(x.optional_vars, x.context_expr, d)
            # typed loop variables become Subscript stand-ins so that type_of sees the element type
            for nm, vs in d.items():
                d[nm] = [ast.copy_location(ast.Subscript(value=v[1], slice=ast.Constant(0), ctx=ast.Load()), v[1]) if isinstance(v, tuple) else v for v in vs]
            self.loc[f] = d
        return d

    def bind_names(self, t, v, d):
        if isinstance(t, ast.Name):
            d.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            src = v
            if isinstance(v, tuple) and isinstance(v[1], ast.Call):
                c = v[1]
                nm = c.func.id if isinstance(c.func, ast.Name) else (c.func.attr if isinstance(c.func, ast.Attribute) else "")
                if nm == "enumerate" and len(t.elts) == 2 and c.args:
                    self.bind_names(t.elts[0], ast.Constant(0), d)
                    self.bind_names(t.elts[1], ("elem", c.args[0]), d)
                    return
                if nm == "items" and len(t.elts) == 2:
                    for x in t.elts:
                        self.bind_names(x, ("elem", c.func.value), d)
                    return
            if not isinstance(v, tuple) and isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                for x, y in zip(t.elts, v.elts):
                    self.bind_names(x, y, d)
                return
            for x in t.elts:
                e = src[1] if isinstance(src, tuple) else src
                self.bind_names(x, ("elem", e), d)
        elif isinstance(t, ast.Starred):
            self.bind_names(t.value, v, d)

    # -- access paths
    def paths(self, e, f, seen=()):
        p = self.p
        if isinstance(e, ast.Name):
            ps = f.params
            if f.cls is not None and not f.is_static and ps and e.id == ps[0]:
                return {("cls" if f.is_class else "self", ())}
            a = f.node.args
            allp = ps + [x.arg for x in a.kwonlyargs]
            out = set()
            if e.id in allp:
                out.add((("p", e.id), ()))
            if e.id in seen:
                return out
            defs = self.local_defs(f).get(e.id)
            if defs:
                for v in defs:
                    out |= self.paths(v, f, seen + (e.id,))
                return out
            if e.id in allp:
                return out
            if f.parent is not None:
                return set()
            r = p.resolve_name(e.id, f.mod)
            if isinstance(r, tuple) and r[0] == "global":
                return {(("g", r[1].name, r[2]), ())}
            if isinstance(r, Class):
                return {(("k", r.qual), ())}
            return set()
        if isinstance(e, ast.Attribute):
            t = self.type_of(e.value, f)
            if t is not None:
                m = t.method(e.attr)
                if m is not None:
                    if m.is_prop:
                        return self.map_rets(m, [e.value], {}, f, seen, True)
                    return set()
            else:
                r = p.resolve_expr(e, f.mod, f.cls)
                if isinstance(r, tuple) and r[0] == "global":
                    return {(("g", r[1].name, r[2]), ())}
                if isinstance(r, tuple) and r[0] == "cattr":
                    return {(("k", r[1].qual), (r[2],))}
            return {(r, self.cap(q + (e.attr,))) for r, q in self.paths(e.value, f, seen)}
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return {(r, self.cap(q + ("~",))) for r, q in self.paths(e.value, f, seen)}
            return {(r, self.elem(q)) for r, q in self.paths(e.value, f, seen)}
        if isinstance(e, ast.IfExp):
            return self.paths(e.body, f, seen) | self.paths(e.orelse, f, seen)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.paths(v, f, seen)
            return out
        if isinstance(e, ast.NamedExpr):
            return self.paths(e.value, f, seen)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in SHALLOW and e.args:
                return {(r, self.cap(q + ("~",))) for r, q in self.paths(e.args[0], f, seen)}
            if isinstance(e.func, ast.Name) and e.func.id == "getattr" and len(e.args) >= 2:
                nm = e.args[1].value if isinstance(e.args[1], ast.Constant) else "*"
                return {(r, self.cap(q + (nm,))) for r, q in self.paths(e.args[0], f, seen)}
            for g in self.callees(e, f)[0]:
                if isinstance(g, Func):
                    bound = isinstance(e.func, ast.Attribute) and g.cls is not None and not g.is_static
                    return self.map_rets(g, ([e.func.value] if bound else []) + list(e.args), {k.arg: k.value for k in e.keywords}, f, seen, bound)
            if isinstance(e.func, ast.Attribute) and e.func.attr in PASS:
                last = "~" if e.func.attr in ("values", "items", "copy") else "[]"
                if e.func.attr in ("keys", "split"):
                    return set()
                return {(r, self.cap(q + (last,)) if last == "~" else self.elem(q)) for r, q in self.paths(e.func.value, f, seen)}
        return set()

    def cap(self, q):
        return q if len(q) <= MAXP else q[:MAXP]

    def elem(self, q):
        if q and q[-1] == "~":
            q = q[:-1]
        return self.cap(q + ("[]",))

    def args_map(self, g, args, kw):
        ps = list(g.params)
        m = {}
        for nm, a in zip(ps, args):
            m[nm] = a
        for kx, v in kw.items():
            if kx:
                m[kx] = v
        return m

    def root_sub(self, g, r, args, kw, f, seen=()):
        """Caller-side paths of a callee root."""
        m = self.args_map(g, args, kw)
        if r in ("self", "cls"):
            if g.params and g.params[0] in m:
                return self.paths(m[g.params[0]], f, seen)
            return set()
        if isinstance(r, tuple) and r[0] == "p":
            if r[1] in m:
                return self.paths(m[r[1]], f, seen)
            return set()
        return {(r, ())}

    def map_rets(self, g, args, kw, f, seen, bound):
        out = set()
        for r, q in self.eff[g].rets:
            for r2, q2 in self.root_sub(g, r, args, kw, f, seen):
                out.add((r2, self.cap(q2 + q)))
        return out

    def certain(self, e, f, depth=0):
        """Every definition that may reach this expression names the location paths() gives (no rebinding to something fresh)."""
        if depth > 6:
            return False
        if isinstance(e, ast.Name):
            defs = self.local_defs(f).get(e.id)
            if not defs:
                return True
            allp = f.params + [x.arg for x in f.node.args.kwonlyargs]
            if e.id in allp:
                return False
            return all(v is not None and self.paths(v, f) and self.certain(v, f, depth + 1) for v in defs)
        if isinstance(e, (ast.Attribute, ast.Subscript)):
            return self.certain(e.value, f, depth + 1)
        if isinstance(e, ast.Call):
            return isinstance(e.func, ast.Attribute) and e.func.attr in PASS and self.certain(e.func.value, f, depth + 1) or \
                isinstance(e.func, ast.Name) and bool(e.args) and e.func.id in SHALLOW and self.certain(e.args[0], f, depth + 1)
        return False

    # -- calls
    def callees(self, e, f):
        """-> ([Func or Class], is super/self receiver expr)"""
        fn = e.func
        p = self.p
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and f.cls:
                for b in f.cls.mro()[1:]:
                    if fn.attr in b.methods:
                        return [b.methods[fn.attr]], True
                return [], True
            t = self.type_of(fn.value, f)
            if t is not None:
                m = t.method(fn.attr)
                if m is not None:
                    out = [m]
                    if isinstance(fn.value, ast.Name) and f.params and fn.value.id == f.params[0]:
                        for s in self.p.subclasses(t):
                            if fn.attr in s.methods and s.methods[fn.attr] not in out:
                                out.append(s.methods[fn.attr])
                    return out, False
                c = t.nested_class(fn.attr)
                return ([c] if c else []), False
            r = p.resolve_expr(fn, f.mod, f.cls)
            if isinstance(r, (Func, Class)):
                return [r], False
            from vf import COMMON
            if fn.attr not in COMMON:
                c = self.byname.get(fn.attr, [])
                if len(c) == 1 and not (r and isinstance(r, str)):
                    return [c[0]], False
            return [], False
        if isinstance(fn, ast.Name):
            g = f
            while g is not None:
                if fn.id in g.nested:
                    return [g.nested[fn.id]], False
                g = g.parent
            r = p.resolve_name(fn.id, f.mod)
            if isinstance(r, (Func, Class)):
                return [r], False
        return [], False

    def analyse(self, f):
        E = self.eff[f]
        n0, r0 = len(E.writes), len(E.rets)
        globs = set()
        nested = set()
        for g in f.nested.values():
            for x in ast.walk(g.node):
                nested.add(id(x))
        for x in ast.walk(f.node):
            if id(x) in nested:
                continue
            if isinstance(x, ast.Global):
                globs.update(x.names)

        def w(paths, kind, node, func=f, sure=None):
            for r, q in paths:
                if q and q[-1] == "~" and kind == "content":
                    continue
                key = (r, tuple(y for y in q if y != "~"), kind)
                if sure is None or sure:
                    E.sure.add(key)
                if key not in E.writes:
                    E.writes[key] = (func, node)
        for x in ast.walk(f.node):
            if id(x) in nested:
                continue
            tgts = []
            if isinstance(x, ast.Assign):
                tgts = x.targets
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                if not (isinstance(x, ast.AnnAssign) and x.value is None):
                    tgts = [x.target]
            elif isinstance(x, ast.Delete):
                tgts = x.targets
            elif isinstance(x, (ast.For,)):
                tgts = [x.target]
            elif isinstance(x, ast.withitem) and x.optional_vars is not None:
                tgts = [x.optional_vars]
            flat = []
            for t in tgts:
                flat.extend(t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])
            for t in flat:
                if isinstance(t, ast.Attribute):
                    st = None
                    ty = self.type_of(t.value, f)
                    if ty is not None:
                        st = ty.setter(t.attr)
                    if st is not None:
                        self.apply(E, st, [t.value, x.value if hasattr(x, "value") else None], {}, f, x, w)
                        continue
                    if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add):
                        pass
                    w({(r, self.cap(q + (t.attr,))) for r, q in self.paths(t.value, f)}, "attr", x, sure=self.certain(t.value, f))
                elif isinstance(t, ast.Subscript):
                    w(self.paths(t.value, f), "content", x, sure=self.certain(t.value, f))
                elif isinstance(t, ast.Name) and t.id in globs:
                    w({(("g", f.mod.name, t.id), ())}, "attr", x)
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and isinstance(x.op, (ast.Add, ast.BitOr)):
                # in-place += on an aliased list
                import vf
                for r, q in self.paths(x.target, f):
                    if q and r == "self" and f.cls is not None:
                        c = vf.attr_info(self.p, f.cls).get(q[0])
                        if len(q) == 1 and c and c["ty"] == {"list"}:
                            w({(r, q)}, "content", x)
                    elif isinstance(r, tuple) and r[0] == "p" and isinstance(x.value, (ast.List, ast.ListComp)):
                        w({(r, q)}, "content", x)
            if isinstance(x, ast.Call):
                cs, sup = self.callees(x, f)
                if cs:
                    for g in cs:
                        if isinstance(g, Class):
                            init = g.method("__init__")
                            if init is not None:
                                self.apply(E, init, [None] + list(x.args), {k.arg: k.value for k in x.keywords}, f, x, w)
                            continue
                        args = list(x.args)
                        if isinstance(x.func, ast.Attribute) and g.cls is not None and not g.is_static:
                            rcv = x.func.value
                            if sup:
                                rcv = ast.Name(f.params[0], ast.Load()) if f.params else None
                            isclsref = isinstance(self.p.resolve_expr(rcv, f.mod, f.cls), Class) if rcv is not None and not sup else False
                            if not (isclsref and not g.is_class):
                                args = [rcv] + args
                        self.apply(E, g, args, {k.arg: k.value for k in x.keywords}, f, x, w)
                elif isinstance(x.func, ast.Attribute):
                    if x.func.attr in MUT:
                        w(self.paths(x.func.value, f), "content", x, sure=self.certain(x.func.value, f))
                    elif x.func.attr in IO:
                        w(self.paths(x.func.value, f), "iow" if x.func.attr in ("write", "writelines", "truncate") else "ior", x)
                    else:
                        E.unres += 1
                elif isinstance(x.func, ast.Name) and x.func.id == "setattr" and x.args:
                    nm = x.args[1].value if len(x.args) > 1 and isinstance(x.args[1], ast.Constant) else "*"
                    w({(r, self.cap(q + (nm,))) for r, q in self.paths(x.args[0], f)}, "attr", x)
            if isinstance(x, ast.Return) and x.value is not None:
                E.rets |= self.paths(x.value, f)
        return len(E.writes) != n0 or len(E.rets) != r0

    def apply(self, E, g, args, kw, f, node, w):
        E.calls.add(g)
        m = self.args_map(g, args, kw)
        for (r, q, kind), wit in list(self.eff[g].writes.items()):
            if r in ("self", "cls") or (isinstance(r, tuple) and r[0] == "p"):
                nm = (g.params[0] if g.params else None) if r in ("self", "cls") else r[1]
                a = m.get(nm)
                if a is None:
                    continue
                for r2, q2 in self.paths(a, f):
                    if q2 and q2[-1] == "~" and not q:
                        continue
                    key = (r2, self.cap(tuple(y for y in q2 if y != "~") + q), kind)
                    if (r, q, kind) in self.eff[g].sure and self.certain(a, f):
                        E.sure.add(key)
                    if key not in E.writes:
                        E.writes[key] = wit
            else:
                key = (r, q, kind)
                if key in self.eff[g].sure:
                    E.sure.add(key)
                if key not in E.writes:
                    E.writes[key] = wit


def analysis(p):
    if "_effects" not in p.__dict__:
        p._effects = Analysis(p)
    return p._effects


def summary(p, f):
    return analysis(p).eff.get(f)
