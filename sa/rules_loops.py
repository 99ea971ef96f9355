"""B07: every loop makes progress on every path back to its head, or leaves."""
import ast
import re

import constev
import effects
import rules_names
from project import Class, Func, own_nodes

PURE = {"len", "int", "str", "bool", "bytes", "float", "min", "max", "abs", "sum", "isinstance", "sorted", "list", "tuple", "dict", "set", "range", "enumerate",
        "zip", "any", "all", "repr", "hex", "ord", "chr", "type", "print", "hasattr", "getattr", "format", "reversed", "round", "bytearray", "frozenset", "id"}
PUREMOD = re.compile(r"^(os\.path\.\w+|struct\.(unpack|unpack_from|calcsize|pack)|re\.\w+|uuid\.UUID|math\.\w+|logging\.\w+|warnings\.\w+|str\.\w+|int\.from_bytes)$")
PUREMETH = {"tell", "find", "rfind", "index", "count", "get", "strip", "rstrip", "lstrip", "split", "rsplit", "splitlines", "lower", "upper", "startswith", "endswith",
            "replace", "join", "format", "encode", "decode", "items", "keys", "values", "copy", "partition", "rpartition", "is_file", "is_dir", "exists", "resolve",
            "with_suffix", "relative_to", "joinpath", "hex", "isdigit", "isalpha", "debug", "info", "warning", "error", "critical", "log", "getvalue", "match", "search",
            "fullmatch", "group", "groups", "zfill", "title", "isspace", "as_posix", "is_absolute"}
READ = {"read", "readline", "readlines", "recv", "seek", "get", "popleft", "pop", "wait", "poll", "accept", "__next__", "fetchone", "sleep"}
LEAVE = (ast.Return, ast.Raise, ast.Break)


def chain(e):
    """('x',) ('self','data') ... for names and attribute chains"""
    names = []
    while isinstance(e, ast.Attribute):
        names.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        return (e.id,) + tuple(reversed(names))
    return None


def chains(e):
    out = set()

    def go(n):
        c = chain(n) if isinstance(n, (ast.Name, ast.Attribute)) else None
        if c:
            out.add(c)
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            go(n.func.value)
            for a in list(n.args) + [k.value for k in n.keywords]:
                go(a)
            return
        if isinstance(n, ast.Call):
            for a in list(n.args) + [k.value for k in n.keywords]:
                go(a)
            return
        for c in ast.iter_child_nodes(n):
            go(c)
    go(e)
    return out


def overlap(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]


IMMUT = {"str", "int", "bool", "bytes", "float", "len", "min", "max", "ord", "chr", "hex", "repr", "abs", "round"}
IMMUTMETH = {"find", "rfind", "index", "count", "strip", "rstrip", "lstrip", "lower", "upper", "startswith", "endswith", "replace", "join", "format", "encode", "decode",
             "tell", "hex", "zfill", "title", "isdigit", "as_posix"}


def immutable(p, a, f, name, depth=0, seen=()):
    """every definition of the local gives a number, a string or bytes"""
    if name in seen:
        return True
    for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
        if x.arg == name:
            if x.annotation is None or ast.unparse(x.annotation) not in IMMUT:
                return False
    ds = a.local_defs(f).get(name, ())
    if not ds and name not in f.params:
        return False
    return all(isinstance(d, ast.AST) and immutable_expr(p, a, f, d, depth, seen + (name,)) for d in ds)


def immutable_expr(p, a, f, e, depth=0, seen=()):
    if depth > 6:
        return False
    if isinstance(e, (ast.Constant, ast.JoinedStr, ast.Compare)):
        return True
    if isinstance(e, ast.Name):
        return immutable(p, a, f, e.id, depth + 1, seen)
    if isinstance(e, ast.BinOp):
        return immutable_expr(p, a, f, e.left, depth + 1, seen) and immutable_expr(p, a, f, e.right, depth + 1, seen)
    if isinstance(e, ast.UnaryOp):
        return True
    if isinstance(e, ast.IfExp):
        return immutable_expr(p, a, f, e.body, depth + 1, seen) and immutable_expr(p, a, f, e.orelse, depth + 1, seen)
    if isinstance(e, ast.Subscript):
        return immutable_expr(p, a, f, e.value, depth + 1, seen)
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name):
            return e.func.id in IMMUT
        if isinstance(e.func, ast.Attribute):
            return e.func.attr in IMMUTMETH and p.resolve_expr(e.func, f.mod, f.cls) is None
    return False


def unknown_effects(p, a, f, memo=None):
    """f (or what it calls) invokes methods this analysis does not know on something it was given"""
    memo = p.__dict__.setdefault("_unk", {})
    if f in memo:
        return memo[f]
    memo[f] = False
    out = False
    for x in own_nodes(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            cs, sup = a.callees(x, f)
            if cs:
                continue
            r = p.resolve_expr(x.func, f.mod, f.cls)
            if isinstance(r, str):
                continue
            if x.func.attr in PUREMETH or x.func.attr in effects.MUT or x.func.attr in effects.IO:
                continue
            if any(True for _ in a.paths(x.func.value, f)):
                out = True
    if not out:
        out = any(unknown_effects(p, a, g) for g in a.eff[f].calls if g in a.eff)
    memo[f] = out
    return out


class Loop:
    def __init__(self, p, a, f, node):
        self.p, self.a, self.f, self.node = p, a, f, node
        self.test = node.test
        self.const = isinstance(node.test, ast.Constant) and bool(node.test.value)
        self.exits = []             # tests that decide about leaving
        self.hard = False           # an exit that is not decided by a visible test (raising call, yield)
        self.body_stmts = list(self.own(node.body))
        self.find_exits(node.body, [])
        self.dep = set()
        for e in ([] if self.const else [node.test]) + [t for t, _ in self.exits]:
            self.dep |= chains(e)
        self.testdep = chains(node.test)
        self.alias()

    def own(self, body):
        st = list(body)
        while st:
            n = st.pop()
            yield n
            for c in ast.iter_child_nodes(n):
                if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    st.append(c)

    def find_exits(self, body, tests, inner=False):
        for s in body:
            if isinstance(s, (ast.Return, ast.Raise)) or isinstance(s, ast.Break) and not inner:
                self.exits += [(t, s) for t in tests] or [(ast.Constant(True), s)]
            elif isinstance(s, ast.Assert):
                pass
            elif isinstance(s, ast.If):
                self.find_exits(s.body, tests + [s.test], inner)
                self.find_exits(s.orelse, tests + [s.test], inner)
            elif isinstance(s, ast.For):
                self.find_exits(s.body, tests + [s.iter], True)
                self.find_exits(s.orelse, tests, inner)
            elif isinstance(s, ast.While):
                self.find_exits(s.body, tests + [s.test], True)
                self.find_exits(s.orelse, tests, inner)
            elif isinstance(s, ast.With):
                self.find_exits(s.body, tests, inner)
            elif isinstance(s, ast.Try):
                self.find_exits(s.body, tests, inner)
                for h in s.handlers:
                    if any(isinstance(x, LEAVE) for x in ast.walk(h)):
                        self.hard = True
                    self.find_exits(h.body, tests, inner)
                self.find_exits(s.orelse, tests, inner)
                self.find_exits(s.finalbody, tests, inner)

    def alias(self):
        """names that denote the same object as a watched place"""
        for _ in range(3):
            new = set()
            for n in own_nodes(self.f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    t, v = chain(n.targets[0]), chain(n.value)
                    if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "iter" and n.value.args:
                        v = chain(n.value.args[0])
                    if t and v:
                        if any(overlap(v, d) for d in self.dep):
                            new.add(t)
                        if any(overlap(t, d) for d in self.dep) and isinstance(n.value, (ast.Attribute, ast.Name)):
                            new.add(v)
            if new <= self.dep:
                return
            self.dep |= new

    # -- what a statement changes
    def watched(self, c):
        return any(overlap(c, d) for d in self.dep)

    def effects_of(self, e, changed):
        """watched places changed by evaluating e; ('*',) when anything may"""
        out = set()
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr) and isinstance(n.target, ast.Name):
                out.add((n.target.id,))
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                out.add(("*",))
            if not isinstance(n, ast.Call):
                continue
            r = self.p.resolve_expr(n.func, self.f.mod, self.f.cls)
            t = r if isinstance(r, str) else ast.unparse(n.func)
            if isinstance(n.func, ast.Name) and n.func.id == "next":
                out.add(("*",))
                continue
            if isinstance(r, str) and PUREMOD.match(t) or r is None and isinstance(n.func, ast.Name) and n.func.id in PURE:
                continue
            args = list(n.args) + [k.value for k in n.keywords]
            args = [x.value if isinstance(x, ast.Starred) else x for x in args]
            args = [x for x in args if not immutable_expr(self.p, self.a, self.f, x)]
            ca = [c for x in args for c in [chain(x)] if c and not self.modlevel(x)]
            ctor = isinstance(r, Class)
            recv = chain(n.func.value) if isinstance(n.func, ast.Attribute) else None
            tg = r if isinstance(r, Func) else (r.method("__init__") if isinstance(r, Class) else None)
            if isinstance(r, Class) and tg is None:
                continue
            if tg is None and recv is not None:
                ty = self.a.type_of(n.func.value, self.f)
                if isinstance(ty, Class):
                    tg = ty.method(n.func.attr)
                    if tg is None:
                        k = ty.nested_class(n.func.attr)
                        if k is not None:
                            ctor = True
                            tg = k.method("__init__")
                            if tg is None:
                                continue
            if isinstance(tg, Func) and tg in self.a.eff:
                E = self.a.eff[tg]
                for (root, q, kind) in E.writes:
                    if root == "self":
                        if recv is not None and not ctor:
                            q2 = tuple(x for x in q if x not in ("[]", "~", "*"))
                            out.add(recv + q2)
                    elif isinstance(root, tuple) and root[0] == "p":
                        out |= set(ca)
                    else:
                        out.add(("*",))
                if unknown_effects(self.p, self.a, tg):
                    out |= set(ca)
                    if recv is not None and not ctor:
                        out.add(recv)
                continue
            # unknown callee: it may change whatever it is given
            out |= set(ca)
            for x in args:
                if chain(x) is None:
                    out |= {c for c in chains(x)}
            if recv is not None and n.func.attr not in PUREMETH:
                out.add(recv)
            if recv is None and not ca:
                out.add(("*",))
            if isinstance(n.func, ast.Attribute) and n.func.attr in READ:
                out.add(("*",))
        return out

    # -- abstract execution: a state is (changed places, progress notes)
    def run(self):
        self.back = []
        self.steps = 0
        ends = self.block(self.node.body, [(frozenset(), (), (), frozenset())], True)
        self.back += ends
        return [(self.closed(ch, env), notes, tr) for ch, notes, tr, env in self.back]

    def closed(self, ch, env):
        """places whose value at the next iteration can differ when this path is taken again and again"""
        env = dict(env)
        hard = set(ch)
        while True:
            new = set()
            for c, src in env.items():
                if c in hard:
                    continue
                # depends on a changed place, or on itself through others (loop-carried)
                seen, st = set(), list(src)
                while st:
                    d = st.pop()
                    if d in seen:
                        continue
                    seen.add(d)
                    if ("*",) in hard or any(overlap(d, h) for h in hard) or overlap(d, c):
                        new.add(c)
                        break
                    for e, s2 in env.items():
                        if overlap(e, d):
                            st += list(s2)
            if not new:
                return frozenset(x for x in hard if x == ("*",) or self.watched(x))
            hard |= new

    def block(self, body, states, top):
        for s in body:
            if not states:
                return []
            self.steps += len(states)
            if self.steps > 20000:
                raise OverflowError
            states = self.stmt(s, states, top)
            states = list({(a, b, e): (a, b, c, e) for a, b, c, e in states}.values())
            if len(states) > 300:
                raise OverflowError
        return states

    def bump(self, states, places):
        out = []
        for ch, notes, tr, env in states:
            fresh = [c for c, src in env if ("#fresh",) in src]
            ps = [c for c in places if not any(c[:len(x)] == x for x in fresh)]
            out.append((ch | frozenset(ps), notes + tuple(("call", c) for c in sorted(ps) if c == ("*",) or self.watched(c)), tr, env))
        return out

    def evalx(self, e, states):
        if e is None:
            return states
        c = self.effects_of(e, ())
        return self.bump(states, c) if c else states

    def assign(self, t, v, states, node):
        if isinstance(t, (ast.Tuple, ast.List)):
            out = states
            for x in t.elts:
                out = self.assign(x, None if not isinstance(v, (ast.Tuple, ast.List)) or len(v.elts) != len(t.elts) else v.elts[t.elts.index(x)], out, node) if not (
                    isinstance(v, ast.AST)) or isinstance(v, (ast.Tuple, ast.List)) else self.assign(x, v, out, node)
            return out
        if isinstance(t, ast.Starred):
            t = t.value
        if isinstance(t, ast.Subscript):
            c = chain(t.value)
            return self.bump(states, [c]) if c else states
        c = chain(t)
        if c is None:
            return states
        out = []
        for ch, notes, tr, env in states:
            if v is None or not self.pure_calls(v):
                out.append((ch | {c}, notes + ((("set", c),) if self.watched(c) else ()), tr, env))
                continue
            nt = self.note(c, v)
            if nt[0] in ("by", "cut") and self.watched(c) and guarded(self.p, self.a, self.f, self, nt[2]) is False:
                out.append((ch, notes + (("zero", c, nt[2]),), tr, env))
            elif nt[0] in ("up", "down", "by", "cut", "parent") and self.watched(c):
                out.append((ch | {c}, notes + (nt,), tr, env))
            elif nt[0] == "zero":
                out.append((ch, notes + (nt,), tr, env))
            else:
                d = dict(env)
                src = set()
                for x in self.sources(v):
                    hit = [e for e in d if overlap(e, x)]
                    if hit:
                        for e in hit:
                            src |= d[e] - {("#fresh",)}
                    elif not (c in ch and x == c):
                        src.add(x)
                if c in self.sources(v):
                    out.append((ch | {c}, notes + ((("set", c),) if self.watched(c) else ()), tr, env))
                    continue
                if self.is_fresh(v):
                    src.add(("#fresh",))
                d[c] = frozenset(src)
                out.append((ch, notes, tr, frozenset(d.items())))
        return out

    def sources(self, v):
        """what a pure expression is computed from: a constructor reads its arguments, not the object whose class it is looked up on"""
        if isinstance(v, ast.Call):
            r = self.p.resolve_expr(v.func, self.f.mod, self.f.cls)
            if not isinstance(r, Class) and isinstance(v.func, ast.Attribute):
                ty = self.a.type_of(v.func.value, self.f)
                r = ty.nested_class(v.func.attr) if isinstance(ty, Class) else None
            if isinstance(r, Class):
                out = set()
                for x in list(v.args) + [k.value for k in v.keywords]:
                    out |= chains(x)
                return out
        return chains(v)

    def assigned_in_loop(self, c):
        for n in self.body_stmts:
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                d = chain(n)
                if d and overlap(d, c):
                    return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr not in PUREMETH:
                d = chain(n.func.value)
                if d and overlap(d, c):
                    return True
            if isinstance(n, ast.Call):
                for x in list(n.args) + [k.value for k in n.keywords]:
                    d = chain(x)
                    if d and overlap(d, c) and not (isinstance(n.func, ast.Name) and n.func.id in PURE):
                        return True
        return False

    def is_fresh(self, v):
        """a new object that shares nothing with what existed before"""
        if not isinstance(v, ast.Call):
            return False
        r = self.p.resolve_expr(v.func, self.f.mod, self.f.cls)
        if isinstance(r, Class):
            return True
        if isinstance(v.func, ast.Attribute):
            ty = self.a.type_of(v.func.value, self.f)
            if isinstance(ty, Class):
                if ty.nested_class(v.func.attr) is not None:
                    return True
                r = r or ty.method(v.func.attr)
        return isinstance(r, Func) and r in self.a.eff and not self.a.eff[r].rets

    def modlevel(self, x):
        return isinstance(x, ast.Name) and x.id not in self.f.params and not self.a.local_defs(self.f).get(x.id)

    def pure_calls(self, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                r = self.p.resolve_expr(n.func, self.f.mod, self.f.cls)
                t = r if isinstance(r, str) else ast.unparse(n.func)
                if isinstance(r, Class):
                    continue
                if isinstance(n.func, ast.Attribute):
                    ty = self.a.type_of(n.func.value, self.f)
                    if isinstance(ty, Class):
                        if ty.nested_class(n.func.attr) is not None:
                            continue
                        r = r or ty.method(n.func.attr)
                if isinstance(r, Func) and r in self.a.eff and not self.a.eff[r].writes and not unknown_effects(self.p, self.a, r):
                    continue
                if not (t in PURE or PUREMOD.match(t) or isinstance(n.func, ast.Attribute) and n.func.attr in PUREMETH - {"tell", "getvalue", "get"}):
                    return False
            elif isinstance(n, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)):
                return False
        return True

    def note(self, c, v):
        """how an assignment to c moves it: ('up'|'down'|'zero'|'cut'|'by', ...)"""
        if v is None:
            return ("set", c)
        if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Sub)):
            if chain(v.left) == c:
                return self.step(c, v.op, v.right)
            if chain(v.right) == c and isinstance(v.op, ast.Add):
                return self.step(c, v.op, v.left)
        if isinstance(v, ast.Subscript) and chain(v.value) == c and isinstance(v.slice, ast.Slice) and v.slice.step is None:
            lo, hi = v.slice.lower, v.slice.upper
            if hi is None and lo is not None:
                k = self.const_of(lo)
                if k is not None:
                    return ("zero", c) if k == 0 else ("down", c)
                return ("cut", c, lo)
            if hi is None and lo is None:
                return ("zero", c)
            return ("set", c)
        if isinstance(v, ast.Attribute) and v.attr == "parent" and chain(v.value) == c or isinstance(v, ast.Call) and ast.unparse(v.func).endswith("dirname") and len(v.args) == 1 and chain(
                v.args[0]) == c:
            return ("parent", c)
        if chain(v) == c:
            return ("zero", c)
        return ("set", c)

    def const_of(self, e):
        v = constev.ev(self.p, e, self.f.mod, self.f.cls, {})
        return v if isinstance(v, (int, float)) and v is not constev.FAIL and not isinstance(v, bool) else None

    def step(self, c, op, e):
        k = self.const_of(e)
        up = isinstance(op, ast.Add)
        if k is not None:
            if k == 0:
                return ("zero", c)
            return ("up" if (k > 0) == up else "down", c)
        if any(isinstance(x, (ast.JoinedStr, ast.List, ast.Tuple, ast.Slice, ast.ListComp)) or isinstance(x, ast.Constant) and not isinstance(x.value, (int, float))
               for x in terms(e)) or isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            return ("set", c)
        return ("by", c, e, up)

    def stmt(self, s, states, top):
        if isinstance(s, (ast.Return, ast.Raise)):
            return []
        if isinstance(s, ast.Break):
            return [] if top else states
        if isinstance(s, ast.Continue):
            if top:
                self.back += states
                return []
            return states
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return states
        if isinstance(s, ast.Expr):
            return self.evalx(s.value, states)
        if isinstance(s, ast.Assign):
            states = self.evalx(s.value, states)
            for t in s.targets:
                states = self.assign(t, s.value, states, s)
            return states
        if isinstance(s, ast.AnnAssign):
            return self.assign(s.target, s.value, self.evalx(s.value, states), s) if s.value is not None else states
        if isinstance(s, ast.AugAssign):
            states = self.evalx(s.value, states)
            c = chain(s.target.value if isinstance(s.target, ast.Subscript) else s.target)
            if c is None or not self.watched(c):
                return self.bump(states, [c]) if c else states
            note = self.step(c, s.op, s.value) if isinstance(s.op, (ast.Add, ast.Sub)) and not isinstance(s.target, ast.Subscript) else ("set", c)
            if note[0] == "by" and guarded(self.p, self.a, self.f, self, note[2]) is False:
                note = ("zero", c, note[2])
            return [(ch | ({c} if note[0] != "zero" else set()), n + (note,), tr, env) for ch, n, tr, env in states]
        if isinstance(s, ast.Delete):
            for t in s.targets:
                c = chain(t.value if isinstance(t, ast.Subscript) else t)
                if c:
                    states = self.bump(states, [c])
            return states
        if isinstance(s, ast.If):
            states = self.evalx(s.test, states)
            v = self.const_of_bool(s.test)
            a = self.block(s.body, [(c, n, tr + ((s.lineno, True),), env) for c, n, tr, env in states], top) if v is not False else []
            b = self.block(s.orelse, [(c, n, tr + ((s.lineno, False),), env) for c, n, tr, env in states], top) if v is not True else []
            return a + b
        if isinstance(s, ast.For):
            states = self.evalx(s.iter, states)
            ic = chain(s.iter)
            once = self.assign(s.target, None, states, s)
            if ic and self.watched(ic) and not isinstance(s.iter, ast.Name):
                pass
            inner = self.block(s.body, once, False)
            return self.block(s.orelse, states + inner, top) if s.orelse else states + inner
        if isinstance(s, ast.While):
            states = self.evalx(s.test, states)
            inner = self.block(s.body, states, False)
            return (self.block(s.orelse, states + inner, top) if s.orelse else states + inner)
        if isinstance(s, ast.With):
            for i in s.items:
                states = self.evalx(i.context_expr, states)
                if i.optional_vars is not None:
                    states = self.assign(i.optional_vars, None, states, s)
            return self.block(s.body, states, top)
        if isinstance(s, ast.Try):
            a = self.block(s.body, states, top)
            if s.orelse:
                a = self.block(s.orelse, a, top)
            out = list(a)
            for h in s.handlers:
                # what the body may have done before it raised is uncertain: counted as a change, never as a lack of one
                ch = set()
                for x in s.body:
                    for n in ast.walk(x):
                        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                            c = chain(n)
                            if c:
                                ch.add(c)
                        if isinstance(n, ast.Call):
                            ch |= self.effects_of(n, ())
                out += self.block(h.body, self.bump(states, ch), top)
            if s.finalbody:
                out = self.block(s.finalbody, out, top)
            return out
        if isinstance(s, ast.Match):
            states = self.evalx(s.subject, states)
            out = list(states)
            for c in s.cases:
                out += self.block(c.body, states, top)
            return out
        if isinstance(s, ast.Assert):
            return self.evalx(s.test, states)
        return self.bump(states, [("*",)])

    def const_of_bool(self, e):
        return bool(e.value) if isinstance(e, ast.Constant) else None


# ---------------------------------------------------------------- amounts
def terms(e):
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return terms(e.left) + terms(e.right)
    return [e]


def guarded(p, a, f, loop, e):
    """the amount e is at least 1: a constant, or a value some check on the way refuses when it is too small"""
    for t in terms(e):
        k = constev.ev(p, t, f.mod, f.cls, {})
        if isinstance(k, int) and k is not constev.FAIL and k > 0:
            return True
    vals = [(t, f) for t in terms(e)]
    if len(vals) == 1 and isinstance(vals[0][0], ast.Name):
        ds = [d for d in a.local_defs(f).get(vals[0][0].id, ()) if isinstance(d, ast.AST)]
        if len(ds) == 1:
            vals.append((ds[0], f))
            for t in terms(ds[0]):
                k = constev.ev(p, t, f.mod, f.cls, {})
                if isinstance(k, int) and k is not constev.FAIL and k > 0:
                    return True
    for t, g in vals:
        c = chain(t)
        if c is None:
            if isinstance(t, ast.Call):
                return None            # a computed amount: not decided
            continue
        nm = c[-1]
        if has_check(f.node, nm, a, f):
            return True
        ty = None
        if isinstance(t, ast.Attribute):
            ty = a.type_of(t.value, g)
            if ty is None:
                ty = factory_types(p, a, t.value, g)
        owners = [ty] if isinstance(ty, Class) else (ty or [])
        if isinstance(t, ast.Attribute) and not owners:
            return None
        good = bool(owners)
        for o in owners:
            if not owner_positive(p, a, o, nm):
                good = False
        if good:
            return True
    return False


def factory_types(p, a, e, f):
    """classes a factory result may have"""
    if isinstance(e, ast.Name):
        ds = a.local_defs(f).get(e.id, ())
        out = []
        for d in ds:
            if not isinstance(d, ast.AST):
                return None
            t = a.type_of(d, f) or factory_types(p, a, d, f)
            if t is None:
                return None
            out += [t] if isinstance(t, Class) else t
        return out or None
    if isinstance(e, ast.Call):
        if f.is_class and isinstance(e.func, ast.Name) and f.params and e.func.id == f.params[0]:
            return [f.cls]
        r = p.resolve_expr(e.func, f.mod, f.cls)
        if r is None and isinstance(e.func, ast.Attribute):
            ty = a.type_of(e.func.value, f)
            if isinstance(ty, Class):
                r = ty.method(e.func.attr)
        if isinstance(r, Func):
            out = []
            for n in own_nodes(r.node):
                if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                    t = a.type_of(n.value, r) or factory_types(p, a, n.value, r)
                    if t is None:
                        return None
                    out += [t] if isinstance(t, Class) else t
            return out or None
    return None


def has_check(fn, nm, a=None, f=None):
    """fn leaves or raises under a comparison that refuses small values of nm (the test may sit in a local, the value too)"""
    defs = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    defs.setdefault(t.id, []).append(n.value)
        elif isinstance(n, ast.NamedExpr):
            defs.setdefault(n.target.id, []).append(n.value)

    def leaves(b):
        return any(isinstance(x, LEAVE) for s in b for x in ast.walk(s))
    for n in ast.walk(fn):
        if isinstance(n, ast.If):
            if leaves(n.body) and refuses(n.test, nm, True, defs) or leaves(n.orelse) and refuses(n.test, nm, False, defs):
                return True
            if leaves(n.orelse) and not leaves(n.body) and refuses(n.test, nm, False, defs):
                return True
        elif isinstance(n, ast.Assert) and refuses(n.test, nm, False, defs):
            return True
        elif isinstance(n, ast.While) and n is not fn and refuses(n.test, nm, False, defs):
            return True
    return False


def refuses(t, nm, pos, defs, depth=0):
    """the condition being pos can be what happens for a too small nm"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return refuses(t.operand, nm, not pos, defs, depth)
    if isinstance(t, ast.BoolOp):
        return any(refuses(v, nm, pos, defs, depth) for v in t.values)
    if isinstance(t, ast.IfExp):
        return any(refuses(v, nm, q, defs, depth) for v in (t.test, t.body, t.orelse) for q in (True, False))
    if isinstance(t, ast.Compare):
        return lower_bound(t, nm, pos, defs)
    if isinstance(t, ast.Name) and t.id in defs and depth < 4 and any(refuses(d, nm, pos, defs, depth + 1) for d in defs[t.id]):
        return True
    if isinstance(t, (ast.Name, ast.Attribute)):
        return not pos and mentions(t, nm, defs)
    return isinstance(t, ast.Call) and mentions(t, nm, defs)


def mentions(e, nm, defs, depth=0):
    for x in ast.walk(e):
        if isinstance(x, ast.Name) and x.id == nm or isinstance(x, ast.Attribute) and x.attr == nm:
            return True
        if isinstance(x, ast.Name) and x.id in defs and depth < 3 and any(isinstance(d, (ast.Name, ast.Attribute, ast.Call, ast.BinOp)) and mentions(d, nm, defs, depth + 1) for d in defs[x.id]):
            return True
    return False


INV = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}


def lower_bound(c, nm, pos, defs):
    xs = [c.left] + c.comparators
    for l, op, r in zip(xs, c.ops, xs[1:]):
        o = type(op) if pos else INV.get(type(op))
        if mentions(l, nm, defs) and o in (ast.Lt, ast.LtE) or mentions(r, nm, defs) and o in (ast.Gt, ast.GtE):
            return True
        if (mentions(l, nm, defs) or mentions(r, nm, defs)) and o in (ast.Eq, ast.NotEq, ast.In, ast.NotIn):
            return True
    return False


def owner_positive(p, a, o, nm):
    for k in [o] + [b for b in o.mro() if b is not o]:
        for f in k.all_funcs():
            if has_check(f.node, nm):
                return True
    vals = []
    for k in o.mro():
        for f in k.all_funcs():
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and t.attr == nm:
                            vals.append((n.value, f))
                        elif isinstance(t, ast.Tuple) and any(isinstance(x, ast.Attribute) and x.attr == nm for x in t.elts):
                            vals.append((None, f))
    ca = o.class_attr(nm)
    if not vals and ca:
        vals = [(ca[1], None)]
    if not vals:
        return False
    for v, f in vals:
        if v is None:
            return False
        pos = False
        for t in terms(v):
            k = constev.ev(p, t, o.mod, o, {})
            if isinstance(k, int) and k is not constev.FAIL and k > 0:
                pos = True
            if isinstance(t, ast.Call) and ast.unparse(t.func).endswith("calcsize"):
                pos = True
        if not pos:
            return False
    return True


ROOTTEST = re.compile(r"\.parent\b|dirname|\.root\b|\.anchor\b|\.drive\b|\.parts\b|os\.sep|ismount|is_mount|splitdrive|len\(")


# ---------------------------------------------------------------- the rule
def rule_b07(chk, p, tier):
    a = effects.analysis(p)
    for f in p.iter_funcs():
        for n in own_nodes(f.node):
            if isinstance(n, ast.While):
                one_while(chk, p, a, f, n)
            elif isinstance(n, ast.For):
                one_for(chk, p, a, f, n)
    recursion(chk, p, a)
    chk.need("while loops", 40)
    chk.need("for loops", 150)


def one_while(chk, p, a, f, n):
    if isinstance(n.test, ast.Constant) and not n.test.value:
        return
    lp = Loop(p, a, f, n)
    key = f"{f.qual}#while {ast.unparse(n.test)[:60]}"
    chk.ok("while loops")
    for x in ast.walk(n.test):
        if isinstance(x, (ast.NamedExpr, ast.Await)):
            return
        if isinstance(x, ast.Call):
            r = p.resolve_expr(x.func, f.mod, f.cls)
            t = r if isinstance(r, str) else ast.unparse(x.func)
            if t in PURE or PUREMOD.match(t) or isinstance(x.func, ast.Attribute) and x.func.attr in PUREMETH:
                continue
            if isinstance(x.func, ast.Attribute) and chain(x.func.value):
                lp.dep.add(chain(x.func.value))
            if not (isinstance(r, Func) and r in a.eff and not a.eff[r].writes):
                chk.undec(key, "the test itself calls " + t)
                return
    if lp.const and not lp.exits and not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Call)) for x in lp.body_stmts):
        chk.violation("endless", key, "the loop has no exit", f.where(n))
        return
    try:
        back = lp.run()
    except OverflowError:
        chk.undec(key, "too many paths")
        return
    chk.ok("paths back to a loop head", len(back))
    for ch, notes, tr in back:
        eff = set(ch)
        notes = tuple(x for x in notes if len(x) < 2 or x[1] in eff or x[0] == "zero")
        if any(c != ("*",) and not any(len(x) > 1 and x[1] == c for x in notes) for c in eff):
            notes += (("set", ()),)
        path = ", ".join(f"line {ln} {'taken' if t else 'not taken'}" for ln, t in tr) or "the only path"
        if not eff:
            if lp.const and not lp.exits:
                chk.undec(key, "left only by an exception")
                continue
            z = next((x for x in notes if x[0] == "zero"), None)
            if z and len(z) > 2:
                chk.violation("zero-step", key, f"{'.'.join(z[1])} moves by {ast.unparse(z[2])}, which nothing keeps from being zero ({path})", f.where(n))
            elif z:
                chk.violation("no-progress", key, f"a path back to the head moves {'.'.join(z[1])} by nothing ({path})", f.where(n))
            elif any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in lp.body_stmts):
                continue
            else:
                chk.violation("no-progress", key, f"a path back to the head changes nothing the loop's exits depend on ({path})", f.where(n))
            continue
        if ("*",) in eff or any(x[0] in ("call", "store", "set") for x in notes):
            continue
        # only steps of known shape
        if all(x[0] in ("by", "cut") for x in notes):
            if lp.const:
                continue
            if all(guarded(p, a, f, lp, x[2]) is None for x in notes):
                chk.undec(key, "step size not bounded by the analysis")
            continue
        if any(x[0] == "parent" for x in notes):
            tests = [ast.unparse(n.test)] + [ast.unparse(t) for t, _ in lp.exits]
            if any(ROOTTEST.search(t) for t in tests) or compares_old_new(lp):
                chk.ok("walks up a directory tree that stop at the root")
            else:
                chk.violation("past-root", key, f"the walk to the parent directory never notices the root, whose parent is itself ({path})", f.where(n))
            continue
        wrong_way(chk, lp, f, n, key, notes, path)
    chk.sample(f"{key}: {len(back)} paths back to the head, each changes {sorted('.'.join(d) for d in lp.dep)[:4]}")


def compares_old_new(lp):
    """some exit compares two names where one is assigned from the other's parent"""
    for t, _ in lp.exits:
        for c in ast.walk(t):
            if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.Eq, ast.NotEq, ast.Is)) and chain(c.left) and chain(c.comparators[0]):
                return True
    return False


def wrong_way(chk, lp, f, n, key, notes, path):
    t = n.test
    if lp.const or not isinstance(t, ast.Compare) or len(t.ops) != 1:
        return
    exit_tests = [x for x, _ in lp.exits]
    for left, op, right in ((t.left, t.ops[0], t.comparators[0]), (t.comparators[0], FLIP.get(type(t.ops[0]), lambda: None)(), t.left)):
        c = chain(left)
        if c is None and isinstance(left, ast.Call) and ast.unparse(left.func) == "len" and left.args:
            c = chain(left.args[0])
        if c is None or op is None:
            continue
        mine = [x for x in notes if len(x) > 1 and x[1] == c]
        if not mine or any(x[0] not in ("up", "down", "zero") for x in mine) or any(overlap(c, y[1]) and y[1] != c for y in notes if len(y) > 1):
            continue
        if any(lp.assigned_in_loop(d) for d in chains(right)):
            continue
        if any(overlap(c, d) for e in exit_tests for d in chains(e)):
            continue
        dirs = {x[0] for x in mine}
        if isinstance(op, (ast.Lt, ast.LtE)) and dirs <= {"down", "zero"} or isinstance(op, (ast.Gt, ast.GtE)) and dirs <= {"up", "zero"}:
            chk.violation("wrong-way", key, f"{'.'.join(c)} moves away from the bound the loop waits for ({path})", f.where(n))


FLIP = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def one_for(chk, p, a, f, n):
    chk.ok("for loops")
    it = n.iter
    key = f"{f.qual}#for {ast.unparse(it)[:60]}"
    t = None
    if isinstance(it, ast.Call):
        r = p.resolve_expr(it.func, f.mod, f.cls)
        t = r if isinstance(r, str) else ast.unparse(it.func)
    leaves = any(isinstance(x, (ast.Break, ast.Return, ast.Raise)) for s in n.body for x in ast.walk(s))
    if t in ("itertools.count", "itertools.cycle", "itertools.repeat") and not (t == "itertools.repeat" and len(it.args) > 1):
        if not leaves and not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Call)) for s in n.body for x in ast.walk(s)):
            chk.violation("endless", key, "an endless iteration without an exit", f.where(n))
        return
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "iter" and len(it.args) == 2:
        return
    src = chain(it)
    if src is None and isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("enumerate", "iter") and it.args:
        src = chain(it.args[0])
    if src is None:
        return
    for s in n.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend", "insert", "add") and chain(x.func.value) == src:
                if not leaves and not rebinds(n, src):
                    chk.violation("grows-while-iterated", key, f"{ast.unparse(x)[:60]} extends the list the loop is walking", f.where(x))
            if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and chain(x.target) == src and isinstance(x.value, (ast.List, ast.ListComp)) and not leaves:
                chk.violation("grows-while-iterated", key, f"{ast.unparse(x)[:60]} extends the list the loop is walking", f.where(x))


def rebinds(n, src):
    return any(isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Store) and chain(x) == src for s in n.body for x in ast.walk(s))


def recursion(chk, p, a):
    ty = rules_names.Types(p)
    for f in p.iter_funcs():
        if f.is_gen:
            continue
        for n in own_nodes(f.node):
            self_call(chk, p, a, ty, f, n)
    chk.need("recursive calls", 3)


def self_call(chk, p, a, ty, f, n):
    args = None
    if isinstance(n, ast.Call):
        tg = p.resolve_expr(n.func, f.mod, f.cls) if isinstance(n.func, ast.Name) else None
        recv = None
        if isinstance(n.func, ast.Name) and tg is f and f.cls is None:
            args = list(n.args)
        elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and f.cls is not None and n.func.attr == f.name and not f.is_prop:
            recv = n.func.value.id
            if f.params and recv == f.params[0] and not f.is_static or recv == f.cls.node.name and (f.is_static or f.is_class):
                args = list(n.args)
        if args is None:
            return
        chk.ok("recursive calls")
        kws = {k.arg: k.value for k in n.keywords}
        ps = f.params[1:] if f.cls is not None and not f.is_static else f.params
        same = True
        for i, q in enumerate(ps):
            v = args[i] if i < len(args) else kws.get(q)
            if v is None:
                same = same and q in {x.arg for x, d in zip((f.node.args.posonlyargs + f.node.args.args)[::-1], f.node.args.defaults[::-1])} and False
            elif not (isinstance(v, ast.Name) and v.id == q):
                same = False
        stores = {x.id for x in own_nodes(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if same and not (stores & set(ps)) and f in a.eff and not a.eff[f].writes and not a.eff[f].unres:
            chk.violation("endless-recursion", f"{f.qual}#{ast.unparse(n)[:60]}", "the function calls itself with the same arguments and nothing changed", f.where(n))
    elif f.is_prop and isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr == f.name and isinstance(n.value, ast.Name) and f.params and n.value.id == f.params[0]:
        chk.violation("endless-recursion", f"{f.qual}#{n.attr}", f"the property {f.name} reads itself", f.where(n))
    elif f.is_setter and isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == f.name and isinstance(n.value, ast.Name) and f.params and n.value.id == f.params[0]:
        chk.violation("endless-recursion", f"{f.qual}#{n.attr}", f"the setter of {f.name} assigns the property itself", f.where(n))
    elif f.name in ("__eq__", "__ne__") and isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.left, ast.Name) and isinstance(n.comparators[0], ast.Name) and len(
            f.params) == 2 and [n.left.id, n.comparators[0].id] == f.params and isinstance(n.ops[0], ast.Eq if f.name == "__eq__" else ast.NotEq):
        chk.violation("endless-recursion", f"{f.qual}#{ast.unparse(n)}", "the comparison compares the same two objects again", f.where(n))
