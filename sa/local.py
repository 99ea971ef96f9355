"""Local edits: where a function differs from its confirmed text in one place, that place alone is evaluated, old and new, as a
function of every name it uses, and the two value-flow summaries are compared. What surrounds the place is the same on both
sides, so its shape (loops, long parsers) does not have to be modelled; what is known there (enclosing and preceding tests) is
stated in front of both sides. Only a certain difference of the two summaries counts."""
import ast
import copy
import gzip
import json
import os

import compare
import conform
import effects
import project
import summ
import terms
import vf

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, "spec", "base.json.gz")
LOGGING = {"debug", "info", "warning", "error", "critical", "exception", "log", "warn"}
SIMPLE = (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Raise, ast.Assert, ast.Delete)
SCOPED = (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)
_base = []


def base_project():
    if not _base:
        src = json.load(gzip.open(BASE, "rt", encoding="utf-8"))
        _base.append(project.Project(overrides={os.path.join(project.REPO, r): s for r, s in src.items()}))
    return _base[0]


def freeze(p):
    src = {os.path.relpath(m.path, project.REPO): open(m.path, encoding="utf-8").read() for m in p.modules.values()}
    with open(BASE, "wb") as f:
        f.write(gzip.compress(json.dumps(src, sort_keys=True).encode(), mtime=0))


# ------------------------------------------------------------------ text normal form
def is_log(s):
    if not isinstance(s, ast.Expr) or not isinstance(s.value, ast.Call):
        return False
    f = s.value.func
    return isinstance(f, ast.Attribute) and f.attr in LOGGING and "log" in ast.unparse(f.value).lower()


class Norm(ast.NodeTransformer):
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Constant, ast.Name)) or isinstance(s, (ast.Pass, ast.Global)) or is_log(s):
                continue
            if isinstance(s, ast.AnnAssign) and s.value is None:
                continue
            s = self.visit(s)
            if isinstance(s, ast.If) and not s.body and not s.orelse and not [c for c in ast.walk(s.test) if isinstance(c, (ast.Call, ast.NamedExpr))]:
                continue
            if isinstance(s, ast.If) and not s.body and s.orelse:
                s = ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, [])
            out.append(s)
        return out

    def generic_visit(self, node):
        for f, v in ast.iter_fields(node):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, f, self.block(v))
            elif isinstance(v, list):
                setattr(node, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
        return node

    def visit_AnnAssign(self, s):
        return self.generic_visit(ast.Assign([s.target], s.value))


def norm(node):
    n = Norm().visit(copy.deepcopy(node))
    n.returns = None
    n.type_comment = None
    for a in ast.walk(n.args):
        if isinstance(a, ast.arg):
            a.annotation = None
            a.type_comment = None
    return n


def dump(x):
    return [dump(y) for y in x] if isinstance(x, list) else ast.dump(x) if isinstance(x, ast.AST) else repr(x)


def bound(fn):
    """names a function binds, its parameters included, in order of appearance"""
    out = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs + [x for x in (fn.args.vararg, fn.args.kwarg) if x]]

    def go(n):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
            out.append(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name and n.name not in out:
            out.append(n.name)
        if isinstance(n, ast.arg) and n.arg not in out:
            out.append(n.arg)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn and n.name not in out:
            out.append(n.name)
        for c in ast.iter_child_nodes(n):
            go(c)
    for s in fn.body:
        go(s)
    return out


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        return ast.copy_location(ast.Name(self.m.get(n.id, n.id), n.ctx), n)

    def visit_arg(self, n):
        n.arg = self.m.get(n.arg, n.arg)
        return n

    def visit_ExceptHandler(self, n):
        if n.name:
            n.name = self.m.get(n.name, n.name)
        return self.generic_visit(n)


def align(r, n):
    """new text with the names of locals that were merely renamed put back"""
    br, bn = bound(r), bound(n)
    gone, fresh = [x for x in br if x not in bn], [x for x in bn if x not in br]
    if gone and len(gone) == len(fresh):
        return Rename(dict(zip(fresh, gone))).visit(n)
    return n


# ------------------------------------------------------------------ the place
class Level:
    def __init__(self, kind, r, n, frames):
        self.kind, self.r, self.n, self.frames = kind, r, n, frames


BLOCKS = {ast.If: ("test", ("body", "orelse")), ast.While: ("test", ("body", "orelse")), ast.For: ("iter", ("body", "orelse")),
          ast.With: (None, ("body",)), ast.Try: (None, ("body", "orelse", "finalbody"))}


def blocks(r, n, frames):
    """levels (smallest first) at which two statement lists differ in one place"""
    i = 0
    while i < len(r) and i < len(n) and dump(r[i]) == dump(n[i]):
        i += 1
    j = 0
    while j < len(r) - i and j < len(n) - i and dump(r[-1 - j]) == dump(n[-1 - j]):
        j += 1
    mr, mn = r[i:len(r) - j], n[i:len(n) - j]
    if not mr and not mn:
        return []
    fr = frames + [("prefix", n[:i], n[len(n) - j:])]
    here = Level("stmts", mr, mn, fr)
    out = []
    if len(mr) == len(mn) == 1 and type(mr[0]) is type(mn[0]):
        out = inner(mr[0], mn[0], fr)
    return out + [here]


def inner(a, b, fr):
    t = type(a)
    if t in BLOCKS:
        head, bodies = BLOCKS[t]
        d = [f for f in a._fields if f != "type_comment" and dump(getattr(a, f)) != dump(getattr(b, f))]
        if len(d) != 1:
            return []
        f = d[0]
        if f == head:
            x, y = getattr(a, f), getattr(b, f)
            lv = exprs(x, y, fr + ([("loop", b)] if t is ast.While else []))
            return lv + [Level("bool" if head == "test" else "expr", x, y, fr + ([("loop", b)] if t is ast.While else []))]
        if f in bodies:
            g = {ast.If: ("if", b.test if hasattr(b, "test") else None, f == "body"), ast.While: ("while", b), ast.For: ("loop", b)}.get(t, ("other", b))
            if t in (ast.While, ast.For) and f == "orelse":
                g = ("other", b)
            return blocks(getattr(a, f), getattr(b, f), fr + [g])
        if f == "handlers" and len(a.handlers) == len(b.handlers):
            k = [i for i in range(len(a.handlers)) if dump(a.handlers[i]) != dump(b.handlers[i])]
            if len(k) == 1:
                x, y = a.handlers[k[0]], b.handlers[k[0]]
                if dump(x.type) == dump(y.type) and x.name == y.name:
                    return blocks(x.body, y.body, fr + [("other", b)])
        return []
    if t in SIMPLE:
        d = [f for f in a._fields if f != "type_comment" and dump(getattr(a, f)) != dump(getattr(b, f))]
        if len(d) == 1 and d[0] in ("value", "test", "exc") and isinstance(getattr(a, d[0]), ast.expr) and isinstance(getattr(b, d[0]), ast.expr):
            x, y = getattr(a, d[0]), getattr(b, d[0])
            lv = exprs(x, y, fr)
            if t in (ast.Assign, ast.Return) and not isinstance(x, (ast.Constant, ast.Tuple, ast.List, ast.Yield, ast.Await)):
                lv = lv + [Level("expr", x, y, fr)]
            return lv
    return []


WEAK = (ast.Constant, ast.Tuple, ast.List, ast.Set, ast.Dict, ast.Starred, ast.Slice, ast.JoinedStr, ast.FormattedValue, ast.Lambda, ast.GeneratorExp)


def exprs(a, b, fr):
    """levels strictly inside two expressions of one kind, smallest first"""
    if type(a) is not type(b):
        return []
    d = []
    for f in a._fields:
        x, y = getattr(a, f), getattr(b, f)
        if dump(x) == dump(y):
            continue
        if isinstance(x, ast.expr) and isinstance(y, ast.expr):
            d.append((x, y))
        elif isinstance(x, list) and len(x) == len(y):
            d += [(u, v) for u, v in zip(x, y) if dump(u) != dump(v)]
        else:
            return []
    if len(d) != 1:
        return []
    x, y = d[0]
    if isinstance(x, (ast.keyword, ast.comprehension)) and type(x) is type(y):
        q = [(u, v) for u, v in ((getattr(x, g), getattr(y, g)) for g in x._fields) if dump(u) != dump(v)]
        if len(q) == 1 and isinstance(q[0][0], list) and len(q[0][0]) == len(q[0][1]) == 1:
            q = [(q[0][0][0], q[0][1][0])]
            if isinstance(x, ast.comprehension):
                return exprs(*q[0], fr) + [Level("bool", *q[0], fr)]
        if len(q) != 1 or not isinstance(q[0][0], ast.expr) or not isinstance(q[0][1], ast.expr):
            return []
        x, y = q[0]
    if not isinstance(x, ast.expr) or not isinstance(y, ast.expr):
        return []
    out = exprs(x, y, fr)
    if not isinstance(x, WEAK) and not isinstance(y, WEAK) and isinstance(getattr(x, "ctx", ast.Load()), ast.Load):
        out = out + [Level("bool" if isinstance(a, (ast.BoolOp, ast.IfExp)) and (not isinstance(a, ast.IfExp) or x is a.test) and isinstance(x, (ast.Compare, ast.BoolOp, ast.UnaryOp)) else "expr", x, y, fr)]
    return out


# ------------------------------------------------------------------ names
def names(x, ctx=None):
    xs = x if isinstance(x, list) else [x]
    return {n.id for s in xs for n in ast.walk(s) if isinstance(n, ast.Name) and (ctx is None or isinstance(n.ctx, ctx))}


def words(x):
    """attribute, method and global names, counted"""
    out = {}
    for s in x if isinstance(x, list) else [x]:
        for n in ast.walk(s):
            w = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
            if w:
                out[w] = out.get(w, 0) + 1
    return out


CHANGES = {"append", "extend", "insert", "add", "update", "pop", "popitem", "remove", "discard", "clear", "setdefault", "sort", "reverse", "write",
           "writelines", "seek", "read", "readline", "truncate", "push", "appendleft", "popleft"}


def reads(x):
    """names read by an expression; comprehension targets are its own"""
    out = names(x, ast.Load)
    for n in ast.walk(x):
        if isinstance(n, ast.comprehension):
            own = names(n.target)
            outer = {m.id for g in ast.walk(x) if isinstance(g, ast.Name) and isinstance(g.ctx, ast.Load) for m in [g] if g.id not in own}
            out &= outer | (names(n.iter, ast.Load) - own)
    return out


def exposed(body, done=frozenset()):
    """-> (names read before they are surely set, names surely set afterwards)"""
    out, done = set(), set(done)

    def rd(x):
        if x is not None:
            for y in x if isinstance(x, list) else [x]:
                out.update(reads(y) - done)

    def sub(b, d):
        e, d2 = exposed(b, d)
        out.update(e)
        return d2
    for s in body:
        if isinstance(s, ast.Assign):
            rd(s.value)
            for t in s.targets:
                rd(t)
                done |= names(t, ast.Store)
        elif isinstance(s, ast.AugAssign):
            rd(s.value)
            out.update(names(s.target) - done)
            done |= names(s.target, ast.Store)
        elif isinstance(s, ast.If):
            rd(s.test)
            d1, d2 = sub(s.body, done), sub(s.orelse, done)
            done |= d2 if leaves_early(s.body) else d1 if leaves_early(s.orelse) else d1 & d2
        elif isinstance(s, ast.For):
            rd(s.iter)
            sub(s.body, done | names(s.target, ast.Store))
            sub(s.orelse, done)
        elif isinstance(s, ast.While):
            rd(s.test)
            sub(s.body, done)
            sub(s.orelse, done)
        elif isinstance(s, ast.With):
            for i in s.items:
                rd(i.context_expr)
                done |= names(i.optional_vars, ast.Store) if i.optional_vars is not None else set()
            done |= sub(s.body, done)
        elif isinstance(s, ast.Try):
            d = sub(s.body, done)
            sub(s.orelse, d)
            ds = [sub(h.body, done | ({h.name} if h.name else set())) for h in s.handlers]
            sub(s.finalbody, done)
            if all(leaves_early(h.body) for h in s.handlers):
                done |= d
        else:
            out.update(names(s, ast.Load) - done)
    return out, done


def touched(x):
    """names whose object the statements may change in place"""
    out = set()
    for s in x if isinstance(x, list) else [x]:
        for n in ast.walk(s):
            y = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CHANGES:
                y = n.func.value
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                y = n.value
            while isinstance(y, (ast.Subscript, ast.Attribute)):
                y = y.value
            if isinstance(y, ast.Name):
                out.add(y.id)
    return out


def chain(y):
    """dotted text of a name with attributes, as far as it goes"""
    parts = []
    while True:
        if isinstance(y, ast.Attribute):
            parts.append(y.attr)
            y = y.value
        elif isinstance(y, ast.Subscript):
            parts = []
            y = y.value
        elif isinstance(y, ast.Name):
            return ".".join([y.id] + parts[::-1])
        else:
            return None


def changes(x):
    """dotted texts of what the statements may change in place"""
    out = set()
    for s in x if isinstance(x, list) else [x]:
        for n in ast.walk(s):
            y = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CHANGES:
                y = chain(n.func.value)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                y = chain(n)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                y = chain(n.value)
            if y:
                out.add(y)
    return out


def used(t):
    """dotted texts an expression looks at"""
    out = set()

    def go(n):
        if isinstance(n, (ast.Attribute, ast.Name)):
            c = chain(n)
            if c and isinstance(n, ast.Attribute) and not isinstance(n.value, ast.Subscript):
                out.add(c)
                return
            if c:
                out.add(c)
        for m in ast.iter_child_nodes(n):
            go(m)
    go(t)
    return out


def disturbed(t, dead):
    """an assignment or in-place change in dead concerns what the test looks at"""
    us = used(t)
    return any(d == u or u.startswith(d + ".") or d.startswith(u + ".") for d in dead for u in us)


def tail(level):
    """what falling out of the place amounts to"""
    for fr in reversed(level.frames):
        if fr[0] == "prefix":
            if fr[2]:
                return "next"
        elif fr[0] in ("loop", "while"):
            return "continue"
        elif fr[0] == "other" and not isinstance(fr[1], ast.With):
            return "next"
    return "return"


def live(level, fn):
    """names read after the place"""
    out, done = set(), set()
    for fr in reversed(level.frames):
        if fr[0] == "prefix":
            e, done = exposed(fr[2], done)
            out |= e
        elif fr[0] in ("loop", "while"):
            for part in (level.r, level.n):       # the next turn
                out |= turn(fr[1], level, part) - done
        elif fr[0] == "other":
            for h in getattr(fr[1], "handlers", []):
                out |= exposed(h.body)[0]
            out |= exposed(getattr(fr[1], "finalbody", []))[0] | exposed(getattr(fr[1], "orelse", []), done)[0]
    for s in fn.body:
        for n in ast.walk(s):
            if isinstance(n, SCOPED):
                out |= names(n, ast.Load)
    return out


def turn(loop, level, part):
    """what one turn of the loop reads before setting it, with this version of the place in it"""
    class Put(ast.NodeTransformer):
        def generic_visit(self, node):
            for f, v in ast.iter_fields(node):
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                    new, hit = [], False
                    for x in v:
                        if isinstance(level.n, list) and level.n and any(getattr(x, 'lineno', 0) == getattr(y, 'lineno', -1) and ast.dump(x) == ast.dump(y) for y in level.n):
                            if not hit:
                                new += part
                            hit = True
                        else:
                            new.append(self.visit(x))
                    setattr(node, f, new)
            return node
    body = Put().generic_visit(Shallow(list(loop.body))).body
    head = [ast.Expr(loop.test)] if isinstance(loop, ast.While) else []
    pre = names(loop.target, ast.Store) if isinstance(loop, ast.For) else set()
    e, d = exposed(head + body, pre)
    if isinstance(level.n, list) and not level.n:
        e |= exposed(part, set())[0]
    return e


def Shallow(body):
    def cp(s):
        s2 = copy.copy(s)
        for f in ("body", "orelse", "finalbody"):
            if isinstance(getattr(s2, f, None), list) and not isinstance(s2, SCOPED):
                setattr(s2, f, [cp(x) for x in getattr(s2, f)])
        if isinstance(s2, ast.Try):
            s2.handlers = [cp(h) for h in s2.handlers]
        return s2
    return ast.Module([cp(x) for x in body], [])


def leaves_early(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def known_tests(level):
    """[(test, polarity)] that hold at the place"""
    out, dead = [], set()
    for fr in reversed(level.frames):
        if fr[0] == "prefix":
            for s in reversed(fr[1]):
                if isinstance(s, ast.If) and leaves_early(s.body) and not s.orelse and not disturbed(s.test, dead):
                    out.append((s.test, False))
                    continue
                if isinstance(s, ast.Assert) and not disturbed(s.test, dead):
                    out.append((s.test, True))
                dead |= names(s, ast.Store) | changes(s)
        elif fr[0] == "if":
            if not disturbed(fr[1], dead):
                out.append((fr[1], fr[2]))
        elif fr[0] == "while":
            if not disturbed(fr[1].test, dead):
                out.append((fr[1].test, True))
            dead |= names(fr[1], ast.Store) | changes(fr[1])
        elif fr[0] == "loop":
            dead |= names(fr[1], ast.Store) | changes(fr[1])
    return out


def definitions(level):
    """plain assignments in front of the place whose names keep their value up to it"""
    out, dead = [], set()
    last = level.frames[-1]
    if last[0] != "prefix":
        return []
    mine = touched(level.r) | touched(level.n)      # another name may stand for the object that these change
    for s in reversed(last[1]):
        st = names(s, ast.Store)
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and not (st | names(s)) & dead and not [c for c in ast.walk(s.value) if isinstance(c, ast.Call)
                                                                                     and isinstance(c.func, ast.Attribute) and c.func.attr in ("pop", "read", "recv", "next", "readline")] \
                and (s.targets[0].id not in mine or isinstance(s.value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Constant))
                     or isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ("list", "dict", "set", "sorted", "bytearray")):
            out.append(s)
        if not isinstance(s, ast.If) or st:
            dead |= st
        dead |= touched(s)
    return out[::-1]


# ------------------------------------------------------------------ evaluation
class Escapes(ast.NodeTransformer):
    def __init__(self, outs):
        self.outs, self.depth = outs, 0

    def leave(self, tag):
        return ast.Return(ast.Tuple([ast.Constant(tag)] + [ast.Name(o, ast.Load()) for o in self.outs], ast.Load()))

    def visit_For(self, n):
        self.depth += 1
        n.body = [self.visit(s) for s in n.body]
        self.depth -= 1
        n.orelse = [self.visit(s) for s in n.orelse]
        return n

    visit_While = visit_For

    def visit_Break(self, n):
        return n if self.depth else self.leave("break")

    def visit_Continue(self, n):
        return n if self.depth else self.leave("continue")

    def visit_Return(self, n):
        v = n.value if n.value is not None else ast.Constant(None)
        return ast.Return(ast.Tuple([ast.Constant("return"), v] + [ast.Name(o, ast.Load()) for o in self.outs if o in self.kept], ast.Load()))

    kept = ()

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef


def region(f, kind, part, ins, outs, tests, defs, kept, end="next"):
    part = copy.deepcopy(part)
    body = [copy.deepcopy(d) for d in defs]
    for t, pol in reversed(tests):
        t = copy.deepcopy(t)
        body.append(ast.If(ast.UnaryOp(ast.Not(), t) if pol else t, [ast.Return(ast.Constant("elsewhere"))], []))
    if kind == "expr":
        body.append(ast.Return(part))
    elif kind == "bool":
        body.append(ast.Return(ast.IfExp(part, ast.Constant(True), ast.Constant(False))))
    else:
        e = Escapes(outs)
        e.kept = kept
        body += [e.visit(s) for s in part] + ([e.visit(ast.Return(None))] if end == "return" else [e.leave(end)])
    first = [f.params[0]] if f.cls is not None and not f.is_static and f.params else []
    ann = {a.arg: a.annotation for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
    args = [ast.arg(x, None if x not in f.pristine else ann.get(x)) for x in first + [x for x in ins if x not in first]]
    node = ast.FunctionDef("__place", ast.arguments([], args, None, [], [], None, []), body,
                           [d for d in f.node.decorator_list if ast.unparse(d) in ("staticmethod", "classmethod")], None)
    ast.fix_missing_locations(node)
    for x in ast.walk(node):
        if isinstance(x, (ast.expr, ast.stmt)):
            x.lineno = f.node.lineno
            x.end_lineno = f.node.lineno
    return project.Func(f.mod, f.cls, node)


def summary(p, f, spec, node_args):
    g = region(f, *node_args)
    return conform.summary_of(p, g, spec["modular"])


def judge(p, q, f, fb, level, spec, known, fn):
    """-> [(key, verdict, why)]"""
    r, n = level.r, level.n
    both = (r if isinstance(r, list) else [r]) + (n if isinstance(n, list) else [n])
    if any(isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Yield, ast.YieldFrom, ast.Await, ast.Nonlocal, ast.NamedExpr, ast.Import, ast.ImportFrom)) for s in both for x in ast.walk(s)):
        return []
    text = " ".join(ast.unparse(s) for s in both)
    if "hashlib" in text:
        return []       # objects with a running state of their own
    if level.kind == "stmts":
        def plus(b):
            return {x.target.id for s in b for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
        if plus(r) & touched(n) - plus(n) or plus(n) & touched(r) - plus(r):
            return []
        ea, eb = escapes(r), escapes(n)
        if ea != eb and (not r or not n) and not only_escape(level):
            return []   # an early exit added or removed: whether the rest would have done anything is not known
        if ea != eb and r and n:
            suffix = level.frames[-1][2]
            if not suffix:
                return [] if tail(level) == "next" else judge_parts(p, q, f, fb, level, spec, known, fn)
            level = Level("stmts", r + suffix, n + suffix, level.frames[:-1] + [("prefix", level.frames[-1][1], [])])
            if tail(level) == "next" or len(ast.dump(ast.Module(suffix, []))) > 6000:
                return []
    return judge_parts(p, q, f, fb, level, spec, known, fn)


def escapes(b):
    """how the statements leave the place, nested loops aside"""
    out = []

    def go(n, depth):
        if isinstance(n, SCOPED):
            return
        if isinstance(n, ast.Return) or isinstance(n, (ast.Break, ast.Continue)) and not depth:
            out.append(type(n).__name__)
        for c in ast.iter_child_nodes(n):
            go(c, depth + isinstance(n, (ast.For, ast.While)))
    for s in b:
        go(s, 0)
    return sorted(out)


def judge_parts(p, q, f, fb, level, spec, known, fn):
    r, n = level.r, level.n
    both = (r if isinstance(r, list) else [r]) + (n if isinstance(n, list) else [n])
    loc = set(bound(fn)) | set(bound(norm(fb.node)))
    here = bound(ast.FunctionDef("x", ast.arguments([], [], None, [], [], None, []), [s if isinstance(s, ast.stmt) else ast.Expr(s) for s in both], [], None))
    for s in both:
        for x in ast.walk(s):
            if isinstance(x, ast.comprehension):
                inner_only = names(x.target)
                loc |= inner_only
    outs, kept = [], ()
    if level.kind == "stmts":
        lv = live(level, fn)
        tch = touched(both)
        kept = tuple(sorted((tch & loc) - {f.params[0] if f.params and f.cls is not None else ""}))
        outs = sorted(((names(both, ast.Store) | {x for x in here}) & lv & loc) | set(kept))
        comp = {x for s in both for c in ast.walk(s) if isinstance(c, ast.comprehension) for x in names(c.target)}
        common = set(bound(fn)) & set(bound(norm(fb.node)))
        outs = [o for o in outs if o not in comp and o in common]
    compare.CALLEES[0] = p
    compare.SETTLED.clear()
    compare.SETTLED.update(texts(p, f, fn))
    try:
        return stages(p, q, f, fb, level, spec, known, both, loc, outs, kept)
    finally:
        compare.SETTLED.clear()


def stages(p, q, f, fb, level, spec, known, both, loc, outs, kept):
    r, n = level.r, level.n
    res = None
    for stage in range(3):
        tests = known_tests(level) if stage else []
        defs = definitions(level) if stage else []
        if stage == 2:
            # a name that stands for freely chosen text is as good as the text itself
            free = freely(level, tests, defs)
            if not free or not any(v == "unknown" and first.get(k) == "diff" for k, v, _ in res):
                break
            defs = [d for d in defs if d not in free]
        ins = sorted(((names(both) | names([t for t, _ in tests]) | names(defs)) & (loc | names([t for t, _ in tests]) & loc)) | set(outs))
        a, _ = summary(q, fb, spec, (level.kind, r, ins, outs, tests, defs, kept, tail(level)))
        b, _ = summary(p, f, spec, (level.kind, n, ins, outs, tests, defs, kept, tail(level)))
        if a is None or b is None:
            return []
        out = conform.diff_func(a, b, known, {"ret", "reject", "set", "in", "out", "fx"}, None)
        out = [(k, "unknown", "") if v == "diff" and stale(a, b, k) else (k, v, w) for k, v, w in out]
        if os.environ.get("SA_LOCAL"):
            print("   stage", stage, level.kind, [ast.unparse(x)[:80] for x in (r if isinstance(r, list) else [r])], "->", [ast.unparse(x)[:80] for x in (n if isinstance(n, list) else [n])], "outs", outs, out)
            if os.environ["SA_LOCAL"] == "2":
                for z in sorted(set(a) | set(b)):
                    print("      ", z, compare.short(a[z], 300) if a.get(z) is not None else None, "|||", compare.short(b[z], 300) if b.get(z) is not None else None)
        if stage == 0:
            res = out
            first = {k: v for k, v, _ in out}
            if all(v == "same" for _, v, _ in out):
                return out
        elif stage == 2:
            again = {k: (v, w) for k, v, w in out}
            res = [(k, *again[k]) if v == "unknown" and first.get(k) == "diff" and again.get(k, ("", ""))[0] == "diff" else (k, v, w) for k, v, w in res]
        else:
            again = {k: v for k, v, _ in out}
            why = {k: w for k, _, w in out}
            res = [(k, v if v != "diff" or again.get(k, "same") == "diff" else ("same" if again.get(k, "same") == "same" else "unknown"), w) for k, v, w in res]
            res = [(k, "diff", why[k]) if v == "unknown" and first[k] == "unknown" and again.get(k) == "diff" else (k, v, w) for k, v, w in res]
    return res


def texts(p, f, fn):
    """{name: text methods that its values may have gone through}"""
    fam = {}

    def of(e, deep=True):
        if isinstance(e, ast.Name):
            return fam.get(e.id, set())
        if isinstance(e, (ast.IfExp, ast.BoolOp)):
            return set().union(*(of(x) for x in ([e.body, e.orelse] if isinstance(e, ast.IfExp) else e.values)))
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return of(e.elt)
        if isinstance(e, (ast.List, ast.Tuple)):
            return set().union(*(of(x) for x in e.elts)) if e.elts else set()
        if isinstance(e, ast.Subscript):
            if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Attribute) and e.value.func.attr in ("split", "splitlines") and not e.value.args:
                return of(e.value)
            return of(e.value) if isinstance(e.value, ast.Name) else of(e.value) - set(compare.STRIPS)
        if isinstance(e, ast.Attribute) and deep and isinstance(e.value, ast.Name) and f.cls is not None and f.params and e.value.id == f.params[0]:
            out = set()
            for c in f.cls.mro():
                for m in c.methods.values():
                    for s in ast.walk(m.node):
                        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == e.attr for t in s.targets):
                            out |= of(s.value, False)
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            a, r = e.func.attr, e.func.value
            if a in compare.STRIPS:
                return of(r) | set(compare.STRIPS)
            if a in compare.CASES or a == "replace":
                return of(r) | {a}
            if a in ("split", "splitlines") and not e.args:
                return of(r) | set(compare.STRIPS)
            if a in ("split", "partition", "rpartition", "rsplit", "readlines", "read", "copy", "join", "format"):
                return (of(r) - set(compare.STRIPS)).union(*(of(x) for x in e.args)) if e.args else of(r) - set(compare.STRIPS)
            if isinstance(r, ast.Name) and f.cls is not None and f.params and r.id == f.params[0] and f.cls.method(a) is not None:
                return compare.methods_of(f.cls.method(a).qual)
            if a == "as_posix":
                return {"replace"}
            return set()
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            g = f.mod.funcs.get(e.func.id) if hasattr(f.mod, "funcs") else None
            return (compare.methods_of(g.qual) if g is not None else set()).union(*(of(x) for x in e.args)) if e.args else set()
        return set()

    binds = []
    for s in ast.walk(fn):
        if isinstance(s, ast.Assign):
            binds += [(t, s.value) for t in s.targets]
        elif isinstance(s, (ast.For, ast.comprehension)):
            binds.append((s.target, s.iter))
        elif isinstance(s, (ast.AugAssign, ast.NamedExpr)):
            binds.append((s.target, s.value))
    for _ in range(4):
        for t, v in binds:
            for x in names(t):
                fam[x] = fam.get(x, set()) | of(v)
    return fam


FREELY = {"upper": str.upper, "lower": str.lower, "strip": str.strip}


def freely(level, tests, defs):
    """definitions `x = <name>.upper()` and the like, where nothing else at the place looks at the name and every text
    that is compared could come out of it"""
    parts = [x for y in (level.r, level.n) for x in (y if isinstance(y, list) else [y])]
    out = []
    for d in defs:
        v, maps = d.value, []
        while isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in FREELY and not v.args and not v.keywords:
            maps.append(FREELY[v.func.attr])
            v = v.func.value
        if not maps or not isinstance(v, ast.Name):
            continue
        rest = parts + [t for t, _ in tests] + [e for e in defs if e is not d]
        if v.id in names(rest) or d.targets[0].id in names([t for t, _ in tests] + [e for e in defs if e is not d]):
            continue
        if any(isinstance(c, ast.Constant) and isinstance(c.value, str) and m(c.value) != c.value for x in parts for c in ast.walk(x) for m in maps):
            continue
        out.append(d)
    return out


def stale(a, b, key):
    """the fact looks into a container that was changed on the way: which of its contents is meant is not modelled"""
    for facts in (a, b):
        changed = {x.split(".")[0][4:] for x in facts if x.startswith("in:$") and x != key}
        top = facts.get(key)
        if not changed or top is None:
            continue
        st, seen = list(top.args) if top.op == "tuple" else [top], set()
        st = [x for x in st if isinstance(x, summ.N) and not (top.op == "tuple" and x.op == "p")]
        while st:
            y = st.pop()
            if y.id in seen:
                continue
            seen.add(y.id)
            if y.op not in ("in", "item", "content0", "attr", "store") and any(isinstance(x, summ.N) and x.op == "p" and x.args[0] in changed for x in y.args):
                return True
            if y.op != "content0":
                st.extend(x for x in y.args if isinstance(x, summ.N))
    return False


def redundant(level, fn):
    """a constant store repeated or left out where the name holds nothing else"""
    if level.kind != "stmts":
        return False
    both = level.r + level.n
    if not all(isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant) for s in both) or level.r and level.n:
        return False
    for s in both:
        vals = {ast.dump(x.value) for x in ast.walk(fn) if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == s.targets[0].id}
        if vals - {ast.dump(s.value)}:
            return False
    return True


def only_escape(level):
    """a break or continue alone was added or removed"""
    both = level.r + level.n if level.kind == "stmts" else [None]
    return bool(both) and all(isinstance(s, (ast.Break, ast.Continue)) for s in both)


def coarse(level):
    """the place holds a loop: the model of it may lose what distinguishes the two sides"""
    both = level.r + level.n if level.kind == "stmts" else [level.r, level.n]
    return any(isinstance(x, (ast.For, ast.While, ast.comprehension)) for s in both for x in ast.walk(s))


def accumulates(level):
    loop = next((fr[1] for fr in reversed(level.frames) if fr[0] in ("loop", "while")), None)
    if loop is None:
        return False
    for x in ast.walk(loop):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend", "insert", "add_row", "write", "pop", "push"):
            return True
        if isinstance(x, ast.AugAssign):
            return True
    return False


def changed(p):
    """{qual: (base function, normal form of it, aligned normal form of the current one)} for functions whose text changed"""
    q = base_project()
    out = {}
    for f in p.iter_funcs():
        if f.parent is not None:
            continue
        fb = q.func(f.qual)
        if fb is None:
            continue
        if ast.dump(f.node) == ast.dump(fb.node):
            continue
        a, b = norm(fb.node), norm(f.node)
        if dump(a) == dump(b):
            continue
        b = align(a, b)
        if dump(a) == dump(b):
            continue
        out[f.qual] = (fb, a, b)
    return out


def edits(p, spec):
    """{qual: (where, [(key, verdict, why)])} for every function of the base that differs in one place"""
    if not os.path.exists(BASE):
        return {}
    ch = changed(p)
    if not ch:
        return {}
    q = base_project()
    effects.analysis(p)
    known = set(spec["attrs"]["all"])
    other = {}
    for name, (fb, a, b) in ch.items():
        wa, wb = words(a), words(b)
        other[name] = {w for w in set(wa) | set(wb) if wa.get(w, 0) != wb.get(w, 0)} | {fb.name}
    out = {}
    for name, (fb, a, b) in ch.items():
        f = p.func(name)
        if dump(a.args) != dump(b.args) or dump(a.decorator_list) != dump(b.decorator_list):
            continue
        lv = blocks(a.body, b.body, [])
        if not lv:
            continue
        wr, wn = words(lv[-1].r if lv[-1].kind == "stmts" else [lv[-1].r]), words(lv[-1].n if lv[-1].kind == "stmts" else [lv[-1].n])
        mine = {w for w in set(wr) | set(wn) if w != "self"}
        if any(mine & ws for o, ws in other.items() if o != name):
            out[name] = (f.where(), [("", "unknown", "changed together with another function that shares its names")])
            continue
        for x in (f, fb):
            x.pristine = set(x.params) - names(x.node.body, ast.Store)
        effects.analysis(q)
        ref = spec["funcs"].get(name)
        if ref is not None and not coarse(lv[-1]) and not any(fr[0] in ("loop", "while") for fr in lv[0].frames):
            whole, _ = conform.summary_of(p, f, spec["modular"], conform.has_raises(ref))
            if whole is not None and all(v == "same" for _, v, _ in conform.diff_func(ref, whole, known, {"ret", "reject", "set", "in", "out", "fx"}, f)):
                continue
        got, vetoed = [], False
        for level in lv[:6]:
            if redundant(level, b) or only_escape(level) and not accumulates(level):
                got.append([("", "unknown", "")])
                break
            try:
                res = judge(p, q, f, fb, level, spec, known, b)
            except (compare.TooBig, vf.GiveUp, RecursionError):
                continue
            got.append(res)
            if res and all(v == "same" for _, v, _ in res) and not coarse(level):
                vetoed = True
                break
        flat = [x for res in got for x in res]
        if vetoed:
            continue
        seen, keep = set(), []
        for k, v, w in flat:
            if v == "diff" and k not in seen:
                seen.add(k)
                keep.append((k, v, w))
        out[name] = (f.where(), keep or [("", "unknown", "the place is not modelled")])
    return out


def wanted(key, parts):
    """the property's plan speaks about this kind of fact; what the place hands to the rest of the function counts as a result"""
    kind = key.split(":")[0]
    if kind == "ret" or key.startswith("in:$"):
        return any(ks & {"ret", "set", "in", "out"} and (flt is None or flt(key)) for ks, flt in parts)
    return any(kind in ks and (flt is None or flt(key)) for ks, flt in parts)
