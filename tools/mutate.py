"""Source transformations used to exercise the checks: behaviour-preserving (R*) and behaviour-changing (M*) edits."""
import ast
import copy
import random


def uid(names, base):
    i = 0
    while f"{base}{i}" in names:
        i += 1
    return f"{base}{i}"


def names_in(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {x.arg for x in ast.walk(n) if isinstance(x, ast.arg)}


def locals_of(fn):
    a = fn.args
    ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
    st = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    st |= {x.name for x in ast.walk(fn) if isinstance(x, ast.ExceptHandler) and x.name}
    gl = set()
    for x in ast.walk(fn):
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            gl |= set(x.names)
    return ps, st - set(ps) - gl


def blocks(fn):
    for x in ast.walk(fn):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(x, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield x, fld, b


def replace(tree, old, new):
    class T(ast.NodeTransformer):
        def visit(self, n):
            if n is old:
                return new
            return self.generic_visit(n)
    T().visit(tree)


def funcs(tree):
    out = []

    def go(n, cls):
        for x in getattr(n, "body", []):
            if isinstance(x, ast.ClassDef):
                go(x, x)
            elif isinstance(x, (ast.FunctionDef,)):
                out.append((x, n))
    go(tree, None)
    return out


# ------------------------------------------------------------------ refactorings: f(tree, fn, owner, rnd) -> bool
def has_nested(fn):
    return any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) for x in ast.walk(fn) if x is not fn)


def r_rename(tree, fn, owner, rnd):
    ps, ls = locals_of(fn)
    if not ls or any(isinstance(x, ast.FunctionDef) for x in ast.walk(fn) if x is not fn):
        return False
    m = {n: "zz_" + n for n in ls}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in m:
            x.id = m[x.id]
        elif isinstance(x, ast.ExceptHandler) and x.name in m:
            x.name = m[x.name]
    return True


def r_invert(tree, fn, owner, rnd):
    c = [x for x in ast.walk(fn) if isinstance(x, ast.If) and x.orelse]
    if not c:
        return False
    x = rnd.choice(c)
    x.test = ast.UnaryOp(ast.Not(), x.test)
    x.body, x.orelse = x.orelse, x.body
    return True


def r_flipcmp(tree, fn, owner, rnd):
    F = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    c = [x for x in ast.walk(fn) if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in F]
    if not c:
        return False
    x = rnd.choice(c)
    x.left, x.comparators[0] = x.comparators[0], x.left
    x.ops[0] = F[type(x.ops[0])]()
    return True


def r_notcmp(tree, fn, owner, rnd):
    F = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
    c = [x for x in ast.walk(fn) if isinstance(x, ast.Compare) and len(x.ops) == 1]
    if not c:
        return False
    x = rnd.choice(c)
    y = copy.copy(x)
    y.ops = [F[type(x.ops[0])]()]
    replace(fn, x, ast.UnaryOp(ast.Not(), y))
    return True


def r_nestand(tree, fn, owner, rnd):
    c = [x for x in ast.walk(fn) if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And)]
    if not c:
        return False
    x = rnd.choice(c)
    v = x.test.values
    rest = v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:])
    x.body = [ast.If(rest, x.body, [])]
    x.test = v[0]
    return True


def r_splitor(tree, fn, owner, rnd):
    c = []
    for p, fld, b in blocks(fn):
        for i, x in enumerate(b):
            if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.Or) and isinstance(x.body[-1], (ast.Raise, ast.Return, ast.Continue, ast.Break)):
                c.append((b, i))
    if not c:
        return False
    b, i = rnd.choice(c)
    x = b[i]
    b[i:i + 1] = [ast.If(v, copy.deepcopy(x.body), []) for v in x.test.values]
    return True


def r_demorgan(tree, fn, owner, rnd):
    c = [x for x in ast.walk(fn) if isinstance(x, (ast.If, ast.While)) and isinstance(x.test, ast.BoolOp)]
    if not c:
        return False
    x = rnd.choice(c)
    op = ast.Or() if isinstance(x.test.op, ast.And) else ast.And()
    x.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in x.test.values]))
    return True


def r_retvar(tree, fn, owner, rnd):
    c = [(b, i) for p, fld, b in blocks(fn) for i, x in enumerate(b) if isinstance(x, ast.Return) and x.value is not None]
    if not c:
        return False
    b, i = rnd.choice(c)
    nm = uid(names_in(fn), "res_")
    b[i:i + 1] = [ast.Assign([ast.Name(nm, ast.Store())], b[i].value), ast.Return(ast.Name(nm, ast.Load()))]
    return True


def r_condvar(tree, fn, owner, rnd):
    c = [(b, i) for p, fld, b in blocks(fn) for i, x in enumerate(b) if isinstance(x, ast.If)]
    c = [(b, i) for b, i in c]
    if not c:
        return False
    b, i = rnd.choice(c)
    nm = uid(names_in(fn), "cond_")
    x = b[i]
    b.insert(i, ast.Assign([ast.Name(nm, ast.Store())], x.test))
    x.test = ast.Name(nm, ast.Load())
    return True


def r_elseret(tree, fn, owner, rnd):
    c = [(b, i) for p, fld, b in blocks(fn) for i, x in enumerate(b) if isinstance(x, ast.If) and not x.orelse and i + 1 < len(b)
         and isinstance(x.body[-1], (ast.Return, ast.Raise, ast.Continue))]
    if not c:
        return False
    b, i = rnd.choice(c)
    b[i].orelse = b[i + 1:]
    del b[i + 1:]
    return True


def r_guard(tree, fn, owner, rnd):
    """if c: ...tail of function -> if not c: return; ..."""
    b = fn.body
    if b and isinstance(b[-1], ast.If) and not b[-1].orelse and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)):
        x = b[-1]
        b[-1:] = [ast.If(ast.UnaryOp(ast.Not(), x.test), [ast.Return(None)], [])] + x.body
        return True
    return False


def r_unelse(tree, fn, owner, rnd):
    c = [(b, i) for p, fld, b in blocks(fn) for i, x in enumerate(b) if isinstance(x, ast.If) and x.orelse
         and isinstance(x.body[-1], (ast.Return, ast.Raise, ast.Continue))]
    if not c:
        return False
    b, i = rnd.choice(c)
    x = b[i]
    b[i + 1:i + 1] = x.orelse
    x.orelse = []
    return True


def r_ternary(tree, fn, owner, rnd):
    c = [(b, i) for p, fld, b in blocks(fn) for i, x in enumerate(b) if isinstance(x, ast.Assign) and isinstance(x.value, ast.IfExp)]
    if c:
        b, i = rnd.choice(c)
        x = b[i]
        b[i] = ast.If(x.value.test, [ast.Assign(x.targets, x.value.body)], [ast.Assign(copy.deepcopy(x.targets), x.value.orelse)])
        return True
    c = [(b, i) for p, fld, b in blocks(fn) for i, x in enumerate(b) if isinstance(x, ast.If) and len(x.body) == 1 and len(x.orelse) == 1
         and isinstance(x.body[0], ast.Assign) and isinstance(x.orelse[0], ast.Assign) and ast.dump(x.body[0].targets[0]) == ast.dump(x.orelse[0].targets[0])]
    if c:
        b, i = rnd.choice(c)
        x = b[i]
        b[i] = ast.Assign(x.body[0].targets, ast.IfExp(x.test, x.body[0].value, x.orelse[0].value))
        return True
    return False


def r_aug(tree, fn, owner, rnd):
    c = [(b, i) for p, fld, b in blocks(fn) for i, x in enumerate(b) if isinstance(x, ast.AugAssign) and isinstance(x.target, (ast.Name, ast.Attribute))]
    pars = {a.arg for a in fn.args.args + fn.args.kwonlyargs}      # += changes a caller's list or bytearray in place
    c = [(b, i) for b, i in c if not isinstance(b[i].value, (ast.List, ast.ListComp)) and not (isinstance(b[i].target, ast.Name) and b[i].target.id in pars)]
    if not c:
        return False
    b, i = rnd.choice(c)
    x = b[i]
    l = copy.deepcopy(x.target)
    l.ctx = ast.Load()
    b[i] = ast.Assign([x.target], ast.BinOp(l, x.op, x.value))
    return True


def r_unaug(tree, fn, owner, rnd):
    c = [(b, i) for p, fld, b in blocks(fn) for i, x in enumerate(b) if isinstance(x, ast.Assign) and isinstance(x.value, ast.BinOp)
         and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value.left, ast.Name) and x.value.left.id == x.targets[0].id]
    if not c:
        return False
    b, i = rnd.choice(c)
    x = b[i]
    b[i] = ast.AugAssign(x.targets[0], x.value.op, x.value.right)
    return True


def reads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def r_swap(tree, fn, owner, rnd):
    def simple(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) and \
            not any(isinstance(x, (ast.Call, ast.Yield)) for x in ast.walk(s.value))
    def tgt(s):
        return ast.unparse(s.targets[0])
    c = []
    for p, fld, b in blocks(fn):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if simple(s) and simple(t) and tgt(s) != tgt(t) and tgt(s) not in ast.unparse(t) and tgt(t) not in ast.unparse(s):
                c.append((b, i))
    if not c:
        return False
    b, i = rnd.choice(c)
    b[i], b[i + 1] = b[i + 1], b[i]
    return True


def r_forindex(tree, fn, owner, rnd):
    c = [x for x in ast.walk(fn) if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and isinstance(x.iter, (ast.Name, ast.Attribute)) and not x.orelse]
    if not c:
        return False
    x = rnd.choice(c)
    nm = uid(names_in(fn), "i_")
    it = copy.deepcopy(x.iter)
    tgt = x.target
    x.body.insert(0, ast.Assign([tgt], ast.Subscript(it, ast.Name(nm, ast.Load()), ast.Load())))
    x.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [copy.deepcopy(it)], [])], [])
    x.target = ast.Name(nm, ast.Store())
    return True


def r_forenum(tree, fn, owner, rnd):
    c = [x for x in ast.walk(fn) if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and not x.orelse]
    if not c:
        return False
    x = rnd.choice(c)
    nm = uid(names_in(fn), "n_")
    x.target = ast.Tuple([ast.Name(nm, ast.Store()), x.target], ast.Store())
    x.iter = ast.Call(ast.Name("enumerate", ast.Load()), [x.iter], [])
    return True


def r_whiletrue(tree, fn, owner, rnd):
    c = [x for x in ast.walk(fn) if isinstance(x, ast.While) and not x.orelse and not isinstance(x.test, ast.Constant)]
    if not c:
        return False
    x = rnd.choice(c)
    x.body.insert(0, ast.If(ast.UnaryOp(ast.Not(), x.test), [ast.Break()], []))
    x.test = ast.Constant(True)
    return True


def r_rangewhile(tree, fn, owner, rnd):
    c = []
    for p, fld, b in blocks(fn):
        for i, x in enumerate(b):
            if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == "range" and \
                    len(x.iter.args) == 1 and isinstance(x.target, ast.Name) and not x.orelse and not any(isinstance(y, ast.Continue) for y in ast.walk(x)):
                c.append((b, i))
    if not c:
        return False
    b, i = rnd.choice(c)
    x = b[i]
    b[i:i + 1] = [ast.Assign([x.target], ast.Constant(0)),
                  ast.While(ast.Compare(ast.Name(x.target.id, ast.Load()), [ast.Lt()], [x.iter.args[0]]),
                            x.body + [ast.AugAssign(ast.Name(x.target.id, ast.Store()), ast.Add(), ast.Constant(1))], [])]
    return True


def r_compr(tree, fn, owner, rnd):
    c = [(b, i) for p, fld, b in blocks(fn) for i, x in enumerate(b) if isinstance(x, ast.Assign) and isinstance(x.value, ast.ListComp)
         and len(x.value.generators) == 1 and isinstance(x.targets[0], ast.Name)]
    if not c:
        return False
    b, i = rnd.choice(c)
    x = b[i]
    g = x.value.generators[0]
    nm = x.targets[0].id
    if any(isinstance(y, ast.Name) and y.id == nm for y in ast.walk(x.value)):
        return False
    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), "append", ast.Load()), [x.value.elt], []))]
    for t in reversed(g.ifs):
        body = [ast.If(t, body, [])]
    b[i:i + 1] = [ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
    return True


def r_extract_expr(tree, fn, owner, rnd):
    """Extract an expression into a helper (method or module function)."""
    ps, ls = locals_of(fn)
    c = []
    for x in ast.walk(fn):
        if isinstance(x, (ast.BoolOp, ast.Compare, ast.BinOp, ast.Call)) and not any(isinstance(y, (ast.NamedExpr, ast.Lambda, ast.Yield, ast.comprehension, ast.Starred)) for y in ast.walk(x)):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super":
                continue
            if any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "super" for y in ast.walk(x)):
                continue
            c.append(x)
    # names bound in comprehensions or lambdas are not free
    inner = set()
    for y in ast.walk(fn):
        if isinstance(y, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Lambda, ast.FunctionDef)) and y is not fn:
            for z in ast.walk(y):
                inner.add(id(z))
    deco = {id(z) for d in fn.decorator_list for z in ast.walk(d)} | {id(z) for z in ast.walk(fn.args)}
    c = [x for x in c if id(x) not in inner and id(x) not in deco]
    if not c:
        return False
    x = rnd.choice(c)
    avail = set(ps) | ls
    if any(isinstance(y, ast.FunctionDef) and y is not fn and y.name in reads(x) for y in ast.walk(fn)):
        return False
    fv = sorted(n for n in reads(x) if n in avail)
    return make_helper(tree, fn, owner, rnd, [ast.Return(copy.deepcopy(x))], fv, lambda call: replace(fn, x, call), ps)


def make_helper(tree, fn, owner, rnd, body, fv, put, ps):
    nm = "_extracted_%d" % rnd.randrange(10 ** 6)
    ismeth = isinstance(owner, ast.ClassDef) and ps and not any("static" in ast.unparse(d) or "classmethod" in ast.unparse(d) for d in fn.decorator_list) and ps[0] == "self"
    if ismeth:
        args = [a for a in fv if a != "self"]
        call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), nm, ast.Load()), [ast.Name(a, ast.Load()) for a in args], [])
        params = ["self"] + args
    else:
        if isinstance(owner, ast.ClassDef) and any(("__" + "x")[:2] in y.attr for y in ast.walk(fn) if isinstance(y, ast.Attribute) and y.attr.startswith("__") and not y.attr.endswith("__")):
            return False
        args = fv
        call = ast.Call(ast.Name(nm, ast.Load()), [ast.Name(a, ast.Load()) for a in args], [])
        params = args
    h = ast.FunctionDef(nm, ast.arguments([], [ast.arg(a) for a in params], None, [], [], None, []), body, [])
    if hasattr(h, "type_params") or True:
        h.type_params = []
    put(call)
    if ismeth:
        owner.body.insert(owner.body.index(fn), h)
    else:
        # module level, before the top-level statement holding fn
        for i, st in enumerate(tree.body):
            if any(y is fn for y in ast.walk(st)):
                tree.body.insert(i, h)
                break
    return True


def surely_bound(fn, stmt):
    out = set()

    def go(body):
        here = set()
        for s in body:
            if s is stmt:
                out.update(here)
                return True
            subs = [getattr(s, f) for f in ("body", "orelse", "finalbody") if isinstance(getattr(s, f, None), list)] + [h.body for h in getattr(s, "handlers", [])]
            for sub in subs:
                if go(sub):
                    out.update(here)
                    if isinstance(s, (ast.For, ast.AsyncFor)) and sub is s.body:
                        out.update(x.id for x in ast.walk(s.target) if isinstance(x, ast.Name))
                    if isinstance(s, ast.With):
                        out.update(x.id for i in s.items if i.optional_vars is not None for x in ast.walk(i.optional_vars) if isinstance(x, ast.Name))
                    return True
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                here |= {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        return False
    go(fn.body)
    return out


def r_extract_stmts(tree, fn, owner, rnd):
    ps, ls = locals_of(fn)
    if any(isinstance(y, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)) for y in ast.walk(fn)):
        return False
    c = []
    for p, fld, b in blocks(fn):
        if any(isinstance(q, (ast.FunctionDef, ast.Lambda)) and q is not fn and any(s is z for z in ast.walk(q)) for q in ast.walk(fn) for s in b[:1]):
            continue
        for i in range(len(b)):
            for j in range(i + 1, min(len(b), i + 6) + 1):
                seg = b[i:j]
                if any(isinstance(y, (ast.Return, ast.Break, ast.Continue, ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.NamedExpr, ast.Delete, ast.Import, ast.ImportFrom)) for s in seg for y in ast.walk(s)):
                    continue
                if any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "super" for s in seg for y in ast.walk(s)):
                    continue
                if isinstance(seg[0], ast.Expr) and isinstance(seg[0].value, ast.Constant):
                    continue
                c.append((b, i, j))
    if not c:
        return False
    b, i, j = rnd.choice(c)
    seg = b[i:j]
    if any(isinstance(y, ast.FunctionDef) and y is not fn and any(y.name in reads(s) for s in seg) for y in ast.walk(fn)):
        return False
    avail = set(ps) | ls
    stored = {y.id for s in seg for y in ast.walk(s) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
    segids = {id(y) for s in seg for y in ast.walk(s)}
    usedout = {y.id for y in ast.walk(fn) if isinstance(y, ast.Name) and id(y) not in segids}
    outs = sorted(stored & usedout)
    # inputs: anything read that exists before; variables that may be unbound before are refused
    fv = set()
    for s in seg:
        fv |= {n for n in reads(s) if n in avail}
        fv |= {y.target.id for y in ast.walk(s) if isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name)}
    bound_before = set(ps) | {y.id for y in ast.walk(fn) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.lineno < seg[0].lineno} if hasattr(seg[0], "lineno") else set(ps)
    ins = set()
    sure = set(ps) | surely_bound(fn, seg[0])
    for n in fv:
        if n in sure:
            ins.add(n)
        elif n in bound_before or any(isinstance(y, ast.ExceptHandler) and y.name == n for y in ast.walk(fn)):
            return False
    cond_out = [o for o in outs if o not in ins]
    for o in cond_out:     # must be assigned unconditionally by the segment
        if not any(isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == o for t in s.targets) for s in seg):
            if o in bound_before:
                ins.add(o)
            else:
                return False
    body = [copy.deepcopy(s) for s in seg]
    if len(outs) == 1:
        body.append(ast.Return(ast.Name(outs[0], ast.Load())))
    elif outs:
        body.append(ast.Return(ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load())))

    def put(call):
        if not outs:
            b[i:j] = [ast.Expr(call)]
        elif len(outs) == 1:
            b[i:j] = [ast.Assign([ast.Name(outs[0], ast.Store())], call)]
        else:
            b[i:j] = [ast.Assign([ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store())], call)]
    return make_helper(tree, fn, owner, rnd, body, sorted(ins), put, ps)


def r_constant(tree, fn, owner, rnd):
    ids = {id(z) for d in fn.decorator_list for z in ast.walk(d)}
    doc = ast.get_docstring(fn, clean=False)
    js = {id(z) for x in ast.walk(fn) if isinstance(x, ast.JoinedStr) for z in ast.walk(x)}
    c = [x for x in ast.walk(fn) if isinstance(x, ast.Constant) and isinstance(x.value, (int, str, bytes)) and not isinstance(x.value, bool) and x.value != doc and id(x) not in js and id(x) not in ids]
    if not c:
        return False
    x = rnd.choice(c)
    nm = "_K%d" % rnd.randrange(10 ** 6)
    for i, st in enumerate(tree.body):
        if any(y is fn for y in ast.walk(st)):
            replace(fn, x, ast.Name(nm, ast.Load()))
            tree.body.insert(i, ast.Assign([ast.Name(nm, ast.Store())], ast.Constant(x.value)))
            return True
    return False


def r_noop(tree, fn, owner, rnd):
    i = 1 if ast.get_docstring(fn) is not None else 0
    s = rnd.choice(["pass", "_ = None", "if False:\n    pass", "del_me = 0\ndel del_me", "assert True", "0"])
    fn.body[i:i] = ast.parse(s).body
    return True


def r_annot(tree, fn, owner, rnd):
    """annotations dropped, or added where there were none"""
    had = False
    for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs:
        had |= a.annotation is not None
        a.annotation = None
    had |= fn.returns is not None
    fn.returns = None
    if not had:
        fn.returns = ast.Constant("object")
    return True


def r_fstring(tree, fn, owner, rnd):
    c = [x for x in ast.walk(fn) if isinstance(x, ast.JoinedStr) and all(isinstance(v, ast.Constant) or (isinstance(v, ast.FormattedValue) and v.conversion == -1 and v.format_spec is None) for v in x.values)]
    if not c:
        return False
    x = rnd.choice(c)
    s, a = "", []
    for v in x.values:
        if isinstance(v, ast.Constant):
            s += v.value.replace("{", "{{").replace("}", "}}")
        else:
            s += "{}"
            a.append(v.value)
    replace(fn, x, ast.Call(ast.Attribute(ast.Constant(s), "format", ast.Load()), a, []))
    return True


def r_kwargs(tree, fn, owner, rnd):
    """wrap a loop body / branch body in a no-effect `if True`"""
    c = [(p, f, b) for p, f, b in blocks(fn) if p is not fn]
    if not c:
        return False
    p, f, b = rnd.choice(c)
    setattr(p, f, [ast.If(ast.Constant(True), b, [])])
    return True


def r_temps(tree, fn, owner, rnd):
    """first call argument through a temporary"""
    c = []
    for p, fld, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and isinstance(s.value, ast.Call) and s.value.args and not isinstance(s.value.args[0], (ast.Starred, ast.GeneratorExp)):
                if isinstance(s.value.func, (ast.Name,)) and s.value.func.id == "super":
                    continue
                c.append((b, i, s.value))
    if not c:
        return False
    b, i, call = rnd.choice(c)
    nm = uid(names_in(fn), "arg_")
    b.insert(i, ast.Assign([ast.Name(nm, ast.Store())], call.args[0]))
    call.args[0] = ast.Name(nm, ast.Load())
    return True


def r_lenzero(tree, fn, owner, rnd):
    c = [x for x in ast.walk(fn) if isinstance(x, ast.Compare) and isinstance(x.left, ast.Call) and isinstance(x.left.func, ast.Name) and x.left.func.id == "len"
         and isinstance(x.comparators[0], ast.Constant) and x.comparators[0].value == 0 and isinstance(x.ops[0], (ast.Eq, ast.Gt, ast.NotEq))]
    if not c:
        return False
    x = rnd.choice(c)
    v = x.left.args[0]
    replace(fn, x, ast.UnaryOp(ast.Not(), v) if isinstance(x.ops[0], ast.Eq) else ast.Call(ast.Name("bool", ast.Load()), [v], []))
    return True


REFACTORS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("r_")}


# ------------------------------------------------------------------ behaviour-changing edits
def pick(rnd, c):
    return rnd.choice(c) if c else None


def m_const(tree, fn, owner, rnd):
    doc = ast.get_docstring(fn, clean=False)
    c = [x for x in ast.walk(fn) if isinstance(x, ast.Constant) and isinstance(x.value, int) and not isinstance(x.value, bool)]
    x = pick(rnd, c)
    if not x:
        return False
    x.value += rnd.choice([1, -1])
    return True


def m_cmp(tree, fn, owner, rnd):
    F = {ast.Lt: ast.LtE, ast.Gt: ast.GtE, ast.LtE: ast.Lt, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
    x = pick(rnd, [x for x in ast.walk(fn) if isinstance(x, ast.Compare)])
    if not x:
        return False
    x.ops[0] = F[type(x.ops[0])]()
    return True


def m_attr(tree, fn, owner, rnd):
    at = sorted({x.attr for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"})
    c = [x for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"]
    if len(at) < 2:
        return False
    x = rnd.choice(c)
    x.attr = rnd.choice([a for a in at if a != x.attr])
    return True


def m_delstmt(tree, fn, owner, rnd):
    c = [(b, i) for p, fld, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and len(b) > 1 and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if not c:
        return False
    b, i = rnd.choice(c)
    del b[i]
    return True


def m_swapargs(tree, fn, owner, rnd):
    x = pick(rnd, [x for x in ast.walk(fn) if isinstance(x, ast.Call) and len(x.args) >= 2])
    if not x:
        return False
    i = rnd.randrange(len(x.args) - 1)
    x.args[i], x.args[i + 1] = x.args[i + 1], x.args[i]
    return True


def m_negate(tree, fn, owner, rnd):
    x = pick(rnd, [x for x in ast.walk(fn) if isinstance(x, (ast.If, ast.While))])
    if not x:
        return False
    x.test = ast.UnaryOp(ast.Not(), x.test)
    return True


def m_dropop(tree, fn, owner, rnd):
    x = pick(rnd, [x for x in ast.walk(fn) if isinstance(x, ast.BoolOp)])
    if not x:
        return False
    del x.values[rnd.randrange(len(x.values))]
    if len(x.values) == 1:
        replace(fn, x, x.values[0])
    return True


def m_boolop(tree, fn, owner, rnd):
    x = pick(rnd, [x for x in ast.walk(fn) if isinstance(x, ast.BoolOp)])
    if not x:
        return False
    x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
    return True


def m_fmt(tree, fn, owner, rnd):
    src = owner if isinstance(owner, ast.ClassDef) else fn
    c = [x for x in ast.walk(src) if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value[:1] in "<>=@" and len(x.value) > 1]
    x = pick(rnd, c)
    if not x:
        return False
    v = x.value
    k = rnd.randrange(3)
    if k == 0:
        v = {"<": ">", ">": "<", "=": ">", "@": "<"}[v[0]] + v[1:]
    else:
        idx = [i for i in range(1, len(v)) if v[i] in "BHIQL"]
        if not idx:
            return False
        i = rnd.choice(idx)
        v = v[:i] + {"B": "b", "H": "h", "I": "i", "L": "l", "Q": "q"}[v[i]] + v[i + 1:]
    x.value = v
    return True


def m_arith(tree, fn, owner, rnd):
    x = pick(rnd, [x for x in ast.walk(fn) if isinstance(x, (ast.BinOp, ast.AugAssign)) and isinstance(x.op, (ast.Add, ast.Sub))])
    if not x:
        return False
    x.op = ast.Sub() if isinstance(x.op, ast.Add) else ast.Add()
    return True


def m_ret(tree, fn, owner, rnd):
    x = pick(rnd, [x for x in ast.walk(fn) if isinstance(x, ast.Return) and x.value is not None and not (isinstance(x.value, ast.Constant) and x.value.value is None)])
    if not x:
        return False
    x.value = ast.Constant(None)
    return True


def m_str(tree, fn, owner, rnd):
    doc = ast.get_docstring(fn, clean=False)
    js = {id(z) for x in ast.walk(fn) if isinstance(x, (ast.JoinedStr, ast.Raise)) for z in ast.walk(x)}
    js |= {id(z) for x in ast.walk(fn) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("debug", "info", "warning", "error", "critical") for z in ast.walk(x)}
    js |= {id(z) for x in ast.walk(fn) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "print" for z in ast.walk(x)}
    c = [x for x in ast.walk(fn) if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value and x.value != doc and id(x) not in js]
    x = pick(rnd, c)
    if not x:
        return False
    x.value = x.value + "x" if rnd.random() < .5 else x.value[:-1]
    return True


def m_delif(tree, fn, owner, rnd):
    c = [(b, i) for p, fld, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.If) and not s.orelse and len(b) > 1]
    if not c:
        return False
    b, i = rnd.choice(c)
    del b[i]
    return True


def m_swapstmt(tree, fn, owner, rnd):
    c = [(b, i) for p, fld, b in blocks(fn) for i in range(len(b) - 1) if not isinstance(b[i], (ast.FunctionDef, ast.Import)) and not (isinstance(b[i], ast.Expr) and isinstance(b[i].value, ast.Constant))]
    if not c:
        return False
    b, i = rnd.choice(c)
    b[i], b[i + 1] = b[i + 1], b[i]
    return True


def m_name(tree, fn, owner, rnd):
    ps, ls = locals_of(fn)
    av = sorted((set(ps) | ls) - {"self", "cls"})
    c = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in av]
    if len(av) < 2 or not c:
        return False
    x = rnd.choice(c)
    x.id = rnd.choice([a for a in av if a != x.id])
    return True


MUTANTS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("m_")}
