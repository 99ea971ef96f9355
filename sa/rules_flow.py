"""U02 release on every path, U04 handlers and ignored status codes, U03 injection sinks, D01 session protocol."""
import ast
import re

import constev
from project import Class, Func, own_nodes

OPENERS = {"open", "io.open", "os.fdopen", "mmap.mmap", "socket.socket", "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "zipfile.ZipFile",
           "tarfile.open", "sqlite3.connect", "urllib.request.urlopen", "codecs.open", "gzip.open", "os.popen", "tempfile.SpooledTemporaryFile"}
CLOSERS = {"close", "release", "shutdown", "terminate", "__exit__", "cleanup"}


def parents(root):
    par = {}
    for n in ast.walk(root):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    return par


def dotted(p, f, fn):
    r = p.resolve_expr(fn, f.mod, f.cls)
    if isinstance(r, str):
        return r
    if isinstance(r, Func):
        return r
    t = ast.unparse(fn)
    return t


def is_opener(p, f, call, acq):
    fn = call.func
    if isinstance(fn, ast.Name) and fn.id == "open" and p.resolve_name("open", f.mod) is None:
        return True
    d = dotted(p, f, fn)
    if isinstance(d, Func):
        return d in acq
    if d in OPENERS:
        return True
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ("self", "cls") and f.cls is not None:
        m = f.cls.method(fn.attr)
        return m in acq if m is not None else False
    # pathlib's Path.open(): no arguments or a literal mode
    if isinstance(fn, ast.Attribute) and fn.attr == "open" and not isinstance(d, Func) and (
            not call.args or isinstance(call.args[0], ast.Constant) and isinstance(call.args[0].value, str) and re.fullmatch(r"[rwxabt+]+", call.args[0].value)):
        return True
    return False


def simple(s):
    """a statement that cannot raise in practice: constants, names and attribute moves"""
    if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
        return True
    if isinstance(s, (ast.Assign, ast.AnnAssign)):
        v = s.value
        return v is None or all(isinstance(x, (ast.Constant, ast.Name, ast.Attribute, ast.List, ast.Dict, ast.Tuple, ast.Load, ast.Store, ast.JoinedStr,
                                               ast.UnaryOp, ast.USub, ast.Set)) for x in ast.walk(v))
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
        return True
    return False


def closes(nodes, names):
    """some node calls a closing method on one of the names (or hands it to a helper that is named for closing)"""
    for s in nodes:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in CLOSERS and ast.unparse(n.func.value) in names:
                    return True
                if any(ast.unparse(a) in names for a in n.args) and re.search(r"close|release|cleanup|shutdown", ast.unparse(n.func), re.I):
                    return True
    return False


def closing_helpers(f, nodes, names):
    """a method of the same class, called here, that closes one of the names (self.x)"""
    if f.cls is None:
        return False
    for s in nodes:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self":
                m = f.cls.method(n.func.attr)
                if m is not None and closes(m.node.body, names):
                    return True
    return False


def block_of(par, s):
    q = par[s]
    for fld in ("body", "orelse", "finalbody"):
        b = getattr(q, fld, None)
        if isinstance(b, list) and s in b:
            return q, b
    if isinstance(q, ast.ExceptHandler):
        return q, q.body
    return q, None


def protected(f, par, s, names):
    """the statement s acquires `names`: is every exit from here on closing them?"""
    # inside a try whose finally closes
    q = s
    while q in par:
        up = par[q]
        if isinstance(up, ast.Try) and q in up.body and up.finalbody and (closes(up.finalbody, names) or closing_helpers(f, up.finalbody, names)):
            return "ok"
        if up is f.node:
            break
        q = up
    cur = s
    while cur in par and cur is not f.node:
        q, b = block_of(par, cur)
        if b is not None:
            i = b.index(cur)
            for t in b[i + 1:]:
                if isinstance(t, (ast.With, ast.AsyncWith)):
                    for it in t.items:
                        e = it.context_expr
                        if ast.unparse(e) in names or isinstance(e, ast.Call) and any(ast.unparse(a) in names for a in e.args) and ast.unparse(e.func).split(".")[-1] in ("closing", "enter_context"):
                            return "ok"
                if isinstance(t, ast.Try) and t.finalbody and (closes(t.finalbody, names) or closing_helpers(f, t.finalbody, names)):
                    return "ok"
                if isinstance(t, ast.Expr) and isinstance(t.value, ast.Call) and (ast.unparse(t.value.func).split(".")[-1] in ("enter_context", "callback", "push", "finalize")
                                                                                 and any(any(nm in ast.unparse(a) for nm in names) for a in t.value.args)):
                    return "ok"
                if closes([t], names) and isinstance(t, ast.Expr):
                    return "ok"       # nothing between acquire and release can raise
                if isinstance(t, ast.Return):
                    return None
                if not simple(t):
                    return None
        if not isinstance(q, (ast.If, ast.With)):
            break
        cur = q
    return None


def rule_release(chk, p, tier):
    acq = set()
    for rnd in range(3):
        for f in p.iter_funcs():
            if f in acq or f.is_gen:
                continue
            for n in own_nodes(f.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    v = n.value
                    if isinstance(v, ast.Call) and is_opener(p, f, v, acq):
                        acq.add(f)
                    elif isinstance(v, ast.Name):
                        for w in own_nodes(f.node):
                            if isinstance(w, ast.Assign) and isinstance(w.value, ast.Call) and is_opener(p, f, w.value, acq) and any(isinstance(t, ast.Name) and t.id == v.id for t in w.targets):
                                acq.add(f)
    for f in p.iter_funcs():
        par = None
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and is_opener(p, f, n, acq):
                par = par or parents(f.node)
                one_acquire(chk, p, f, n, par, acq)
        locks(chk, p, f)
        restore(chk, p, f)
        ctxman(chk, p, f)
    chk.need("resources released on every path", 10)


def one_acquire(chk, p, f, n, par, acq):
    text = ast.unparse(n)[:60]
    q = par[n]
    while isinstance(q, (ast.IfExp, ast.NamedExpr)):
        q = par[q]
    if isinstance(q, ast.withitem):
        chk.ok("resources released on every path")
        chk.sample(f"{f.qual}: with {text}")
        return
    if isinstance(q, ast.Call) and isinstance(q.func, (ast.Attribute, ast.Name)) and n in q.args:
        last = ast.unparse(q.func).split(".")[-1]
        if last in ("enter_context", "closing"):
            chk.ok("resources released on every path")
            return
        chk.undec(f"{f.qual} {text}", "resource handed to another object")
        return
    if isinstance(q, ast.Return):
        chk.ok("resources handed to the caller")
        return
    if isinstance(q, ast.Assign) and len(q.targets) == 1:
        t = q.targets[0]
        if isinstance(t, (ast.Name, ast.Attribute)):
            names = {ast.unparse(t)}
            for w in own_nodes(f.node):
                if isinstance(w, ast.Assign) and len(w.targets) == 1 and ast.unparse(w.value) in names and isinstance(w.targets[0], ast.Name):
                    names.add(w.targets[0].id)
            if protected(f, par, q, names) == "ok":
                chk.ok("resources released on every path")
                return
            here = closes([f.node], names)
            if isinstance(t, ast.Attribute):
                if not here and f.cls is not None and any(closes([m.node], names) for c in p.iter_classes() if f.cls in c.mro() or c in f.cls.mro() for m in c.all_funcs() if m is not f):
                    chk.ok("resources owned by an object that closes them")
                    return
            elif f in acq and any(isinstance(w, ast.Return) and isinstance(w.value, ast.Name) and w.value.id in names for w in own_nodes(f.node)):
                chk.ok("resources handed to the caller")
                return
            elif not here and any(isinstance(w, ast.Assign) and isinstance(w.value, ast.Name) and w.value.id in names and isinstance(w.targets[0], (ast.Attribute, ast.Subscript))
                                  for w in own_nodes(f.node)):
                chk.undec(f"{f.qual} {text}", "resource stored elsewhere")
                return
            if here:
                chk.violation("unreleased-on-error", f"{f.qual}#{ast.unparse(n.func)}", f"{text} is closed only when nothing between raises", f.where(n))
            else:
                chk.violation("unreleased", f"{f.qual}#{ast.unparse(n.func)}", f"{text} is never closed", f.where(n))
            return
    if isinstance(q, (ast.Attribute, ast.Expr, ast.For, ast.comprehension)):
        chk.violation("unreleased", f"{f.qual}#{ast.unparse(n.func)}", f"{text} is used and dropped without being closed", f.where(n))
        return
    chk.undec(f"{f.qual} {text}", "resource used in a form not followed")


def locks(chk, p, f):
    par = None
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "acquire" and not f.name == "acquire":
            par = par or parents(f.node)
            s = n
            while s in par and not isinstance(s, ast.stmt):
                s = par[s]
            nm = {ast.unparse(n.func.value)}
            if protected(f, par, s, nm) == "ok":
                chk.ok("locks released on every path")
            else:
                chk.violation("lock-not-released", f"{f.qual}#{ast.unparse(n.func.value)}", "the lock is not released when the code it protects raises", f.where(n))


def path_text(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def restore(chk, p, f):
    """v = P; ...; P = other; ...; P = v  (or os.chdir): the write back must be in a finally"""
    saves = {}
    args = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs + f.node.args.posonlyargs}
    nodes = sorted((n for n in own_nodes(f.node) if hasattr(n, "lineno")), key=lambda n: (n.lineno, n.col_offset))
    for n in nodes:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = n.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "copy" and not v.args:
                v = v.func.value
            if isinstance(v, (ast.Attribute, ast.Subscript)):
                root = path_text(v)
                if root in args or root == "self" or root in f.mod.imports or root in f.mod.globals:
                    saves.setdefault(n.targets[0].id, []).append((n, ast.unparse(v)))
            elif isinstance(v, ast.Call) and ast.unparse(v.func) in ("os.getcwd", "Path.cwd", "pathlib.Path.cwd"):
                saves.setdefault(n.targets[0].id, []).append((n, "cwd"))
    if not saves:
        return
    par = parents(f.node)
    for var, lst in saves.items():
        if len(lst) != 1:
            continue
        s, path = lst[0]
        changed, back = [], []
        for n in nodes:
            if n.lineno <= s.lineno:
                continue
            if isinstance(n, ast.Assign) and any(ast.unparse(t) == path for t in n.targets):
                (back if isinstance(n.value, ast.Name) and n.value.id == var else changed).append(n)
            if path == "cwd" and isinstance(n, ast.Call) and ast.unparse(n.func) == "os.chdir" and n.args:
                (back if isinstance(n.args[0], ast.Name) and n.args[0].id == var else changed).append(n)
        if not changed or not back:
            continue
        # parser-local shuffles (no call in between) cannot be interrupted
        first, last = min(n.lineno for n in changed), max(n.lineno for n in back)
        calls = [n for n in nodes if isinstance(n, (ast.Call, ast.Raise)) and first <= n.lineno <= last and n not in back and n not in changed]
        infinal = False
        for b in back:
            q = b
            while q in par:
                up = par[q]
                if isinstance(up, ast.Try) and any(q is x for x in up.finalbody):
                    infinal = True
                q = up
        if infinal:
            chk.ok("temporary changes undone in a finally")
        elif calls:
            chk.violation("not-restored", f"{f.qual}#{path}", f"{path} is changed and put back only when nothing between raises", f.where(back[0]))
        else:
            chk.ok("temporary changes that nothing can interrupt")


def ctxman(chk, p, f):
    if not f.is_ctx:
        return
    par = parents(f.node)
    for n in own_nodes(f.node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            s = n
            while s in par and not isinstance(s, ast.stmt):
                s = par[s]
            q = s
            bad = None
            infin = False
            while q in par and q is not f.node:
                up = par[q]
                if isinstance(up, ast.Try) and q in up.body:
                    infin = infin or bool(up.finalbody)
                    if up.finalbody or up.handlers:
                        bad = None          # what follows the yield inside this try is the success path; the failure path has its own code
                    bodyrest = up.body[up.body.index(q) + 1:]
                elif isinstance(up, (ast.With,)):
                    infin = True
                else:
                    _, b = block_of(par, q)
                    for t in (b[b.index(q) + 1:] if b else []):
                        if not simple(t) and not isinstance(t, ast.Try):
                            if any(isinstance(x, ast.Call) for x in ast.walk(t)):
                                bad = t
                q = up
            if bad is not None:
                chk.violation("cleanup-skipped", f"{f.qual}#yield", f"{ast.unparse(bad)[:60]} after the yield is skipped when the body raises", f.where(bad))
            else:
                chk.ok("context managers clean up in finally")


# ---------------------------------------------------------------- U04
BROAD = {"Exception", "BaseException", "builtins.Exception"}
CONVERT = {  # broad handlers confirmed to convert to a documented result
    "uefi.edk2.parsers.guid_parser:GuidParser.guid_str_from_obj": "documented: returns an empty string for anything that is no UUID",
}


def handler_names(h):
    if h.type is None:
        return {"*"}
    t = h.type
    return {ast.unparse(x) for x in (t.elts if isinstance(t, ast.Tuple) else [t])}


def reacts(h, f, p, depth=0):
    """does the handler let someone know: raises, logs, uses the exception, calls an error hook"""
    for s in h.body:
        for n in ast.walk(s):
            if isinstance(n, ast.Raise):
                return "raises"
            if isinstance(n, ast.Name) and h.name and n.id == h.name:
                return "uses the exception"
            if isinstance(n, ast.Call):
                t = ast.unparse(n.func)
                last = t.split(".")[-1]
                if last in ("warning", "warn", "error", "critical", "exception", "debug", "info", "log", "handleError", "print", "print_exc", "rollback"):
                    return "reports"
                r = p.resolve_expr(n.func, f.mod, f.cls)
                m = r if isinstance(r, Func) else (f.cls.method(n.func.attr) if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and f.cls is not None else None)
                if m is not None and depth < 2:
                    for w in ast.walk(m.node):
                        if isinstance(w, ast.Raise) or isinstance(w, ast.Call) and ast.unparse(w.func).split(".")[-1] in ("warning", "error", "critical", "exception", "debug", "info"):
                            return "reports"
    return None


def rule_handlers(chk, p, tier):
    for f in p.iter_funcs():
        for n in own_nodes(f.node):
            if isinstance(n, ast.Try):
                for h in n.handlers:
                    broad = bool(handler_names(h) & (BROAD | {"*"}))
                    if not broad:
                        chk.ok("handlers of a specific exception")
                        continue
                    why = reacts(h, f, p)
                    base = n
                    if why or f.qual in CONVERT:
                        chk.ok("broad handlers that raise, report or convert")
                        continue
                    if all(isinstance(s, (ast.Pass, ast.Continue)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) for s in h.body) or True:
                        chk.violation("swallowed", f"{f.qual}#{'/'.join(sorted(handler_names(h)))}", "arbitrary exceptions are discarded here without a trace", f.where(h))
                for s in n.finalbody:
                    for w in ast.walk(s):
                        if isinstance(w, (ast.FunctionDef, ast.Lambda)):
                            continue
                        if isinstance(w, ast.Return):
                            chk.violation("swallowed", f"{f.qual}#finally", "a return inside finally discards the exception in flight", f.where(w))
                        if isinstance(w, (ast.Break, ast.Continue)) and not any(isinstance(x, (ast.For, ast.While)) and any(y is w for y in ast.walk(x)) for x in ast.walk(s)):
                            chk.violation("swallowed", f"{f.qual}#finally", "a jump inside finally discards the exception in flight", f.where(w))
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for it in n.items:
                    e = it.context_expr
                    if isinstance(e, ast.Call) and ast.unparse(e.func).split(".")[-1] == "suppress" and any(ast.unparse(a) in BROAD for a in e.args):
                        chk.violation("swallowed", f"{f.qual}#suppress", "arbitrary exceptions are suppressed here", f.where(n))
    ignored_status(chk, p)
    chk.need("handlers of a specific exception", 12)


STATUS = {"subprocess.call", "os.system", "subprocess.run"}


def ignored_status(chk, p):
    st = set()
    base = p.func("utility_functions:RunCmd")
    if base is not None:
        st.add(base)
    for _ in range(3):
        for f in p.iter_funcs():
            for n in own_nodes(f.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    v = n.value
                    if isinstance(v, ast.Name):
                        vs = [w.value for w in own_nodes(f.node) if isinstance(w, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in w.targets)]
                    else:
                        vs = [v]
                    for e in vs:
                        if isinstance(e, ast.Call) and p.resolve_expr(e.func, f.mod, f.cls) in st:
                            st.add(f)
    for f in p.iter_funcs():
        par = None
        for n in own_nodes(f.node):
            if not isinstance(n, ast.Call):
                continue
            r = p.resolve_expr(n.func, f.mod, f.cls)
            if not (r in st or isinstance(r, str) and r in STATUS):
                continue
            if r == "subprocess.run" and any(k.arg == "check" and isinstance(k.value, ast.Constant) and k.value.value for k in n.keywords):
                chk.ok("status codes looked at")
                continue
            par = par or parents(f.node)
            q = par[n]
            nm = ast.unparse(n.func)
            if isinstance(q, ast.Expr):
                chk.violation("status-ignored", f"{f.qual}#{nm}", f"the status returned by {nm} is dropped", f.where(n))
                continue
            if isinstance(q, ast.Assign) and len(q.targets) == 1 and isinstance(q.targets[0], ast.Name):
                v = q.targets[0].id
                if v == "_" or not any(isinstance(w, ast.Name) and w.id == v and isinstance(w.ctx, ast.Load) for w in ast.walk(f.node)):
                    chk.violation("status-ignored", f"{f.qual}#{nm}", f"the status returned by {nm} is never looked at", f.where(n))
                    continue
            chk.ok("status codes looked at")


# ---------------------------------------------------------------- U03
CODE = {"eval", "exec", "builtins.eval", "builtins.exec", "builtins.compile"}
SHELL = {"os.system", "os.popen", "subprocess.getoutput", "subprocess.getstatusoutput", "commands.getoutput"}
LOADS = {"pickle.load", "pickle.loads", "marshal.load", "marshal.loads", "shelve.open", "dill.loads", "jsonpickle.decode", "cPickle.loads"}
PROC = {"subprocess.Popen", "subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output"}
SHELL_OK = {"utility_functions:RunCmd": "documented to run a shell command line its caller composed"}


def local_value(f, e):
    """the single definition of a local, or the expression itself"""
    seen = 0
    while isinstance(e, ast.Name) and seen < 4:
        vs = [w for w in own_nodes(f.node) if isinstance(w, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in w.targets)]
        aug = [w for w in own_nodes(f.node) if isinstance(w, ast.AugAssign) and isinstance(w.target, ast.Name) and w.target.id == e.id]
        if len(vs) != 1 or aug:
            return e
        e = vs[0].value
        seen += 1
    return e


def pieces(p, f, e, depth=0):
    """flatten a string-building expression to a list of str | ast"""
    e = local_value(f, e) if isinstance(e, ast.Name) else e
    if depth > 8:
        return [e]
    c = constev.ev(p, e, f.mod, f.cls) if not isinstance(e, ast.Name) or e.id not in {a.arg for a in f.node.args.args + f.node.args.kwonlyargs} else constev.FAIL
    if isinstance(c, str):
        return [c]
    if isinstance(e, ast.JoinedStr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            elif v.format_spec is not None and v.conversion in (-1, None) and re.search(r"[xXdobn]", ast.unparse(v.format_spec)):
                out.append(ast.Constant(0))
            else:
                out += pieces(p, f, v.value, depth + 1)
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return pieces(p, f, e.left, depth + 1) + pieces(p, f, e.right, depth + 1)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
        args = e.right.elts if isinstance(e.right, ast.Tuple) else [e.right]
        out, i, k = [], 0, 0
        for m in re.finditer(r"%(?:[-#0 +]*\d*(?:\.\d+)?)([a-zA-Z%])", e.left.value):
            out.append(e.left.value[i:m.start()])
            i = m.end()
            if m.group(1) == "%":
                out.append("%")
            else:
                out += [ast.Constant(0)] if m.group(1) in "diouxX" else (pieces(p, f, args[k], depth + 1) if k < len(args) else [])
                k += 1
        out.append(e.left.value[i:])
        return out
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "format" and isinstance(e.func.value, ast.Constant) and isinstance(e.func.value.value, str):
        import string
        out, auto = [], 0
        kw = {k.arg: k.value for k in e.keywords}
        for lit, fld, spec, conv in string.Formatter().parse(e.func.value.value):
            out.append(lit)
            if fld is None:
                continue
            head = re.split(r"[.\[]", fld)[0]
            if head == "":
                head, auto = str(auto), auto + 1
            a = kw.get(head) if not head.isdigit() else (e.args[int(head)] if int(head) < len(e.args) else None)
            out += pieces(p, f, a, depth + 1) if a is not None else [e]
        return out
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "str" and len(e.args) == 1:
        return pieces(p, f, e.args[0], depth + 1)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "join" and isinstance(e.func.value, ast.Constant) and len(e.args) == 1 and isinstance(e.args[0], (ast.List, ast.Tuple)):
        out = []
        for i, x in enumerate(e.args[0].elts):
            if i:
                out.append(e.func.value.value)
            out += pieces(p, f, x, depth + 1)
        return out
    return [e]


def rule_injection(chk, p, tier):
    run = p.func("utility_functions:RunCmd")
    runpy = p.func("utility_functions:RunPythonScript")
    for f in p.iter_funcs():
        for n in own_nodes(f.node):
            if not isinstance(n, ast.Call):
                continue
            r = p.resolve_expr(n.func, f.mod, f.cls)
            d = r if isinstance(r, str) else (ast.unparse(n.func) if r is None else "")
            if r is None and isinstance(n.func, ast.Name) and n.func.id in ("eval", "exec", "compile", "__import__"):
                if not (n.args and isinstance(n.args[0], ast.Constant)):
                    chk.violation("code-execution", f"{f.qual}#{n.func.id}", f"{ast.unparse(n)[:60]} runs a computed value as program text", f.where(n))
                continue
            if d in CODE:
                chk.violation("code-execution", f"{f.qual}#{d}", f"{ast.unparse(n)[:60]} runs a computed value as program text", f.where(n))
            elif d in LOADS:
                chk.violation("code-execution", f"{f.qual}#{d}", f"{d} builds objects from untrusted bytes", f.where(n))
            elif d in ("yaml.load",) and "SafeLoader" not in ast.unparse(n):
                chk.violation("code-execution", f"{f.qual}#{d}", "yaml.load without the safe loader", f.where(n))
            elif d in SHELL:
                if n.args and all(isinstance(x, str) for x in pieces(p, f, n.args[0])):
                    chk.ok("commands that are constant")
                else:
                    chk.violation("shell", f"{f.qual}#{d}", f"{ast.unparse(n)[:70]} hands a computed string to the shell", f.where(n))
            elif d in PROC:
                sh = next((k.value for k in n.keywords if k.arg == "shell"), None)
                if sh is None or isinstance(sh, ast.Constant) and not sh.value:
                    chk.ok("processes started without a shell")
                elif f.qual in SHELL_OK:
                    chk.ok("documented shell entry")
                elif n.args and all(isinstance(x, str) for x in pieces(p, f, n.args[0])):
                    chk.ok("commands that are constant")
                else:
                    chk.violation("shell", f"{f.qual}#{d}", f"{d} runs a computed string through a shell", f.where(n))
            elif run is not None and r in (run, runpy):
                cmdline(chk, p, f, n, r is run)
            elif d.endswith(("sqlalchemy.text", "sqlalchemy.sql.text")) or isinstance(n.func, ast.Attribute) and n.func.attr in ("execute", "executescript", "exec_driver_sql") and n.args:
                if n.args and not (isinstance(n.args[0], ast.Name)) and any(not isinstance(x, str) for x in pieces(p, f, n.args[0])) and isinstance(n.args[0], (ast.JoinedStr, ast.BinOp, ast.Call)) and len(pieces(p, f, n.args[0])) > 1:
                    chk.violation("sql", f"{f.qual}#{ast.unparse(n.func)}", "a query is assembled from values", f.where(n))
                else:
                    chk.ok("queries without assembled text")
    markup(chk, p)
    chk.need("command arguments quoted", 5)


def quoted_value(p, f, x):
    """values that need no quoting: numbers, quoting calls"""
    if isinstance(x, ast.Constant):
        return True
    if isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] in ("quote", "list2cmdline", "int", "len", "hex"):
        return True
    return False


PASS_THROUGH = {"utility_functions:RunCmd", "utility_functions:RunPythonScript"}


def base_name(x):
    """the variable a value is, apart from stripping"""
    while isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("strip", "lstrip", "rstrip") and not x.args:
        x = x.func.value
    return x.id if isinstance(x, ast.Name) else None


def cmdline(chk, p, f, n, is_run):
    """parameters handed to RunCmd: every value piece sits between double quotes in the literal text around it"""
    if len(n.args) < 2:
        return
    for arg in n.args[1:2]:
        ps = build_string(p, f, arg)
        if ps is None:
            chk.undec(f"{f.qual} {ast.unparse(n.func)}", "parameter string not followed")
            continue
        quotes = False
        for x in ps:
            if isinstance(x, str):
                if x.count('"') % 2:
                    quotes = not quotes
            elif not quotes and not quoted_value(p, f, x):
                if base_name(x) in {a.arg for a in f.node.args.args} and f.qual in PASS_THROUGH:
                    chk.ok("command lines passed through from the caller")
                    continue
                fixed = fixed_choice(p, f, x)
                if fixed or fixed is None:
                    chk.ok("command arguments from a fixed set") if fixed else chk.undec(f"{f.qual}#{ast.unparse(x)}", "setter not followed")
                    continue
                key = f"{f.qual}#{ast.unparse(x)}"
                if key in UNQUOTED_OK:
                    chk.ok("command arguments from a fixed set")
                    continue
                if not from_outside(p, f, x):
                    chk.undec(key, "value not followed")
                    continue
                chk.violation("shell-quoting", key, f"{ast.unparse(x)} reaches the command line of {ast.unparse(n.func)} outside quotes", f.where(n))
            else:
                chk.ok("command arguments quoted")


def from_outside(p, f, x, depth=0):
    """the piece is (text of) a parameter, an attribute or an element of one: it is known to come from the caller, a file or the environment"""
    if depth > 5:
        return False
    if isinstance(x, ast.Name):
        if x.id in {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}:
            return True
        for w in own_nodes(f.node):
            if isinstance(w, (ast.Assign, ast.AnnAssign)) and w.value is not None and any(isinstance(t, ast.Name) and t.id == x.id for t in (w.targets if isinstance(w, ast.Assign) else [w.target])):
                if from_outside(p, f, w.value, depth + 1):
                    return True
            if isinstance(w, (ast.For, ast.comprehension)) and any(isinstance(t, ast.Name) and t.id == x.id for t in ast.walk(w.target)) and from_outside(p, f, w.iter, depth + 1):
                return True
        return False
    if isinstance(x, ast.Attribute):
        return from_outside(p, f, x.value, depth + 1) or isinstance(x.value, ast.Name)
    if isinstance(x, ast.Subscript):
        return from_outside(p, f, x.value, depth + 1)
    if isinstance(x, (ast.IfExp,)):
        return from_outside(p, f, x.body, depth + 1) or from_outside(p, f, x.orelse, depth + 1)
    if isinstance(x, ast.BinOp):
        return from_outside(p, f, x.left, depth + 1) or from_outside(p, f, x.right, depth + 1)
    if isinstance(x, ast.Call):
        if isinstance(x.func, ast.Attribute) and x.func.attr in TEXT_METHODS | {"items", "values", "keys", "get", "split", "splitlines"}:
            return any(from_outside(p, f, a, depth + 1) for a in [x.func.value] + list(x.args) if not isinstance(a, ast.Starred))
        t = ast.unparse(x.func)
        if t in ("str", "os.path.join", "os.path.abspath", "os.path.normpath", "os.path.realpath", "os.path.dirname", "os.path.basename", "Path", "pathlib.Path", "list", "sorted"):
            return any(from_outside(p, f, a, depth + 1) for a in x.args if not isinstance(a, ast.Starred))
        if t in ("os.environ.get", "os.getenv", "os.getcwd", "input"):
            return True
    if isinstance(x, ast.JoinedStr):
        return any(from_outside(p, f, v.value, depth + 1) for v in x.values if isinstance(v, ast.FormattedValue))
    return False


UNQUOTED_OK = {"windows.locate_tools:FindAllWithVsWhere#products"}     # documented as a fragment of the vswhere command line


def fixed_choice(p, f, x):
    """a value read from a constant table, or a property whose setter stores constants and table values only and rejects the rest"""
    if isinstance(x, ast.Subscript):
        r = p.resolve_expr(x.value, f.mod, f.cls)
        if isinstance(r, tuple) and r[0] in ("global", "cattr"):
            v = constev.ev(p, x.value, f.mod, f.cls, {})
            return isinstance(v, dict) and all(isinstance(y, (str, int)) and not set(str(y)) & set("&|;<>`$\"'\n") for y in v.values())
        return False
    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and f.cls is not None and f.params and x.value.id == f.params[0]:
        st = f.cls.setter(x.attr)
        if st is None:
            return False
        if any(isinstance(n, ast.Raise) for n in own_nodes(st.node)):
            return True         # the setter rejects values (which ones is decided by its contract under G04)
        return False if all(isinstance(n, (ast.Assign, ast.Expr)) for n in st.node.body) else None
    return False


def build_string(p, f, e):
    """pieces of a local string built by straight-line assignments and +=; None when not followed"""
    if not isinstance(e, ast.Name):
        return pieces(p, f, e)
    if e.id in {a.arg for a in f.node.args.args}:
        if not any(isinstance(w, ast.Name) and w.id == e.id and isinstance(w.ctx, ast.Store) for w in ast.walk(f.node)):
            return [e]
    out = []
    for n in sorted((w for w in own_nodes(f.node) if isinstance(w, (ast.Assign, ast.AugAssign))), key=lambda w: w.lineno):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
            ps = []
            for x in pieces(p, f, n.value):
                if isinstance(x, ast.Name) and x.id == e.id:
                    ps += out
                else:
                    ps.append(x)
            out = ps
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id:
            out = out + pieces(p, f, n.value)
    return out or None


XMLISH = re.compile(r"<\??[A-Za-z][\w-]*[^<]*=\s*[\"']$|</?[A-Za-z][\w-]*>$")


def markup(chk, p):
    """values written inside raw XML text are escaped"""
    for m in p.modules.values():
        if m.short != "log.junit_report_format" and "xml.sax" not in m.src and "<?xml" not in m.src:
            continue
        attrs = {}
        for f in p.iter_funcs(m):
            for n in ast.walk(f.node):
                tg = n.targets if isinstance(n, ast.Assign) else ([n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else [])
                for t in tg:
                    if isinstance(t, ast.Attribute):
                        attrs.setdefault(t.attr, []).append((f, n.value))
        for f in p.iter_funcs(m):
            for n in own_nodes(f.node):
                if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "write" and n.args):
                    continue
                ps = pieces(p, f, n.args[0])
                text = ""
                for x in ps:
                    if isinstance(x, str):
                        text += x
                        continue
                    inattr = bool(re.search(r"<[^<>]*=\s*\"[^\"<>]*$", text))
                    bad = escaped(p, f, x, attrs, inattr, 0)
                    key = f"{f.qual}#{ast.unparse(x)}"
                    if bad:
                        chk.violation("markup", key, f"{ast.unparse(x)} is written into XML {'attribute' if inattr else 'text'}: {bad}", f.where(n))
                    else:
                        chk.ok("values escaped before they reach XML")
                    text += "x"


def escape_kind(p, f, c):
    """0 no escape call, 1 escapes text, 2 escapes double quotes too"""
    if not isinstance(c, ast.Call):
        return 0
    r = p.resolve_expr(c.func, f.mod, f.cls)
    d = r if isinstance(r, str) else ""
    if isinstance(r, Func):
        rets = [n.value for n in own_nodes(r.node) if isinstance(n, ast.Return)]
        ks = [escape_kind(p, r, x) for x in rets]
        return min(ks) if ks else 0
    if d.endswith("saxutils.quoteattr"):
        return 2
    if d.endswith("html.escape"):
        q = next((k.value for k in c.keywords if k.arg == "quote"), c.args[1] if len(c.args) > 1 else None)
        return 1 if isinstance(q, ast.Constant) and not q.value else 2
    if d.endswith("saxutils.escape"):
        e = next((k.value for k in c.keywords if k.arg == "entities"), c.args[1] if len(c.args) > 1 else None)
        v = constev.ev(p, e, f.mod, f.cls) if e is not None else {}
        if v is constev.FAIL:
            return 2
        return 2 if isinstance(v, dict) and '"' in v else 1
    return 0


TEXT_METHODS = {"replace", "upper", "lower", "title", "capitalize", "join", "format", "ljust", "rjust", "center", "removeprefix", "removesuffix",
                "expandtabs", "swapcase", "casefold", "zfill", "strip", "rstrip", "lstrip", "decode", "encode"}


def escaped(p, f, x, attrs, inattr, depth):
    if depth > 4:
        return None
    if isinstance(x, ast.Constant):
        return None if not isinstance(x.value, str) or not re.search(r"[<>&\"]", x.value) else "contains markup"
    k = escape_kind(p, f, x)
    if k:
        return None if k == 2 or not inattr else "double quotes are not escaped"
    if isinstance(x, ast.Call):
        t = ast.unparse(x.func)
        if t in ("len", "int", "round", "time.time", "sum", "float", "id"):
            return None
        if isinstance(x.func, ast.Attribute) and x.func.attr in ("strip", "rstrip", "lstrip"):
            return escaped(p, f, x.func.value, attrs, inattr, depth + 1)
        g = p.resolve_expr(x.func, f.mod, f.cls)
        if g is None and isinstance(x.func, ast.Attribute) and f.cls is not None and isinstance(x.func.value, ast.Name) and f.params and x.func.value.id == f.params[0]:
            g = f.cls.method(x.func.attr)
        if isinstance(g, Func):
            for r in own_nodes(g.node):
                if isinstance(r, ast.Return) and r.value is not None:
                    b = escaped(p, g, r.value, attrs, inattr, depth + 1)
                    if b:
                        return b
            return None
        # text methods hand their receiver and arguments on; of any other call nothing is known
        carry = list(x.args) if t in ("str", "repr", "format", "min", "max", "sorted", "next", "iter", "list", "reversed") else []
        if isinstance(x.func, ast.Attribute) and x.func.attr in TEXT_METHODS:
            carry = [x.func.value] + list(x.args)
        for a in carry:
            for b in (a.elts if isinstance(a, (ast.List, ast.Tuple)) else [a.elt] if isinstance(a, (ast.GeneratorExp, ast.ListComp)) else [a]):
                why = escaped(p, f, b, attrs, inattr, depth + 1) if not isinstance(b, ast.Starred) else None
                if why:
                    return why
        return None
    if isinstance(x, ast.BinOp):
        if isinstance(x.op, ast.Add):
            return escaped(p, f, x.left, attrs, inattr, depth + 1) or escaped(p, f, x.right, attrs, inattr, depth + 1)
        return None
    if isinstance(x, ast.Name):
        vs = []
        for w in ast.walk(f.node):
            if isinstance(w, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in w.targets) or isinstance(w, ast.AugAssign) and isinstance(w.target, ast.Name) and w.target.id == x.id:
                vs.append(w.value)
        if not vs:
            if x.id in ("self",):
                return None
            if any(isinstance(w, ast.Name) and w.id == x.id and isinstance(w.ctx, ast.Store) for w in ast.walk(f.node)):
                return None         # bound by unpacking or a loop: not followed
            if x.id not in f.params:
                c = constev.ev(p, x, f.mod, f.cls)
                return None if not isinstance(c, str) or not re.search(r"[<>&\"]", c) else "contains markup"
            if f.name.startswith("_") and not f.name.startswith("__"):
                for g in p.iter_funcs(f.mod):
                    for w in own_nodes(g.node):
                        if isinstance(w, ast.Call) and (isinstance(w.func, ast.Name) and w.func.id == f.name or isinstance(w.func, ast.Attribute) and w.func.attr == f.name):
                            i = f.params.index(x.id) - (1 if isinstance(w.func, ast.Attribute) and not f.is_static else 0)
                            arg = next((k.value for k in w.keywords if k.arg == x.id), w.args[i] if 0 <= i < len(w.args) else None)
                            b = escaped(p, g, arg, attrs, inattr, depth + 1) if arg is not None else None
                            if b:
                                return b
                return None
            # a parameter: decided where the constructor is called
            a = next((b for b in f.node.args.args if b.arg == x.id), None)
            if a is not None and a.annotation is not None and ast.unparse(a.annotation) in ("int", "id", "float"):
                return None
            return "comes from the caller unescaped"
        for v in vs:
            b = escaped(p, f, v, attrs, inattr, depth + 1)
            if b:
                return b
        return None
    if isinstance(x, ast.Attribute):
        if x.attr in attrs:
            for g, v in attrs[x.attr]:
                b = escaped(p, g, v, attrs, inattr, depth + 1)
                if b:
                    return b
            return None
        return None
    if isinstance(x, ast.IfExp):
        return escaped(p, f, x.body, attrs, inattr, depth + 1) or escaped(p, f, x.orelse, attrs, inattr, depth + 1)
    return None


# ---------------------------------------------------------------- D01
def rule_session(chk, p, tier):
    own = p.func("database.edk2_db:Edk2DB.session")
    for f in p.iter_funcs():
        if not f.mod.short.startswith("database"):
            continue
        lent = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs if a.arg == "session" or a.annotation is not None and ast.unparse(a.annotation) in ("Session", "sqlalchemy.orm.Session")}
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in lent:
                if n.func.attr in ("commit", "rollback", "close", "begin", "expunge_all", "invalidate", "reset"):
                    chk.violation("lent-session", f"{f.qual}#{n.func.attr}", f"{f.qual} ends the transaction of a session it was lent ({n.func.attr})", f.where(n))
                else:
                    chk.ok("uses of a lent session")
            if isinstance(n, ast.Call) and ast.unparse(n.func) in ("Session", "sessionmaker") and f is not own:
                chk.violation("own-session", f"{f.qual}#{ast.unparse(n.func)}", "a second session is opened outside Edk2DB.session", f.where(n))
    if own is None:
        chk.undec("Edk2DB.session", "not found")
        return
    yields = [n for n in own_nodes(own.node) if isinstance(n, ast.Yield)]
    par = parents(own.node)
    if len(yields) != 1:
        chk.undec(own.qual, "not a single-yield context manager")
        return
    v = ast.unparse(yields[0].value) if yields[0].value is not None else ""
    q = yields[0]
    closed = rolled = False
    withs = False
    while q in par:
        up = par[q]
        if isinstance(up, ast.Try) and any(q is s for s in up.body):
            closed = closed or closes(up.finalbody, {v})
            for h in up.handlers:
                if handler_names(h) & (BROAD | {"*"}) and any(isinstance(w, ast.Attribute) and w.attr == "rollback" for s in h.body for w in ast.walk(s)):
                    if any(isinstance(w, ast.Raise) for s in h.body for w in ast.walk(s)):
                        rolled = True
            commit = [w for s in up.body + up.orelse for w in ast.walk(s) if isinstance(w, ast.Call) and isinstance(w.func, ast.Attribute) and w.func.attr == "commit"]
            if len(commit) > 1:
                chk.violation("session", f"{own.qual}#commit", "the session is committed more than once", own.where())
            fin = [w for s in up.finalbody for w in ast.walk(s) if isinstance(w, ast.Call) and isinstance(w.func, ast.Attribute) and w.func.attr == "commit"]
            if fin:
                chk.violation("session", f"{own.qual}#commit", "the session is committed in a finally, also after a failure", own.where(fin[0]))
        if isinstance(up, ast.With) and q is not up:
            withs = True
        q = up
    commits = [w for w in own_nodes(own.node) if isinstance(w, ast.Call) and isinstance(w.func, ast.Attribute) and w.func.attr in ("commit", "begin")]
    if withs:
        chk.ok("session protocol steps", 3)     # sqlalchemy's own context manager closes (and with begin() commits or rolls back)
        if not commits:
            chk.undec(own.qual, "commit left to a context manager")
        return
    for ok, what in ((closed, "closed in a finally"), (rolled, "rolled back and the error re-raised when the body fails"), (bool(commits), "committed")):
        if ok:
            chk.ok("session protocol steps")
        else:
            chk.violation("session", f"{own.qual}#{what.split()[0]}", f"the session is not {what}", own.where())
