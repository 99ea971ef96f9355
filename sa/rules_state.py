"""B04 no earlier content survives a decode, B08 observers change nothing, B09 no mutable state is shared between objects or calls."""
import ast
import re

import conform
import effects
import scopes
import summ
from project import Class, Func, own_nodes

DECODE = re.compile(r"^(decode\w*|populate\w*|load\w*|from\w*|unpack\w*|parse|set_payload|setpayload|decodefrom\w*|import\w*)$", re.I)
PARTIAL = re.compile(r"^set_?payload$", re.I)      # replaces one part of the object only
OBSERVE = re.compile(r"^_?(encode\w*|Encode\w*|write|Write\w*|print\w*|Print\w*|dump\w*|Dump\w*|__(str|repr|eq|ne|hash|lt|le|gt|ge|len|format|iter|bool|contains)__"
                     r"|\w*[xX]ml\w*|get_?\w*|Get\w*|is_?\w*|Is[A-Z]\w*|Serialize\w*|serialize\w*|to_?[a-z]*|To[A-Z]\w*|marshal\w*|as_\w+|has_\w+"
                     r"|compute\w*|calc\w*|Compute\w*|Calc\w*|find\w*|Find\w*|count\w*|size\w*|total\w*|verify\w*|validate\w*|Validate\w*|Verify\w*"
                     r"|flush_to_file|output\w*|Output\w*|hexdump)$")
# A stream reader and a file writer are named like observers but are documented to advance or change what they are given.
NOT_OBSERVERS = {"FdfParser.GetNextLine", "VariableStore.flush_to_file"}
# "Payload": a capsule header re-encodes the child header it owns into the payload bytes it emits.
# Fields encoding derives from the content (amended statement of B08); anything else an observer writes is a violation.
DERIVED = {("wincert:WinCertUefiGuid", "Hdr_dwLength"), ("firmware_policy:Rule", "OffsetToSubKeyName"), ("firmware_policy:Rule", "OffsetToValueName"),
           ("firmware_policy:Rule", "OffsetToValue"), ("firmware_policy:FirmwarePolicy", "ValueTable"),
           ("firmware_policy:FirmwarePolicy", "ValueTableFromFile"), ("firmware_policy:FirmwarePolicy", "ValueTableOffset"),
           ("firmware_policy:FirmwarePolicy", "ValueTableSize")}
DERIVED_NAMES = {"Payload"} | {a for _, a in DERIVED} | {"ValueTable"}
ENCODERS = re.compile(r"^_?(encode\w*|write|serialize\w*|marshal\w*)$", re.I)
SIZEISH = re.compile(r"size|length|len$|count|checksum|offset", re.I)
OUTPARAM = re.compile(r"out|stream|^fs$|file|buf|^s$|ValueTable", re.I)


def ctor_helpers(p, a, c):
    """private methods that only constructors (directly or through each other) call"""
    fam = {f for k in [c] + list(p.subclasses(c)) + c.mro() for f in k.all_funcs()}
    cand = {f for f in fam if f.name.startswith("_") and not f.name.startswith("__") and f in a.eff}
    callers = {f: {g for g in a.eff if f in a.eff[g].calls} for f in cand}
    cand = {f for f in cand if callers[f]}
    while True:
        bad = {f for f in cand if any(g.name != "__init__" and g not in cand for g in callers[f])}
        if not bad:
            return cand
        cand -= bad


def state_attrs(p, a, c):
    """chains (without element steps) that some method other than the constructor may write"""
    out = set()
    ctor = ctor_helpers(p, a, c)
    for k in [c] + list(p.subclasses(c)) + c.mro():
        for f in k.all_funcs():
            if f.name == "__init__" or f not in a.eff or f in ctor:
                continue
            for r, q, kind in a.eff[f].writes:
                if r == "self" and q and not kind.startswith("io"):
                    out.add(tuple(x for x in q if x not in ("[]", "~")))
    return out


def chain(y):
    names = []
    z = y
    while z.op in ("attr", "item", "elem"):
        if z.op == "attr":
            names.append(z.args[1])
        z = z.args[0]
    if z.op != "self":
        return None
    return tuple(reversed(names))


def prior_leaves(x):
    """{chain: True when also reached outside a loop's initial value} of the receiver's earlier state x depends on"""
    out = {}
    seen = set()
    st = [(x, True)]
    while st:
        y, firm = st.pop()
        if (y.id, firm) in seen:
            continue
        seen.add((y.id, firm))
        if y.op == "attr":
            c = chain(y)
            if c:
                out[c] = out.get(c, False) or firm
                continue
        if y.op == "content0":
            c = chain(y.args[0])
            if c:
                out[c] = out.get(c, False) or firm
                continue
        if y.op == "?":
            continue
        for i, z in enumerate(y.args):
            if isinstance(z, summ.N):
                st.append((z, firm and (not (y.op == "phi" and i == 1) or carries(y.args[2], 1) == 2)))
    return out


def carries(x, d):
    """2: every evaluation of the loop step x builds on the value the variable had before (an append, a sum); 1: it may
    leave that value as it is; 0: it may replace it"""
    if x.op == "lv":
        return 1 if x.args[0] == d else 0
    if x.op == "ite":
        a, b = carries(x.args[1], d), carries(x.args[2], d)
        return 0 if not a or not b else max(a, b)
    if x.op in ("sapp", "lapp", "list"):
        return x.args and isinstance(x.args[0], summ.N) and (2 if carries(x.args[0], d) else 0)
    if x.op in ("cat", "lin"):
        return 2 if any(isinstance(z, summ.N) and carries(z, d) for z in x.args) else 0
    if x.op == "phi":
        a, b = carries(x.args[1], d), carries(x.args[2], 1)
        return 0 if not a or not b else max(a, b)
    return 0


def entry_decoders(p, a, c):
    """decode-like instance methods of c that no other decode-like method of the class family calls"""
    fam = [c] + list(p.subclasses(c)) + c.mro()
    fs = [f for k in fam for f in k.all_funcs() if not f.is_static and not f.is_class]
    like = [f for f in fs if DECODE.match(f.name)]
    called = set()
    for g in fs:
        if g.name == "__init__" or deprecated(g):
            continue
        if DECODE.match(g.name) and g in a.eff:
            called |= {h for h in a.eff[g].calls if h.name != g.name}
    return [f for f in like if f.cls is c and f not in called and f in a.eff], like


def rule_b04(chk, p, tier):
    a = effects.analysis(p)
    spec = conform.load_spec()
    for c in p.iter_classes():
        if c.mod.short not in scopes.BIN:
            continue
        ents, like = entry_decoders(p, a, c)
        if not ents:
            continue
        st = state_attrs(p, a, c)
        for f in ents:
            if deprecated(f):
                continue
            facts, why = conform.summary_of(p, f, spec["modular"])
            if facts is None:
                chk.undec(f.qual, why)
                continue
            n = 0
            for key, v in facts.items():
                kind, _, path = key.partition(":")
                if kind not in ("set", "in") or not path.startswith("self"):
                    continue
                if v is None:
                    chk.undec(f"{f.qual} {key}", "too large to state")
                    continue
                n += 1
                for ch, firm in sorted(prior_leaves(v).items()):
                    hit = [s for s in st if s == ch[:len(s)] or ch == s[:len(ch)]]
                    if not hit:
                        continue
                    if firm:
                        chk.violation("stale-state", f"{f.qual}#{path}", f"after {f.name}() the value of {path} still depends on the earlier content of "
                                      f"self.{'.'.join(ch)}: {summ_short(v)}", f.where())
                    else:
                        chk.undec(f"{f.qual} {path}", "depends on earlier state only when a loop runs zero times")
            chk.ok("attributes left by a decode", n)
            written = {q[0] for (r, q, k) in a.eff[f].writes if r == "self" and q and not k.startswith("io")} | {
                k.partition(":")[2].split(".")[1] for k in facts if k.startswith(("set:self.", "in:self."))}
            if written and not PARTIAL.match(f.name):
                known = set(spec["attrs"]["all"])
                ctor = ctor_helpers(p, a, c)
                for g in {g for k in c.mro() for g in k.all_funcs()}:
                    if g.name == "__init__" or g not in a.eff or g.is_static or g.is_class or g in ctor:
                        continue
                    for (r, q, kind) in a.eff[g].writes:
                        if r == "self" and q and not kind.startswith("io") and q[0] not in written and q[0] in known:
                            if (r, q, kind) in a.eff[g].sure:
                                chk.violation("survives", f"{f.qual}#{q[0]}", f"{f.name}() never sets self.{q[0]}, which {g.name}() changes: a used object keeps it",
                                              f.where())
                            else:
                                chk.undec(f"{f.qual} {q[0]}", f"may survive from {g.name}()")
            chk.ok("decode entry points")
            chk.sample(f"{f.qual}: {n} attributes, none depends on earlier state")
    chk.need("decode entry points", 20)


def summ_short(v):
    import compare
    return compare.short(v, 200)


def deprecated(f):
    return any(isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and "Deprecat" in ast.unparse(x) for x in own_nodes(f.node))


# ---------------------------------------------------------------- B08
def rule_b08(chk, p, tier):
    a = effects.analysis(p)
    spec = conform.load_spec()
    known = set(spec["attrs"]["all"])
    for f in p.iter_funcs():
        if f not in a.eff or f.is_setter or f.parent is not None:
            continue
        if not (OBSERVE.match(f.name) or f.is_prop):
            continue
        tail = f.qual.split(":")[1]
        if tail in NOT_OBSERVERS:
            continue
        E = a.eff[f]
        chk.ok("observers")
        for (r, q, kind) in sorted(E.writes, key=str):
            if kind.startswith("io"):
                continue
            wf, wn = E.writes[(r, q, kind)]
            where = f"{wf.mod.rel}:{getattr(wn, 'lineno', 0)}"
            last = q[-1] if q else ""
            if r == "self" and q:
                names = [x for x in q if x not in ("[]", "~", "*")]
                if names and names[-1] in DERIVED_NAMES and ENCODERS.match(f.name):
                    chk.ok("derived fields recomputed by encoding")
                    continue
                if names and kind == "attr" and SIZEISH.search(names[-1]) and ENCODERS.match(f.name):
                    chk.ok("derived fields recomputed by encoding")
                    continue
                if names and names[-1] not in known and names[-1].startswith("_"):
                    chk.undec(f"{f.qual} {'.'.join(q)}", "a private attribute the confirmed code does not have (a cache?)")
                    continue
                what = "self." + ".".join(names)
            elif isinstance(r, tuple) and r[0] == "p":
                if OUTPARAM.search(r[1]) or (tail, r[1]) in OUTBUFS:
                    chk.ok("output parameters")
                    continue
                what = f"the caller's argument {r[1]}" + ("." + ".".join(q) if q else "")
            elif isinstance(r, tuple) and r[0] in ("g", "k") or r in ("cls",):
                what = f"shared {'.'.join(map(str, r[1:] if isinstance(r, tuple) else [r]))}" + ("." + ".".join(q) if q else "")
            else:
                what = "self"
            if (r, q, kind) in E.sure:
                chk.violation("observer-writes", f"{f.qual}#{what}", f"{tail}() changes {what} ({'content' if kind == 'content' else 'attribute'}) through "
                              f"{wf.qual.split(':')[1]}", where)
            else:
                chk.undec(f"{f.qual} {what}", "written through an alias that may be fresh")
    # derived fields must be recomputed from the content, not from their earlier value
    for f in p.iter_funcs():
        if f not in a.eff or f.cls is None or not ENCODERS.match(f.name) or deprecated(f):
            continue
        if not any(r == "self" and not k.startswith("io") for r, q, k in a.eff[f].writes):
            continue
        facts, why = conform.summary_of(p, f, spec["modular"])
        if facts is None:
            chk.undec(f.qual, why)
            continue
        for key, v in facts.items():
            kind, _, path = key.partition(":")
            if kind not in ("set", "in") or not path.startswith("self.") or v is None:
                continue
            ch = tuple(path.split(".")[1:])
            pl = prior_leaves(v)
            for c, firm in pl.items():
                if c == ch and firm and not keeps(v, c):
                    chk.violation("not-idempotent", f"{f.qual}#{path}", f"{f.name}() computes {path} from its earlier value, so a second call gives another "
                                  f"result: {summ_short(v)}", f.where())
            chk.ok("recomputed fields depend on content only")
    chk.need("observers", 200)


OUTBUFS = {("Rule.Serialize", "ruleOut"), ("Rule.Serialize", "valueOut"), ("Reserved2.Serialize", "ruleOut"), ("Reserved2.Serialize", "valueOut")}


def keeps(v, ch):
    """the earlier value is only kept unchanged (an arm of a choice), never computed with"""
    st, ok = [v], True
    while st:
        y = st.pop()
        if y.op == "ite":
            if ch in prior_leaves(y.args[0]):
                return False
            st += [y.args[1], y.args[2]]
            continue
        if y.op == "attr" and chain(y) == ch:
            continue
        if ch in prior_leaves(y):
            ok = False
    return ok


# ---------------------------------------------------------------- B09
MUTCALL = {"list", "dict", "set", "bytearray", "defaultdict", "OrderedDict", "deque", "Counter", "collections.defaultdict", "collections.OrderedDict",
           "collections.deque", "collections.Counter", "io.BytesIO", "BytesIO", "io.StringIO", "StringIO"}
FROZEN_AT_IMPORT = re.compile(r"^(time\.(time|localtime|gmtime|strftime|monotonic|perf_counter|time_ns)|datetime\.(datetime\.)?(now|utcnow|today)|datetime\.date\.today|"
                              r"date\.today|random\.\w+|uuid\.uuid[14]|uuid[14]|os\.(getcwd|getcwdb|urandom|getpid|listdir)|secrets\.\w+|pathlib\.Path\.cwd|Path\.cwd|"
                              r"tempfile\.\w+|os\.getenv|os\.environ\.get|socket\.gethostname|platform\.node)$")


def mutable(p, e, m, cls=None):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        if ast.unparse(e.func) in MUTCALL:
            return True
        c = p.resolve_expr(e.func, m, cls)
        if isinstance(c, Class) and not c.is_enum:
            return any(g.name != "__init__" and any(True for _ in selfwrites(g)) for g in c.all_funcs()) or "set" in c.bases or "dict" in c.bases
    return False


def selfwrites(g):
    for n in own_nodes(g.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and g.params and n.value.id == g.params[0]:
            yield n


def defaults(f):
    ar = f.node.args
    return list(zip((ar.posonlyargs + ar.args)[::-1], ar.defaults[::-1])) + [(x, d) for x, d in zip(ar.kwonlyargs, ar.kw_defaults) if d is not None]


def aliases(f, name):
    """expressions that hand the parameter itself on: plain name, or `x or other` with it"""
    def has(e):
        if isinstance(e, ast.Name):
            return e.id == name
        if isinstance(e, ast.BoolOp):
            return any(has(v) for v in e.values)
        if isinstance(e, ast.IfExp):
            return has(e.body) or has(e.orelse)
        return False
    return has


def rule_b09(chk, p, tier):
    a = effects.analysis(p)
    for f in p.iter_funcs():
        for x, d in defaults(f):
            chk.ok("default arguments")
            t = ast.unparse(d.func) if isinstance(d, ast.Call) else None
            if t:
                r = p.resolve_expr(d.func, f.mod, f.cls)
                t = r if isinstance(r, str) else t
                for c in ast.walk(d):
                    if isinstance(c, ast.Call):
                        rr = p.resolve_expr(c.func, f.mod, f.cls)
                        tt = rr if isinstance(rr, str) else ast.unparse(c.func)
                        if FROZEN_AT_IMPORT.match(tt):
                            chk.violation("frozen-default", f"{f.qual}#{x.arg}", f"default {x.arg}={ast.unparse(d)} is evaluated once, when the module is imported", f.where())
            if not mutable(p, d, f.mod, f.cls):
                continue
            if f not in a.eff:
                continue
            ws = [w for w in a.eff[f].writes if w[0] == ("p", x.arg) and not w[2].startswith("io")]
            if ws:
                chk.violation("mutable-default", f"{f.qual}#{x.arg}", f"the shared default {x.arg}={ast.unparse(d)} is changed by the call", f.where())
                continue
            has = aliases(f, x.arg)
            rebound = any(isinstance(n, ast.Name) and n.id == x.arg and isinstance(n.ctx, ast.Store) for n in own_nodes(f.node))
            kept = None
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign) and has(n.value) and any(isinstance(t_, (ast.Attribute, ast.Subscript)) for t_ in n.targets):
                    kept = n
                if isinstance(n, ast.Return) and n.value is not None and has(n.value):
                    kept = n
            if kept is not None and not rebound:
                chk.violation("mutable-default", f"{f.qual}#{x.arg}", f"the shared default {x.arg}={ast.unparse(d)} is stored or returned: "
                              f"{ast.unparse(kept)[:80]}", f"{f.mod.rel}:{kept.lineno}")
            elif kept is not None:
                chk.undec(f"{f.qual}#{x.arg}", "mutable default stored after it may have been replaced")
            else:
                chk.ok("mutable defaults only read")
    # class- and module-level containers changed by calls
    for f in p.iter_funcs():
        if f not in a.eff:
            continue
        chk.ok("functions without writes to shared tables")
        for (r, q, kind) in sorted(a.eff[f].writes, key=str):
            if kind.startswith("io"):
                continue
            shared = isinstance(r, tuple) and r[0] in ("g", "k") or r == "cls"
            if not shared:
                continue
            wf, wn = a.eff[f].writes[(r, q, kind)]
            if wf is not f:
                continue
            nm = ".".join(map(str, r[1:])) if isinstance(r, tuple) else (f.cls.qual if f.cls else "cls")
            txt = f"{nm}{'.' if q else ''}{'.'.join(q)}"
            if (r, q, kind) in a.eff[f].sure:
                chk.violation("shared-write", f"{f.qual}#{txt}", f"{f.qual.split(':')[1]}() changes {txt}, which every object and call shares",
                              f"{wf.mod.rel}:{getattr(wn, 'lineno', 0)}")
            else:
                chk.undec(f"{f.qual}#{txt}", "shared table reached through an alias that may be fresh")
    # class-level containers used as instance state
    muts = content_mutations(p, a)
    for c in p.iter_classes():
        if c.is_enum:
            continue
        for nm, v in c.attrs.items():
            if not (isinstance(v, ast.AST) and mutable(p, v, c.mod, c)):
                continue
            chk.ok("class-level containers")
            rebound = any(nm in inst_assigned(k, "__init__") for k in c.mro()) or all(
                nm in inst_assigned(k, "__init__") or any(nm in inst_assigned(b, "__init__") for b in k.mro()) for k in [c])
            hits = [(f, n) for f, n, cl in muts.get(nm, []) if cl is None or cl is c or c in cl.mro() or cl in c.mro()]
            if hits and not rebound:
                f, n = hits[0]
                sure = [h for h in muts.get(nm, []) if h[2] is not None]
                if sure or unique_attr(p, nm, c):
                    chk.violation("class-container", f"{c.qual}.{nm}", f"{c.qual}.{nm} is created once for the class and changed in {f.qual}: {ast.unparse(n)[:80]}",
                                  f"{f.mod.rel}:{n.lineno}")
                else:
                    chk.undec(f"{c.qual}.{nm}", f"may be what {f.qual} changes")
    # shared containers handed out uncopied
    for f in p.iter_funcs():
        if f not in a.eff:
            continue
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and f.params and t.value.id == f.params[0] and f.cls is not None:
                        src = shared_container(p, a, n.value, f)
                        if src is None:
                            continue
                        chk.ok("shared containers assigned to attributes")
                        hits = [h for h in muts.get(t.attr, []) if h[2] is None or h[2] in f.cls.mro() or f.cls in h[2].mro()]
                        if any(h[2] is not None for h in hits):
                            chk.violation("shared-alias", f"{f.qual}#{t.attr}", f"self.{t.attr} is the shared {src} itself and is changed by {hits[0][0].qual}",
                                          f"{f.mod.rel}:{n.lineno}")
                        elif hits:
                            chk.undec(f"{f.qual}#{t.attr}", "shared container stored, mutation not attributed")
            elif isinstance(n, ast.Return) and n.value is not None:
                src = shared_container(p, a, n.value, f)
                if src is not None:
                    chk.violation("shared-result", f"{f.qual}#{src}", f"{f.qual.split(':')[1]}() returns the shared container {src} itself, not a copy",
                                  f"{f.mod.rel}:{n.lineno}")
    # one mutable object replicated
    for f in p.iter_funcs():
        for n in own_nodes(f.node):
            replicated(chk, p, f, n)
        cached(chk, p, f)
        reads_default(chk, p, f)
    chk.need("default arguments", 150)
    chk.need("functions without writes to shared tables", 500)


def inst_assigned(c, meth):
    m = c.methods.get(meth)
    out = set()
    if m is None:
        return out
    for n in own_nodes(m.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and m.params and n.value.id == m.params[0]:
            out.add(n.attr)
    return out


def unique_attr(p, nm, c):
    for k in p.iter_classes():
        if k is c or c in k.mro() or k in c.mro():
            continue
        if nm in k.attrs or any(nm in inst_assigned(k, m) for m in k.methods):
            return False
    return True


def content_mutations(p, a):
    """attribute name -> [(Func, node, class of the holder or None)] of in-place changes of an attribute's container"""
    out = {}
    for f in p.iter_funcs():
        if f not in a.eff:
            continue
        for n in own_nodes(f.node):
            t = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in effects.MUT and isinstance(n.func.value, ast.Attribute):
                t = n.func.value
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Attribute):
                t = n.value
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and isinstance(n.op, (ast.Add, ast.BitOr)) and isinstance(
                    n.value, (ast.List, ast.ListComp, ast.Set, ast.Dict)):
                t = n.target
            if t is not None:
                out.setdefault(t.attr, []).append((f, n, a.type_of(t.value, f)))
    return out


def the_global(r):
    vs = r[1].globals.get(r[2]) or []
    return vs[0] if len(vs) == 1 else None


def shared_container(p, a, e, f):
    """name of the module- or class-level mutable container e evaluates to, uncopied"""
    if isinstance(e, ast.IfExp):
        return shared_container(p, a, e.body, f) or shared_container(p, a, e.orelse, f)
    if isinstance(e, ast.BoolOp):
        for v in e.values:
            s = shared_container(p, a, v, f)
            if s:
                return s
        return None
    if not isinstance(e, (ast.Name, ast.Attribute)):
        return None
    if isinstance(e, ast.Name):
        defs = a.local_defs(f).get(e.id)
        if defs or e.id in f.params or f.parent is not None:
            return None
        r = p.resolve_name(e.id, f.mod)
    else:
        if isinstance(e.value, ast.Name) and f.params and e.value.id == f.params[0] and f.cls is not None:
            ca = f.cls.class_attr(e.attr)
            if ca and not any(e.attr in inst_assigned(k, m) for k in f.cls.mro() for m in k.methods) and mutable(p, ca[1], ca[0].mod, ca[0]):
                return f"{ca[0].qual}.{e.attr}"
            return None
        r = p.resolve_expr(e, f.mod, f.cls)
    if isinstance(r, tuple) and r[0] == "global":
        v = the_global(r)
        if v is not None and mutable(p, v, r[1]):
            return f"{r[1].short}.{r[2]}"
    if isinstance(r, tuple) and r[0] == "cattr":
        v = r[1].attrs.get(r[2])
        if v is not None and mutable(p, v, r[1].mod, r[1]):
            return f"{r[1].qual}.{r[2]}"
    return None


def replicated(chk, p, f, n):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "fromkeys" and len(n.args) == 2 and mutable(p, n.args[1], f.mod, f.cls):
        chk.violation("one-object-many-slots", f"{f.qual}#{n.lineno - f.node.lineno}", f"every key shares one {ast.unparse(n.args[1])}: {ast.unparse(n)[:80]}", f"{f.mod.rel}:{n.lineno}")
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
        for x, y in ((n.left, n.right), (n.right, n.left)):
            if isinstance(x, ast.List) and any(mutable(p, z, f.mod, f.cls) for z in x.elts):
                chk.violation("one-object-many-slots", f"{f.qual}#{n.lineno - f.node.lineno}", f"every slot shares one object: {ast.unparse(n)[:80]}", f"{f.mod.rel}:{n.lineno}")


def cached(chk, p, f):
    decos = [ast.unparse(d) for d in f.node.decorator_list]
    if not any(re.match(r"(functools\.)?(lru_cache|cache)\b", d) for d in decos):
        return
    chk.ok("cached functions")
    for n in own_nodes(f.node):
        if isinstance(n, ast.Return) and n.value is not None:
            v = n.value
            cand = [v]
            if isinstance(v, ast.Name):
                import effects as ef
                cand = ef.analysis(p).local_defs(f).get(v.id, [])
            if any(x is not None and isinstance(x, ast.AST) and mutable(p, x, f.mod, f.cls) for x in cand):
                chk.violation("cached-mutable", f.qual, f"all callers of the cached {f.name}() share one mutable result", f.where())
                return


def reads_default(chk, p, f):
    """subscripting a shared defaultdict inserts the key"""
    for n in own_nodes(f.node):
        if not (isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load)):
            continue
        b, depth = n.value, 0
        while isinstance(b, ast.Subscript):
            b, depth = b.value, depth + 1
        r = None
        if isinstance(b, ast.Name):
            if b.id in f.params:
                continue
            r = p.resolve_name(b.id, f.mod)
        elif isinstance(b, ast.Attribute):
            r = p.resolve_expr(b, f.mod, f.cls)
        v = None
        if isinstance(r, tuple) and r[0] == "global":
            v = the_global(r)
        elif isinstance(r, tuple) and r[0] == "cattr":
            v = r[1].attrs.get(r[2])
        if isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] == "defaultdict" and v.args:
            chk.violation("inserting-read", f"{f.qual}#{ast.unparse(b)}", f"{ast.unparse(n)} inserts missing keys into the shared defaultdict {ast.unparse(b)}",
                          f"{f.mod.rel}:{n.lineno}")
