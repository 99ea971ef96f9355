"""Contract conformance: canonical summaries of the current source against the confirmed contract tables in spec/."""
import ast
import json
import os
import sys

import compare
import effects
import project
import summ
import terms
import vf

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
MAXSTEPS = 30000


def load_spec():
    out = {"modular": [], "funcs": {}, "attrs": {}}
    for fn in sorted(os.listdir(SPEC)):
        if fn.startswith("contracts") and fn.endswith(".json"):
            d = json.load(open(os.path.join(SPEC, fn), encoding="utf-8"))
            out["modular"] += d.get("modular", [])
            out["funcs"].update(d.get("funcs", {}))
            out["attrs"].update(d.get("attrs", {}))
    compare.OBJECTS |= set(out["attrs"].get("objects", ()))
    return out


def summary_of(p, f, modular, raises=False):
    """-> (facts, why) ; facts None when the function is outside the model"""
    compare.CALLEES[0] = p
    try:
        terms.reset()
        ev = vf.Evaluator(p, opaque=set(modular) - {f.qual}, max_steps=MAXSTEPS)
        r = ev.run(f, fresh=f.name == "__init__")
        return summ.summarize(r, raises=raises), ""
    except vf.GiveUp as e:
        return None, str(e)
    except RecursionError:
        return None, "too deep"


def attr_names(p):
    s = set()
    for c in p.iter_classes():
        s |= set(vf.attr_info(p, c))
        s |= set(c.methods)
        s |= set(getattr(c, "attrs", {}) or {})
    return sorted(s)


def initial(key, names):
    """The node a location holds before the function ran."""
    kind, path = key.split(":", 1)
    parts = path.split(".")
    root = parts[0]
    if root == "self":
        x = summ.n("self")
    elif root.startswith("$"):
        x = summ.n("p", root[1:])
    else:
        return None
    for a in parts[1:]:
        x = summ.n("attr", x, a)
    if kind == "in":
        return summ.n("content0", x, "#")
    if kind == "out":
        return summ.k(b"")
    return x


QMETH = {"is_file", "exists", "is_dir", "find", "get", "split", "rsplit", "strip", "match", "search", "fullmatch", "findall", "finditer", "groups",
         "group", "lower", "upper", "items", "keys", "values", "resolve", "relative_to", "joinpath", "as_posix", "iterdir", "glob", "rglob",
         "encode", "decode", "format", "join", "count", "index", "startswith", "endswith", "tell", "getvalue", "hex", "isoformat", "copy",
         "splitlines", "replace", "query", "filter", "filter_by", "first", "all", "one", "one_or_none", "compile", "is_relative_to", "sub"}
QFUN = ("os.path.", "re.", "pathlib.", "datetime.", "time.", "platform.", "os.environ", "os.getcwd", "inspect.", "uuid.", "copy.", "hashlib.",
        "struct.", "builtins.", "io.", "tempfile.", "html.", "xml.sax.saxutils.", "os.listdir", "os.walk", "operator.", "functools.", "itertools.",
        "collections.", "importlib.metadata.", "ctypes.create_string_buffer")


def query(nm):
    if nm.startswith("."):
        return nm[1:] in QMETH
    if ":" in nm:
        return False
    return nm.startswith(QFUN)


def starts_without(f, key):
    """the location is an attribute the object does not have before this constructor runs"""
    if f is None or f.name != "__init__" or f.cls is None or not key.startswith("set:self.") or key.count(".") != 1:
        return False
    a = key.split(".")[-1]
    return f.cls.class_attr(a) is None and f.cls.method(a) is None and not [b for b in f.cls.external_bases() if b not in ("object", "ABC", "abc.ABC")]


def bag(nm, xs):
    return summ.n("bag", nm, *[summ.n("ite", x.args[1], summ.n("tuple", *x.args[2:]), compare.NOP) for x in xs])


def fxname(x):
    return x.args[0]


def has_raises(ref):
    return any(x.startswith("raise") for x in ref["f"])


def literal(x):
    """a stated condition -> {atom: truth value}"""
    if compare.has_unknown(x) or x.op == "loop":
        return {}
    if x.op == "not":
        return {a: summ.neg(v) for a, v in literal(x.args[0]).items()} if x.args[0].op not in ("and", "or", "ite") else {}
    if x.op == "and":
        return {a: v for y in x.args for a, v in literal(y).items()}
    return {} if x.op in ("or", "ite", "c") else {x: summ.TRUE}


def excluded(r, x):
    """the conditions under which the contract raises r rule the rejection x out"""
    twice = set()       # tested more than once with different outcomes: not the same value each time

    def told(n):
        m = {}
        for y in n.args[1:]:
            for a, v in literal(y).items():
                if m.setdefault(a, v) is not v:
                    twice.add(a)
        return m
    mr, mx = told(r), told(x)

    def broken(ls, m):
        m = {a: v for a, v in m.items() if a not in twice}
        return any(not compare.has_unknown(y) and y.op != "loop" and not (compare.atoms(y) & twice) and compare.subst(y, m, {}) is summ.FALSE for y in ls)
    return broken(x.args[1:], mr) or broken(r.args[1:], mx)


def renewed(a):
    """on some path of the contract the location receives a new container"""
    todo, seen = [a], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("dict", "list", "set") and not (x.op == "list" and x.args and isinstance(x.args[0], summ.N) and x.args[0].op == "content0"):
            return True
        if x.op == "ite":
            todo += list(x.args[1:])
        elif x.op == "phi":
            todo += [y for y in x.args[1:] if isinstance(y, summ.N)]
    return False


EMPTIES = {"clear", "popitem", "pop", "remove", "discard", "difference_update", "intersection_update", "__delitem__"}
QUIET = {"len", "list", "dict", "set", "str", "sorted", "any", "all", "print", "isinstance", "enumerate", "tuple", "update", "get", "extend", "format"}


def empties(f, attr):
    """the function, or a method it may call, has a construct that can empty the container in place or hand it on"""
    if f is None:
        return True

    def it(e):
        return isinstance(e, ast.Name) and e.id in alias or isinstance(e, ast.Attribute) and e.attr == attr
    funcs, todo = {f}, [f]
    while todo:
        g = todo.pop()
        alias = {y.id for x in ast.walk(g.node) for z in ast.iter_child_nodes(x) if isinstance(z, ast.Attribute) and z.attr == attr
                 and not isinstance(x, (ast.Attribute, ast.Subscript)) for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        for x in ast.walk(g.node):
            if isinstance(x, ast.Delete) and any(isinstance(t, ast.Subscript) and it(t.value) for t in x.targets):
                return True
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                    if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice) and it(t.value):
                        return True
                    if it(t) and isinstance(t, ast.Attribute):
                        return True
            if isinstance(x, ast.Call):
                n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ""
                if n in ("setattr", "exec", "eval", "vars", "partial"):
                    return True
                if n in EMPTIES and isinstance(x.func, ast.Attribute) and it(x.func.value):
                    return True
                if n not in QUIET and any(isinstance(a, ast.Attribute) and a.attr == attr for a in list(x.args) + [k.value for k in x.keywords]):
                    return True
                h = None
                if isinstance(x.func, ast.Attribute) and g.cls is not None:
                    h = (f.cls or g.cls).method(n)
                elif isinstance(x.func, ast.Name):
                    h = g.mod.funcs.get(n)
                if h is not None and h not in funcs:
                    funcs.add(h)
                    todo.append(h)
    return False


def diff_raises(R, new, known_attrs):
    """Rejections stated one by one: each one of the contract still has a counterpart"""
    a = [compare.refold(x) for k, x in sorted(R.items()) if k.startswith("raise")]
    b = [compare.refold(x) for k, x in sorted(new.items()) if k.startswith("raise")]
    out = []
    for x in list(a):
        y = next((y for y in b if y is x), None) or next((y for y in b if y.args[1:] == x.args[1:]), None)
        if y is not None:
            a.remove(x)
            b.remove(y)
            out.append(("reject", "same", ""))
    if len(a) == len(b) == 1 and len(a[0].args) == len(b[0].args):
        x, y = a[0], b[0]
        w = [i for i in range(1, len(x.args)) if x.args[i] is not y.args[i]]
        if len(w) == 1 and not compare.has_unknown(x.args[w[0]]) and not compare.has_unknown(y.args[w[0]]):
            rest = [z for i, z in enumerate(x.args) if i and i != w[0] and not compare.has_unknown(z) and z.op != "loop"]
            v, why = compare.Cmp(known_attrs).run(summ.n("and", *rest, x.args[w[0]]), summ.n("and", *rest, y.args[w[0]]))
            return out + [("reject", v, why)]
    for x in a:
        if len([z for z in x.args[1:] if not compare.has_unknown(z)]) and all(excluded(x, y) for y in b):
            last = [z for z in x.args[1:] if not compare.has_unknown(z)][-1]
            out.append(("reject", "diff", f"nothing is raised any more where the contract raises {x.args[0]} because of {compare.short(last)}"))
        else:
            out.append(("reject", "unknown", "rejection not paired"))
    return out


def diff_func(ref, new, known_attrs, kinds, f=None):
    """Compare two fact tables -> list of (key, verdict, why)"""
    out = []
    R = summ.unpack_facts(ref) if "n" in ref and "f" in ref else ref
    dc = None
    if R.get("reject") is not None and R["reject"] is not summ.FALSE:
        # what a call that the contract says is rejected leaves behind is not part of it
        dc = R["reject"] if summ.dag(R["reject"], 200) < 200 else None
    for key in sorted(set(R) | set(new)):
        kind = key.split(":")[0]
        if kind.startswith(("fx", "raise")):
            continue
        if kind not in kinds:
            continue
        a, b = R.get(key), new.get(key)
        if key in R and a is None or key in new and b is None:
            if key == "reject" and any(x.startswith("raise") for x in R):
                out += diff_raises(R, new, known_attrs)
                continue
            out.append((key, "unknown", "too large to state"))
            continue
        if a is None or b is None:
            if kind in ("ret", "reject"):
                continue
            i = initial(key, known_attrs)
            if b is None and starts_without(f, key):
                i = summ.n("missing", summ.n("self"), key.split(".")[-1])      # a constructor starts without the attribute
            if i is None:
                out.append((key, "unknown", "location not comparable"))
                continue
            if a is None:
                last = key.split(".")[-1]
                if kind == "set" and known_attrs is not None and last not in known_attrs:
                    continue
                a = i
            else:
                b = i
        v, why = compare.Cmp(known_attrs, initial(key, known_attrs) if kind == "set" else None).run(a, b, dc if kind != "reject" else None)
        if v == "unknown" and kind == "set" and key not in new and R[key] is a and renewed(a) and not empties(f, key.split('.')[-1]):
            v, why = "diff", "is never replaced by an empty container any more, nor emptied: what it held before stays in it"
        out.append((key, v, why))
    if "fx" in kinds:
        rs, ns = {}, {}
        for k, x in R.items():
            if k.startswith("fx"):
                rs.setdefault(fxname(x) if x is not None else "?", []).append(x)
        for k, x in new.items():
            if k.startswith("fx"):
                ns.setdefault(fxname(x) if x is not None else "?", []).append(x)
        for nm in sorted(set(rs) | set(ns)):
            a, b = list(rs.get(nm, [])), list(ns.get(nm, []))
            if nm == "?":
                out.append(("fx:?", "unknown", "too large to state"))
                continue
            same = 0
            for x in list(a):
                if x in b:
                    a.remove(x)
                    b.remove(x)
                    same += 1
            for _ in range(same):
                out.append(("fx:" + nm, "same", ""))
            if not a and not b:
                continue
            if len(a) == len(b) == 1:
                v, why = compare.Cmp(known_attrs).run(a[0], b[0], dc)
            elif query(nm):
                v, why = "unknown", "number of queries changed"
            elif not b and not rs and False:
                v, why = "unknown", ""
            else:
                if any(compare.has_unknown(x) for x in a + b):
                    v, why = "unknown", "calls not paired"
                elif (not a or not b) and set(ns) - set(rs) and not b:
                    v, why = "unknown", "call replaced by another"
                else:
                    v, why = compare.Cmp(known_attrs).run(bag(nm, a), bag(nm, b), dc)
            out.append(("fx:" + nm, v, why))
    return out


def check_scope(chk, p, spec, scope, kinds_of, label="contract"):
    """scope: function quals; kinds_of(qual) -> fact kinds to compare"""
    known = set(spec["attrs"].get("all", []))
    done = 0
    for q in scope:
        ref = spec["funcs"].get(q)
        if ref is None:
            continue
        f = p.func(q)
        if f is None:
            chk.undec(q, "function no longer exists under this name")
            continue
        new, why = summary_of(p, f, spec["modular"], has_raises(ref))
        if new is None:
            chk.undec(q, why)
            continue
        done += 1
        for key, v, why in diff_func(ref, new, known, kinds_of(q), f):
            if v == "same":
                chk.ok(label + "_facts")
            elif v == "unknown":
                chk.undec(f"{q} {key}", why)
            else:
                chk.violation(label, f"{q}#{key}", f"{describe(key)} of {q}: {why}", f.where())
    chk.ok(label + "_functions", done)


def describe(key):
    kind, _, path = key.partition(":")
    return {"ret": "result", "reject": "rejection condition", "set": f"value left in {path}", "in": f"content left in {path}",
            "out": f"bytes written to {path}", "fx": f"call to {path}"}.get(kind, key)
