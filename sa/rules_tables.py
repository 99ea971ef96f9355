"""T01: constant tables carry the values of the specifications and agree with each other."""
import ast
import json
import os
import uuid

import constev
from project import own_nodes

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec", "tables.json")


def enc(v):
    if isinstance(v, bool) or v is None or isinstance(v, (int, str, float)):
        return v
    if isinstance(v, (bytes, bytearray)):
        return {"b": bytes(v).hex()}
    if isinstance(v, uuid.UUID):
        return {"u": str(v)}
    if isinstance(v, constev.Ref):
        return {"r": v.qual}
    if isinstance(v, constev.Enumed):
        return enc(v.value)
    if isinstance(v, (list, tuple, range)):
        return {"l": [enc(x) for x in v]}
    if isinstance(v, (set, frozenset)):
        return {"s": sorted((enc(x) for x in v), key=repr)}
    if isinstance(v, dict):
        return {"d": [[enc(k), enc(x)] for k, x in v.items()]}
    return {"?": 1}


def show(v):
    if isinstance(v, int) and not isinstance(v, bool):
        return hex(v) if v > 9 else str(v)
    if isinstance(v, dict):
        k, x = next(iter(v.items()))
        return str(x) if k in "ur" else (f"bytes {x}" if k == "b" else ("?" if k == "?" else f"{len(x)} entries"))
    return repr(v)


def same(ref, cur, unordered=False):
    """-> None when every entry of ref is in cur with its value, '?' when it cannot be told, else what differs"""
    if cur == {"?": 1} or ref == {"?": 1}:
        return "?"
    kr, kc = (next(iter(x)) if isinstance(x, dict) else None for x in (ref, cur))
    if kr == "d":
        if kc != "d":
            return "?"
        c = {json.dumps(k): v for k, v in cur["d"]}
        for k, v in ref["d"]:
            if json.dumps(k) not in c:
                return f"no entry for {show(k)}"
            w = same(v, c[json.dumps(k)])
            if w:
                return w if w == "?" else f"entry {show(k)}: {w}"
        return None
    if kr in ("l", "s"):
        if kc not in ("l", "s"):
            return "?"
        a, b = ref[kr], cur[kc]
        if unordered or kr == "s" or kc == "s":
            gone, more = [x for x in a if x not in b], [x for x in b if x not in a]
            if {"?": 1} in more:
                return "?"
            if gone or more:
                return "; ".join([f"{show(x)} is missing" for x in gone] + [f"{show(x)} does not belong there" for x in more])
            return None
        for i, x in enumerate(a):
            if i >= len(b):
                return f"entry {i} ({show(x)}) is missing"
            w = same(x, b[i])
            if w:
                return w if w == "?" else f"entry {i}: {w}"
        return None
    if ref == cur and type(ref) is type(cur):
        return None
    if kr != kc or (kr is None and type(ref) is not type(cur)):
        return "?"           # another representation of the value
    return f"{show(cur)} instead of {show(ref)}"


def touched(mod, name, cls=None):
    """the table is also built by statements the constant evaluation does not see"""
    def base(t):
        while isinstance(t, (ast.Subscript, ast.Attribute)):
            if cls is not None and isinstance(t, ast.Attribute) and t.attr == name:
                return name
            t = t.value
        return t.id if isinstance(t, ast.Name) else None
    body = mod.tree.body if cls is None else list(mod.tree.body) + cls.node.body
    st = [x for s in body if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) for x in ast.walk(s)]
    for x in st:
        if isinstance(x, (ast.Assign, ast.AugAssign, ast.Delete)):
            for t in (x.targets if not isinstance(x, ast.AugAssign) else [x.target]):
                if isinstance(t, (ast.Subscript, ast.Attribute)) and base(t) == name or isinstance(x, ast.AugAssign) and base(t) == name:
                    return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and base(x.func.value) == name and \
                x.func.attr in ("update", "append", "extend", "insert", "setdefault", "pop", "remove", "clear", "add", "sort", "reverse", "popitem", "discard"):
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "globals", "vars"):
            return True
    return False


def value(p, key):
    """-> (value or FAIL, where)"""
    mod, _, path = key.partition(":")
    m = p.by_short.get(mod)
    if m is None:
        return constev.FAIL, mod
    *cp, name = path.split(".")
    if cp:
        c = p.cls(mod + ":" + ".".join(cp))
        a = c.class_attr(name) if c is not None else None
        if a is None or touched(a[0].mod, name, a[0]):
            return constev.FAIL, mod
        return constev.ev(p, a[1], a[0].mod, a[0]), f"{a[0].mod.rel}:{a[1].lineno}"
    if name not in m.globals:
        r = p.resolve_name(name, m)          # moved elsewhere and imported back
        if isinstance(r, tuple) and r[0] == "global":
            m, name = r[1], r[2]
        else:
            return constev.FAIL, mod
    vs = m.globals.get(name) or []
    if len(vs) != 1 or vs[0] is None or touched(m, name):
        return constev.FAIL, mod
    return constev.ev(p, vs[0], m), f"{m.rel}:{vs[0].lineno}"


def returned_table(p, q):
    """the constant dictionary a converter looks its argument up in"""
    f = p.func(q)
    if f is None:
        return constev.FAIL, q
    tabs = []
    for n in own_nodes(f.node):
        d = None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get":
            d = n.func.value
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            d = n.value
        if d is not None:
            env = {}
            for s in own_nodes(f.node):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    v = constev.ev(p, s.value, f.mod, f.cls)
                    if v is not constev.FAIL:
                        env[s.targets[0].id] = v
            v = constev.ev(p, d, f.mod, f.cls, env)
            if isinstance(v, dict):
                tabs.append(v)
    return (tabs[0] if len(tabs) == 1 else constev.FAIL), f.where()


def get(p, key):
    return returned_table(p, key[:-2]) if key.endswith("()") else value(p, key)


def rule_t01(chk, p, tier):
    sp = json.load(open(SPEC, encoding="utf-8"))
    for g in sp["groups"]:
        for key, ref in g["entries"].items():
            v, where = value(p, key)
            if v is constev.FAIL:
                chk.undec(key, "the table is gone or no longer a constant")
                continue
            w = same(ref, enc(v), g.get("unordered", False))
            n = len(next(iter(ref.values()))) if isinstance(ref, dict) and next(iter(ref)) in "dls" else 1
            if w is None:
                chk.ok("specified entries", n)
            elif w == "?":
                chk.undec(key, "not comparable with the specified value")
            else:
                chk.violation("value", key, f"{w} ({g['source']})", where)
        chk.sample(f"{g['source']}: {len(g['entries'])} constants")
    for a, b in sp["inverse"]:
        inverse(chk, p, a, b)
    for key in sp["injective"]:
        v, where = get(p, key)
        if not isinstance(v, dict):
            chk.undec(key, "not a constant table")
            continue
        seen = {}
        for k, x in v.items():
            e = json.dumps(enc(x))
            if e in seen:
                chk.violation("ambiguous", key, f"{show(enc(seen[e]))} and {show(enc(k))} both map to {show(enc(x))}", where)
            seen.setdefault(e, k)
            chk.ok("distinct values")
    for fam in sp["families"]:
        family(chk, p, fam)
    for a, b, prefix in sp["names"]:
        names(chk, p, a, b, prefix)
    chk.need("specified entries", 500)
    chk.need("inverse entries", 230)
    chk.need("distinct values", 350)


def inverse(chk, p, a, b):
    (x, wx), (y, wy) = get(p, a), get(p, b)
    if not isinstance(x, dict) or not isinstance(y, dict):
        return chk.undec(f"{a} / {b}", "not constant tables")
    for s, t, ns, nt, w in ((x, y, a, b, wy), (y, x, b, a, wx)):
        for k, v in s.items():
            if v is constev.FAIL:
                continue
            try:
                back = t.get(v, constev.FAIL)
            except TypeError:
                continue
            if back is constev.FAIL:
                chk.violation("inverse", f"{ns} / {nt}", f"{nt} does not know {show(enc(v))}, the value of {show(enc(k))}", w)
            elif back != k:
                chk.violation("inverse", f"{ns} / {nt}", f"{show(enc(k))} maps to {show(enc(v))}, which maps back to {show(enc(back))}", w)
            else:
                chk.ok("inverse entries")


def members(p, mod, scope, prefix, skip):
    m = p.by_short.get(mod)
    if m is None:
        return {}
    if scope:
        c = p.cls(mod + ":" + scope)
        src = {k: v for k, v in c.attrs.items()} if c is not None else {}
    else:
        src, c = {k: v[0] for k, v in m.globals.items() if len(v) == 1 and v[0] is not None}, None
    out = {}
    for k, e in src.items():
        if k.startswith(prefix) and k not in skip and isinstance(e, ast.AST):
            v = constev.ev(p, e, m, c)
            if isinstance(v, int) and not isinstance(v, bool):
                out[k] = (v, f"{m.rel}:{e.lineno}")
    return out


def family(chk, p, fam):
    ms = members(p, fam["mod"], fam.get("cls", ""), fam["prefix"], fam.get("skip", []))
    seen = {}
    for k, (v, where) in ms.items():
        if v in seen:
            chk.violation("ambiguous", f"{fam['mod']}:{k}", f"{k} and {seen[v]} have the same value {show(v)}", where)
        elif fam.get("bits") and (v <= 0 or v & (v - 1)):
            chk.violation("bit", f"{fam['mod']}:{k}", f"{k} = {show(v)} is not a single bit", where)
        else:
            chk.ok("distinct values")
        seen.setdefault(v, k)


def names(chk, p, mod, table, prefix):
    """a table of names -> numbers and the constants of the same names agree"""
    t, where = get(p, table)
    if not isinstance(t, dict):
        return chk.undec(table, "not a constant table")
    ms = members(p, mod, "", prefix, ())
    for k, v in t.items():
        if k in ms:
            if ms[k][0] == v:
                chk.ok("names agreeing with constants")
            else:
                chk.violation("names", table, f"{k} is {show(enc(v))} in the table and {show(ms[k][0])} as a constant", where)
