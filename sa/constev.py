"""Constant evaluation of expressions over module-level, class-level and literal values (no repository code is executed)."""
import ast
import struct
import uuid

from project import Class, Func

FAIL = object()
MAXLEN = 1 << 16


class Enumed:
    """A member of an enum class."""

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __eq__(self, o):
        return isinstance(o, Enumed) and (self.cls, self.name) == (o.cls, o.name)

    def __hash__(self):
        return hash((self.cls, self.name))


def binop(op, a, b):
    try:
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            r = a * b
            return r if not hasattr(r, "__len__") or len(r) < MAXLEN else FAIL
        if isinstance(op, ast.BitOr):
            return a | b
        if isinstance(op, ast.BitAnd):
            return a & b
        if isinstance(op, ast.BitXor):
            return a ^ b
        if isinstance(op, ast.LShift):
            return a << b if isinstance(b, int) and b < 4096 else FAIL
        if isinstance(op, ast.RShift):
            return a >> b
        if isinstance(op, ast.FloorDiv):
            return a // b
        if isinstance(op, ast.Div):
            return a / b
        if isinstance(op, ast.Mod):
            return a % b
        if isinstance(op, ast.Pow):
            return a ** b if isinstance(b, int) and 0 <= b < 256 else FAIL
    except Exception:
        return FAIL
    return FAIL


def ev(p, e, mod, cls=None, env=None, depth=0):
    """value, or FAIL"""
    if depth > 60 or e is None:
        return FAIL

    def go(x):
        return ev(p, x, mod, cls, env, depth + 1)
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name):
        if env is not None and e.id in env:
            return env[e.id]
        if cls is not None and e.id in cls.attrs:
            return ev(p, cls.attrs[e.id], cls.mod, cls, None, depth + 1)
        if e.id in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[e.id]
        return deref(p, p.resolve_name(e.id, mod), depth)
    if isinstance(e, ast.Attribute):
        if isinstance(e.value, ast.Name) and e.value.id in ("self", "cls") and cls is not None:
            a = cls.class_attr(e.attr)
            return ev(p, a[1], a[0].mod, a[0], None, depth + 1) if a else FAIL
        r = p.resolve_expr(e, mod, cls)
        if r is not None and not isinstance(r, str):
            return deref(p, r, depth)
        b = go(e.value)
        if isinstance(b, Enumed) and e.attr in ("value", "name"):
            return b.value if e.attr == "value" else b.name
        if isinstance(b, uuid.UUID) and e.attr in ("bytes_le", "bytes", "hex", "int"):
            return getattr(b, e.attr)
        return FAIL
    if isinstance(e, ast.UnaryOp):
        v = go(e.operand)
        if v is FAIL:
            return FAIL
        try:
            return {ast.USub: lambda: -v, ast.Invert: lambda: ~v, ast.Not: lambda: not v, ast.UAdd: lambda: +v}[type(e.op)]()
        except Exception:
            return FAIL
    if isinstance(e, ast.BinOp):
        a, b = go(e.left), go(e.right)
        return FAIL if a is FAIL or b is FAIL else binop(e.op, a, b)
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        vs = [go(x) for x in e.elts]
        if any(v is FAIL for v in vs):
            return FAIL
        try:
            return {ast.Tuple: tuple, ast.List: list, ast.Set: set}[type(e)](vs)
        except TypeError:
            return FAIL
    if isinstance(e, ast.Dict):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = go(v)
                if not isinstance(m, dict):
                    return FAIL
                out.update(m)
                continue
            kk, vv = go(k), go(v)
            if kk is FAIL:
                return FAIL
            try:
                out[kk] = vv
            except TypeError:
                return FAIL
        return out
    if isinstance(e, ast.JoinedStr):
        s = ""
        for x in e.values:
            if isinstance(x, ast.Constant):
                s += str(x.value)
            else:
                v = go(x.value)
                if v is FAIL or x.format_spec is not None or x.conversion not in (-1, None):
                    return FAIL
                s += str(v)
        return s
    if isinstance(e, ast.Subscript):
        b = go(e.value)
        if b is FAIL or isinstance(e.slice, ast.Slice):
            return FAIL
        i = go(e.slice)
        try:
            return b[i] if i is not FAIL else FAIL
        except Exception:
            return FAIL
    if isinstance(e, (ast.DictComp, ast.ListComp, ast.SetComp)) and len(e.generators) == 1 and not e.generators[0].is_async:
        return comp(p, e, mod, cls, env, depth)
    if isinstance(e, ast.Call):
        return call(p, e, mod, cls, env, depth, go)
    return FAIL


def comp(p, e, mod, cls, env, depth):
    g = e.generators[0]
    it = g.iter
    src = FAIL
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and not it.args and it.func.attr in ("items", "keys", "values"):
        d = ev(p, it.func.value, mod, cls, env, depth + 1)
        if isinstance(d, dict):
            src = list(getattr(d, it.func.attr)())
    else:
        src = ev(p, it, mod, cls, env, depth + 1)
    if src is FAIL or not isinstance(src, (list, tuple, dict, set)) or len(src) > 4096:
        return FAIL
    out = {} if isinstance(e, ast.DictComp) else []
    for x in src:
        en = dict(env or {})
        if isinstance(g.target, ast.Name):
            en[g.target.id] = x
        elif isinstance(g.target, ast.Tuple) and all(isinstance(t, ast.Name) for t in g.target.elts) and hasattr(x, "__len__") and len(x) == len(g.target.elts):
            for t, y in zip(g.target.elts, x):
                en[t.id] = y
        else:
            return FAIL
        keep = True
        for c in g.ifs:
            v = ev(p, c, mod, cls, en, depth + 1)
            if v is FAIL:
                return FAIL
            keep = keep and v
        if not keep:
            continue
        if isinstance(e, ast.DictComp):
            k, v = ev(p, e.key, mod, cls, en, depth + 1), ev(p, e.value, mod, cls, en, depth + 1)
            if k is FAIL:
                return FAIL
            out[k] = v
        else:
            v = ev(p, e.elt, mod, cls, en, depth + 1)
            if v is FAIL:
                return FAIL
            out.append(v)
    return set(out) if isinstance(e, ast.SetComp) else out


def call(p, e, mod, cls, env, depth, go):
    f = ast.unparse(e.func)
    r = p.resolve_expr(e.func, mod, cls)
    if isinstance(r, str):
        f = r
    if f in ("defaultdict", "collections.defaultdict", "types.MappingProxyType", "MappingProxyType", "OrderedDict", "collections.OrderedDict"):
        d = e.args[-1] if e.args and not (f.endswith("defaultdict") and len(e.args) == 1) else None
        v = go(d) if d is not None else {}
        return v if isinstance(v, dict) else FAIL
    if isinstance(r, Func):
        return pure(p, r, e, go, depth)
    args = [go(a) for a in e.args]
    kws = {k.arg: go(k.value) for k in e.keywords if k.arg}
    if any(a is FAIL for a in args) or any(v is FAIL for v in kws.values()):
        return FAIL
    try:
        if f in ("struct.calcsize",):
            return struct.calcsize(*args)
        if f in ("struct.unpack",):
            return struct.unpack(*args)
        if f in ("struct.pack",):
            return struct.pack(*args)
        if f in ("uuid.UUID", "UUID"):
            return uuid.UUID(*args, **kws)
        if f in ("len", "int", "bytes", "bytearray", "str", "tuple", "list", "set", "dict", "frozenset", "range", "max", "min", "ord", "chr", "bool", "hex"):
            if f == "range" or f in ("bytes", "bytearray") and args and isinstance(args[0], int) and args[0] > MAXLEN:
                return list(range(*args)) if f == "range" and len(range(*args)) < 4096 else FAIL
            return {"len": len, "int": int, "bytes": bytes, "bytearray": bytearray, "str": str, "tuple": tuple, "list": list, "set": set,
                    "dict": dict, "frozenset": frozenset, "max": max, "min": min, "ord": ord, "chr": chr, "bool": bool, "hex": hex}[f](*args, **kws)
        if f == "enum.auto" or f == "auto":
            return FAIL
        if isinstance(e.func, ast.Attribute):
            b = go(e.func.value)
            if isinstance(b, (str, bytes, int, dict)) and e.func.attr in ("encode", "decode", "lower", "upper", "strip", "to_bytes", "format", "join",
                                                                          "replace", "items", "keys", "values", "split"):
                v = getattr(b, e.func.attr)(*args, **kws)
                return list(v) if e.func.attr in ("items", "keys", "values") else v
            if f.endswith("int.from_bytes"):
                return int.from_bytes(*args, **kws)
    except Exception:
        return FAIL
    return FAIL


def pure(p, f, e, go, depth):
    """a project function that is one return expression over its parameters (after simple local assignments)"""
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Pass)]
    if f.cls is not None and not f.is_static or not body or not isinstance(body[-1], ast.Return) or depth > 20:
        return FAIL
    env = {}
    ps = f.params
    a = f.node.args
    for x, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
        env[x] = ev(p, d, f.mod, f.cls, None, depth + 1)
    for x, v in zip(ps, e.args):
        env[x] = go(v)
    for k in e.keywords:
        env[k.arg] = go(k.value)
    if any(env.get(x, FAIL) is FAIL for x in ps):
        return FAIL
    for s in body[:-1]:
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
            return FAIL
        v = ev(p, s.value, f.mod, f.cls, env, depth + 1)
        if v is FAIL:
            return FAIL
        env[s.targets[0].id] = v
    return ev(p, body[-1].value, f.mod, f.cls, env, depth + 1)


def deref(p, r, depth):
    if isinstance(r, Class):
        return Ref(r.qual)
    if isinstance(r, tuple) and r[0] == "global":
        vs = r[1].globals.get(r[2]) or []
        if len(vs) == 1 and vs[0] is not None:
            return ev(p, vs[0], r[1], None, None, depth + 1)
    if isinstance(r, tuple) and r[0] == "cattr":
        c = r[1]
        v = ev(p, c.attrs[r[2]], c.mod, c, None, depth + 1)
        if c.is_enum and v is not FAIL:
            return Enumed(c.qual, r[2], v)
        return v
    return FAIL


class Ref:
    """A class or function used as a value."""

    def __init__(self, qual):
        self.qual = qual

    def __eq__(self, o):
        return isinstance(o, Ref) and o.qual == self.qual

    def __hash__(self):
        return hash(self.qual)

    def __repr__(self):
        return f"<{self.qual}>"
