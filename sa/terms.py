"""Hash-consed value terms with normalising constructors (linear ints, byte concatenations, field reads, gates)."""
import struct

_tab = {}
_n = [0]


class T:
    __slots__ = ("op", "args", "id", "ty", "_deps")

    def __repr__(self):
        return show(self)


def _mk(op, args, ty=None):
    key = (op, tuple((a.id if isinstance(a, T) else (type(a).__name__, a)) for a in args))
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.ty, t._deps = op, tuple(args), ty, None
        _n[0] += 1
        t.id = _n[0]
        _tab[key] = t
    elif ty is not None and t.ty is None:
        t.ty = ty
    return t


def reset():
    """Forget every term but constants (types belong to one evaluation)."""
    keep = {k: t for k, t in _tab.items() if t is NONE or t is TRUE or t is FALSE}
    _tab.clear()
    _tab.update(keep)
    _n[0] = 100


def V(op, *args, ty=None):
    return _mk(op, args, ty)


TYNAME = {int: "int", bool: "bool", bytes: "bytes", str: "str", float: "float", type(None): "none"}


def C(v):
    return _mk("c", (type(v).__name__, v), TYNAME.get(type(v)))


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def isc(t, v=...):
    if not isinstance(t, T) or t.op != "c":
        return False
    return True if v is ... else (t.args[1] == v and type(t.args[1]) is type(v))


def cv(t):
    return t.args[1]


def is_int_c(t):
    return t.op == "c" and isinstance(t.args[1], int)


# ---------------------------------------------------------------- linear integers
def lin_parts(t):
    """-> (dict term->coef, const)"""
    if t.op == "lin":
        return dict(t.args[0]), t.args[1]
    if is_int_c(t):
        return {}, int(cv(t))
    return {t: 1}, 0


def mk_lin(d, k):
    items = tuple(sorted(((t, c) for t, c in d.items() if c), key=lambda p: p[0].id))
    if not items:
        return C(k)
    if len(items) == 1 and items[0][1] == 1 and k == 0:
        return items[0][0]
    key = ("lin", tuple((t.id, c) for t, c in items), k)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.ty, t._deps = "lin", (items, k), "int", None
        _n[0] += 1
        t.id = _n[0]
        _tab[key] = t
    return t


def add(a, b, sb=1):
    if a.op == "ite" and b.op in ("c",):
        return ite(a.args[0], add(a.args[1], b, sb), add(a.args[2], b, sb))
    da, ka = lin_parts(a)
    db, kb = lin_parts(b)
    d = dict(da)
    for t, c in db.items():
        d[t] = d.get(t, 0) + sb * c
    return mk_lin(d, ka + sb * kb)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    d, c = lin_parts(a)
    return mk_lin({t: v * k for t, v in d.items()}, c * k)


SEQTY = ("bytes", "str")


def cat(parts):
    out = []
    for p in parts:
        if p.op == "cat":
            out.extend(p.args)
        elif isc(p) and cv(p) in (b"", ""):
            continue
        else:
            out.append(p)
    res = []
    for p in out:
        if res and isc(p) and isc(res[-1]) and type(cv(p)) is type(cv(res[-1])) and isinstance(cv(p), (bytes, str)):
            res[-1] = C(cv(res[-1]) + cv(p))
        elif res and _adj(res[-1], p) is not None:
            res[-1] = _adj(res[-1], p)
        else:
            res.append(p)
    if not res:
        return C(b"") if any(isc(p) and isinstance(cv(p), bytes) for p in parts) or not parts else C("")
    if len(res) == 1:
        return res[0]
    ty = "bytes"
    for p in res:
        if p.ty in SEQTY:
            ty = p.ty
            break
    return V("cat", *res, ty=ty)


def _adj(a, b):
    """Adjacent slices of one base join."""
    if a.op == "slice" and b.op == "slice" and a.args[0] is b.args[0] and a.args[2] is b.args[1]:
        return slice_(a.args[0], a.args[1], b.args[2])
    return None


def const_len(t):
    """Length of a bytes term as a term, where its parts have known widths; None otherwise."""
    if isc(t) and isinstance(cv(t), (bytes, str)):
        return C(len(cv(t)))
    if t.op == "fld":
        return C(t.args[1])
    if t.op == "sfld":
        return C(t.args[0])
    if t.op == "uuidle":
        return C(16)
    if t.op == "cat":
        r = C(0)
        for p in t.args:
            r = add(r, length(p))
        return r
    return None


def length(t):
    if t.op == "ite":
        return ite(t.args[0], length(t.args[1]), length(t.args[2]))
    k = const_len(t)
    if k is not None:
        return k
    if t.op == "tuple" or t.op == "seq":
        return C(len(t.args))
    if t.op == "sapp":
        return add(length(t.args[0]), C(1))
    if t.op == "rep" and isc(t.args[0]) and isinstance(cv(t.args[0]), (bytes, str)):
        return scale(t.args[1], len(cv(t.args[0])))
    return V("len", t, ty="int")


def slice_(base, lo, hi):
    if lo is None or isc(lo, None):
        lo = C(0)
    if hi is None:
        hi = NONE
    if isc(base) and isinstance(cv(base), (bytes, str)) and is_int_c(lo) and (isc(hi, None) or is_int_c(hi)):
        return C(cv(base)[cv(lo):(None if isc(hi, None) else cv(hi))])
    if isc(lo, 0) and isc(hi, None):
        return base
    neg = lambda t: is_int_c(t) and cv(t) < 0
    if base.op == "slice" and not neg(lo) and not neg(hi):
        b, l1, h1 = base.args
        if not neg(l1) and not neg(h1):
            nlo = add(l1, lo)
            nhi = add(l1, hi) if not isc(hi, None) else h1
            return V("slice", b, nlo, nhi, ty=b.ty)
    if base.op == "cat" and is_int_c(lo) and not neg(lo):
        # drop/take whole leading parts of known width
        parts = list(base.args)
        pos = 0
        want = cv(lo)
        while parts and pos < want:
            k = const_len(parts[0])
            if k is None or not is_int_c(k) or pos + cv(k) > want:
                break
            pos += cv(k)
            parts.pop(0)
        if pos == want:
            rest = cat(parts) if parts else C(b"")
            if isc(hi, None):
                return rest
            if is_int_c(hi):
                take, n = [], cv(hi) - want
                for p in parts:
                    k = const_len(p)
                    if n <= 0 or k is None or not is_int_c(k) or cv(k) > n:
                        break
                    take.append(p)
                    n -= cv(k)
                if n == 0:
                    return cat(take) if take else C(b"")
    return V("slice", base, lo, hi, ty=base.ty)


def source(t):
    """Bytes term -> (base, offset)."""
    if t.op == "slice" and not (is_int_c(t.args[1]) and cv(t.args[1]) < 0):
        return t.args[0], t.args[1]
    return t, C(0)


def rd(kind, width, endian, buf, off):
    base, o = source(buf)
    o = add(o, off)
    if width == 1:
        endian = "<"
    if base.op == "cat" and is_int_c(o):
        pos = 0
        for p in base.args:
            k = const_len(p)
            if k is None or not is_int_c(k):
                break
            if pos == cv(o):
                if p.op == "fld" and p.args[1] == width and p.args[2] == endian and p.args[0] == kind:
                    return p.args[3]
                break
            pos += cv(k)
    if base.op == "fld" and isc(o, 0) and base.args[:3] == (kind, width, endian):
        return base.args[3]
    return V("rd", kind, width, endian, base, o, ty="int" if kind in "us" else None)


def fld(kind, width, endian, val):
    if width == 1:
        endian = "<"
    if isc(val) and isinstance(cv(val), int) and kind in "us":
        try:
            return C(int(cv(val)).to_bytes(width, "little" if endian == "<" else "big", signed=kind == "s"))
        except OverflowError:
            pass
    return V("fld", kind, width, endian, val, ty="bytes")


KIND = {"B": "u", "H": "u", "I": "u", "L": "u", "Q": "u", "N": "u", "b": "s", "h": "s", "i": "s", "l": "s", "q": "s", "n": "s",
        "f": "f", "d": "f", "e": "f", "?": "?", "c": "c"}


def fmt_items(fmt):
    """struct format -> list of (code, kind, offset, width, endian) ; kinds u s f ? c str pad"""
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    pre = fmt[:1] if fmt[:1] in "@=<>!" else ""
    body = fmt[len(pre):]
    endian = ">" if pre in (">", "!") else "<"
    out, i, sofar = [], 0, pre
    while i < len(body):
        ch = body[i]
        if ch.isspace():
            i += 1
            continue
        num = ""
        while body[i].isdigit():
            num += body[i]
            i += 1
        ch = body[i]
        i += 1
        if ch in "sp":
            n = int(num) if num else 1
            off = struct.calcsize(sofar)
            sofar += f"{n}s"
            out.append((ch, "str", off, n, endian))
            continue
        for _ in range(int(num) if num else 1):
            w = struct.calcsize(pre + ch) if ch != "x" else 1
            end = struct.calcsize(sofar + ch)
            off = end - w
            sofar += ch
            out.append((ch, "pad" if ch == "x" else KIND.get(ch, "?"), off, w, endian))
    return out, struct.calcsize(fmt)


def unpack(fmt, buf, off=None):
    off = off if off is not None else C(0)
    items, _ = fmt_items(fmt)
    vals = []
    for ch, kind, o, w, e in items:
        if kind == "pad":
            continue
        at = add(off, C(o))
        if kind == "str":
            vals.append(slice_(buf, at, add(at, C(w))))
        else:
            vals.append(rd(kind, w, e, buf, at))
    return V("tuple", *vals, ty="tuple")


def pack(fmt, args):
    items, size = fmt_items(fmt)
    parts, pos, k = [], 0, 0
    for ch, kind, o, w, e in items:
        if o > pos:
            parts.append(C(b"\0" * (o - pos)))
        if kind == "pad":
            parts.append(C(b"\0" * w))
        else:
            if k >= len(args):
                return None
            a = args[k]
            k += 1
            if kind == "str":
                if isc(a) and isinstance(cv(a), bytes):
                    parts.append(C(cv(a)[:w].ljust(w, b"\0")))
                else:
                    parts.append(V("sfld", w, a, ty="bytes"))
            else:
                parts.append(fld(kind, w, e, a))
        pos = o + w
    if k != len(args):
        return None
    return cat(parts) if parts else C(b"")


# ---------------------------------------------------------------- conditions
def neg(c):
    if c.op == "not":
        return c.args[0]
    if isc(c):
        return C(not cv(c))
    if c.op == "lt0":
        return lt0(sub(C(-1), c.args[0]))
    if c.op == "ite" and all(isc(x) for x in c.args[1:]):
        return ite(c.args[0], neg(c.args[1]), neg(c.args[2]))
    if c.op == "or":
        return and_([neg(x) for x in c.args])
    return V("not", c, ty="bool")


def lt0(l):
    if is_int_c(l):
        return C(cv(l) < 0)
    return V("lt0", l, ty="bool")


def eq(a, b):
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        return C(cv(a) == cv(b))
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and (isc(y) or y.op in ("obj",)) and all(isc(z) or z.op == "ite" for z in x.args[1:]):
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    if a.ty == "int" or b.ty == "int" or a.op == "lin" or b.op == "lin":
        if a.ty in (None, "int", "bool") and b.ty in (None, "int", "bool"):
            l = sub(a, b)
            if is_int_c(l):
                return C(cv(l) == 0)
            d, k = lin_parts(l)
            first = min(d.items(), key=lambda p: p[0].id)
            if first[1] < 0:
                l = scale(l, -1)
            return V("eq0", l, ty="bool")
    if isc(a, None):
        return isnone(b)
    if isc(b, None):
        return isnone(a)
    x, y = sorted((a, b), key=lambda t: t.id)
    return V("eq", x, y, ty="bool")


NONNULL = ("obj", "list", "dict", "lin", "cat", "fld", "sfld", "tuple", "slice", "rd", "func", "cls", "mod", "uuid",
           "len", "fstr", "fmt", "closure", "set")


def isnone(a):
    if isc(a):
        return C(cv(a) is None)
    if a.op == "ite":
        return ite(a.args[0], isnone(a.args[1]), isnone(a.args[2]))
    if a.op in NONNULL or (a.ty in ("int", "bytes", "str", "bool", "list", "dict", "tuple") and a.op != "param"):
        return FALSE
    return V("isnone", a, ty="bool")


def truth(a):
    if isc(a):
        return C(bool(cv(a)))
    if a.op in ("obj", "closure", "func", "cls", "mod"):
        return TRUE
    if a.op == "ite":
        return ite(a.args[0], truth(a.args[1]), truth(a.args[2]))
    if a.op in ("lt0", "eq0", "eq", "isnone", "not", "and", "or", "in", "isinst", "truth", "lt", "le") or a.ty == "bool":
        return a
    if a.ty == "int":
        return neg(eq(a, C(0)))
    if a.ty == "match":
        return neg(isnone(a))
    if a.op == "tuple":
        return C(len(a.args) > 0)
    if a.op == "cat":
        k = const_len(a)
        if k is not None and is_int_c(k):
            return C(cv(k) > 0)
    return V("truth", a, ty="bool")


def and_(xs):
    out = []
    for x in xs:
        if isc(x):
            if not cv(x):
                return FALSE
            continue
        if x.op == "and":
            out.extend(x.args)
        else:
            out.append(x)
    res = []
    for x in out:
        if x not in res:
            if neg(x) in res:
                return FALSE
            res.append(x)
    if not res:
        return TRUE
    if len(res) == 1:
        return res[0]
    return V("and", *res, ty="bool")


def or_(xs):
    out = []
    for x in xs:
        if isc(x):
            if cv(x):
                return TRUE
            continue
        if x.op == "or":
            out.extend(x.args)
        else:
            out.append(x)
    res = []
    for x in out:
        if x not in res:
            if neg(x) in res:
                return TRUE
            res.append(x)
    if not res:
        return FALSE
    if len(res) == 1:
        return res[0]
    return V("or", *sorted(res, key=lambda t: t.id), ty="bool")


def ite(c, a, b):
    if isc(c):
        return a if cv(c) else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "and":
        r = a
        for x in reversed(c.args):
            r = ite(x, r, b)
        return r
    if c.op == "or":
        r = b
        for x in reversed(c.args):
            r = ite(x, a, r)
        return r
    if c.op == "ite":
        return ite(c.args[0], ite(c.args[1], a, b), ite(c.args[2], a, b))
    if c.op == "lt0":
        d, k = lin_parts(c.args[0])
        first = min(d.items(), key=lambda p: p[0].id)
        if first[1] < 0:
            return ite(lt0(sub(C(-1), c.args[0])), b, a)
    if isc(a, True) and isc(b, False):
        return c
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    ty = a.ty if a.ty == b.ty else (a.ty if isc(b, None) else (b.ty if isc(a, None) else None))
    if ty == "none":
        ty = None
    return V("ite", c, a, b, ty=ty)


# ---------------------------------------------------------------- traversal
def kids(t):
    if t.op == "lin":
        return [p[0] for p in t.args[0]]
    return [a for a in t.args if isinstance(a, T)]


def walk(t, phis=None):
    """All sub-terms; follows loop-carried values through phis (phi -> (init, next))."""
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(kids(x))
        if phis is not None and x in phis:
            stack.extend(y for y in phis[x] if isinstance(y, T))


def show(t, depth=6):
    if not isinstance(t, T):
        return repr(t)
    if t.op == "c":
        return repr(t.args[1])
    if depth == 0:
        return "…"
    if t.op == "lin":
        s = " + ".join((f"{c}*" if c != 1 else "") + show(x, depth - 1) for x, c in t.args[0])
        return f"({s}{t.args[1]:+d})" if t.args[1] else f"({s})"
    if t.op == "attr":
        return f"{show(t.args[0], depth - 1)}.{t.args[1]}"
    if t.op == "param":
        return t.args[0]
    return f"{t.op}({', '.join(show(a, depth - 1) if isinstance(a, T) else str(a) for a in t.args)})"
