"""Canonical summary of one function: what it returns, writes, emits and rejects, as id-free terms.

Nodes are interned S-expressions (op, kids...) that carry no names of locals, no line numbers and no evaluation order of
independent statements; they are what is compared with the confirmed contract tables under /verif/sa/spec."""
from hashlib import blake2b

import terms as tm
from terms import T, cv, isc, is_int_c

_tab = {}


class N:
    __slots__ = ("op", "args", "free", "size", "id", "h", "_atoms", "_unk")

    def __repr__(self):
        return sexp(self)


TRIMS = {("strip", "strip"): "strip", ("strip", "lstrip"): "strip", ("strip", "rstrip"): "strip", ("lstrip", "strip"): "strip", ("rstrip", "strip"): "strip",
         ("lstrip", "lstrip"): "lstrip", ("rstrip", "rstrip"): "rstrip", ("lstrip", "rstrip"): "strip", ("rstrip", "lstrip"): "strip"}


def tidy(name, o):
    """what a text method without arguments does to text that another has been through: the node, or None"""
    inner = o.args[0] if o.op == "pm" and len(o.args) == 2 else None
    if (name, inner) in TRIMS:
        return n("pm", TRIMS[name, inner], o.args[1])
    if name in ("strip", "lstrip", "rstrip"):
        if inner in ("lower", "upper", "casefold"):
            return n("pm", inner, n("pm", name, o.args[1]))
        if o.op == "pm" and o.args[0] == "join" and len(o.args) == 3 and o.args[1].op == "c" and not str(o.args[1].args[1]).strip():
            z = o.args[2]
            if z.op == "pm" and z.args[0] == "split" and len(z.args) == 2:
                return o
    if name == inner and name in ("lower", "upper", "casefold"):
        return o
    if name == "split" and inner in ("strip", "lstrip", "rstrip"):
        return n("pm", "split", o.args[1])
    return None


def n(op, *args):
    if op == "pm" and len(args) == 2 and isinstance(args[1], N):
        t = tidy(*args)
        if t is not None:
            return t
    key = (op, tuple((a.id,) if isinstance(a, N) else (type(a).__name__, a) for a in args))
    x = _tab.get(key)
    if x is None:
        x = N()
        x.op, x.args = op, args
        fr = 0
        sz = 1
        for a in args:
            if isinstance(a, N):
                fr = max(fr, a.free)
                sz += a.size
        if op == "lv":
            fr = args[0]
        elif op == "phi":
            fr = max(fr - 1, 0)
        x.free, x.size = fr, min(sz, 10 ** 9)
        x.id = len(_tab)
        x.h = blake2b(repr((op, tuple(a.h if isinstance(a, N) else a for a in args))).encode("utf-8", "surrogatepass"),
                      digest_size=8).digest()
        x._atoms = None
        x._unk = None
        _tab[key] = x
    return x


def k(v):
    if isinstance(v, bytes):
        return n("c", "b", v.hex())
    if isinstance(v, bool):
        return n("c", "t", str(v))
    if isinstance(v, int):
        return n("c", "i", str(int(v)))
    if isinstance(v, str):
        return n("c", "s", v)
    if v is None:
        return n("c", "n", "None")
    return n("c", type(v).__name__[0], repr(v))


TRUE, FALSE, NONE = k(True), k(False), k(None)


def isk(x, *kinds):
    return x.op == "c" and (not kinds or x.args[0] in kinds)


def kval(x):
    t, v = x.args
    return {"b": bytes.fromhex, "t": lambda z: z == "True", "i": int, "s": str, "n": lambda z: None}.get(t, str)(v)


# ------------------------------------------------------------------ text form
def sexp(x):
    if not isinstance(x, N):
        return q(str(x))
    return "(" + " ".join([x.op] + [sexp(a) for a in x.args]) + ")"


def q(s):
    if s and all(c.isalnum() or c in "_.:$#<>*-+@?!/," for c in s):
        return s
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


def pack_facts(facts):
    """{key: N|None} -> one shared node table (JSON) with the fact roots."""
    tab, idx = [], {}

    def put(x):
        if x in idx:
            return idx[x]
        st = [(x, False)]
        while st:
            y, done = st.pop()
            if y in idx:
                continue
            if done:
                tab.append([y.op] + [idx[a] if isinstance(a, N) else str(a) for a in y.args])
                idx[y] = len(tab) - 1
            else:
                st.append((y, True))
                st.extend((a, False) for a in y.args if isinstance(a, N) and a not in idx)
        return idx[x]
    return {"f": {key: (None if x is None else put(x)) for key, x in sorted(facts.items())}, "n": tab}


def unpack_facts(d):
    nodes = []
    for row in d["n"]:
        args = [nodes[a] if isinstance(a, int) else a for a in row[1:]]
        if row[0] == "lv":
            args[0] = int(args[0])
        nodes.append(n(row[0], *args))
    return {key: (None if i is None else nodes[i]) for key, i in d["f"].items()}


def dag(x, cap=10 ** 9):
    """Number of distinct nodes below x (stops at cap)."""
    seen, st = {x.id}, [x]
    while st and len(seen) < cap:
        for a in st.pop().args:
            if isinstance(a, N) and a.id not in seen:
                seen.add(a.id)
                st.append(a)
    return len(seen)


def parse(s):
    pos = 0
    stack = [[]]
    ln = len(s)
    while pos < ln:
        ch = s[pos]
        if ch == "(":
            stack.append([])
            pos += 1
        elif ch == ")":
            xs = stack.pop()
            if xs[0] == "lv":
                xs[1] = int(xs[1])
            stack[-1].append(n(xs[0], *xs[1:]))
            pos += 1
        elif ch == " ":
            pos += 1
        elif ch == '"':
            pos += 1
            out = []
            while s[pos] != '"':
                if s[pos] == "\\":
                    pos += 1
                    out.append("\n" if s[pos] == "n" else s[pos])
                else:
                    out.append(s[pos])
                pos += 1
            pos += 1
            stack[-1].append("".join(out))
        else:
            j = pos
            while j < ln and s[j] not in "() ":
                j += 1
            stack[-1].append(s[pos:j])
            pos = j
    return stack[0][0]


# ------------------------------------------------------------------ canonicalisation
class Big(Exception):
    pass


class Canon:
    LIMIT = 20000

    def __init__(self, res):
        self.r = res
        self.memo = {}
        self.memo2 = {}
        self.open = []
        self.objs = []
        self.count = 0
        self.loops = {}
        for e in res.events:
            if e.kind == "loop":
                self.loops[e.data["uid"]] = e.data
        self.openloops = []
        self.loopmemo = {}

    def ct(self, t):
        m = self.memo.get(t)
        if m is not None:
            return m
        ctx = None
        if self.open or self.objs or self.openloops:
            ctx = (t, tuple(self.open), tuple(self.objs), tuple(self.openloops))
            m = self.memo2.get(ctx)
            if m is not None:
                return m
        self.count += 1
        if self.count > self.LIMIT:
            raise Big()
        x = self.ct_(t)
        if x.free == 0 and not self.objs and not self.openloops:
            self.memo[t] = x
        elif ctx is not None:
            self.memo2[ctx] = x
        return x

    def kids(self, t):
        return [self.ct(a) if isinstance(a, T) else self.atom(a) for a in t.args]

    def atom(self, a):
        if isinstance(a, (str, int)):
            return str(a)
        return getattr(a, "qual", None) or getattr(a, "name", None) or repr(a)

    def loopkey(self, uid):
        """What a loop iterates over and when it stops."""
        if uid in self.loopmemo:
            return self.loopmemo[uid]
        if uid in self.openloops:
            return n("lp", str(len(self.openloops) - self.openloops.index(uid)))
        d = self.loops.get(uid)
        if d is None:
            return n("lp", "?")
        self.openloops.append(uid)
        try:
            if d["iter"] is not None:
                x = n("for", self.iter_base(d["iter"]))
            else:
                x = n("while", self.ct(d["test"]) if d["test"] is not None else k(True))
        finally:
            self.openloops.pop()
        if not self.open and not self.objs and not self.openloops:
            self.loopmemo[uid] = x
        return x

    def iter_base(self, it):
        while it.op in ("enum_", "items_", "keys_", "vals_"):
            it = it.args[0]
        if it.op == "reversed_":
            return n("rev", self.iter_base(it.args[0]))
        if it.op == "range" and isc(it.args[0], 0) and isc(it.args[2], 1) and it.args[1].op == "len":
            return self.iter_base(it.args[1].args[0])
        if it.op in ("list", "dict", "set"):
            c = self.r.heap.get((it, "#"))
            return self.ct(c) if c is not None else self.ct(it)
        return self.ct(it)

    def counter(self, t):
        """phi that counts 0,1,2.. -> (start, end or None)"""
        init, nxt = self.r.phis[t]
        if init is None or nxt is None or not is_int_c(tm.sub(nxt, t)) or cv(tm.sub(nxt, t)) != 1:
            return None
        d = self.loops.get(t.args[0])
        if d is None or d["iter"] is not None or d["test"] is None or d["breaks"]:
            return None
        c = d["test"]
        if c.op == "lt0":
            dd, kk = tm.lin_parts(c.args[0])
            if dd.get(t) == 1:
                end = tm.sub(t, c.args[0])
                if not any(x.op == "phi" for x in tm.walk(end)):
                    return init, end
        if c.op == "not" and c.args[0].op == "lt0":
            l = c.args[0].args[0]
            dd, kk = tm.lin_parts(l)
            if dd.get(t) == -1:
                end = tm.add(tm.add(l, t), tm.C(1))
                if not any(x.op == "phi" for x in tm.walk(end)):
                    return init, end
        return None

    def ct_(self, t):
        op = t.op
        if op == "c":
            return k(cv(t))
        if op == "lin":
            parts = sorted(((self.ct(x), c) for x, c in t.args[0]), key=lambda p: p[0].h)
            out = []
            for x, c in parts:
                out += [x, str(c)]
            return n("lin", *out, "k", str(t.args[1]))
        if op == "self":
            return n("self")
        if op == "param":
            return n("p", t.args[0])
        if op == "attr":
            return n("attr", self.ct(t.args[0]), str(t.args[1]))
        if op == "obj":
            if t.args[1] == "self":
                return n("self")
            if t in self.objs or len(self.objs) > 6:
                return n("new", t.args[0].qual, "^")
            self.objs.append(t)
            try:
                fs = []
                for (o, name), v in self.r.heap.items():
                    if o is t and isinstance(name, str):
                        fs.append((name, v))
                fs.sort(key=lambda p: p[0])
                return n("new", t.args[0].qual, *[n("f", nm, self.ct(v)) for nm, v in fs])
            finally:
                self.objs.pop()
        if op in ("list", "dict", "set", "bytearray"):
            c = self.r.heap.get((t, "#"))
            if c is None:
                return n(op, "?")
            if t in self.objs:
                return n(op, "^")
            self.objs.append(t)
            try:
                x = self.ct(c)
            finally:
                self.objs.pop()
            return x if op == "bytearray" else n(op, x)
        if op == "stream":
            o = self.r.heap.get((t, "#out"))
            d = self.r.heap.get((t, "#data"))
            return n("stream", self.ct(o) if o is not None else "-", self.ct(d) if d is not None else "-")
        if op == "phi":
            if t in self.open:
                return n("lv", len(self.open) - self.open.index(t))
            if t not in self.r.phis:
                return n("?", "phi")
            c = self.counter(t)
            if c is not None:
                return n("idx", n("range", self.ct(c[0]), self.ct(c[1]), k(1)))
            init, nxt = self.r.phis[t]
            ki = self.ct(init) if init is not None else n("?", "init")
            self.open.append(t)
            try:
                lk = self.loopkey(t.args[0])
                kn = self.ct(nxt)
            finally:
                self.open.pop()
            return n("phi", lk, ki, kn)
        if op == "loop":
            return n("loop", self.loopkey(t.args[0]))
        if op == "elem":
            b = t.args[0]
            if b.op in ("list", "dict", "set"):
                return n("elem", self.iter_base(b))
            if b.op == "keys_":
                return n("elem", self.ct(b.args[0]))
            if b.op == "vals_":
                return n("item", self.ct(b.args[0]), n("elem", self.ct(b.args[0])))
            return n("elem", self.ct(b))
        if op == "idx":
            return n("idx", self.ct(t.args[1])) if len(t.args) > 1 else n("idx", self.loopkey(t.args[0]))
        if op == "item":
            b, i = t.args
            if i.op == "idx" and len(i.args) > 1:
                lo, hi, stp = i.args[1].args
                if isc(lo, 0) and isc(stp, 1) and hi.op == "len" and hi.args[0] is b:
                    return n("elem", self.ct(b))
            return n("item", self.ct(b), self.ct(i))
        if op in ("choice", "partial", "havoc", "unk", "undef", "noreturn", "spop", "popped", "excmix", "lambda"):
            if op in ("popped", "spop"):
                return n(op, *self.kids(t))
            return n("?", op)
        if op == "excat":
            return n("exc", str(t.args[1]))
        if op == "excval":
            return n("excval", str(t.args[1]))
        if op in ("call", "ret", "pure", "closure", "dict", "set", "written"):
            args = list(t.args)
            while args and isinstance(args[-1], int) and not isinstance(args[-1], bool):
                args.pop()
            if op == "closure":
                return n("fn", self.atom(args[0]))
            return n(op, *[self.ct(a) if isinstance(a, T) else self.atom(a) for a in args])
        if op in ("func", "cls", "mod"):
            return n(op, self.atom(t.args[0]))
        if op in ("and", "or"):
            ks = sorted(self.kids(t), key=lambda z: z.h)
            return n(op, *ks)
        if op in ("eq", "and2", "bitor", "bitxor"):
            ks = sorted(self.kids(t), key=lambda z: z.h)
            return n(op, *ks)
        if op in ("eq0",):
            return self.norm_eq0(self.ct(t.args[0]))
        if op == "glob":
            return n("glob", t.args[0], t.args[1])
        if op == "bound":
            return n("bound", self.ct(t.args[0]), t.args[1].qual)
        if op == "super":
            return self.ct(t.args[0])
        if op == "joined":
            return n("joined", *self.kids(t))
        return n(op, *self.kids(t))

    def norm_eq0(self, l):
        # sign-normalise on the canonical order
        items, kk = linparts(l)
        if items and items[0][1] < 0:
            l = mklin([(x, -c) for x, c in items], -kk)
        return n("eq0", l)

    def cond(self, ls):
        out = []
        for c, pol in ls:
            x = self.ct(c)
            out.append(x if pol else neg(x))
        if not out:
            return TRUE
        return n("and", *out) if len(out) > 1 else out[0]


def linparts(l):
    if l.op == "lin":
        a = l.args
        return [(a[i], int(a[i + 1])) for i in range(0, len(a) - 2, 2)], int(a[-1])
    if isk(l, "i"):
        return [], int(l.args[1])
    return [(l, 1)], 0


def mklin(items, kk):
    items = [(x, c) for x, c in items if c]
    if not items:
        return k(kk)
    if len(items) == 1 and items[0][1] == 1 and kk == 0:
        return items[0][0]
    out = []
    for x, c in sorted(items, key=lambda p: p[0].h):
        out += [x, str(c)]
    return n("lin", *out, "k", str(kk))


def neg(x):
    if x.op == "not":
        return x.args[0]
    if isk(x, "t"):
        return FALSE if x is TRUE else TRUE
    return n("not", x)


LOGGY = ("logging.", "warnings.", "print")
LOGM = {"debug", "info", "warning", "error", "critical", "exception", "log", "warn"}


def pathkey(c, o):
    x = c.ct(o)
    parts = []
    y = x
    while y.op == "attr":
        parts.append(y.args[1])
        y = y.args[0]
    if y.op == "self":
        return ".".join(["self"] + parts[::-1])
    if y.op == "p":
        return ".".join(["$" + y.args[0]] + parts[::-1])
    return sexp(x) if x.size < 200 else "@" + x.h.hex()


STATED = 600        # a single condition of a rejection beyond this size is left open


def rejections(c, res):
    """Every uncaught raise as n("raise", exception, condition...): used where the rejection condition as a whole is too large"""
    out = []
    for e in res.events:
        if e.kind != "raise" or e.caught:
            continue
        exc = e.data.args[0] if isinstance(e.data, T) and e.data.op == "exc" and isinstance(e.data.args[0], str) else "?"
        ls = []
        for lit in e.pc:
            try:
                c.count = 0
                x = c.cond((lit,))
                if dag(x, STATED + 1) > STATED:
                    x = n("?", "big")
            except (Big, RecursionError):
                c.open.clear(), c.objs.clear(), c.openloops.clear()
                x = n("?", "big")
            ls.append(x)
        out.append(n("raise", exc, *ls))
    return out


def summarize(res, want=("ret", "reject", "attr", "out", "fx"), raises=False):
    """-> {fact key: node or None (too large to state)}"""
    c = Canon(res)
    out = {}

    def put(key, f):
        try:
            c.count = 0
            out[key] = f()
        except (Big, RecursionError):
            c.open.clear(), c.objs.clear(), c.openloops.clear()
            out[key] = None
    if "ret" in want:
        put("ret", lambda: c.ct(res.value) if res.value is not None else NONE)
    if "reject" in want:
        def rej():
            alts = []
            for e in res.events:
                if e.kind == "raise" and not e.caught:
                    x = c.cond(e.pc)
                    if x not in alts:
                        alts.append(x)
            if not alts:
                return FALSE
            return n("or", *alts) if len(alts) > 1 else alts[0]
        put("reject", rej)
        if raises:
            for i, x in enumerate(rejections(c, res)):
                out["raise%d" % i] = x
    for (o, name), v in res.heap.items():
        if not isinstance(name, str):
            continue
        if o.op in ("obj", "list", "dict", "set", "stream", "bytearray") and not (o.op == "obj" and o is res.recv):
            continue
        if name == "#pos" or name == "#data":
            continue
        base = o
        while base.op in ("attr", "elem", "item"):
            base = base.args[0]
        if base.op not in ("self", "param", "obj", "glob", "cls", "mod", "default"):
            if not (base.op == "obj" and base is res.recv):
                continue
        if base.op == "obj" and base is not res.recv:
            continue
        try:
            p = pathkey(c, o)
        except (Big, RecursionError):
            continue
        if name == "#out":
            if "out" in want:
                put("out:" + p, lambda: c.ct(v))
        elif name.startswith("#"):
            if "attr" in want and v.op != "content0":
                put("in:" + p, lambda: c.ct(v))
        elif "attr" in want:
            d = res.ev.default((o, name))
            if v is not d:
                put("set:" + p + "." + name, lambda: c.ct(v))
    if "fx" in want:
        i = 0
        for e in res.events:
            if e.kind == "call":
                q_, rcv, args, kw = e.data
                nm = q_ if isinstance(q_, str) else "?"
            elif e.kind == "mcall":
                nm, rcv, args, kw = e.data
                nm = "." + nm
            else:
                continue
            if nm.startswith(LOGGY) or nm.lstrip(".") in LOGM:
                continue

            def f():
                xs = [c.ct(rcv)] if isinstance(rcv, T) else []
                xs += [c.ct(a) for a in args]
                for kk in sorted(kw):
                    xs.append(n("kw", kk, c.ct(kw[kk])))
                return n("fx", nm, c.cond(e.pc), *xs)
            put("fx%d" % i, f)
            if out["fx%d" % i] is None:
                out["fx%d" % i] = n("fx", nm, n("?", "big"))
            i += 1
    return out
