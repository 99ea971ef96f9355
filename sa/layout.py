"""Wire-layout facts of one encoder or decoder, read off its value-flow terms."""
import terms as tm
import vf
from terms import cv, isc, is_int_c

UNMODELLED = ("unk", "call", "ret", "havoc", "partial", "choice", "noreturn", "excmix", "packed", "bytesof", "pm", "pure",
              "mut", "proj", "popped", "item", "closure", "joined", "rep", "sl3", "lambda", "enumof", "undef", "havoc", "spop",
              "copyof", "ladd", "lrep", "sext", "sins", "store", "default", "glob", "ext", "idx", "elem", "phi")


def base_name(t, ins):
    if t.op == "sdata":
        t = t.args[0]
    if t in ins:
        return ins[t]
    return None


class Canon:
    """Canonical, id-free rendering of terms over the input buffer and the object's own attributes."""

    def __init__(self, res, start=None):
        self.r = res
        self.ins = {}
        ps = [p for p in res.params.values()]
        for p in ps:
            self.ins[p] = "IN"
        self.start = start

    def path(self, t):
        """self.a.b -> 'a.b'"""
        parts = []
        while t.op == "attr":
            parts.append(str(t.args[1]))
            t = t.args[0]
        if t is self.r.recv:
            return ".".join(reversed(parts)) if parts else "self"
        if t.op == "param":
            return "$" + t.args[0] + "".join("." + p for p in reversed(parts))
        return None

    def lin(self, t):
        d, k = tm.lin_parts(t)
        out = []
        for x, c in d.items():
            if x.op == "pos0" and c == 1:
                continue
            out.append(((f"{c}*" if c != 1 else "") + self.term(x)))
        out.sort()
        if k or not out:
            out.append(str(k))
        return "+".join(out)

    def src(self, base):
        b = base_name(base, self.ins)
        if b:
            return b
        if base.op == "attr":
            p = self.path(base)
            if p:
                return p
        return "?" + base.op

    def term(self, t):
        if isc(t):
            return repr(cv(t))
        if t.op == "rd":
            kind, w, e, base, off = t.args
            return f"{kind}{w}{'' if w == 1 else e}@{self.src(base)}:{self.lin(off)}"
        if t.op == "slice":
            hi = "" if isc(t.args[2], None) else self.lin(t.args[2])
            return f"{self.src(t.args[0])}[{self.lin(t.args[1])}:{hi}]"
        if t.op == "lin":
            return "(" + self.lin(t) + ")"
        if t.op == "attr":
            p = self.path(t)
            if p:
                return p
        if t.op == "param":
            return self.ins.get(t, "$" + t.args[0])
        if t.op == "sdata":
            return self.src(t)
        if t.op == "uuid":
            return f"uuid.{t.args[0]}({self.term(t.args[1])})"
        if t.op == "phi":
            return "phi"
        if t.op == "pos0":
            return "pos0"
        if t.op == "obj":
            return f"new {t.args[0].name}"
        parts = []
        for a in t.args:
            if isinstance(a, tm.T):
                parts.append(self.term(a))
            elif isinstance(a, (str, int)) and not (t.op in ("call", "ret", "unk", "pure", "list", "dict") and isinstance(a, int)):
                parts.append(str(a))
        return f"{t.op}({','.join(parts)})"

    # -- decode side
    def leaves(self, t, out=None, depth=0, guard=False):
        """Input reads a value depends on as data (gate conditions excluded): canonical strings with bit sets."""
        if out is None:
            out = set()
        if depth > 40:
            out.add("?deep")
            return out
        if t.op == "rd":
            out.add(self.term(t))
            return out
        if t.op == "slice":
            if base_name(t.args[0], self.ins) or t.args[0].op == "attr":
                out.add(self.term(t))
            else:
                self.leaves(t.args[0], out, depth + 1)
            return out
        if t.op in ("bits", "band"):
            x = t.args[0]
            if x.op == "rd":
                if t.op == "bits":
                    n, w = t.args[1], t.args[2]
                    bits = range(n, n + w)
                else:
                    bits = [i for i in range(64) if t.args[1] >> i & 1]
                b = ",".join(map(str, bits))
                if len(bits) > 3 and list(bits) == list(range(bits[0], bits[-1] + 1)):
                    b = f"{bits[0]}-{bits[-1]}"
                out.add(self.term(x) + "{" + b + "}")
                return out
        if t.op == "ite":
            self.leaves(t.args[1], out, depth + 1)
            self.leaves(t.args[2], out, depth + 1)
            # a boolean read off a flag: the gate is the data
            if all(isc(x) or not list(self.leaves(x)) for x in t.args[1:]):
                self.leaves(t.args[0], out, depth + 1)
            return out
        if t in self.ins or t.op == "sdata":
            out.add("IN[0:]")
            return out
        if t.op == "phi":
            out.add("?phi")
            return out
        if t.op in UNMODELLED and t.op not in ("pm", "pure", "proj", "item", "enumof", "joined", "bytesof"):
            out.add("?" + t.op)
            if t.op in ("unk", "havoc", "ret", "glob", "ext"):
                return out
        for k in tm.kids(t):
            self.leaves(k, out, depth + 1)
        return out

    # -- encode side
    def mentions(self, t, phis=None):
        out = set()
        for x in tm.walk(t, phis):
            if x.op == "attr":
                p = self.path(x)
                if p:
                    out.add(p)
        # keep maximal paths only
        return {p for p in out if not any(q.startswith(p + ".") for q in out)}

    def segs(self, t):
        """Bytes term -> list of segments: ('k', bytes) | ('f', kind, width, endian, valuestr, mentions) | ('b', str, mentions)
        | ('alt', [segs], [segs]) | ('?', why)"""
        if isc(t) and isinstance(cv(t), (bytes, str)):
            return [("k", cv(t).hex() if isinstance(cv(t), bytes) else cv(t))] if cv(t) else []
        if isc(t, None):
            return [("none",)]
        if t.op == "cat":
            out = []
            for a in t.args:
                out.extend(self.segs(a))
            return out
        if t.op == "fld":
            kind, w, e, v = t.args
            return [("f", kind, w, "" if w == 1 else e, self.val(v), sorted(self.mentions(v, self.r.phis)))]
        if t.op == "sfld":
            return [("s", t.args[0], self.val(t.args[1]), sorted(self.mentions(t.args[1], self.r.phis)))]
        if t.op == "ite":
            return [("alt", self.segs(t.args[1]), self.segs(t.args[2]))]
        if t.op == "phi":
            init, nxt = self.r.phis.get(t, (None, None))
            pre = self.segs(init) if init is not None else []
            body = []
            if nxt is not None and nxt.op == "cat" and nxt.args[0] is t:
                body = self.segs(tm.cat(list(nxt.args[1:])))
            elif nxt is not None:
                body = [("?", "loop")]
            return pre + [("loop", body)]
        return [("b", self.val(t), sorted(self.mentions(t, self.r.phis)))]

    def val(self, v):
        p = self.path(v) if v.op == "attr" else None
        if p:
            return p
        if isc(v):
            return "const " + repr(cv(v))
        if v.op in UNMODELLED or any(x.op in UNMODELLED for x in tm.walk(v)):
            return "?" + v.op
        return "expr"


def decode_facts(res, objs=None):
    c = Canon(res)
    out = {}

    def go(o, prefix, depth):
        for (k, n), v in res.heap.items():
            if k is not o or not isinstance(n, str) or n.startswith("#"):
                continue
            if v.op == "obj" and depth < 3:
                go(v, prefix + n + ".", depth + 1)
                continue
            if v.op == "list":
                continue
            out[prefix + n] = sorted(c.leaves(v))
    go(res.recv, "", 0)
    return out


def encode_facts(res, stream=None):
    c = Canon(res)
    v = res.value
    if stream is not None:
        t = res.params[stream]
        v = res.heap.get((t, "#out"))
        if v is None:
            return [("?", "nothing written")]
    elif v.op in ("bytearray",):
        v = res.content(v)
    return c.segs(v)


def flat(segs):
    """Render a segment list as comparable strings."""
    out = []
    for s in segs:
        if s[0] == "alt":
            out.append("alt<" + ";".join(flat(s[1])) + "|" + ";".join(flat(s[2])) + ">")
        elif s[0] == "loop":
            out.append("loop<" + ";".join(flat(s[1])) + ">")
        elif s[0] == "f":
            out.append(f"{s[1]}{s[2]}{s[3]}={s[4] if s[4] not in ('expr',) and not s[4].startswith('?') else s[4] + '(' + ','.join(s[5]) + ')'}")
        elif s[0] == "s":
            out.append(f"{s[1]}s={s[2] if s[2] != 'expr' and not s[2].startswith('?') else s[2] + '(' + ','.join(s[3]) + ')'}")
        elif s[0] == "b":
            out.append(f"bytes={s[1] if s[1] != 'expr' and not s[1].startswith('?') else s[1] + '(' + ','.join(s[2]) + ')'}")
        elif s[0] == "k":
            out.append("const " + s[1])
        else:
            out.append(":".join(map(str, s)))
    return out
