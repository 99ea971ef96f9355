"""Three-valued comparison of canonical terms: same / diff (with the mismatch) / unknown.

`diff` is only answered when the two terms disagree in a decided part: constants, field and parameter names, read offsets
and widths, missing/permuted byte segments, or the truth table over conditions both sides test. Anything else that is not
identical after normalisation is `unknown`, which never raises an alarm."""
import sys

import summ
from summ import FALSE, N, NONE, TRUE, isk, k, kval, linparts, mklin, n, neg

sys.setrecursionlimit(30000)

BOOLOPS = ("and", "or", "not")
ATOMS = ("eq0", "lt0", "eq", "isnone", "truth", "in", "isinst", "lt", "loop", "exc", "hasattr")
OPAQUE = ("?", "havoc", "unk", "excval", "lambda", "choice", "packed", "missing", "enumcall", "star")
# built-in types no value of one of which is of another (bool is an int)
BUILTIN_KINDS = ("int", "str", "bytes", "bytearray", "list", "dict", "tuple", "set", "float", "bool")
COMM = ("and", "or", "eq")


def has_unknown(x):
    if x._unk is None:
        x._unk = x.op in OPAQUE or any(has_unknown(a) for a in x.args if isinstance(a, N))
    return x._unk


# ------------------------------------------------------------------ rebuilding with folding
OBJECTS = set()     # attributes that hold None or an object that is always true (conform.load_spec)


def mk(op, args):
    if op == "ite":
        c, a, b = args
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        if c.op == "not":
            return mk("ite", [c.args[0], b, a])
        if a is TRUE and b is FALSE:
            return c
        return n("ite", c, a, b)
    if op == "not":
        return neg(args[0])
    if op in ("and", "or"):
        z, u = (FALSE, TRUE) if op == "and" else (TRUE, FALSE)
        out = []
        for a in args:
            if a is z:
                return z
            if a is u:
                continue
            if a.op == op:
                out.extend(a.args)
            else:
                out.append(a)
        res = []
        for a in out:
            if a not in res:
                if neg(a) in res:
                    return z
                res.append(a)
        if not res:
            return u
        if len(res) == 1:
            return res[0]
        return n(op, *sorted(res, key=lambda a: a.h))
    if op == "truth":
        a = args[0]
        if isk(a):
            return k(bool(kval(a)))
        if a.op in ATOMS or a.op in BOOLOPS:
            return a
        if a.op == "ite":
            return mk("ite", [a.args[0], mk("truth", [a.args[1]]), mk("truth", [a.args[2]])])
        if a.op == "new":
            return TRUE
        if a.op == "attr" and a.args[1] in OBJECTS:
            return neg(mk("isnone", [a]))
    if op == "isnone":
        a = args[0]
        if isk(a):
            return k(isk(a, "n"))
        if a.op in ("new", "list", "dict", "lin", "cat", "fld", "tuple", "slice", "rd", "uuid", "len", "set", "fstr"):
            return FALSE
        if a.op == "ite":
            return mk("ite", [a.args[0], mk("isnone", [a.args[1]]), mk("isnone", [a.args[2]])])
    if op == "eq":
        a, b = args
        if a is b:
            return TRUE
        if isk(a) and isk(b):
            return k(kval(a) == kval(b))
        if isk(a, "n"):
            return mk("isnone", [b])
        if isk(b, "n"):
            return mk("isnone", [a])
        if a.h > b.h:
            a, b = b, a
        return n("eq", a, b)
    if op == "lin":
        d, kk = {}, int(args[-1])
        for i in range(0, len(args) - 2, 2):
            c = int(args[i + 1])
            its, k2 = linparts(args[i])
            kk += c * k2
            for x, c2 in its:
                d[x] = d.get(x, 0) + c * c2
        return mklin(joined(d), kk)
    if op == "eq0":
        l = args[0]
        if isk(l, "i", "t"):
            return k(int(kval(l)) == 0)
        its, kk = linparts(l)
        its = sorted(its, key=lambda p: p[0].h)
        if its and its[0][1] < 0:
            l = mklin([(x, -c) for x, c in its], -kk)
        return n("eq0", l)
    if op == "lt0":
        l = args[0]
        if isk(l, "i", "t"):
            return k(int(kval(l)) < 0)
        its, kk = linparts(l)
        its = sorted(its, key=lambda p: p[0].h)
        if its and its[0][1] < 0:       # l<0  <=>  not (-l-1 < 0)
            return neg(n("lt0", mklin([(x, -c) for x, c in its], -kk - 1)))
        return n("lt0", mklin(its, kk))
    if op in ("bitor", "bitxor"):
        kk, out = 0, []
        for a in args:
            for b in a.args if a.op == op else (a,):
                if isk(b, "i", "t"):
                    kk = kk | int(kval(b)) if op == "bitor" else kk ^ int(kval(b))
                elif op == "bitor" and b in out:
                    continue
                else:
                    out.append(b)
        if kk or not out:
            out.append(k(kk))
        if op == "bitor" and len(out) > 1:
            s = sorted(((bits(a), a) for a in out), key=lambda p: p[0] or (0, 0))
            if all(p[0] for p in s) and all(x[0][1] <= y[0][0] for x, y in zip(s, s[1:])):
                r = []
                for p in s:
                    r += [p[1], "1"]
                return mk("lin", r + ["k", "0"])
        return out[0] if len(out) == 1 else n(op, *sorted(out, key=lambda a: a.h))
    if op == "cat":
        out = []
        for a in args:
            if a.op == "cat":
                out.extend(a.args)
            elif isk(a, "b", "s") and a.args[1] == "":
                continue
            else:
                out.append(a)
        res = []
        for a in out:
            if res and isk(a, "b", "s") and isk(res[-1], a.args[0]):
                res[-1] = n("c", a.args[0], res[-1].args[1] + a.args[1])
            else:
                res.append(a)
        if not res:
            return args[0] if args else k(b"")
        return res[0] if len(res) == 1 else n("cat", *res)
    if op == "fld" and isk(args[3], "i") and args[0] in ("u", "s"):
        try:
            return k(kval(args[3]).to_bytes(int(args[1]), "little" if args[2] == "<" else "big", signed=args[0] == "s"))
        except OverflowError:
            pass
    return n(op, *args)


def bits(x):
    """(lo, hi): x is a non-negative integer whose one bits all lie in lo..hi-1"""
    if x.op == "rd" and x.args[0] == "u":
        return (0, 8 * int(x.args[1]))
    if isk(x, "i"):
        v = int(kval(x))
        return ((v & -v).bit_length() - 1, v.bit_length()) if v > 0 else None
    if x.op == "lin":
        its, kk = linparts(x)
        if kk < 0 or any(c < 0 for _, c in its):
            return None
        lo, top = (kk & -kk).bit_length() - 1 if kk else 10 ** 6, kk
        for y, c in its:
            b = bits(y)
            if b is None:
                return None
            lo = min(lo, b[0] + (c & -c).bit_length() - 1)
            top += c * ((1 << b[1]) - 1)
        return (lo, top.bit_length())
    return None


def joined(d):
    """the terms of a sum with neighbouring little- or big-endian reads put together"""
    its = list(d.items())
    rds = [(x, c) for x, c in its if x.op == "rd" and x.args[0] == "u" and c > 0]
    if len(rds) < 2:
        return its
    ch = True
    while ch:
        ch = False
        for x, c in rds:
            w = int(x.args[1])
            for y, e in rds:
                if e != c << 8 * w or y.args[3] is not x.args[3]:
                    continue
                v = int(y.args[1])
                gap = mk("lin", [y.args[4], "1", x.args[4], "-1", "k", "0"])
                if not isk(gap, "i"):
                    continue
                g = int(kval(gap))
                if g == w and (w == 1 or x.args[2] == "<") and (v == 1 or y.args[2] == "<"):
                    z = n("rd", "u", x.args[1].__class__(w + v), "<", x.args[3], x.args[4])
                elif g == -v and (w == 1 or x.args[2] == ">") and (v == 1 or y.args[2] == ">"):
                    z = n("rd", "u", x.args[1].__class__(w + v), ">", x.args[3], y.args[4])
                else:
                    continue
                rds = [p for p in rds if p[0] is not x and p[0] is not y] + [(z, c)]
                its = [p for p in its if p[0] is not x and p[0] is not y] + [(z, c)]
                ch = True
                break
            if ch:
                break
    return its


def subst(x, m, memo):
    """Replace nodes by m (node -> node) and re-fold."""
    r = m.get(x)
    if r is not None:
        return r
    r = memo.get(x)
    if r is not None:
        return r
    ch = False
    args = []
    for a in x.args:
        if isinstance(a, N):
            b = subst(a, m, memo)
            ch = ch or b is not a
            args.append(b)
        else:
            args.append(a)
    r = mk(x.op, args) if ch else x
    memo[x] = r
    return r


_canon = {}


def refold(x):
    """Normal form under mk (used once on parsed or fresh nodes)."""
    r = _canon.get(x)
    if r is None:
        args = [refold(a) if isinstance(a, N) else a for a in x.args]
        r = mk(x.op, args) if x.op != "c" else x
        _canon[x] = r
    return r


# ------------------------------------------------------------------ atoms
def atoms(x):
    """All boolean atoms anywhere in x (conditions and the conditions inside them)."""
    if x._atoms is None:
        s = frozenset()
        for a in x.args:
            if isinstance(a, N):
                s |= atoms(a)
        if x.op in ATOMS:
            s |= frozenset([x])
        x._atoms = s
        if x.op == "ite":
            c = x.args[0]
            if c.op not in ATOMS and c.op not in BOOLOPS and c.op not in ("ite", "c"):
                x._atoms |= frozenset([c])
        if x.op in BOOLOPS:
            for c in x.args:
                if c.op not in ATOMS and c.op not in BOOLOPS and c.op not in ("ite", "c"):
                    x._atoms |= frozenset([c])
    return x._atoms


def base(a):
    """What an atom talks about, so that two tests of one quantity against different constants share it."""
    if a.op in ("eq0", "lt0"):
        its, kk = linparts(a.args[0])
        its = sorted(its, key=lambda p: p[0].h)
        if its and its[0][1] < 0:
            its = [(x, -c) for x, c in its]
        return ("lin",) + tuple((x.id, c) for x, c in its)
    if a.op == "eq":
        for u, v in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
            if isk(u):
                return ("lin", (v.id, 1))
        return ("eq",) + tuple(sorted(x.id for x in a.args))
    if a.op in ("isnone", "truth"):
        return ("lin", (a.args[0].id, 1))
    return ("a", a.id)


def free_in_loop(a):
    return a.free > 0


class Facts:
    """Constraints on linear quantities and values collected along a case split."""

    def __init__(self):
        self.d = {}
        self.seen = []     # every assumed condition
        self.val = {}      # node -> ('eq', const) | ('ne', set) | ('none',bool) | ('truth',bool)

    def copy(self):
        f = Facts()
        f.seen = list(self.seen)
        f.d = {b: (lo, hi, set(ne)) for b, (lo, hi, ne) in self.d.items()}
        f.val = {x: dict(v, ne=set(v.get("ne", ()))) for x, v in self.val.items()}
        return f

    def assume(self, a, pol):
        """-> False if infeasible; None otherwise. Substitutions are returned by subs()."""
        self.seen.append(a)
        if a.op in ("eq0", "lt0"):
            its, kk = linparts(a.args[0])
            its = sorted(its, key=lambda p: p[0].h)
            flip = bool(its) and its[0][1] < 0
            if flip:
                its, kk = [(x, -c) for x, c in its], -kk
            key = tuple((x.id, c) for x, c in its)
            if key not in self.d:
                lo, hi = 0, 0
                for x, c in its:
                    l, h = rng(x)
                    if c < 0:
                        l, h = (None if h is None else h), (None if l is None else l)
                    lo = None if lo is None or l is None else lo + c * l
                    hi = None if hi is None or h is None else hi + c * h
                self.d[key] = (lo, hi, set())
            lo, hi, ne = self.d[key]
            # quantity q = sum(its); condition on q + kk (times -1 if flip)
            if a.op == "eq0":
                if pol:
                    lo = -kk if lo is None or lo < -kk else lo
                    hi = -kk if hi is None or hi > -kk else hi
                else:
                    ne = ne | {-kk}
            else:
                if not flip:      # q + kk < 0
                    if pol:
                        hi = -kk - 1 if hi is None else min(hi, -kk - 1)
                    else:
                        lo = -kk if lo is None else max(lo, -kk)
                else:             # -(q+kk) < 0  <=> q > -kk
                    if pol:
                        lo = -kk + 1 if lo is None else max(lo, -kk + 1)
                    else:
                        hi = -kk if hi is None else min(hi, -kk)
            while lo is not None and lo in ne:
                lo += 1
            while hi is not None and hi in ne:
                hi -= 1
            self.d[key] = (lo, hi, ne)
            if lo is not None and hi is not None and lo > hi:
                return False
            if len(its) == 1 and its[0][1] == 1:
                x = its[0][0]
                tr = None
                if lo is not None and lo > 0 or hi is not None and hi < 0 or 0 in ne:
                    tr = True
                if lo == 0 and hi == 0:
                    tr = False
                if tr is not None:
                    y = x.args[0] if x.op == "len" else x
                    if self.setv(y, "truth", tr) is False:
                        return False
            return None
        if a.op == "eq":
            for u, v in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                if isk(u):
                    val = (u.args[0], u.args[1])
                    cur = self.val.setdefault(v, {"ne": set()})
                    if pol:
                        if "eq" in cur and cur["eq"] != val or val in cur["ne"] or cur.get("none"):
                            return False
                        if "truth" in cur and cur["truth"] != bool(kval(u)):
                            return False
                        cur["eq"] = val
                        for how, text, p in cur.get("txt", ()):
                            if type(text) is type(kval(u)) and has_text(kval(u), how, text) != p:
                                return False
                    else:
                        if cur.get("eq") == val:
                            return False
                        cur["ne"].add(val)
                    return None
            return None
        if a.op == "isinst" and pol and len(a.args) == 2 and isinstance(a.args[1], N) and a.args[1].op == "ext" and a.args[1].args[0] in BUILTIN_KINDS:
            cur = self.val.setdefault(a.args[0], {"ne": set()})
            had = cur.get("isa")
            if had is not None and had != a.args[1].args[0] and {had, a.args[1].args[0]} != {"int", "bool"} or cur.get("none"):
                return False
            cur["isa"] = a.args[1].args[0]
            return None
        if a.op == "pm" and len(a.args) >= 2:
            # asking something of a value tells that it is not None
            for x in a.args[1:3] if a.args[0] == "is_relative_to" else a.args[1:2]:
                if isinstance(x, N) and (x is NONE or not isk(x) and self.setv(x, "none", False) is False):
                    return False
        if a.op == "pm" and len(a.args) == 3 and a.args[0] in ("startswith", "endswith") and isk(a.args[2], "s", "b"):
            return self.settext(a.args[1], a.args[0], kval(a.args[2]), pol)
        if a.op == "in" and len(a.args) == 2 and isk(a.args[0], "s", "b") and textual(a.args[1]):
            return self.settext(a.args[1], "in", kval(a.args[0]), pol)
        if a.op == "isnone":
            return self.setv(a.args[0], "none", pol)
        if a.op == "truth":
            x = a.args[0]
            if self.setv(x, "truth", pol) is False:
                return False
            key = ((n("len", x).id, 1),)
            if key in self.d:
                lo, hi, ne = self.d[key]
                if pol and hi is not None and hi <= 0 or not pol and lo is not None and lo > 0:
                    return False
            return None
        return None

    def settext(self, x, how, text, pol):
        """x starts with / ends with / contains a constant text."""
        cur = self.val.setdefault(x, {"ne": set()})
        seen = cur.get("txt", ())
        for h2, t2, p2 in seen:
            if type(t2) is not type(text):
                continue
            if p2 and pol and how == h2 != "in" and not has_text(text, how, t2) and not has_text(t2, how, text):
                return False
            if p2 and not pol and implied(h2, t2, how, text):
                return False
            if pol and not p2 and implied(how, text, h2, t2):
                return False
        if "eq" in cur:
            v = kval(n("c", *cur["eq"]))
            if type(v) is type(text) and has_text(v, how, text) != pol:
                return False
        if pol and text and cur.get("truth") is False:
            return False
        cur["txt"] = seen + ((how, text, pol),)
        return None

    def setv(self, x, what, v):
        cur = self.val.setdefault(x, {"ne": set()})
        if cur.get(what, v) != v:
            return False
        cur[what] = v
        if what == "none" and v and (cur.get("truth") or "eq" in cur):
            return False
        if what == "truth" and v and cur.get("none"):
            return False
        if what == "truth" and "eq" in cur and bool(kval(n("c", *cur["eq"]))) != v:
            return False
        return None


def textual(x):
    return x.op == "pm" and x.args[0] in ("lower", "upper", "strip", "lstrip", "rstrip", "replace", "startswith", "casefold")


def has_text(whole, how, text):
    return whole.startswith(text) if how == "startswith" else whole.endswith(text) if how == "endswith" else text in whole


def implied(how, text, h2, t2):
    """'x <how> text' makes 'x <h2> t2' true."""
    return h2 in (how, "in") and has_text(text, h2, t2)


def rng(x):
    if x.op in ("len", "idx"):
        return 0, None
    if x.op == "rd" and x.args[0] == "u":
        return 0, 256 ** int(x.args[1]) - 1
    if x.op == "bits":
        try:
            return 0, 2 ** int(x.args[2]) - 1
        except (ValueError, TypeError):
            return 0, None
    return None, None


def subs_of(a, pol):
    m = {a: TRUE if pol else FALSE}
    if pol and a.op == "eq0":
        its, kk = linparts(a.args[0])
        if len(its) == 1 and its[0][1] in (1, -1):
            m[its[0][0]] = k(-kk * its[0][1])
    if pol and a.op == "eq":
        for u, v in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
            if isk(u):
                m[v] = u
    if pol and a.op == "isnone":
        m[a.args[0]] = NONE
    if pol and a.op in ("eq", "eq0"):
        xs = list(a.args) if a.op == "eq" else []
        if a.op == "eq0":
            its, kk = linparts(a.args[0])
            if kk == 0 and len(its) == 2 and {c for _, c in its} == {1, -1}:
                xs = [x for x, _ in its]
        if len(xs) == 2 and not isk(xs[0]) and not isk(xs[1]):
            big, sm = sorted(xs, key=lambda x: (x.size, x.h), reverse=True)
            if not within(big, sm):
                m[big] = sm
    return m


def within(a, b):
    """a occurs in b"""
    st, seen = [b], set()
    while st:
        x = st.pop()
        if x is a:
            return True
        if x.id not in seen:
            seen.add(x.id)
            st.extend(y for y in x.args if isinstance(y, N))
    return False


def leaves(x):
    """Parameters and own attribute chains x is computed from."""
    st, seen, out = [x], set(), set()
    while st:
        y = st.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        if y.op == "p":
            out.add(y)
        if y.op == "attr":
            z = y
            while z.op == "attr":
                z = z.args[0]
            if z.op in ("self", "p"):
                out.add(y)
                if z.op == "self":
                    continue
        st.extend(z for z in y.args if isinstance(z, N))
    return out


def computed(x):
    """Built only from inputs by functions and methods of their operands (no state outside the inputs is consulted)."""
    st, seen = [x], set()
    while st:
        y = st.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        if y.op not in MODELLED and y.op not in ("pure", "fmt", "fstr", "copyof"):
            return False
        st.extend(z for z in y.args if isinstance(z, N))
    return True


# ------------------------------------------------------------------ comparison
class Cmp:
    BUDGET = 6000
    WALKS = 80

    def __init__(self, known_attrs=None, prev=None):
        self.prev = prev
        self.steps = 0
        self.memo = {}
        self.known_attrs = known_attrs
        self.newatoms = frozenset()

    def run(self, ref, new, dontcare=None):
        """-> ('same'|'diff'|'unknown', explanation)"""
        ref, new = refold(ref), refold(new)
        if ref is new:
            return "same", ""
        u = finds(new, "unbound") - finds(ref, "unbound")
        if u:
            return "diff", f"uses {min(x.args[0] for x in u)}, which is bound nowhere"
        v, why = self.run0(ref, new, dontcare)
        if v == "unknown":
            if dontcare not in (None, FALSE):
                m = {x: FALSE for x in ([dontcare] + list(dontcare.args if dontcare.op == "or" else ()))}
                m = {x: v2 for x, v2 in m.items() if x.op != "c"}
                m.update({x.args[0]: TRUE for x in list(m) if x.op == "not"})
                memo = {}
                ref, new = subst(ref, m, memo), subst(new, m, memo)
                if ref is new:
                    return v, why
            w = self.single(ref, new) or self.one_condition(ref, new)
            if w:
                return "diff", w
        return v, why

    def one_condition(self, ref, new):
        """The new term is the confirmed one with a single test negated, exchanged for a certainly different one, or left out."""
        ra, na = atoms(ref), atoms(new)
        if len(ra) > 60:
            return None
        missing = [a for a in ra - na if not has_unknown(a)]
        extra = [a for a in na - ra if not has_unknown(a)]
        for x in sorted(ra & na, key=lambda z: (z.size, z.h)) if not missing and not extra else ():
            if x.op == "truth" and x.args[0].op == "lv" or x.op == "lv":
                continue
            if subst(ref, {x: neg(x)}, {}) is new:
                return f"the test {short(x)} is negated"
        if len(extra) <= 3 and len(missing) <= 3:
            for m in missing:
                for u in extra:
                    if subst(ref, {m: u}, {}) is new or subst(ref, {m: neg(u)}, {}) is new:
                        w = self.leafdiff(m, u)
                        if w:
                            return f"tests {short(u)} where the contract tests {short(m)}"
        for m in missing:
            if filetest(m) is not None:
                if any(a is not m and filetest(a) is filetest(m) for a in ra | na):
                    continue
            elif m.op not in ("eq", "eq0", "lt0", "in") or shares(m, ra):
                continue
            for v in (TRUE, FALSE):
                if subst(ref, {m: v}, {}) is new:
                    return f"no longer tests {short(m)}"
        return None

    def single(self, ref, new):
        """The two terms are one context around one disagreeing place: a certain disagreement there decides, whatever the
        context computes, as long as the context is the same on both sides."""
        pairs, where, budget = {}, set(), [20000]
        try:
            antiunify(ref, new, None, None, pairs, set(), budget)
        except TooBig:
            return None
        if not 0 < len(pairs) <= 2:
            return None
        if len(pairs) == 1:
            (a, b), ctx = next(iter(pairs.items()))
            if not isinstance(a, N) or not isinstance(b, N):
                return None
            if has_unknown(a) or has_unknown(b):
                return None
            if isk(a) and isk(b):
                if len(ctx) != 1 or a.args[0] != b.args[0] or not decisive(*next(iter(ctx)), a, b):
                    return None
                return f"{short(b)} where the contract has {short(a)}, in {short(next(iter(ctx))[1])}"
            w = self.leafdiff(a, b)
            if w and (not a.free and not b.free or len(ctx) == 1):
                return w + (f", in {short(next(iter(ctx))[1])}" if ctx and next(iter(ctx))[1] is not None else "")
            return None
        (p, cp), (q, cq) = pairs.items()
        if p == (q[1], q[0]) and all(isinstance(x, N) for x in p) and cp == cq and len(cp) == 1:
            x, y = next(iter(cp))
            if x is None or x.op not in ("pm", "pure", "call", "ret", "slice", "ite", "tuple", "seq") or x.op in ("tuple", "seq"):
                return None
            if x.op == "ite":
                w = self.leafdiff(*p)
                return f"the two outcomes of {short(x.args[0])} are exchanged" if w else None
            if x.op in ("pm", "pure") and str(x.args[0]) in ("max", "min", "isclose", "gcd", "zip", "chain", "or_", "and_"):
                return None
            if has_unknown(p[0]) or has_unknown(p[1]):
                return None
            return f"arguments exchanged: {short(y)} where the contract has {short(x)}"
        return None

    def run0(self, ref, new, dontcare=None):
        ra, na = atoms(ref), atoms(new)
        if dontcare is not None:
            dontcare = refold(dontcare)
            ra = ra | atoms(dontcare)
        rb = {base(a) for a in ra}
        nb = {base(a) for a in na}
        extra = [a for a in na if base(a) not in rb and not has_unknown(a)]
        if any(has_unknown(a) for a in na | ra if a not in ra or a not in na):
            self.newatoms = frozenset([None])
        missing = [a for a in ra if base(a) not in nb]
        self.extra, self.missing = extra, missing
        self.newatoms |= frozenset(extra)
        try:
            v, why = self.cmp(ref, new, Facts(), [], dontcare)
        except TooBig:
            v, why = self.walks(ref, new, dontcare)
        if v == "diff" and self.newatoms:
            # conditions this side alone tests: certain only if each is a mis-read of one the contract tests
            if None in self.newatoms:
                return "unknown", "condition outside the model"
            top = [a for a in extra if not any(a is not b and inside(a, b) for b in extra)]
            mt = [a for a in missing if not any(a is not b and inside(a, b) for b in missing)]
            pair = []
            for u in top:
                c = [m for m in mt if self.leafdiff(m, u) is not None]
                if len(c) != 1:
                    pair = None
                    break
                pair.append((c[0], u))
            if pair:
                m, u = pair[0]
                return "diff", f"tests {short(u)} where the contract tests {short(m)}"
            if not missing and all(self.independent(u, ref) for u in top) and any(self.decides(u, ref, new, dontcare) for u in top):
                return "diff", f"depends on {short(top[0])}, which the contract does not; " + why
            return "unknown", "new condition " + (short(top[0]) if top else "")
        return v, why

    def walks(self, ref, new, dc):
        """Too many cases to try all: follow single cases, chosen by a fixed sequence, as far as the budget goes."""
        bit = 0x9E3779B97F4A7C15
        for i in range(self.WALKS):
            self.steps = 0
            a, b, d, facts, path = ref, new, dc, Facts(), []
            try:
                while True:
                    if a is b or d is TRUE or len(path) > 60:
                        break
                    at = self.split_atom(a, b, d)
                    if at is None or at[1]:
                        self.steps = self.BUDGET - 300
                        v, why = self.cmp(a, b, facts, path, d)
                        if v == "diff":
                            return v, why
                        break
                    bit = (bit * 6364136223846793005 + 1442695040888963407) & (2 ** 64 - 1)
                    pol = bool(bit >> 40 & 1)
                    for q in (pol, not pol):
                        f2 = facts.copy()
                        if f2.assume(at[0], q) is False:
                            continue
                        m, memo = subs_of(at[0], q), {}
                        a2, b2, d2 = subst(a, m, memo), subst(b, m, memo), subst(d, m, memo) if d is not None else None
                        if a2 is not b2 and d2 is not TRUE:
                            break
                    else:
                        break
                    a, b, d, facts = a2, b2, d2, f2
                    path = path + [(at[0], q)]
            except TooBig:
                continue
        return "unknown", "too many cases"

    def decides(self, u, ref, new, dc):
        """With the condition u settled one way the two sides agree."""
        for v in (TRUE, FALSE):
            try:
                if Cmp(self.known_attrs, self.prev).cmp(ref, refold(subst(new, {u: v}, {})), Facts(), [], dc)[0] == "same":
                    return True
            except TooBig:
                pass
        return False

    def independent(self, u, ref):
        """u is a comparison of a plain field, parameter or read with a constant."""
        if u.op == "in":
            # a guard "not there yet" in front of an append
            return occurs(summ.n("sapp", summ.n("content0", u.args[1], "#"), u.args[0]), ref)
        if u.op not in ("eq0", "lt0", "eq", "truth", "isnone"):
            return False
        xs = [x for a in u.args if isinstance(a, N) for x in ([p for p, _ in linparts(a)[0]] if a.op == "lin" else [a])]
        for x in xs:
            if isk(x):
                continue
            y = x
            while y.op in ("attr", "bits", "band"):
                y = y.args[0]
            if y.op not in ("self", "p", "rd"):
                return False
        return True

    def leafdiff(self, a, b):
        v, why = Cmp(self.known_attrs, self.prev).shape(a, b)
        return why if v == "diff" else None

    def shape(self, a, b):
        if a is b:
            return "same", ""
        if has_unknown(a) or has_unknown(b):
            return "unknown", ""
        return self.struct(a, b, None, None, None)

    def cmp(self, a, b, facts, path, dc):
        if a is b:
            return "same", ""
        self.steps += 1
        if self.steps > self.BUDGET:
            raise TooBig()
        if dc is TRUE:
            return "same", ""
        at = self.split_atom(a, b, dc)
        if at is None:
            return self.struct(a, b, facts, path, dc)
        if at[1]:     # only inner conditions: try structure first
            v, why = self.struct(a, b, facts, path, dc)
            if v == "same":
                return v, why
        at = at[0]
        res = []
        for pol in (True, False):
            f2 = facts.copy()
            if f2.assume(at, pol) is False:
                continue
            m = subs_of(at, pol)
            memo = {}
            a2, b2 = subst(a, m, memo), subst(b, m, memo)
            d2 = subst(dc, m, memo) if dc is not None else None
            v, why = self.cmp(a2, b2, f2, path + [(at, pol)], d2)
            res.append((v, why))
        for want in ("diff", "unknown"):
            for v, why in res:
                if v == want:
                    return v, why
        return "same", ""

    def split_atom(self, a, b, dc):
        """(atom, inner?)"""
        for x in (dc,) if dc is not None and dc is not FALSE else ():
            t = self.top_atom(x)
            if t is not None:
                return t, False
        for x in (a, b):
            if x.op in BOOLOPS or x.op == "ite" or x.op in ATOMS:
                t = self.top_atom(x)
                if t is not None:
                    return t, False
        s = atoms(a) ^ atoms(b)
        if not s:
            s = atoms(a) & atoms(b)
        s = [x for x in s if splittable(x)]
        if s and len(atoms(a) | atoms(b)) <= 14:
            s = sorted(s, key=lambda x: (x.size, x.h))
            return s[0], True
        return None

    def top_atom(self, x):
        if x.op in ("c",):
            return None
        if x.op in ("and", "or", "not"):
            for a in x.args:
                t = self.top_atom(a)
                if t is not None:
                    return t
            return None
        if x.op == "ite":
            return self.top_atom(x.args[0]) or (x.args[0] if x.args[0].op != "c" else None)
        if x.op in ATOMS:
            inner = [a for a in x.args if isinstance(a, N)]
            for a in inner:
                for y in sorted(atoms(a), key=lambda z: (z.size, z.h)):
                    if splittable(y) and atoms(y) <= {y}:
                        # conditions nested in the atom's operands come first, but only gates
                        if gate_in(a, y):
                            return y
            return x
        return x

    # -- both sides without a top-level condition
    def struct(self, a, b, facts, path, dc):
        if a is b:
            return "same", ""
        if b.op in ("missing", "unbound") and a.op not in ("missing", "unbound") and not has_unknown(a):
            what = f"attribute {b.args[1]} is never set" if b.op == "missing" else f"{b.args[0]} is bound nowhere"
            return "diff", self.ctx(path) + f"{what} where the contract has {short(a)}"
        if has_unknown(a) or has_unknown(b):
            return "unknown", ""
        here = lambda: self.ctx(path) + f"{short(b)} where the contract has {short(a)}"
        if not isk(a) and not isk(b) and a.op not in BOOLOPS and a.op not in ATOMS and a.op != "ite":
            la, lb = leaves(a), leaves(b)
            odd = [x for x in la ^ lb if x.op == "p"]
            if self.prev is not None and self.prev in lb and not any(self.rooted(x) for x in la):
                odd.append(self.prev)
            if odd and computed(a) and computed(b) and not any(self.fact_in(x, facts) for x in odd):
                return "diff", here()
        if isk(a) and isk(b):
            va, vb = kval(a), kval(b)
            if va == vb:
                return "same", ""
            return "diff", here()
        if isk(a) or isk(b):
            c, x = (a, b) if isk(a) else (b, a)
            if x.op in ("rd", "p") or (x.op == "attr" and self.plain(x) and self.known(x)):
                if facts is not None and x in facts.val:
                    return "unknown", ""
                return "diff", here()
            if x.op in ("self", "fld") or (x.op == "cat" and isk(c, "b", "s", "n")):
                if x.op == "cat" and not isk(c, "n") and not any(isk(p) and p.args[1] or p.op == "fld" for p in x.args):
                    return "unknown", ""
                return "diff", here()
            if x.op == "lin":
                its, kk = linparts(x)
                if all(y.op in ("rd", "p", "attr", "len") for y, _ in its):
                    return "diff", here()
            if x.op in ATOMS or x.op in BOOLOPS:
                return "diff", here()
            if x is a and x.op not in ("phi", "lv", "ite", "ext", "glob", "cattr", "enumval", "call", "ret", "after", "outof") and not self.fact_on(x, facts):
                return "diff", here()
            if x is b and modelled(x) and not self.fact_on(x, facts):
                return "diff", here()
            return "unknown", ""
        if a.op in ("lin",) or b.op == "lin":
            ia, ka = linparts(a)
            ib, kb = linparts(b)
            da, db = dict(ia), dict(ib)
            if da == db:
                return ("diff", here()) if ka != kb else ("same", "")
            oa = [(x, c) for x, c in ia if db.get(x) != c]
            ob = [(x, c) for x, c in ib if da.get(x) != c]
            if all(x.op in ("rd", "p", "attr", "len") and (x.op != "attr" or self.known(x)) for x, _ in oa + ob) and \
                    not any(x.op == "len" and not self.simple_len(x) for x, _ in oa + ob):
                return "diff", here()
            if len(oa) == len(ob) == 1 and oa[0][1] == ob[0][1] and ka == kb:
                return self.sub(oa[0][0], ob[0][0], facts, path, dc)
            return "unknown", ""
        if a.op in ("bitor", "bitxor", "and2") or b.op in ("bitor", "bitxor"):
            return self.bits(a, b, facts, path, dc)
        if a.op == b.op == "sapp" and self.stream(a) and self.stream(b):
            return self.cats(self.stream(a), self.stream(b), facts, path, dc)
        if a.op == "cat" or b.op == "cat":
            return self.cats(a, b, facts, path, dc)
        if a.op != b.op:
            for x, y in ((a, b), (b, a)):
                if x.op == "pm" and x.args[1] is y and x.args[0] not in IDEM:
                    return ("unknown", "") if settled(x.args[0], y) else ("diff", here())
                if x.op == "store" and x.args[0] is y and y.op == "content0" and path and (summ.n("in", x.args[1], y.args[0]), False) in path:
                    return "diff", self.ctx(path) + (f"stores {short(x.args[2])} under a new key, which the contract does not" if x is b else f"no longer stores {short(x.args[2])} under a new key")
                if x.op == "sapp" and y.op == "content0":
                    z = x
                    while z.op == "sapp":
                        z = z.args[0]
                    if z is y:
                        return "diff", self.ctx(path) + (f"{short(x.args[1])} is appended, which the contract does not" if x is b else f"no longer appends {short(x.args[1])}")
                if x.op == "sins" and (y is x.args[0] or y.op == "sapp" and y.args == (x.args[0], x.args[2]) and isk(x.args[1], "i") and kval(x.args[1]) == 0) and x.args[0].op == "content0":
                    return "diff", self.ctx(path) + (f"{short(x.args[2])} is put in front, which the contract does not" if x is b else f"no longer puts {short(x.args[2])} in front")
                if x.op == "reversed_" and x.args[0] is y and y.op in ("p", "attr"):
                    return "diff", self.ctx(path) + (f"{short(y)} is taken from its end" if x is b else f"{short(y)} is no longer taken from its end")
                if x.op == "mut" and x.args[0] in ("remove", "discard") and y is x.args[1] and y.op == "content0":
                    return "diff", self.ctx(path) + (f"takes {short(x.args[2])} out, which the contract does not" if x is b else f"no longer takes {short(x.args[2])} out")
            leaf = ("rd", "p", "attr")
            if a.op in leaf and b.op in leaf and self.known(a) and self.known(b) and self.plain(a) and self.plain(b):
                return "diff", here()
            if {a.op, b.op} == {"slice", "rd"}:
                return "unknown", ""
            for x, y in ((a, b), (b, a)):
                # a tail of something against all of it: the tail starts at a stream's own position
                if x.op == "slice" and x.args[0] is y and x.args[1].op == "pos0" and isk(x.args[2], "n") and not self.fact_on(x.args[1], facts):
                    return "diff", here()
            if {a.op, b.op} == {"fld", "sfld"}:
                return "unknown", ""
            return "unknown", ""
        op = a.op
        if op == "pm" and (a.args[0] != b.args[0]) and a.args[1] is b.args[1]:
            g = [s for s in GROUPS if a.args[0] in s and b.args[0] in s]
            if g and a.args[2:] == b.args[2:]:
                return "diff", here()
            return "unknown", ""
        if op == "pm" and a.args[0] == b.args[0] and a.args[1] is b.args[1] and len(a.args) != len(b.args) and a.args[0] in ARITY:
            return "diff", here()
        if op == "pm":
            for x, y in ((a, b), (b, a)):
                if x.args[1] is y and x.args[0] not in IDEM:
                    return ("unknown", "") if settled(x.args[0], y) else ("diff", here())
        if op == "bag":
            return self.bags(a, b, facts, path)
        if op == "lv":
            return "unknown", ""
        if op == "pure" and a.args[0] != b.args[0] and a.args[1:] == b.args[1:] and rexchange(a, b):
            return "diff", here()
        if op == "len" and a.args[0].op == b.args[0].op == "slice" and sum(x is not y for x, y in zip(a.args[0].args, b.args[0].args)) != 1:
            return "unknown", ""
        if op == "new":
            return self.news(a, b, facts, path, dc)
        if op in ("attr",):
            v, why = self.sub(a.args[0], b.args[0], facts, path, dc)
            if a.args[1] != b.args[1]:
                if v == "same" and self.known(a) and self.known(b):
                    return "diff", here()
                return "unknown", ""
            return v, why
        if op == "p":
            return "diff", here()
        if op in ("fn", "func", "cls", "ext", "glob", "cattr", "enumval"):
            if op == "cattr" and a.args[0] is not b.args[0]:
                return "unknown", ""
            if op in ("cattr", "enumval", "ext", "cls", "func"):
                return "diff", here()
            return "unknown", ""
        if op in ("while", "for"):
            if op == "while" and (a.args[0] is TRUE) != (b.args[0] is TRUE):
                return "unknown", ""
            return self.sub(a.args[0], b.args[0], facts, path, dc)
        if op in ("copyof", "pure") and a.args[0] == b.args[0] and len(a.args) != len(b.args) and (op == "pure" and a.args[0] in ("max", "min") or kws(a) != kws(b)) \
                and computed(a) and computed(b) and a.args[1] is b.args[1]:
            return "diff", here()
        if op in ("seq", "tuple", "map", "list") and len(a.args) != len(b.args):
            if op in ("seq", "tuple"):
                return "diff", here()
            return "unknown", ""
        if op == "fx" and a.args[0] == b.args[0] and a.args[0] in NODEFAULT:
            ka, kb = [{y.args[0] for y in x.args if isinstance(y, N) and y.op == "kw"} for x in (a, b)]
            if ka != kb:
                return "diff", f"{a.args[0].lstrip('.')} by {', '.join(sorted(map(str, kb))) or 'nothing'} where the contract has {', '.join(sorted(map(str, ka))) or 'nothing'}"
        if len(a.args) != len(b.args):
            return "unknown", ""
        if op in ("and", "or"):
            return "unknown", ""
        worst, expl = "same", ""
        for x, y in zip(a.args, b.args):
            if isinstance(x, N) and isinstance(y, N):
                v, why = self.sub(x, y, facts, path, dc)
            elif isinstance(x, N) or isinstance(y, N):
                v, why = "unknown", ""
            elif x == y:
                continue
            elif op in ("rd", "fld", "sfld", "bits", "band", "uuid", "uuidle", "proj", "lt0"):
                v, why = "diff", here()
            elif op in ("pm", "pure", "call", "ret", "exc"):
                v, why = "unknown", ""
            else:
                v, why = "unknown", ""
            if v == "unknown":
                return v, why
            if v == "diff" and worst == "same":
                worst, expl = v, why
        if worst == "diff" and op in ("eq", "in"):
            pass
        return worst, expl

    def bits(self, a, b, facts, path, dc):
        """Operators whose operands have no order."""
        op = a.op if a.op in ("bitor", "bitxor", "and2") else b.op
        xa, xb = [list(x.args) if x.op == op else [x] for x in (a, b)]
        for x in list(xa):
            if x in xb:
                xa.remove(x)
                xb.remove(x)
        if not xa and not xb:
            return "same", ""
        if op != "and2" and len(xa + xb) == 1 and isk((xa + xb)[0], "i") or len(xa) == len(xb) == 1 and isk(xa[0], "i") and isk(xb[0], "i"):
            rest = [x for x in (a.args if a.op == op else (a,)) if x not in xa]
            if all(self.plain(x) and (x.op != "attr" or self.known(x)) for x in rest):
                return "diff", f"{short(b)} where the contract has {short(a)}"
            return "unknown", ""
        if len(xa) == len(xb) == 1:
            return self.sub(xa[0], xb[0], facts, path, dc)
        return "unknown", ""

    def rooted(self, x):
        while x.op == "attr":
            x = x.args[0]
        return x.op == "self"

    def fact_in(self, leaf, facts):
        """some assumed condition speaks about this leaf"""
        return facts is not None and (any(within(leaf, v) for v in facts.val) or any(within(leaf, v) for v in facts.seen))

    def fact_on(self, x, facts):
        if facts is None or not facts.val:
            return False
        st, seen = [x], set()
        while st:
            y = st.pop()
            if y.id in seen:
                continue
            seen.add(y.id)
            f = facts.val.get(y)
            if f and (y is not x or "eq" in f or f.get("none") or "truth" in f and (f["truth"] is False or x.op not in MODELLED_VALUES)):
                return True
            st.extend(z for z in y.args if isinstance(z, N))
        return False

    def bags(self, a, b, facts, path):
        """Two sets of guarded calls of one function under the current case."""
        xa, xb = [x for x in a.args[1:] if x is not NOP], [x for x in b.args[1:] if x is not NOP]
        for x in list(xa):
            if x in xb:
                xa.remove(x)
                xb.remove(x)
        if not xa and not xb:
            return "same", ""
        if any(x.op == "ite" or has_unknown(x) for x in xa + xb):
            return "unknown", ""
        nm = a.args[0]
        if len(xa) != len(xb):
            if nm in ("Q",):
                return "unknown", ""
            if not xa or not xb:
                if not xa and any(x in a.args for x in xb):
                    return "unknown", ""      # one more time the same call
                return "diff", self.ctx(path) + (f"makes the call with ({short((xb or xa)[0])})" if xb else f"does not make the call with ({short(xa[0])})") + \
                    (" that the contract does not make" if xb else " the contract makes")
            return "unknown", ""
        if len(xa) == 1:
            return self.sub(xa[0], xb[0], facts, path, None)
        res = [self.sub(x, y, facts, path, None) for x, y in zip(xa, xb)]
        for v, why in res:
            if v == "unknown":
                return v, why
        for v, why in res:
            if v == "diff":
                return v, why
        return "same", ""

    def sub(self, x, y, facts, path, dc):
        if x is y:
            return "same", ""
        if facts is None:
            return self.shape(x, y)
        return self.cmp(x, y, facts, path, None)

    def simple_len(self, x):
        y = x.args[0]
        while y.op in ("attr", "content0"):
            y = y.args[0]
        return y.op in ("self", "p")

    def plain(self, x):
        while x.op == "attr":
            x = x.args[0]
        return x.op in ("self", "p", "rd")

    def known(self, x):
        if x.op != "attr" or self.known_attrs is None:
            return True
        return x.args[1] in self.known_attrs

    def news(self, a, b, facts, path, dc):
        if a.args[0] != b.args[0]:
            return "diff", self.ctx(path) + f"makes {b.args[0]} where the contract makes {a.args[0]}"
        if "^" in a.args or "^" in b.args:
            return ("same", "") if a is b else ("unknown", "")
        fa = {x.args[0]: x.args[1] for x in a.args[1:]}
        fb = {x.args[0]: x.args[1] for x in b.args[1:]}
        worst, expl = "same", ""
        for f in fa:
            if f not in fb:
                return "unknown", ""
            v, why = self.sub(fa[f], fb[f], facts, path, dc)
            if v == "diff" and worst != "diff":
                worst, expl = v, f".{f}: {why}"
            elif v == "unknown" and worst == "same":
                worst = "unknown"
        return worst, expl

    def cats(self, a, b, facts, path, dc):
        pa = list(a.args) if a.op == "cat" else [a]
        pb = list(b.args) if b.op == "cat" else [b]
        while pa and pb and pa[0] is pb[0]:
            pa.pop(0), pb.pop(0)
        while pa and pb and pa[-1] is pb[-1]:
            pa.pop(), pb.pop()
        if not pa and not pb:
            return "same", ""
        msg = self.ctx(path) + "emits [" + ", ".join(short(x) for x in pb) + "] where the contract has [" + ", ".join(short(x) for x in pa) + "]"
        # split constants so that partial overlaps line up
        solid = lambda x: isk(x, "b", "s") or x.op in ("fld", "sfld", "uuidle")
        if not pa or not pb:
            rest = pa or pb
            if any(solid(x) or self.filled(x, facts) for x in rest):
                return "diff", msg
            return "unknown", ""
        if sorted(x.id for x in pa) == sorted(x.id for x in pb):
            return "diff", msg
        if len(pa) == len(pb):
            worst, expl = "same", ""
            for x, y in zip(pa, pb):
                v, why = self.sub(x, y, facts, path, dc)
                if v == "unknown":
                    return v, ""
                if v == "diff" and worst == "same":
                    worst, expl = v, why
            return worst, expl
        if all(solid(x) for x in pa + pb):
            wa, wb = sum(map(width, pa)), sum(map(width, pb))
            if wa != wb or subseq(pa, pb) or subseq(pb, pa):
                return "diff", msg
        if subseq(pa, pb) or subseq(pb, pa):
            extra = [x for x in pa + pb if x not in pa or x not in pb]
            if any(solid(x) or self.filled(x, facts) for x in extra):
                return "diff", msg
        return "unknown", ""

    def stream(self, x):
        """the text written one piece after the other"""
        out = []
        while x.op == "sapp":
            out.append(x.args[1])
            x = x.args[0]
        if not isk(x, "b", "s") or x.args[1]:
            return None
        ps = []
        for y in reversed(out):
            for z in y.args if y.op == "cat" else (y,):
                if ps and isk(z) and isk(ps[-1]) and z.args[0] == ps[-1].args[0]:
                    ps[-1] = k(kval(ps[-1]) + kval(z))
                else:
                    ps.append(z)
        return n("cat", *ps)

    def filled(self, x, facts):
        """not empty for some input of the current case"""
        if has_unknown(x) or self.fact_on(x, facts):
            return False
        if isk(x):
            return x.args[1] != ""
        if x.op == "ite":
            return any(self.filled(y, facts) for y in x.args[1:])
        if x.op in ("cat", "add"):
            return any(self.filled(y, facts) for y in x.args)
        return x.op in ("attr", "p", "encoded", "fv", "fld", "sfld", "uuidle", "pm", "pure", "fmt", "bytes", "rd", "slice")

    def ctx(self, path):
        if not path:
            return ""
        return "when " + " and ".join(("" if p else "not ") + short(c) for c, p in path[-4:]) + ": "


def kws(x):
    """names of the keyword arguments of a pure call or ordered copy"""
    return [a.args[1] if isinstance(a, N) else a for a in x.args[2:] if isinstance(a, str) or isk(a, "s")]


NOP = n("nop")
NODEFAULT = {".filter_by"}       # every keyword narrows what is found
STRIPS, CASES = ("strip", "lstrip", "rstrip"), ("lower", "upper", "casefold", "capitalize", "title", "swapcase")
SETTLED = {}        # names of the place under analysis -> text methods that made their values (local.py)
CALLEES = [None]    # the project whose functions opaque calls run


def family(name):
    return STRIPS if name in STRIPS else (name,) if name in CASES or name == "replace" else ()


def settled(name, y, seen=None):
    """a text that may have gone through the method already: leaving out or repeating the call need not change it"""
    fam = family(name)
    if not fam:
        return False
    seen = set() if seen is None else seen
    if y.id in seen:
        return False
    seen.add(y.id)
    if y.op == "p":
        return bool(set(fam) & SETTLED.get(y.args[0], set()))
    if y.op == "pm" and y.args[0] in fam:
        return True
    if y.op == "pm" and y.args[0] == "as_posix" and name == "replace":
        return True
    if y.op in ("call", "ret") and isinstance(y.args[0], str):
        return bool(set(fam) & methods_of(next((a for a in y.args if isinstance(a, str) and ":" in a), "")))
    if y.op == "attr":
        return bool(set(fam) & attr_methods(y.args[1]))
    if y.op in ("ite", "phi", "after"):
        return any(settled(name, a, seen) for a in y.args if isinstance(a, N))
    if y.op == "pm" and (fam is not STRIPS or y.args[0] in CASES + ("replace",)):
        return settled(name, y.args[1], seen)
    if y.op in ("item", "proj", "elem"):
        if fam is STRIPS:
            z = y.args[0]
            if z.op == "attr":
                return bool(set(fam) & attr_methods(z.args[1] + "[]"))
            return z.op == "pm" and z.args[0] in ("split", "splitlines") and len(z.args) == 2 or z.op == "map" and settled(name, z, seen)
        return any(settled(name, a, seen) for a in y.args[:1] if isinstance(a, N))
    if y.op in ("slice", "cat", "map") and (fam is not STRIPS or y.op == "map"):
        return any(settled(name, a, seen) for a in y.args if isinstance(a, N))
    return False


def attr_methods(name):
    """text methods that values assigned to attributes of this name go through last"""
    p = CALLEES[0]
    if p is None:
        return set()
    import ast
    got = p.__dict__.get("_attr_methods")
    if got is None:
        got = p._attr_methods = {}
        for f in p.iter_funcs():
            for s in ast.walk(f.node):
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Attribute) for t in s.targets):
                    v, out, of = s.value, set(), ""
                    if isinstance(v, (ast.ListComp, ast.GeneratorExp)):
                        v, of = v.elt, "[]"
                    while isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in STRIPS + CASES + ("replace",):
                        out.add(v.func.attr)
                        v = v.func.value
                    for t in s.targets:
                        if isinstance(t, ast.Attribute) and out:
                            got.setdefault(t.attr + of, set()).update(out)
    return got.get(name, set())


def methods_of(qual, depth=2):
    """text methods that the function, or one it calls, makes use of"""
    p = CALLEES[0]
    f = p.func(qual) if p is not None and qual else None
    if f is None:
        return set()
    import ast
    out = set()
    for c in ast.walk(f.node):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute):
            if c.func.attr in STRIPS + CASES + ("replace",):
                out.add(c.func.attr)
            elif depth and isinstance(c.func.value, ast.Name) and c.func.value.id == "self" and f.cls is not None:
                g = f.cls.method(c.func.attr)
                if g is not None and g.qual != qual:
                    out |= methods_of(g.qual, depth - 1)
    return out


IDEM = {"copy", "encode", "decode", "keys", "items", "values", "resolve", "tolist", "expanduser", "absolute", "as_posix", "format"}
GROUPS = [{"strip", "lstrip", "rstrip"}, {"lower", "upper", "title", "capitalize", "swapcase"}, {"startswith", "endswith"},
          {"find", "rfind"}, {"index", "rindex"}, {"match", "fullmatch", "search"}, {"split", "rsplit"}, {"partition", "rpartition"},
          {"isalnum", "isalpha", "isdigit", "isnumeric", "isdecimal"}, {"keys", "values", "items"}, {"is_file", "is_dir", "exists"}, {"hex", "digest", "hexdigest"}]
ARITY = {"split", "rsplit", "strip", "lstrip", "rstrip", "replace", "find", "rfind", "get", "count"}
MODELLED_VALUES = {"cat", "add", "list", "new", "fld"}
MODELLED = {"self", "p", "attr", "rd", "slice", "item", "len", "lin", "fld", "sfld", "pm", "c", "bits", "band", "cat", "tuple", "seq", "eq0", "eq",
            "lt0", "truth", "isnone", "not", "and", "or", "uuid", "uuidle", "hexs", "elem"}


def modelled(x):
    """Built only from inputs by operations whose meaning is fixed."""
    st, seen = [x], set()
    while st:
        y = st.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        if y.op not in MODELLED:
            return False
        st.extend(z for z in y.args if isinstance(z, N))
    return True


class TooBig(Exception):
    pass


def finds(x, op):
    """nodes of this kind inside x"""
    st, seen, out = [x], set(), set()
    while st:
        y = st.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        if y.op == op:
            out.add(y)
        st.extend(z for z in y.args if isinstance(z, N))
    return out


REGEX = ("re.match", "re.fullmatch", "re.search")


def rexchange(a, b):
    """Two regular expression functions on the same operands that accept different texts"""
    na, nb = (x.args[0] if isinstance(x.args[0], str) else pretty(x.args[0]) for x in (a, b))
    if na not in REGEX or nb not in REGEX or not isk(a.args[1], "s"):
        return False
    s = a.args[1].args[1]
    ends = s.endswith(("$", "\\Z", ".*", "\\z")) and not s.endswith(("\\$", "\\.*"))
    starts = s.startswith(("^", "\\A", ".*"))
    if "|" in s or s.startswith("(") and s.endswith((")", ")*", ")?", ")+")):
        return False        # alternatives may be anchored on their own
    if "re.fullmatch" in (na, nb) and ends or {na, nb} == {"re.match", "re.search"} and starts:
        return False
    return True


def filetest(m):
    """The path whose being a file / a folder this condition asks of the file system"""
    if m.op == "truth":
        m = m.args[0]
    if isinstance(m, N) and m.op == "pm" and len(m.args) >= 2:
        xs = [x for x in m.args if isinstance(x, N)]
        if any(x in ("is_file", "is_dir") for x in m.args if isinstance(x, str)) and xs:
            return xs[0]
    if isinstance(m, N) and m.op == "pure" and any(x in ("os.path.isfile", "os.path.isdir") for x in m.args if isinstance(x, str)):
        return next((x for x in m.args if isinstance(x, N)), None)
    return None


def shares(m, ra):
    """another test of the term speaks about one of the same quantities (so this one may be implied by it)"""
    mine = {x for x in leaves(m)} | {base(m)}
    for a in ra:
        if a is not m and not within(m, a) and (base(a) == base(m) or a.op in ("truth", "isnone", "isinst", "eq", "eq0", "lt0", "in") and leaves(a) & mine and a.op != "loop"):
            return True
    return False


def antiunify(a, b, pa, pb, pairs, seen, budget):
    """Collect the places where two terms disagree, walking down as long as both are the same operation; pairs: (a, b) -> {(parents)}"""
    if a is b or (a, b, pa, pb) in seen:
        return
    seen.add((a, b, pa, pb))
    budget[0] -= 1
    if budget[0] < 0 or len(pairs) > 2:
        raise TooBig()
    if a.op != b.op or a.op == "c" or a.op in OPAQUE:
        pairs.setdefault((a, b), set()).add((pa, pb))
        return
    if a.op in ("and", "or", "eq", "bag"):
        xa, xb = list(a.args), list(b.args)
        for x in list(xa):
            if x in xb:
                xa.remove(x)
                xb.remove(x)
        if len(xa) == len(xb) == 1 and isinstance(xa[0], N) and isinstance(xb[0], N):
            antiunify(xa[0], xb[0], a, b, pairs, seen, budget)
        else:
            pairs.setdefault((a, b), set()).add((pa, pb))
        return
    if a.op == "lin":
        ia, ka = linparts(a)
        ib, kb = linparts(b)
        da, db = dict(ia), dict(ib)
        oa = [(x, c) for x, c in ia if db.get(x) != c]
        ob = [(x, c) for x, c in ib if da.get(x) != c]
        if not oa and not ob and ka != kb:
            pairs.setdefault((k(ka), k(kb)), set()).add((a, b))
        elif ka == kb and sorted(c for _, c in oa) == sorted(c for _, c in ob) and len({c for _, c in oa}) == len(oa):
            for (x, c) in oa:
                antiunify(x, next(y for y, d in ob if d == c), a, b, pairs, seen, budget)
        else:
            pairs.setdefault((a, b), set()).add((pa, pb))
        return
    if len(a.args) != len(b.args) or any(isinstance(x, N) != isinstance(y, N) or (not isinstance(x, N) and x != y) for x, y in zip(a.args, b.args)):
        pairs.setdefault((a, b), set()).add((pa, pb))
        return
    for x, y in zip(a.args, b.args):
        if isinstance(x, N):
            antiunify(x, y, a, b, pairs, seen, budget)


def decisive(x, y, a, b):
    """Exchanging constant a for b under this parent changes what is computed."""
    if x is None:
        return True
    if x.op in ("pm", "call", "ret") and str(x.args[0]) in ("read", "recv", "split", "rsplit", "get", "pop", "readline", "sleep", "join"):
        return str(x.args[0]) in ("get",) and x.args[2:3] == (a,)
    if x.op == "ite" and isk(a, "t", "n"):
        return False
    return True


def inside(a, b):
    """a occurs strictly inside b"""
    return a is not b and a in atoms(b)


def occurs(a, b):
    st, seen = [b], set()
    while st:
        y = st.pop()
        if y is a:
            return True
        if y.id not in seen:
            seen.add(y.id)
            st.extend(z for z in y.args if isinstance(z, N))
    return False


def splittable(x):
    return x.free == 0 or True


def gate_in(t, atom):
    """atom occurs as (part of) an ite condition inside t"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite" and atom in atoms(x.args[0]):
            return True
        st.extend(a for a in x.args if isinstance(a, N))
    return False


def width(x):
    if isk(x, "b"):
        return len(x.args[1]) // 2
    if isk(x, "s"):
        return len(x.args[1])
    if x.op == "fld":
        return int(x.args[1])
    if x.op == "sfld":
        return int(x.args[0])
    return 16


def subseq(a, b):
    it = iter(b)
    return all(any(x is y for y in it) for x in a)


def short(x, lim=160):
    s = pretty(x)
    return s if len(s) <= lim else s[:lim] + "..."


def pretty(x, d=0):
    if not isinstance(x, N):
        return str(x)
    if d > 12:
        return "..."
    P = lambda y: pretty(y, d + 1)
    o, a = x.op, x.args
    if o == "c":
        return {"b": "b'" + a[1] + "'", "s": repr(a[1])}.get(a[0], a[1])
    if o == "self":
        return "self"
    if o == "p":
        return a[0]
    if o == "attr":
        return P(a[0]) + "." + a[1]
    if o == "lin":
        its, kk = linparts(x)
        s = " + ".join((f"{c}*" if c != 1 else "") + P(y) for y, c in its)
        return f"({s}{kk:+d})" if kk else f"({s})"
    if o == "eq0":
        its, kk = linparts(a[0])
        if len(its) == 1 and its[0][1] == 1:
            return f"{P(its[0][0])} == {-kk}"
        return f"{P(a[0])} == 0"
    if o == "lt0":
        its, kk = linparts(a[0])
        if len(its) == 1 and its[0][1] == 1:
            return f"{P(its[0][0])} < {-kk}"
        return f"{P(a[0])} < 0"
    if o == "eq":
        return f"{P(a[0])} == {P(a[1])}"
    if o == "not":
        return "not (" + P(a[0]) + ")"
    if o in ("and", "or"):
        return "(" + f" {o} ".join(P(y) for y in a) + ")"
    if o == "ite":
        return f"({P(a[1])} if {P(a[0])} else {P(a[2])})"
    if o == "rd":
        return f"{a[0]}{int(a[1]) * 8}{'le' if a[2] == '<' else 'be'}({P(a[3])} at {P(a[4])})"
    if o == "slice":
        return f"{P(a[0])}[{P(a[1])}:{'' if isk(a[2], 'n') else P(a[2])}]"
    if o == "fld":
        return f"{a[0]}{int(a[1]) * 8}{'le' if a[2] == '<' else 'be'}={P(a[3])}"
    if o in ("pm",):
        return f"{P(a[1])}.{a[0]}({', '.join(P(y) for y in a[2:])})"
    if o in ("pure", "call", "ret"):
        return f"{P(a[0])}({', '.join(P(y) for y in a[1:])})"
    if o == "new":
        return "new " + a[0].split(":")[-1]
    return f"{o}({', '.join(P(y) for y in a)})"
