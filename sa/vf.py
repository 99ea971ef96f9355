"""Flow-sensitive value-flow evaluation of one function (callees inlined) into normalised terms and guarded events.

This is a dataflow interpretation over the syntax tree: both arms of every branch are evaluated once and merged with a
gate, loops are closed with loop-carried values (phi), nothing is executed and no path is enumerated or solved for."""
import ast
import builtins
import json
import os
import struct

import terms as tm
from terms import C, FALSE, NONE, T, TRUE, V, cv, isc, is_int_c
from project import Class, Func, Module

MAXDEPTH = 14
PURE_METHODS = set("""strip lstrip rstrip split rsplit splitlines lower upper title startswith endswith replace join format
 find rfind index count isdigit isalpha isalnum isidentifier isupper islower encode decode hex partition rpartition casefold
 zfill ljust rjust center keys values items get copy timetuple group groups groupdict start end span match search fullmatch
 bit_length to_bytes from_bytes tobytes as_posix is_absolute relative_to resolve exists is_file is_dir is_relative_to
 with_suffix joinpath digest hexdigest fromhex expandtabs swapcase isspace union intersection difference strftime isoformat
 public_bytes""".split())
MUTATORS = set("append extend insert remove pop clear sort reverse update add discard setdefault popitem".split())
PURE_FUNCS = set("""len min max sum abs int str repr hex oct bin ord chr bool float bytes bytearray tuple sorted any all isinstance
 issubclass type hasattr getattr callable round divmod range enumerate zip map filter reversed id hash format
 struct.pack struct.unpack struct.calcsize struct.unpack_from os.path.join os.path.dirname os.path.basename os.path.normpath
 os.path.normcase os.path.isabs os.path.splitext os.path.relpath os.path.abspath os.path.isfile os.path.isdir os.path.exists
 uuid.UUID re.match re.search re.compile re.split re.sub re.findall re.escape re.fullmatch hashlib.sha256 hashlib.new
 pathlib.Path pathlib.PurePath Path int.from_bytes int.to_bytes bytes.fromhex copy.deepcopy copy.copy time.strptime
 datetime.datetime collections.namedtuple typing.cast""".split())
STREAM_METHODS = set("read write seek tell getvalue flush close readline readlines writelines truncate".split())


class GiveUp(Exception):
    """The construct is outside what the evaluator models."""


class St:
    __slots__ = ("env", "heap", "pc", "dead")

    def __init__(self, env=None, heap=None, pc=()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.dead = False

    def fork(self):
        return St(dict(self.env), dict(self.heap), self.pc)


class Frame:
    def __init__(self, func, pc0):
        self.func = func
        self.pc0 = pc0          # length of pc at entry
        self.returns = []       # (pc, value, heap)
        self.loops = []


class Event:
    __slots__ = ("kind", "pc", "data", "node", "func", "stack", "caught")

    def __init__(self, kind, pc, data, node, func, stack):
        self.kind, self.pc, self.data, self.node, self.func, self.stack = kind, pc, data, node, func, stack
        self.caught = False

    def where(self):
        return self.func.where(self.node) if self.func else "?"

    def __repr__(self):
        return f"<{self.kind} {self.data} @{self.where()} if {list(self.pc)}>"


def lit(c, pol=True):
    if c.op == "not":
        return lit(c.args[0], not pol)
    if c.op == "lt0":
        d, k = tm.lin_parts(c.args[0])
        first = min(d.items(), key=lambda p: p[0].id)
        if first[1] < 0:
            return (tm.lt0(tm.sub(C(-1), c.args[0])), not pol)
    return (c, pol)


def lits(c, pol=True):
    """Conjunction of literals equivalent to (c is pol), as a list."""
    c = tm.truth(c)
    if c.op == "and" and pol:
        return [l for x in c.args for l in lits(x, True)]
    if c.op == "or" and not pol:
        return [l for x in c.args for l in lits(x, False)]
    if c.op == "not":
        return lits(c.args[0], not pol)
    return [lit(c, pol)]


class Result:
    """Outcome of evaluating an entry function."""

    def __init__(self, ev, value, heap, recv, params, completes):
        self.ev, self.value, self.heap = ev, value, heap
        self.recv, self.params, self.completes = recv, params, completes
        self.events = ev.events
        self.phis = ev.phis

    def attr(self, name, obj=None):
        obj = obj or self.recv
        return self.heap.get((obj, name))

    def content(self, t):
        return self.ev.content(t, self.heap)


class Evaluator:
    def __init__(self, proj, opaque=(), max_steps=400000, inline=True, max_inline_nodes=4000):
        self.p = proj
        self.opaque = set(opaque)
        self.events = []
        self.phis = {}
        self.uid_n = 0
        self.steps = 0
        self.max_steps = max_steps
        self.stack = []
        self.frames = []
        self.inline = inline
        self.classns = {}
        self.inlined = set()
        self.opaque_calls = {}
        self.exc_bag = []
        self.guess = {}

    def uid(self):
        self.uid_n += 1
        return self.uid_n

    # ------------------------------------------------------------ entry points
    def run(self, func, recv_cls=None, args=None, heap=None, recv=None, fresh=False):
        """Evaluate func with symbolic parameters. recv_cls: exact class of self.
        fresh=True: self is a new object of the class (constructor entry)."""
        st = St(heap=dict(heap or {}))
        params = {}
        names = func.params
        bind = {}
        if func.cls is not None and not func.is_static and names:
            if func.is_class:
                bind[names[0]] = V("cls", recv_cls or func.cls)
            else:
                recv = recv or V("obj" if fresh else "self", recv_cls or func.cls, "self")
                bind[names[0]] = recv
            names = names[1:]
        a = func.node.args
        for n in names + [p.arg for p in a.kwonlyargs]:
            if args and n in args:
                bind[n] = args[n]
            else:
                bind[n] = V("param", n, ty=self.annot_ty(func, n))
                t = self.annot_cls(func, n)
                if t:
                    bind[n] = V("param", n, t)
            params[n] = bind[n]
        if a.vararg:
            bind[a.vararg.arg] = V("param", "*" + a.vararg.arg, ty="tuple")
        if a.kwarg:
            bind[a.kwarg.arg] = V("param", "**" + a.kwarg.arg, ty="dict")
        st.env = bind
        val, st2 = self.call_body(func, st, bind)
        return Result(self, val, st2.heap, recv, params, not st2.dead)

    def annot(self, func, name):
        a = func.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.arg == name and p.annotation is not None:
                e = p.annotation
                if isinstance(e, ast.Constant) and isinstance(e.value, str):
                    try:
                        e = ast.parse(e.value, mode="eval").body
                    except SyntaxError:
                        return None
                if isinstance(e, ast.Subscript) and ast.unparse(e.value).split(".")[-1] == "Optional":
                    return None
                return e
        return None

    def annot_ty(self, func, name):
        e = self.annot(func, name)
        if isinstance(e, ast.Name) and e.id in ("int", "str", "bytes", "bool", "list", "dict", "tuple"):
            return e.id
        return None

    def annot_cls(self, func, name):
        e = self.annot(func, name)
        if e is None or isinstance(e, ast.Constant):
            return None
        r = self.p.resolve_expr(e, func.mod, func.cls)
        return r if isinstance(r, Class) else None

    # ------------------------------------------------------------ types
    def cls_of(self, t):
        if t.op in ("obj", "self"):
            return t.args[0]
        if t.op == "param" and len(t.args) > 1:
            return t.args[1]
        if t.op == "super":
            return t.args[1]
        if t.op == "attr":
            oc = self.cls_of(t.args[0])
            if oc is not None:
                c = attr_info(self.p, oc).get(t.args[1])
                if c and len(c["cls"]) == 1:
                    return next(iter(c["cls"]))
        if t.op in ("elem", "item"):
            lt = t.args[0]
            if lt.op == "attr":
                oc = self.cls_of(lt.args[0])
                if oc is not None:
                    c = attr_info(self.p, oc).get(lt.args[1])
                    if c and len(c["elem"]) == 1:
                        return next(iter(c["elem"]))
        return self.guess.get(t)

    def typed_attr(self, o, name):
        oc = self.cls_of(o)
        ty = None
        if oc is not None:
            c = attr_info(self.p, oc).get(name)
            if c and len(c["ty"]) == 1 and not c["cls"] and not c.get("none"):
                ty = next(iter(c["ty"]))
                ty = None if ty == "?" else ty
        return V("attr", o, name, ty=ty)

    # ------------------------------------------------------------ events
    def event(self, kind, st, data, node):
        fr = self.frames[-1] if self.frames else None
        e = Event(kind, st.pc, data, node, fr.func if fr else None, tuple(f.func.qual for f in self.frames))
        self.events.append(e)
        return e

    # ------------------------------------------------------------ calls
    def call_body(self, func, st, bind):
        """Run func's body in st (env replaced); returns (value, merged state)."""
        fr = Frame(func, len(st.pc))
        pc0 = st.pc
        caller_env = st.env
        st = St(dict(bind), st.heap, st.pc)
        self.frames.append(fr)
        depth = len(self.frames)
        if depth > MAXDEPTH:
            self.frames.pop()
            raise GiveUp(f"inlining deeper than {MAXDEPTH}")
        try:
            out = self.block(func.node.body, st)
        finally:
            self.frames.pop()
        ents = list(fr.returns)
        if not out.dead:
            ents.append((out.pc, NONE, out.heap))
        res = St(caller_env, {}, pc0)
        if not ents:
            res.dead = True
            res.heap = st.heap
            return V("noreturn", self.uid()), res
        rel = [(tuple(pc[fr.pc0:]), val, h) for pc, val, h in ents]
        val, heap, extra = self.combine(rel)
        res.heap = heap
        res.pc = pc0 + extra
        return val, res

    def combine(self, ents):
        """ents: [(relative pc literals, value, heap)] mutually exclusive -> (value, heap, extra pc literals)."""
        if len(ents) == 1:
            return ents[0][1], ents[0][2], ents[0][0]
        if all(not e[0] for e in ents):
            v, h = ents[0][1], ents[0][2]
            for _, v2, h2 in ents[1:]:
                c = V("choice", self.uid(), ty="bool")
                v, h = tm.ite(c, v, v2), self.merge_heap(c, h, h2)
            return v, h, ()
        first = next(e for e in ents if e[0])
        c = first[0][0][0]
        A = [(e[0][1:], e[1], e[2]) for e in ents if e[0] and e[0][0] == (c, True)]
        B = [(e[0][1:], e[1], e[2]) for e in ents if e[0] and e[0][0] == (c, False)]
        R = [e for e in ents if not (e[0] and e[0][0][0] is c)]
        if R and (A or B):
            # not a clean decision tree: chain on the whole condition of one entry
            e0 = first
            rest = [e for e in ents if e is not e0]
            cc = tm.and_([l if p else tm.neg(l) for l, p in e0[0]])
            v2, h2, _ = self.combine(rest)
            return tm.ite(cc, e0[1], v2), self.merge_heap(cc, e0[2], h2), ()
        if not A:
            v, h, x = self.combine(B)
            return v, h, ((c, False),) + x
        if not B:
            v, h, x = self.combine(A)
            return v, h, ((c, True),) + x
        va, ha, xa = self.combine(A)
        vb, hb, xb = self.combine(B)
        extra = ()
        if xa or xb:
            extra = ((tm.or_([self.conj(((c, True),) + xa), self.conj(((c, False),) + xb)]), True),)
            if isc(extra[0][0]):
                extra = ()
        return tm.ite(c, va, vb), self.merge_heap(c, ha, hb), extra

    def conj(self, ls):
        return tm.and_([l if p else tm.neg(l) for l, p in ls])

    def default(self, key):
        o, name = key
        if isinstance(name, str) and name.startswith("#"):
            return self.init_content(o, name)
        if o.op == "obj":
            c = self.cls_of(o) if hasattr(self, "cls_of") else None
            if c is not None and (c.class_attr(name) is not None or name in c.methods):
                return self.class_value(c, name, None)
            return V("missing", o, name)
        return self.typed_attr(o, name)

    def init_content(self, o, name="#"):
        return V("content0", o, name)

    def merge_heap(self, c, h1, h2):
        if h1 is h2:
            return h1
        out = {}
        for k in list(h1) + [k for k in h2 if k not in h1]:
            if k in out:
                continue
            a, b = h1.get(k), h2.get(k)
            if a is b:
                out[k] = a
                continue
            if a is None or b is None:
                fresh = k[0].op in ("list", "dict", "set", "stream", "bytearray") or k[1] == "#out"
                if k[0].op == "obj":
                    other = h2 if b is None else h1
                    fresh = not any(kk[0] is k[0] for kk in other)
                if fresh:
                    out[k] = a if a is not None else b
                    continue
                if a is None:
                    a = self.default(k)
                else:
                    b = self.default(k)
            out[k] = tm.ite(c, a, b)
        return out

    def merge_env(self, c, e1, e2):
        out = {}
        for k in list(e1) + [k for k in e2 if k not in e1]:
            if k in out:
                continue
            a, b = e1.get(k), e2.get(k)
            if a is None:
                a = V("undef", k)
            if b is None:
                b = V("undef", k)
            out[k] = tm.ite(c, a, b)
        return out

    def merge(self, c, s1, s2, base_n):
        """Merge two live states that split on c at pc length base_n."""
        r = St(self.merge_env(c, s1.env, s2.env), self.merge_heap(c, s1.heap, s2.heap), s1.pc[:base_n])
        x1, x2 = s1.pc[base_n:], s2.pc[base_n:]
        cond = tm.or_([self.conj(x1), self.conj(x2)])
        if not isc(cond):
            simple = set(lits(c, True)) == set(x1) and set(lits(c, False)) == set(x2)
            if not simple:
                r.pc = r.pc + ((cond, True),)
        return r

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st.dead:
                break
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise GiveUp("step budget exhausted")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise GiveUp(f"statement {type(s).__name__}")
        r = m(s, st)
        return r

    def s_Pass(self, s, st):
        return st

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st)
        return st

    def s_FunctionDef(self, s, st):
        fr = self.frames[-1]
        f = fr.func.nested.get(s.name)
        st.env[s.name] = V("closure", f, self.uid()) if f else V("unk", self.uid())
        if f:
            self.closure_env = getattr(self, "closure_env", {})
            self.closure_env[st.env[s.name]] = st.env
        return st

    def s_ClassDef(self, s, st):
        st.env[s.name] = V("unk", self.uid())
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st)
                self.event("delattr", st, (o, t.attr), t)
                st.heap[(o, t.attr)] = V("missing", o, t.attr)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                k = self.ev_index(t.slice, st)
                self.event("mutate", st, (o, "del", (k,)), t)
                st.heap[(o, "#")] = V("del", self.content(o, st.heap), k)
        return st

    def s_Assert(self, s, st):
        c = tm.truth(self.ev(s.test, st))
        ls = lits(c, False)
        if not isc(c, True):
            e = St(st.env, st.heap, st.pc + tuple(ls))
            self.raise_(e, V("exc", "AssertionError"), s)
            if isc(c, False):
                st.dead = True
            else:
                st.pc = st.pc + tuple(lits(c, True))
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return st

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.getattr(o, t.attr, st, t)
        else:
            o = self.ev(t.value, st)
            k = self.ev_index(t.slice, st)
            cur = self.getitem(o, k, st)
        v = self.ev(s.value, st)
        if isinstance(s.op, ast.Add) and (cur.op in ("list", "bytearray") or cur.ty == "list"):
            self.event("mutate", st, (cur, "extend", (v,)), s)
            self.extend(cur, v, st)
            if isinstance(t, ast.Attribute):
                st.heap[(o, t.attr)] = cur
                self.event("setattr", st, (o, t.attr, cur), s)
            elif isinstance(t, ast.Name):
                st.env[t.id] = cur
            return st
        r = self.binop(type(s.op).__name__, cur, v, st)
        if isinstance(t, ast.Name):
            st.env[t.id] = r
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, r, st, s)
        else:
            self.setitem(o, k, r, st, s)
        return st

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            if self.is_global(fr.func, t.id):
                st.heap[(V("mod", fr.func.mod), t.id)] = v
                self.event("setattr", st, (V("mod", fr.func.mod), t.id, v), t)
            else:
                st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            k = self.ev_index(t.slice, st)
            self.setitem(o, k, v, st, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, V("unk", self.uid()), st)
                else:
                    self.assign(e, self.proj(v, i, n, st), st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            raise GiveUp(f"assignment target {type(t).__name__}")

    def is_global(self, func, name):
        for n in ast.walk(func.node):
            if isinstance(n, ast.Global) and name in n.names:
                return True
        return False

    def proj(self, v, i, n, st):
        if v.op == "tuple":
            if i < len(v.args):
                return v.args[i]
            return V("badproj", v, i)
        if v.op == "list":
            c = self.content(v, st.heap)
            if c.op == "seq" and i < len(c.args):
                return c.args[i]
        if v.op == "ite":
            return tm.ite(v.args[0], self.proj(v.args[1], i, n, st), self.proj(v.args[2], i, n, st))
        return V("proj", v, i, n)

    def setattr(self, o, name, v, st, node):
        if o.op == "ite":
            c, a, b = o.args
            for x, pol in ((a, True), (b, False)):
                if isc(x):
                    continue
                cur = st.heap.get((x, name))
                if cur is None:
                    cur = self.default((x, name))
                st.heap[(x, name)] = tm.ite(c, v, cur) if pol else tm.ite(c, cur, v)
            self.event("setattr", st, (o, name, v), node)
            return
        k = self.cls_of(o)
        if k is not None:
            s = k.setter(name)
            if s is not None:
                self.invoke(s, o, [v], {}, st, node)
                return
        st.heap[(o, name)] = v
        self.event("setattr", st, (o, name, v), node)

    def setitem(self, o, k, v, st, node):
        self.event("mutate", st, (o, "setitem", (k, v)), node)
        cur = self.content(o, st.heap)
        if cur.op == "seq" and is_int_c(k) and -len(cur.args) <= cv(k) < len(cur.args):
            xs = list(cur.args)
            xs[cv(k)] = v
            st.heap[(o, "#")] = V("seq", *xs)
            return
        if cur.op == "map" and isc(k):
            items = [(a, b) for a, b in zip(cur.args[::2], cur.args[1::2])]
            items = [(a, b) for a, b in items if a is not k] + [(k, v)]
            st.heap[(o, "#")] = V("map", *[x for p in items for x in p])
            return
        st.heap[(o, "#")] = V("store", cur, k, v)

    def extend(self, o, v, st):
        cur = self.content(o, st.heap)
        if o.op == "bytearray" or o.ty == "bytes":
            st.heap[(o, "#")] = tm.cat([cur, self.as_bytes(v, st)])
            return
        add = self.known_seq(v, st)
        if cur.op == "seq" and add is not None:
            st.heap[(o, "#")] = V("seq", *(list(cur.args) + add))
        elif add is not None:
            for x in add:
                cur = V("sapp", cur, x)
            st.heap[(o, "#")] = cur
        else:
            st.heap[(o, "#")] = V("sext", cur, self.content(v, st.heap) if v.op in ("list",) else v)

    def content(self, o, heap):
        """Current content of a mutable container."""
        k = heap.get((o, "#"))
        if k is not None:
            return k
        if o.op == "ite":
            return tm.ite(o.args[0], self.content(o.args[1], heap), self.content(o.args[2], heap))
        if isc(o) or o.op in ("tuple", "cat", "fld", "slice"):
            return o
        return self.init_content(o)

    def known_seq(self, t, st):
        if t.op == "tuple":
            return list(t.args)
        if t.op in ("list", "set"):
            c = self.content(t, st.heap)
            if c.op == "seq":
                return list(c.args)
        if t.op == "dict":
            c = self.content(t, st.heap)
            if c.op == "map":
                return list(c.args[::2])
        if isc(t) and isinstance(cv(t), (str, tuple)):
            return [C(x) for x in cv(t)] if len(cv(t)) <= 64 else None
        if t.op == "range" and all(is_int_c(x) for x in t.args):
            r = range(*[cv(x) for x in t.args])
            return [C(x) for x in r] if len(r) <= 64 else None
        if t.op == "enum_":
            k = self.known_seq(t.args[0], st)
            if k is not None and is_int_c(t.args[1]):
                return [V("tuple", C(i + cv(t.args[1])), x, ty="tuple") for i, x in enumerate(k)]
        if t.op == "zip_":
            ks = [self.known_seq(a, st) for a in t.args]
            if all(k is not None for k in ks):
                return [V("tuple", *x, ty="tuple") for x in zip(*ks)]
        if t.op == "items_":
            c = self.content(t.args[0], st.heap)
            if c.op == "map":
                return [V("tuple", a, b, ty="tuple") for a, b in zip(c.args[::2], c.args[1::2])]
        if t.op == "vals_":
            c = self.content(t.args[0], st.heap)
            if c.op == "map":
                return list(c.args[1::2])
        if t.op == "keys_":
            c = self.content(t.args[0], st.heap)
            if c.op == "map":
                return list(c.args[::2])
        return None

    def raise_(self, st, exc, node):
        e = self.event("raise", st, exc, node)
        if self.exc_bag:
            bag = self.exc_bag[-1]
            if bag["frame"] <= len(self.frames):
                bag["raises"].append((st.pc, exc, st.heap, dict(self.env_at(bag, st)), e))

    def env_at(self, bag, st):
        if bag["frame"] == len(self.frames):
            return st.env
        return bag["env"]

    def s_Raise(self, s, st):
        exc = self.ev(s.exc, st) if s.exc is not None else V("exc", "reraise")
        self.raise_(st, exc, s)
        st.dead = True
        return st

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        if st.dead:
            return st
        fr = self.frames[-1]
        self.event("return", st, v, s)
        fr.returns.append((st.pc, v, st.heap))
        st.dead = True
        return st

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        if st.dead:
            return st
        return self.branch(c, st, lambda x: self.block(s.body, x), lambda x: self.block(s.orelse, x))

    def cond(self, e, st):
        return self.simplify(tm.truth(self.ev(e, st)), st)

    def simplify(self, c, st):
        if isc(c):
            return c
        known = dict(st.pc)
        return self._simp(c, known)

    def _simp(self, c, known):
        if isc(c):
            return c
        k, p = lit(c)
        if k in known:
            return C(known[k] == p)
        if c.op in ("and", "or"):
            xs = [self._simp(x, known) for x in c.args]
            return (tm.and_ if c.op == "and" else tm.or_)(xs)
        if c.op == "not":
            return tm.neg(self._simp(c.args[0], known))
        if c.op == "lt0":
            return c
        return c

    def branch(self, c, st, fa, fb):
        if isc(c):
            return (fa if cv(c) else fb)(st)
        n = len(st.pc)
        a, b = st.fork(), st.fork()
        a.pc = st.pc + tuple(lits(c, True))
        b.pc = st.pc + tuple(lits(c, False))
        a = fa(a)
        b = fb(b)
        if a.dead and b.dead:
            a.pc = st.pc
            return a
        if a.dead:
            return b
        if b.dead:
            return a
        return self.merge(c, a, b, n)

    # -- loops
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        if st.dead:
            return st
        seq = self.known_seq(it, st)
        if seq is not None and len(seq) * self.size(s) <= 6000:
            return self.unroll(s, seq, st)

        def pre(x, uid):
            item = self.elem_of(it, uid, x)
            self.assign(s.target, item, x)
            return x, None
        return self.loop(s, st, pre, it)

    def size(self, node):
        return sum(1 for _ in ast.walk(node))

    def elem_of(self, it, uid, st):
        if it.op == "enum_":
            return V("tuple", V("idx", uid, ty="int"), self.elem_of(it.args[0], uid, st), ty="tuple")
        if it.op == "zip_":
            return V("tuple", *[self.elem_of(a, uid, st) for a in it.args], ty="tuple")
        if it.op == "items_":
            return V("tuple", V("elem", V("keys_", it.args[0]), uid), V("elem", V("vals_", it.args[0]), uid), ty="tuple")
        if it.op == "range":
            return V("idx", uid, it, ty="int")
        if it.op in ("reversed_", "sorted_"):
            return V("elem", it.args[0], uid)
        ty = None
        if it.op in ("slice", "cat", "fld") or it.ty == "bytes":
            ty = "int"
        if it.ty == "str":
            ty = "str"
        if it.op == "list":
            c = self.content(it, st.heap)
            return V("elem", it if c.op in ("seq",) else c, uid, ty=ty)
        return V("elem", it, uid, ty=ty)

    def unroll(self, s, seq, st):
        breaks = []
        base = len(st.pc)
        for x in seq:
            if st.dead:
                break
            self.assign(s.target, x, st)
            lp = {"breaks": [], "conts": []}
            self.frames[-1].loops.append(lp)
            n = len(st.pc)
            st = self.block(s.body, st)
            self.frames[-1].loops.pop()
            breaks.extend(lp["breaks"])
            live = list(lp["conts"]) + ([st] if not st.dead else [])
            if not live:
                st.dead = True
                break
            st = self.join(live, n)
        if not st.dead and s.orelse:
            st = self.block(s.orelse, st)
        live = breaks + ([st] if not st.dead else [])
        if not live:
            st.dead = True
            return st
        return self.join(live, base)

    def join(self, states, n):
        if len(states) == 1:
            return states[0]
        ents = []
        for x in states:
            ents.append((tuple(x.pc[n:]), x, x.heap))
        return self.join_rec(ents, states[0].pc[:n])

    def join_rec(self, ents, pc):
        # ents (rel pc, state, heap) -> state
        if len(ents) == 1:
            x = ents[0][1]
            return St(x.env, x.heap, pc + ents[0][0])
        cands = [e for e in ents if e[0]]
        if not cands:
            a = ents[0][1]
            for e in ents[1:]:
                c = V("choice", self.uid(), ty="bool")
                a = St(self.merge_env(c, a.env, e[1].env), self.merge_heap(c, a.heap, e[1].heap), pc)
            return St(a.env, a.heap, pc)
        c = cands[0][0][0][0]
        A = [(e[0][1:], e[1], e[2]) for e in ents if e[0] and e[0][0] == (c, True)]
        B = [(e[0][1:], e[1], e[2]) for e in ents if e[0] and e[0][0] == (c, False)]
        R = [e for e in ents if not (e[0] and e[0][0][0] is c)]
        if R:
            e0 = cands[0]
            rest = [e for e in ents if e is not e0]
            cc = self.conj(e0[0])
            b = self.join_rec(rest, pc)
            a = e0[1]
            return St(self.merge_env(cc, a.env, b.env), self.merge_heap(cc, a.heap, b.heap), pc)
        if not A:
            return self.join_rec(B, pc + ((c, False),))
        if not B:
            return self.join_rec(A, pc + ((c, True),))
        n = len(pc)
        a = self.join_rec(A, pc + ((c, True),))
        b = self.join_rec(B, pc + ((c, False),))
        return self.merge(c, a, b, n)

    def s_While(self, s, st):
        # while True: if c: break; ...  is  while not c: ...
        if isinstance(s.test, ast.Constant) and s.test.value and not s.orelse and len(s.body) > 1 and isinstance(s.body[0], ast.If) \
                and not s.body[0].orelse and len(s.body[0].body) == 1 and isinstance(s.body[0].body[0], ast.Break):
            w = ast.While(test=ast.UnaryOp(op=ast.Not(), operand=s.body[0].test), body=s.body[1:], orelse=[])
            s = ast.fix_missing_locations(ast.copy_location(w, s))

        def pre(x, uid):
            c = self.cond(s.test, x)
            return x, c
        return self.loop(s, st, pre, None)

    def loop(self, s, st, pre, it):
        uid = self.uid()
        M = {}
        fr = self.frames[-1]
        uid0 = self.uid_n
        for _ in range(12):
            self.uid_n = uid0
            ev0 = len(self.events)
            ret0 = len(fr.returns)
            bag0 = [len(b["raises"]) for b in self.exc_bag]
            start = st.fork()
            n = len(start.pc)
            mark = V("loop", uid, ty="bool")
            phis = {}
            for kind, k in M:
                if kind == "e":
                    init = st.env.get(k, None)
                    if init is None:
                        init = V("undef", k)
                    phi = V("phi", uid, "e:" + k, ty=init.ty if init.ty != "none" else None)
                    start.env[k] = phi
                else:
                    init = st.heap.get(k)
                    if init is None:
                        init = self.default(k)
                    phi = V("phi", uid, "h:%d:%s" % (k[0].id, k[1]), ty=init.ty if init.ty != "none" else None)
                    start.heap[k] = phi
                phis[(kind, k)] = (phi, init)
            start.pc = start.pc + ((mark, True),)
            lp = {"breaks": [], "conts": []}
            fr.loops.append(lp)
            body = start.fork()
            body, c = pre(body, uid)
            exits = []
            if c is not None:
                # loop test
                ex = body.fork()
                if isc(c, True):
                    pass
                elif isc(c, False):
                    exits.append(ex)
                    body.dead = True
                else:
                    ex.pc = ex.pc + tuple(lits(c, False))
                    exits.append(ex)
                    body.pc = body.pc + tuple(lits(c, True))
            else:
                exits.append(start.fork())
            if not body.dead:
                body = self.block(s.body, body)
            fr.loops.pop()
            ends = list(lp["conts"]) + ([body] if not body.dead else [])
            changed = {}
            for e in ends:
                for k, v in e.env.items():
                    if start.env.get(k) is not v:
                        changed[("e", k)] = 1
                for k, v in e.heap.items():
                    if start.heap.get(k) is not v and not (k[0].op in ("list", "dict", "set", "stream", "bytearray", "obj")
                                                           and self.born_in(k[0], start)):
                        changed[("h", k)] = 1
            new = {x: 1 for x in changed if x not in M}
            if not new:
                break
            M.update(new)
            del self.events[ev0:]
            del fr.returns[ret0:]
            for b, k in zip(self.exc_bag, bag0):
                del b["raises"][k:]
        else:
            raise GiveUp("loop did not stabilise")
        # record phi definitions
        end = self.join(ends, n + 1) if ends else None
        for (kind, k), (phi, init) in phis.items():
            nxt = None
            if end is not None:
                nxt = end.env.get(k) if kind == "e" else end.heap.get(k)
            self.phis[phi] = (init, nxt if nxt is not None else init)
        info = self.event("loop", st, {"uid": uid, "phis": {p: (i,) + tuple(self.phis[p]) for (kk, p, i) in
                                                          [(k, v[0], v[1]) for k, v in phis.items()]},
                                       "end": end, "iter": it, "test": c if it is None else None,
                                       "keys": {p: k for k, (p, i) in phis.items()},
                                       "ends": ends, "breaks": list(lp["breaks"])}, s)
        # what follows a finished loop runs only when no iteration returned (and, for its else block, none left it early)
        def left(pc):
            ls = tuple(l for l in pc[n:] if l[0] is not mark) or ((mark, True),)
            return tuple(lits(self.conj(ls), False))
        gone = []
        for j in range(ret0, len(fr.returns)):
            pc, v, h = fr.returns[j]
            gone += left(pc)
            if any(l[0] is not mark for l in pc[n:]):
                fr.returns[j] = (pc[:n] + tuple(l for l in pc[n:] if l[0] is not mark), v, h)
        outs = []
        for e in exits:
            e.pc = tuple(l for l in e.pc if l[0] is not mark) + tuple(gone)
            outs.append(e)
        if s.orelse and outs:
            o = self.join(outs, n)
            for b in lp["breaks"]:
                o.pc = o.pc + left(b.pc)
            o = self.block(s.orelse, o)
            outs = [] if o.dead else [o]
        outs += lp["breaks"]
        if not outs:
            st.dead = True
            return st
        # after the loop the in-loop marker is dropped; conditions of the exit stay
        for o in outs:
            if any(o is b for b in lp["breaks"]):
                o.pc = tuple(l for l in o.pc if l[0] is not mark)
        r = self.join(outs, n)
        return r

    def born_in(self, o, start):
        # created inside the body: unknown to the state at loop start
        for k in start.heap:
            if k[0] is o:
                return False
        for v in start.env.values():
            if v is o:
                return False
        for v in start.heap.values():
            if v is o:
                return False
        return True

    def s_Break(self, s, st):
        fr = self.frames[-1]
        if not fr.loops:
            raise GiveUp("break outside loop")
        fr.loops[-1]["breaks"].append(st.fork())
        st.dead = True
        return st

    def s_Continue(self, s, st):
        fr = self.frames[-1]
        fr.loops[-1]["conts"].append(st.fork())
        st.dead = True
        return st

    # -- with / try
    def s_With(self, s, st):
        opened = []
        for item in s.items:
            v = self.ev(item.context_expr, st)
            if st.dead:
                return st
            if item.optional_vars is not None:
                bound = v
                k = self.cls_of(v)
                if k is not None and k.method("__enter__"):
                    bound = self.invoke(k.method("__enter__"), v, [], {}, st, item.context_expr)
                self.assign(item.optional_vars, bound, st)
            opened.append(v)
            self.event("enter", st, v, s)
        st = self.block(s.body, st)
        for v in reversed(opened):
            self.event("exit", st, v, s)
        return st

    def s_Try(self, s, st):
        fr = self.frames[-1]
        pre = st.fork()
        bag = {"frame": len(self.frames), "raises": [], "env": dict(st.env), "uid": self.uid()}
        ret0 = len(fr.returns)
        self.exc_bag.append(bag)
        body = self.block(s.body, st.fork())
        self.exc_bag.pop()
        base = len(pre.pc)
        outs = []
        # events raised explicitly inside and possibly caught here
        names_all = []
        for h in s.handlers:
            names_all.append(self.handler_names(h))
        for h, names in zip(s.handlers, names_all):
            excl = V("excat", bag["uid"], ",".join(names), ty="bool")
            hs = pre.fork()
            hs.pc = hs.pc + ((excl, True),)
            # locations changed by the body may or may not have been changed
            ch = V("partial", bag["uid"], ty="bool")
            hs.heap = self.merge_heap(ch, body.heap, pre.heap)
            hs.env = self.merge_env(ch, body.env, pre.env)
            for rpc, exc, heap, env, e in bag["raises"]:
                if self.matches(exc, names):
                    e.caught = True
                    hs.heap = self.merge_heap(V("partial", self.uid(), ty="bool"), heap, hs.heap)
            if h.name:
                hs.env[h.name] = V("excval", bag["uid"], ",".join(names))
            hs = self.block(h.body, hs)
            if not hs.dead:
                outs.append(hs)
        for rpc, exc, heap, env, e in bag["raises"]:
            if not e.caught and self.exc_bag:
                self.exc_bag[-1]["raises"].append((rpc, exc, heap, env, e))
        if not body.dead and s.orelse:
            body = self.block(s.orelse, body)
        if not body.dead:
            outs.insert(0, body)
        if s.finalbody:
            # returns inside pass through the finally block
            for i in range(ret0, len(fr.returns)):
                rpc, v, heap = fr.returns[i]
                fs = St(dict(pre.env), dict(heap), rpc)
                fs = self.block(s.finalbody, fs)
                fr.returns[i] = (rpc, v, fs.heap)
        if not outs:
            if s.finalbody:
                self.block(s.finalbody, pre.fork())
            st.dead = True
            return st
        r = outs[0]
        for o in outs[1:]:
            excl = next((l for l in o.pc[base:] if l[0].op == "excat"), None)
            c = excl[0] if excl else V("choice", self.uid(), ty="bool")
            r = St(self.merge_env(c, o.env, r.env), self.merge_heap(c, o.heap, r.heap), pre.pc)
        if len(outs) == 1 and outs[0] is not body:
            r = St(r.env, r.heap, r.pc)
        if s.finalbody:
            r = self.block(s.finalbody, r)
        return r

    s_TryStar = s_Try

    def handler_names(self, h):
        if h.type is None:
            return ["*"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [ast.unparse(t).split(".")[-1] for t in ts]

    def matches(self, exc, names):
        if "*" in names or "Exception" in names or "BaseException" in names:
            return True
        n = exc_name(exc)
        if n in names:
            return True
        b = getattr(__import__("builtins"), n, None)
        if isinstance(b, type):
            return any(getattr(__import__("builtins"), x, None) in b.__mro__ for x in names)
        return False

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise GiveUp("step budget exhausted")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return V("unk", self.uid())
        return m(e, st)

    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return V("ellipsis")
        return C(e.value)

    def e_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        fr = self.frames[-1] if self.frames else None
        if fr is not None:
            f = fr.func
            # enclosing function locals
            g = f.parent
            while g is not None:
                cenv = getattr(fr, "cenv", None)
                if cenv and e.id in cenv:
                    return cenv[e.id]
                if e.id in g.nested:
                    return V("closure", g.nested[e.id], 0)
                g = g.parent
            v = self.module_name(f.mod, e.id, st, f.cls or getattr(f, "outer_cls", None))
            if v.op == "ext" and v.args[0] == e.id and f.parent is None and not hasattr(builtins, e.id) and not e.id.startswith("__") and not any(
                    x not in self.p.modules for x in f.mod.star) and e.id not in f.mod.imports:
                return V("unbound", e.id)
            return v
        return V("unk", self.uid())

    def module_name(self, mod, name, st, cls=None):
        mo = V("mod", mod)
        if st is not None and (mo, name) in st.heap:
            return st.heap[(mo, name)]
        r = self.p.resolve_name(name, mod)
        return self.sym(r, name, st)

    def sym(self, r, name, st):
        if isinstance(r, Func):
            return V("func", r)
        if isinstance(r, Class):
            return V("cls", r)
        if isinstance(r, Module):
            return V("mod", r)
        if isinstance(r, tuple) and r[0] == "global":
            return self.global_value(r[1], r[2], st)
        if isinstance(r, tuple) and r[0] == "cattr":
            return self.class_value(r[1], r[2], st)
        if isinstance(r, str):
            return V("ext", r)
        return V("ext", name)

    def global_value(self, mod, name, st):
        key = ("g", mod.name, name)
        if key in self.classns:
            t = self.classns[key]
        else:
            self.classns[key] = V("glob", mod.name, name)
            exprs = mod.globals[name]
            t = V("glob", mod.name, name)
            if len(exprs) == 1 and exprs[0] is not None and self.simple(exprs[0]):
                sub = Evaluator(self.p)
                sub.classns = self.classns
                fake = ModFrame(mod)
                sub.frames.append(Frame(fake, 0))
                s2 = St()
                try:
                    v = sub.ev(exprs[0], s2)
                    if v.op in ("c", "tuple", "cls", "func", "ext", "structobj", "uuid") or isc(v) or is_regex(v):
                        t = v
                    elif v.op in ("list", "dict", "set"):
                        t = V("glob", mod.name, name, ty=v.op if v.op != "set" else None)
                        self.globcontent = getattr(self, "globcontent", {})
                        self.globcontent[t] = (s2.heap.get((v, "#")), v.op)
                except GiveUp:
                    pass
            self.classns[key] = t
        return t

    def simple(self, e):
        return sum(1 for _ in ast.walk(e)) < 3000

    def class_value(self, cls, name, st):
        key = ("k", cls.qual, name)
        if key in self.classns:
            return self.classns[key]
        self.classns[key] = V("cattr", V("cls", cls), name)
        a = cls.class_attr(name)
        t = V("cattr", V("cls", cls), name)
        if a:
            owner, expr = a
            if owner.is_enum:
                t = V("enumval", V("cls", owner), name)
                if isinstance(expr, ast.Constant) and isinstance(expr.value, int) and any(
                        str(b).split(".")[-1] in ("IntEnum", "IntFlag") for b in owner.external_bases()):
                    t = C(expr.value)
            else:
                sub = Evaluator(self.p)
                sub.classns = self.classns
                sub.frames.append(Frame(ModFrame(owner.mod, owner), 0))
                s2 = ClassSt(sub, owner)
                try:
                    v = sub.ev(expr, s2)
                    if v.op in ("c", "tuple", "cls", "func", "ext", "structobj", "uuid", "lin", "enumval") or is_regex(v):
                        t = v
                except GiveUp:
                    pass
        self.classns[key] = t
        return t

    def e_Attribute(self, e, st):
        o = self.ev(e.value, st)
        return self.getattr(o, e.attr, st, e)

    def getattr(self, o, name, st, node):
        if o.op == "mod":
            m = o.args[0]
            if (o, name) in st.heap:
                return st.heap[(o, name)]
            r = self.p.member(m, name)
            return self.sym(r, m.name + "." + name, st)
        if o.op == "cls":
            c = o.args[0]
            if (o, name) in st.heap:
                return st.heap[(o, name)]
            m = c.method(name)
            if m:
                return V("bound", o, m) if m.is_class else V("func", m)
            n = c.nested_class(name)
            if n:
                return V("cls", n)
            if c.class_attr(name):
                return self.class_value(c, name, st)
            if name == "__name__":
                return C(c.name)
            return V("cattr", o, name)
        if o.op == "ext":
            return V("ext", o.args[0] + "." + name)
        if o.op == "super":
            m = None
            for b in o.args[1].mro()[1:] if False else o.args[2]:
                if name in b.methods:
                    m = b.methods[name]
                    break
            return V("bound", o.args[0], m) if m else V("extbound", o.args[0], name)
        if o.op == "structobj":
            if name == "size":
                return C(struct.calcsize(cv(o.args[0])))
            return V("bound_", o, name)
        if o.op == "enumval" and name == "value":
            _, expr = o.args[0].args[0].class_attr(o.args[1])
            if isinstance(expr, ast.Constant):
                return C(expr.value)
            return V("attr", o, name)
        if o.op == "uuid" and name in ("bytes_le", "bytes"):
            kind, x = o.args
            if kind == name:
                return x
        if o.op == "ite":
            a, b = o.args[1], o.args[2]
            if isc(a, None):
                return self.getattr(b, name, st, node)
            if isc(b, None):
                return self.getattr(a, name, st, node)
            va, vb = self.getattr(a, name, st, node), self.getattr(b, name, st, node)
            if va.op != "bound" and vb.op != "bound":
                return tm.ite(o.args[0], va, vb)
            return V("bound_", o, name)
        v = st.heap.get((o, name))
        if v is not None:
            return v
        k = self.cls_of(o)
        if k is not None:
            m = k.method(name)
            if m is not None:
                if m.is_prop:
                    return self.invoke(m, o, [], {}, st, node)
                if m.is_static:
                    return V("func", m)
                if m.is_class:
                    return V("bound", V("cls", k), m)
                return V("bound", o, m)
            if name == "__class__":
                return V("cls", k)
            ca = k.class_attr(name)
            if ca is not None and (o.op == "obj" or name not in attr_info(self.p, k)):
                return self.class_value(k, name, st)
            n = k.nested_class(name)
            if n:
                return V("cls", n)
            if o.op == "obj":
                if (o, "#args") in st.heap:
                    return self.typed_attr(o, name)
                if k.external_bases() and [b for b in k.external_bases() if b not in ("object", "ABC", "abc.ABC")]:
                    return V("attr", o, name)
                return V("missing", o, name)
            return self.typed_attr(o, name)
        if name == "digest_size" and o.op == "pure" and o.args[0] in ("hashlib.sha256", "hashlib.new"):
            return C(32)
        if o.op in ("list", "dict", "set", "stream", "bytearray", "c", "cat", "slice", "fstr", "tuple", "uuid", "glob"):
            return V("bound_", o, name)
        return V("attr", o, name)

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, st) if e.slice.lower else C(0)
            hi = self.ev(e.slice.upper, st) if e.slice.upper else NONE
            if e.slice.step:
                return V("sl3", self.value_of(o, st), lo, hi, self.ev(e.slice.step, st), ty=o.ty)
            return tm.slice_(self.value_of(o, st), lo, hi)
        k = self.ev(e.slice, st)
        return self.getitem(o, k, st)

    def value_of(self, o, st):
        if o.op in ("bytearray",):
            return self.content(o, st.heap)
        if (o, "#") in st.heap and o.op not in ("list", "dict", "set"):
            return st.heap[(o, "#")]
        return o

    def ev_index(self, sl, st):
        if isinstance(sl, ast.Slice):
            lo = self.ev(sl.lower, st) if sl.lower else NONE
            hi = self.ev(sl.upper, st) if sl.upper else NONE
            return V("slc", lo, hi)
        return self.ev(sl, st)

    def getitem(self, o, k, st):
        if o.op == "tuple" and is_int_c(k) and -len(o.args) <= cv(k) < len(o.args):
            return o.args[cv(k)]
        if o.op == "ite" and all(x.op in ("tuple", "ite", "c") for x in o.args[1:]):
            return tm.ite(o.args[0], self.getitem(o.args[1], k, st), self.getitem(o.args[2], k, st))
        if isc(o) and isc(k) and isinstance(cv(o), (str, bytes, tuple)) and isinstance(cv(k), int):
            try:
                return C(cv(o)[cv(k)])
            except IndexError:
                pass
        if o.op in ("list", "dict"):
            c = self.content(o, st.heap)
            if c.op == "seq" and is_int_c(k) and -len(c.args) <= cv(k) < len(c.args):
                return c.args[cv(k)]
            if c.op == "map" and isc(k):
                for a, b in zip(c.args[::2], c.args[1::2]):
                    if a is k:
                        return b
            return V("item", c, k)
        if o.op == "glob":
            gc = getattr(self, "globcontent", {}).get(o)
            if gc and gc[0] is not None and gc[0].op == "map" and isc(k):
                for a, b in zip(gc[0].args[::2], gc[0].args[1::2]):
                    if a is k:
                        return b
        if o.op in ("slice", "cat", "fld") or o.ty == "bytes" or o.op == "bytearray":
            v = self.value_of(o, st)
            if not (is_int_c(k) and cv(k) < 0):
                return tm.rd("u", 1, "<", v, k)
        if (o, "#") in st.heap:
            return V("item", st.heap[(o, "#")], k)
        return V("item", o, k, ty="str" if o.op == "pm" and o.args[0] in ("split", "partition", "rsplit") else None)

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            xs = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    k = self.known_seq(self.ev(x.value, st), st)
                    if k is None:
                        return V("unk", self.uid(), ty="tuple")
                    xs.extend(k)
                else:
                    xs.append(self.ev(x, st))
            return V("tuple", *xs, ty="tuple")
        return V("tuple", *[self.ev(x, st) for x in e.elts], ty="tuple")

    def e_List(self, e, st):
        t = V("list", self.uid(), ty="list")
        c = V("seq")
        for x in e.elts:
            if isinstance(x, ast.Starred):
                src = self.ev(x.value, st)
                k = self.known_seq(src, st)
                if k is not None and c.op == "seq":
                    c = V("seq", *(list(c.args) + k))
                else:
                    c = V("sext", c, src)
            else:
                v = self.ev(x, st)
                c = V("seq", *(list(c.args) + [v])) if c.op == "seq" else V("sapp", c, v)
        st.heap[(t, "#")] = c
        return t

    def e_Set(self, e, st):
        t = V("set", self.uid())
        st.heap[(t, "#")] = V("seq", *[self.ev(x, st) for x in e.elts])
        return t

    def e_Dict(self, e, st):
        t = V("dict", self.uid(), ty="dict")
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                vv = self.ev(v, st)
                st.heap[(t, "#")] = V("unk", self.uid())
                return t
            items += [self.ev(k, st), self.ev(v, st)]
        st.heap[(t, "#")] = V("map", *items)
        return t

    def e_BoolOp(self, e, st):
        vals = []
        isand = isinstance(e.op, ast.And)
        cur = st
        pc = st.pc
        for i, x in enumerate(e.values):
            v = self.ev(x, st)
            vals.append(v)
            if i < len(e.values) - 1:
                t = tm.truth(v)
                if isc(t):
                    if cv(t) != isand:
                        break
                else:
                    st.pc = st.pc + tuple(lits(t, isand))
        st.pc = pc
        if all(self.boolish(v) for v in vals):
            return (tm.and_ if isand else tm.or_)([tm.truth(v) for v in vals])
        r = vals[-1]
        for v in reversed(vals[:-1]):
            t = tm.truth(v)
            r = tm.ite(t, r, v) if isand else tm.ite(t, v, r)
        if r.op == "ite" and all(self.boolish(v) for v in vals[:-1]):
            return r
        return r

    def boolish(self, v):
        return v.ty == "bool" or v.op in ("lt0", "eq0", "eq", "isnone", "not", "and", "or", "in", "isinst", "truth", "lt", "le")

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return tm.neg(tm.truth(v))
        if isinstance(e.op, ast.USub):
            if isc(v) and isinstance(cv(v), (int, float)):
                return C(-cv(v))
            return tm.scale(v, -1)
        if isc(v) and isinstance(cv(v), int) and isinstance(e.op, ast.Invert):
            return C(~cv(v))
        return V(type(e.op).__name__.lower(), v, ty=v.ty)

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            out.append(self.compare(type(op).__name__, left, right, st))
            left = right
        return tm.and_(out) if len(out) > 1 else out[0]

    def compare(self, op, a, b, st):
        if op in ("Eq", "Is"):
            if op == "Is" and isc(b, None):
                return tm.isnone(a)
            return self.eq(a, b, st)
        if op in ("NotEq", "IsNot"):
            if op == "IsNot" and isc(b, None):
                return tm.neg(tm.isnone(a))
            return tm.neg(self.eq(a, b, st))
        if op in ("In", "NotIn"):
            ks = self.known_seq(b, st) if b.op != "c" else None
            if b.op == "glob":
                gc = getattr(self, "globcontent", {}).get(b)
                if gc and gc[0] is not None and gc[0].op in ("seq", "map"):
                    ks = list(gc[0].args) if gc[0].op == "seq" else list(gc[0].args[::2])
            if ks is not None and len(ks) <= 24:
                r = tm.or_([self.eq(a, k, st) for k in ks])
            elif isc(a) and isc(b) and isinstance(cv(a), (str, bytes)) and isinstance(cv(b), type(cv(a))):
                r = C(cv(a) in cv(b))
            else:
                r = V("in", a, self.content(b, st.heap) if b.op in ("list", "dict", "set") else b, ty="bool")
            return tm.neg(r) if op == "NotIn" else r
        intish = lambda t: t.ty in ("int",) or t.op == "lin"
        if isc(a) and isc(b):
            try:
                return C({"Lt": cv(a) < cv(b), "LtE": cv(a) <= cv(b), "Gt": cv(a) > cv(b), "GtE": cv(a) >= cv(b)}[op])
            except TypeError:
                pass
        if intish(a) or intish(b):
            if op == "Lt":
                return tm.lt0(tm.sub(a, b))
            if op == "Gt":
                return tm.lt0(tm.sub(b, a))
            if op == "LtE":
                return tm.neg(tm.lt0(tm.sub(b, a)))
            return tm.neg(tm.lt0(tm.sub(a, b)))
        if op == "Lt":
            return V("lt", a, b, ty="bool")
        if op == "Gt":
            return V("lt", b, a, ty="bool")
        if op == "LtE":
            return tm.neg(V("lt", b, a, ty="bool"))
        return tm.neg(V("lt", a, b, ty="bool"))

    def eq(self, a, b, st):
        for x, y in ((a, b), (b, a)):
            if x.op == "tuple" and y.op == "tuple" and len(x.args) == len(y.args):
                return tm.and_([self.eq(p, q, st) for p, q in zip(x.args, y.args)])
            if x.op == "uuid" and y.op == "uuid" and x.args[0] == y.args[0]:
                return self.eq(x.args[1], y.args[1], st)
            if x.op == "cls" and y.op == "cls":
                return C(x.args[0] is y.args[0])
            if x.op == "enumval" and y.op == "enumval":
                return C(x is y)
        return tm.eq(a, b)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(type(e.op).__name__, a, b, st)

    def binop(self, op, a, b, st):
        if isc(a) and isc(b) and not (op == "Mod" and isinstance(cv(a), (str, bytes))):
            x, y = cv(a), cv(b)
            try:
                if op == "Add":
                    return C(x + y)
                if op == "Sub":
                    return C(x - y)
                if op == "Mult" and not (isinstance(x, (str, bytes)) and y > 4096):
                    return C(x * y)
                if op == "FloorDiv":
                    return C(x // y)
                if op == "Mod":
                    return C(x % y)
                if op == "LShift" and y < 256:
                    return C(x << y)
                if op == "RShift":
                    return C(x >> y)
                if op == "BitAnd":
                    return C(x & y)
                if op == "BitOr":
                    return C(x | y)
                if op == "BitXor":
                    return C(x ^ y)
                if op == "Div":
                    return C(x / y)
                if op == "Pow" and abs(y) < 256:
                    return C(x ** y)
            except Exception:
                return V("unk", self.uid())
        if op == "Add":
            av, bv = a, b
            if a.op == "bytearray":
                av = self.content(a, st.heap)
            if b.op == "bytearray":
                bv = self.content(b, st.heap)
            if av.ty in ("bytes", "str") or bv.ty in ("bytes", "str") or av.op in ("cat", "slice", "fld", "fstr") or bv.op in ("cat", "slice", "fld", "fstr"):
                return tm.cat([av, bv])
            if a.op == "list" or b.op == "list" or a.ty == "list" or b.ty == "list":
                t = V("list", self.uid(), ty="list")
                ka, kb = self.known_seq(a, st), self.known_seq(b, st)
                if ka is not None and kb is not None:
                    st.heap[(t, "#")] = V("seq", *(ka + kb))
                else:
                    st.heap[(t, "#")] = V("ladd", self.content(a, st.heap), self.content(b, st.heap))
                return t
            if a.ty == "tuple" and b.ty == "tuple" and a.op == "tuple" and b.op == "tuple":
                return V("tuple", *(a.args + b.args), ty="tuple")
            if a.ty == "int" or b.ty == "int":
                return tm.add(a, b)
            return V("add", *[y for x in (a, b) for y in (x.args if x.op == "add" else (x,))])
        if op == "Sub":
            if a.op in ("set",) or b.op in ("set",):
                return V("setsub", a, b)
            return tm.sub(a, b)
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if x.ty in ("bytes", "str") and (y.ty == "int" or y.ty is None):
                    return V("rep", x, y, ty=x.ty)
                if x.op == "list":
                    k = self.known_seq(x, st)
                    t = V("list", self.uid(), ty="list")
                    if k is not None and is_int_c(y) and len(k) * max(cv(y), 0) <= 512:
                        st.heap[(t, "#")] = V("seq", *(k * cv(y)))
                    else:
                        st.heap[(t, "#")] = V("lrep", self.content(x, st.heap), y)
                    return t
            if is_int_c(a):
                return tm.scale(b, cv(a))
            if is_int_c(b):
                return tm.scale(a, cv(b))
            x, y = sorted((a, b), key=lambda t: t.id)
            return V("mul", x, y, ty="int")
        if op == "Mod":
            if a.ty == "str" or (isc(a) and isinstance(cv(a), str)):
                return V("fmt", a, b, ty="str")
            return V("mod_", a, b, ty="int")
        if op == "FloorDiv":
            return V("floordiv", a, b, ty="int")
        if op == "Div":
            if a.ty == "path" or a.op == "path":
                return V("path", a, b, ty="path")
            return V("div", a, b)
        if op in ("BitAnd", "RShift", "LShift", "BitOr", "BitXor"):
            return bitop(op, a, b)
        return V(op.lower(), a, b)

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        if isc(c):
            return self.ev(e.body if cv(c) else e.orelse, st)
        vals = []

        def arm(x):
            def f(s):
                s.env["#v"] = self.ev(x, s)
                return s
            return f
        r = self.branch(c, st, arm(e.body), arm(e.orelse))
        v = r.env.pop("#v", NONE)
        st.heap = r.heap
        return v

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_JoinedStr(self, e, st):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(C(p.value))
            else:
                v = self.ev(p.value, st)
                spec = ast.unparse(p.format_spec) if p.format_spec else ""
                if isc(v) and isinstance(cv(v), str) and not spec:
                    parts.append(v)
                else:
                    parts.append(V("fv", v, spec + ("!" + chr(p.conversion) if p.conversion > 0 else ""), ty="str"))
        return tm.cat(parts) if parts else C("")

    def e_Lambda(self, e, st):
        t = V("lambda", self.uid())
        self.lam = getattr(self, "lam", {})
        self.lam[t] = (e, st.env)
        return t

    def e_Starred(self, e, st):
        return V("star", self.ev(e.value, st))

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value else NONE
        self.event("yield", st, v, e)
        return V("unk", self.uid())

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        self.event("yield", st, v, e)
        return V("unk", self.uid())

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def e_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, "list")

    def e_SetComp(self, e, st):
        return self.comp(e, st, "set")

    def comp(self, e, st, kind):
        t = V(kind, self.uid(), ty="list" if kind == "list" else None)
        st.heap[(t, "#")] = V("seq")
        saved = dict(st.env)
        tmp = "#comp%d" % self.uid()
        st.env[tmp] = t
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(tmp, ast.Load()), "append" if kind == "list" else "add", ast.Load()),
                                  [e.elt], []))]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        for b in body:
            for n in ast.walk(b):
                if not hasattr(n, "lineno") and isinstance(n, (ast.expr, ast.stmt)):
                    ast.copy_location(n, e)
                    n.lineno, n.col_offset = e.lineno, e.col_offset
        r = self.block(body, st)
        if r is not st:
            st.heap, st.pc, st.dead = r.heap, r.pc, r.dead
            st.env.clear()
            st.env.update(saved)
        else:
            for k in list(st.env):
                if k not in saved:
                    st.env.pop(k)
        return t

    def e_DictComp(self, e, st):
        t = V("dict", self.uid(), ty="dict")
        st.heap[(t, "#")] = V("map")
        saved = dict(st.env)
        tmp = "#comp%d" % self.uid()
        st.env[tmp] = t
        body = [ast.Assign([ast.Subscript(ast.Name(tmp, ast.Load()), e.key, ast.Store())], e.value)]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, (ast.expr, ast.stmt)) and not hasattr(n, "lineno"):
                    n.lineno, n.col_offset = e.lineno, e.col_offset
        r = self.block(body, st)
        if r is not st:
            st.heap, st.pc, st.dead = r.heap, r.pc, r.dead
        st.env.clear() if r is not st else None
        if r is not st:
            st.env.update(saved)
        return t

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            fr = self.frames[-1]
            f = fr.func
            c = f.cls
            slf = st.env.get(f.params[0]) if f.params else None
            if c is not None and slf is not None:
                k = self.cls_of(slf) or c
                mro = k.mro()
                i = mro.index(c) if c in mro else 0
                return V("super", slf, c, tuple(mro[i + 1:]))
        fn = None
        recv = None
        if isinstance(e.func, ast.Attribute):
            recv = self.ev(e.func.value, st)
            fn = self.getattr(recv, e.func.attr, st, e.func)
        else:
            fn = self.ev(e.func, st)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                k = self.known_seq(v, st)
                if k is None:
                    args.append(V("star", v))
                else:
                    args.extend(k)
            else:
                args.append(self.ev(a, st))
        for k in e.keywords:
            kw[k.arg if k.arg else "**"] = self.ev(k.value, st)
        if st.dead:
            return V("unk", self.uid())
        return self.apply(fn, recv, args, kw, st, e)

    def apply(self, fn, recv, args, kw, st, node):
        if fn.op == "func":
            f = fn.args[0]
            if f.cls is not None and not f.is_static and not f.is_class:
                if args:
                    return self.invoke(f, args[0], args[1:], kw, st, node)
            return self.invoke(f, None, args, kw, st, node)
        if fn.op == "bound":
            return self.invoke(fn.args[1], fn.args[0], args, kw, st, node)
        if fn.op == "closure":
            return self.invoke(fn.args[0], None, args, kw, st, node, cenv=getattr(self, "closure_env", {}).get(fn))
        if fn.op == "cls":
            return self.construct(fn.args[0], args, kw, st, node)
        if fn.op == "lambda":
            le, env = self.lam[fn]
            names = [a.arg for a in le.args.args]
            if len(names) == len(args) and not kw:
                saved = st.env
                st.env = dict(env)
                st.env.update(zip(names, args))
                v = self.ev(le.body, st)
                st.env = saved
                return v
        if fn.op == "ite" and not kw.get("**"):
            # choose between two callables
            c, a, b = fn.args
            out = {}

            def arm(f):
                def g(s):
                    s.env["#v"] = self.apply(f, recv, args, kw, s, node)
                    return s
                return g
            r = self.branch(c, st, arm(a), arm(b))
            v = r.env.pop("#v", NONE)
            st.heap, st.pc, st.dead = r.heap, r.pc, r.dead
            return v
        if fn.op == "ext":
            t, _, m = fn.args[0].rpartition(".")
            if t in ("str", "bytes", "bytearray", "list", "dict", "set", "tuple") and args and m not in ("fromhex", "maketrans", "fromkeys") and not m.startswith("__"):
                return self.method(args[0], m, args[1:], kw, st, node)      # str.upper(x) is x.upper()
            return self.external(fn.args[0], args, kw, st, node)
        if fn.op in ("attr", "bound_", "extbound", "missing", "item", "proj") and recv is not None and isinstance(node.func, ast.Attribute):
            return self.method(recv, node.func.attr, args, kw, st, node)
        self.event("call", st, ("?", fn, tuple(args), kw), node)
        return V("call", "?", fn, *args, self.uid())

    def construct(self, c, args, kw, st, node):
        if c.is_enum:
            self.event("enumcall", st, (c, args), node)
            return V("enumof", V("cls", c), *args)
        o = V("obj", c, self.uid())
        init = c.method("__init__")
        ext = [b for b in c.external_bases() if b not in ("object", "ABC", "abc.ABC")]
        if init is not None:
            self.invoke(init, o, args, kw, st, node)
        else:
            self.event("new", st, (c, tuple(args), kw), node)
            for k, v in kw.items():
                st.heap[(o, k)] = v
            if args:
                st.heap[(o, "#args")] = V("tuple", *args)
        return o

    def invoke(self, f, recv, args, kw, st, node, cenv=None):
        names = f.params
        a = f.node.args
        bind = {}
        pos = list(args)
        if f.cls is not None and not f.is_static and recv is not None:
            pos = [recv] + pos
        elif f.cls is not None and f.is_class:
            pos = [V("cls", f.cls)] + pos
        depth = sum(1 for fr in self.frames if fr.func is f)
        gen = f.is_gen
        if (f.qual in self.opaque or not self.inline or depth >= 1 or gen or len(self.frames) >= MAXDEPTH - 1
                or any(x.op == "star" for x in pos) or "**" in kw):
            return self.opaque_call(f, recv, args, kw, st, node)
        for i, n in enumerate(names):
            if i < len(pos):
                bind[n] = pos[i]
        if len(pos) > len(names):
            if a.vararg:
                bind[a.vararg.arg] = V("tuple", *pos[len(names):], ty="tuple")
            else:
                self.event("badcall", st, (f, "too many arguments"), node)
                return V("unk", self.uid())
        elif a.vararg:
            bind[a.vararg.arg] = V("tuple", ty="tuple")
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwonly:
                bind[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            d = V("dict", self.uid(), ty="dict")
            st.heap[(d, "#")] = V("map", *[x for k, v in extra.items() for x in (C(k), v)])
            bind[a.kwarg.arg] = d
        elif extra:
            self.event("badcall", st, (f, "unexpected keyword " + ",".join(extra)), node)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defaults[x] = d
        for n in names + kwonly:
            if n not in bind:
                if n in defaults:
                    bind[n] = self.default_value(f, n, defaults[n], st)
                else:
                    self.event("badcall", st, (f, f"missing argument {n}"), node)
                    bind[n] = V("unk", self.uid())
        self.inlined.add(f.qual)
        self.stack.append(node)
        try:
            saved_env = st.env
            pcn = len(st.pc)
            fr_cenv = cenv
            val, out = self.call_frame(f, st, bind, fr_cenv)
        finally:
            self.stack.pop()
        st.heap = out.heap
        st.pc = out.pc
        st.dead = out.dead
        return val

    def call_frame(self, f, st, bind, cenv):
        fr = Frame(f, len(st.pc))
        if cenv is not None:
            fr.cenv = cenv
        pc0 = st.pc
        s2 = St(dict(bind), st.heap, st.pc)
        s2.heap = dict(st.heap)
        self.frames.append(fr)
        try:
            out = self.block(f.node.body, s2)
        finally:
            self.frames.pop()
        ents = list(fr.returns)
        if not out.dead:
            ents.append((out.pc, NONE, out.heap))
        res = St(st.env, {}, pc0)
        if not ents:
            res.dead = True
            res.heap = s2.heap
            return V("noreturn", self.uid()), res
        rel = [(tuple(pc[fr.pc0:]), v, h) for pc, v, h in ents]
        val, heap, extra = self.combine(rel)
        res.heap = heap
        res.pc = pc0 + extra
        return val, res

    def default_value(self, f, name, expr, st):
        if isinstance(expr, ast.Constant):
            return C(expr.value)
        if isinstance(expr, (ast.List, ast.Dict, ast.Set, ast.Call)):
            return V("default", f.qual, name, ty={ast.List: "list", ast.Dict: "dict"}.get(type(expr)))
        saved = self.frames
        self.frames = [Frame(ModFrame(f.mod, f.cls), 0)]
        try:
            return self.ev(expr, St())
        finally:
            self.frames = saved

    def opaque_call(self, f, recv, args, kw, st, node):
        u = self.uid()
        self.event("call", st, (f.qual, recv, tuple(args), kw), node)
        self.opaque_calls[f.qual] = self.opaque_calls.get(f.qual, 0) + 1
        import effects
        eff = effects.summary(self.p, f)
        pn = [n for n in f.params if not (f.cls is not None and not f.is_static and n == f.params[0])]
        sig = [x for x in args if isinstance(x, T)]
        sig += [kw[n] for n in pn[len(sig):] if n in kw] + [kw[k] for k in sorted(kw) if k not in pn]
        if f.name == "__init__" and recv is not None and recv.op == "obj":
            st.heap[(recv, "#args")] = V("tuple", *sig, ty="tuple")
        elif eff is None:
            for x in ([recv] if recv is not None else []) + sig:
                for k in list(st.heap):
                    if k[0] is x:
                        st.heap[k] = V("havoc", u, str(k[1]), x, ty=st.heap[k].ty)
        if eff is not None:
            names = list(f.params)
            m = {}
            pos = list(args)
            if f.cls is not None and not f.is_static:
                pos = [recv if recv is not None else NONE] + pos
            for n, a in zip(names, pos):
                m[n] = a
            m.update({k: v for k, v in kw.items()})
            for (r, q, kind) in eff.writes:
                nm = (names[0] if names else None) if r in ("self", "cls") else (r[1] if r[0] == "p" else None)
                t = m.get(nm) if nm else None
                if t is None or isc(t) or "[]" in q or (f.name == "__init__" and r == "self"):
                    continue
                path = q if kind != "attr" else q[:-1]
                for a in path:
                    t = st.heap.get((t, a)) or self.typed_attr(t, a)
                if isc(t):
                    continue
                if kind == "attr" and q:
                    cur = st.heap.get((t, q[-1])) or self.typed_attr(t, q[-1])
                    st.heap[(t, q[-1])] = V("after", f.qual, ".".join(q), *([recv] if recv is not None else []), *sig, ty=cur.ty if cur.ty != "none" else None)
                elif kind == "content":
                    st.heap[(t, "#")] = V("after", f.qual, ".".join(q) + "[]", *([recv] if recv is not None else []), *sig, self.content(t, st.heap))
                elif kind == "ior":
                    cur = st.heap.get((t, "#pos")) or V("pos0", t, ty="int")
                    st.heap[(t, "#pos")] = V("after", f.qual, "pos", *([recv] if recv is not None else []), *sig, cur, ty="int")
                elif kind == "iow":
                    out = st.heap.get((t, "#out"), C(b""))
                    st.heap[(t, "#out")] = tm.cat([out, V("outof", f.qual, *([recv] if recv is not None else []), *[x for x in sig if x is not t], ty="bytes")])
        return V("ret", f.qual, *([recv] if recv is not None else []), *sig, u)

    def method(self, o, name, args, kw, st, node):
        """Method call on a receiver whose class is not a project class."""
        if o.op == "ite" and any(self.cls_of(x) is not None or x.op in ("list", "stream") for x in o.args[1:]):
            c, a, b = o.args

            def arm(x):
                def g(s):
                    if isc(x, None):
                        s.dead = True
                        return s
                    fn = self.getattr(x, name, s, node)
                    s.env["#v"] = self.apply(fn, x, args, kw, s, node)
                    return s
                return g
            r = self.branch(c, st, arm(a), arm(b))
            v = r.env.pop("#v", NONE)
            st.heap, st.pc, st.dead = r.heap, r.pc, r.dead
            return v
        if o.op == "structobj":
            fmt = cv(o.args[0])
            if name in ("unpack", "unpack_from"):
                return tm.unpack(fmt, self.as_bytes(args[0], st), args[1] if len(args) > 1 else kw.get("offset"))
            if name == "pack":
                try:
                    r = tm.pack(fmt, args)
                except struct.error:
                    r = None
                if r is not None:
                    return r
        if is_regex(o) and len(o.args) == 2 and name in REGEX_METHODS and len(args) == REGEX_METHODS[name] and not kw:
            return self.external("re." + name, [o.args[1], *args], {}, st, node)
        if o.op in ("stream", "param", "attr", "phi", "call", "ret", "proj") and name in STREAM_METHODS and self.streamish(o, st):
            return self.stream_call(o, name, args, kw, st, node)
        if name in MUTATORS and o.op not in ("c",) and not (name in ("update", "digest") and o.op == "ext"):
            return self.mutate(o, name, args, st, node, kw)
        if isc(o):
            v = cv(o)
            if all(isc(a) for a in args) and not kw and name in PURE_METHODS and isinstance(v, (str, bytes, int)):
                try:
                    r = getattr(v, name)(*[cv(a) for a in args])
                    if isinstance(r, (str, bytes, int, bool, type(None))):
                        return C(r)
                    if isinstance(r, (list, tuple)):
                        return V("tuple", *[C(x) for x in r], ty="tuple")
                except Exception:
                    pass
        if name == "join" and o.ty in ("bytes", "str") and len(args) == 1 and isc(o) and cv(o) in (b"", ""):
            ks = self.known_seq(args[0], st)
            if ks is not None:
                return tm.cat(ks) if ks else C(cv(o))
            return V("joined", o, self.content(args[0], st.heap) if args[0].op == "list" else args[0], ty=o.ty)
        named = args[0] if args else kw.get("encoding")
        named = named is not None and isc(named) and isinstance(cv(named), str)
        if name == "encode" and o.ty in ("str", None) and len(args) <= 2 and (o.ty == "str" or named):
            enc = norm_enc(args[0]) if args else C("utf-8")
            if "encoding" in kw:
                enc = norm_enc(kw["encoding"])
            if o.op == "decoded" and o.args[1] is enc:
                return o.args[0]
            return V("encoded", o, enc, ty="bytes")
        if name == "decode" and (o.ty == "bytes" or o.op in ("slice", "item") or named):
            enc = norm_enc(args[0]) if args else C("utf-8")
            if "encoding" in kw:
                enc = norm_enc(kw["encoding"])
            b = self.value_of(o, st)
            if b.op == "encoded" and b.args[1] is enc:
                return b.args[0]
            return V("decoded", b, enc, ty="str")
        if name == "to_bytes" and args:
            n = args[0]
            end = args[1] if len(args) > 1 else kw.get("byteorder", C("big"))
            signed = kw.get("signed", FALSE)
            if is_int_c(n) and isc(end):
                return tm.fld("s" if isc(signed, True) else "u", cv(n), "<" if cv(end) == "little" else ">", o)
        if name == "tobytes" or (name == "hex" and False):
            return self.as_bytes(o, st)
        if name in ("items", "values", "keys") and not args and o.op not in ("c",):
            return V({"items": "items_", "values": "vals_", "keys": "keys_"}[name], o)
        if name == "copy" and not args:
            if o.op in ("list", "dict", "set", "bytearray"):
                t = V(o.op, self.uid(), ty=o.ty)
                st.heap[(t, "#")] = self.content(o, st.heap)
                return t
        if name == "get" and o.op in ("dict",) and args:
            c = self.content(o, st.heap)
            if c.op == "map" and isc(args[0]):
                for a, b in zip(c.args[::2], c.args[1::2]):
                    if a is args[0]:
                        return b
                return args[1] if len(args) > 1 else NONE
        if name == "get" and o.op == "glob" and args:
            gc = getattr(self, "globcontent", {}).get(o)
            if gc and gc[0] is not None and gc[0].op == "map" and isc(args[0]):
                for a, b in zip(gc[0].args[::2], gc[0].args[1::2]):
                    if a is args[0]:
                        return b
                return args[1] if len(args) > 1 else NONE
        # a uniquely named project method
        if o.op in ("elem", "param", "attr", "item", "phi", "proj", "ret", "call", "elem_") and name not in COMMON:
            f = self.unique_method(name)
            if f is not None and not f.is_prop:
                if f.is_static or f.is_class:
                    return self.invoke(f, None, args, kw, st, node)
                # while its body runs, the receiver is one of its class
                new = self.cls_of(o) is None and o not in self.guess
                if new:
                    self.guess[o] = f.cls
                try:
                    return self.invoke(f, o, args, kw, st, node)
                finally:
                    if new:
                        del self.guess[o]
        if name in PURE_METHODS and not (o.op in ("obj", "super") and name in ("start", "join")):     # those of a thread
            ov = self.value_of(o, st) if o.op not in ("list", "dict", "set") else self.content(o, st.heap)
            ty = {"strip": "str", "lstrip": "str", "rstrip": "str", "lower": "str", "upper": "str", "replace": o.ty, "format": "str",
                  "startswith": "bool", "endswith": "bool", "join": "str", "find": "int", "rfind": "int", "index": "int",
                  "count": "int", "isdigit": "bool", "split": "list", "hex": "str", "digest": "bytes", "hexdigest": "str",
                  "exists": "bool", "is_file": "bool", "is_dir": "bool", "is_absolute": "bool", "is_relative_to": "bool",
                  "search": "match", "fullmatch": "match"}.get(name)
            kws = tuple(x for k in sorted(kw) for x in (k, kw[k]))
            return V("pm", name, ov, *args, *kws, ty=ty)
        u = self.uid()
        self.event("mcall", st, (name, o, tuple(args), kw), node)
        if name not in COMMON and name in method_index(self.p):
            for x in (o, *args, *kw.values()):     # a method of this name in the project may change what it is given
                for key in list(st.heap):
                    if key[0] is x and x.op in ("list", "dict", "set", "bytearray", "stream", "obj"):
                        st.heap[key] = V("havoc", u, str(key[1]), x, ty=st.heap[key].ty)
        return V("call", "." + name, o, *args, u)

    def unique_method(self, name):
        idx = method_index(self.p)
        c = idx.get(name)
        if c and len(c) == 1:
            return c[0]
        return None

    def streamish(self, o, st):
        if o.op in ("stream",):
            return True
        if self.cls_of(o) is not None:
            return False
        return True

    def stream_call(self, o, name, args, kw, st, node):
        data = st.heap.get((o, "#data"), V("sdata", o, ty="bytes"))
        pos = st.heap.get((o, "#pos"), V("pos0", o, ty="int"))
        if name == "read":
            n = args[0] if args else NONE
            if isc(n, None) or isc(n, -1):
                v = tm.slice_(data, pos, NONE) if True else None
                st.heap[(o, "#pos")] = V("len", data, ty="int")
            else:
                end = tm.add(pos, n)
                v = tm.slice_(data, pos, end)
                st.heap[(o, "#pos")] = end
            self.event("read", st, (o, pos, n), node)
            return v
        if name == "tell":
            return pos
        if name == "seek":
            wh = args[1] if len(args) > 1 else kw.get("whence", C(0))
            if wh.op == "ext":
                wh = C({"SEEK_SET": 0, "SEEK_CUR": 1, "SEEK_END": 2}.get(wh.args[0].split(".")[-1], 0))
            if isc(wh, 1):
                np = tm.add(pos, args[0])
            elif isc(wh, 2):
                np = tm.add(V("len", data, ty="int"), args[0])
            else:
                np = args[0]
            st.heap[(o, "#pos")] = np
            self.event("seek", st, (o, np), node)
            return np
        if name == "write":
            v = self.as_bytes(args[0], st) if args else NONE
            out = st.heap.get((o, "#out"), C(b""))
            st.heap[(o, "#out")] = tm.cat([out, v]) if v.ty != "str" else V("sapp", out, v)
            self.event("write", st, (o, v, pos), node)
            st.heap[(o, "#pos")] = tm.add(pos, tm.length(v))
            return V("written", self.uid(), ty="int")
        if name == "getvalue":
            out = st.heap.get((o, "#out"))
            if out is not None and data.op == "c":
                return out
            return out if out is not None else data
        self.event("mcall", st, (name, o, tuple(args), kw), node)
        return V("call", "." + name, o, self.uid())

    def mutate(self, o, name, args, st, node, kw={}):
        self.event("mutate", st, (o, name, tuple(args)), node)
        if o.op == "glob" or o.op == "default":
            pass
        cur = self.content(o, st.heap)
        if name in ("append", "add") and len(args) == 1:
            if o.op == "bytearray":
                st.heap[(o, "#")] = tm.cat([cur, tm.fld("u", 1, "<", args[0])])
                return NONE
            if cur.op == "seq" and len(cur.args) < 200:
                st.heap[(o, "#")] = V("seq", *(list(cur.args) + [args[0]]))
            else:
                st.heap[(o, "#")] = V("sapp", cur, args[0])
            return NONE
        if name == "extend":
            self.extend(o, args[0], st)
            return NONE
        if name == "insert" and len(args) == 2:
            if cur.op == "seq" and isc(args[0], 0):
                st.heap[(o, "#")] = V("seq", args[1], *cur.args)
            else:
                st.heap[(o, "#")] = V("sins", cur, args[0], args[1])
            return NONE
        if name == "clear":
            st.heap[(o, "#")] = V("seq") if o.op != "dict" and o.ty != "dict" else V("map")
            return NONE
        if name == "pop":
            if cur.op == "seq" and cur.args and (not args or is_int_c(args[0])):
                i = cv(args[0]) if args else -1
                if -len(cur.args) <= i < len(cur.args):
                    xs = list(cur.args)
                    v = xs.pop(i)
                    st.heap[(o, "#")] = V("seq", *xs)
                    return v
            if not args and cur.op == "sapp":
                st.heap[(o, "#")] = cur.args[0]
                return cur.args[1]
            if len(args) == 1 and isc(args[0], -1):
                args = []
            st.heap[(o, "#")] = V("spop", cur, *args)
            return V("popped", cur, *args)
        if name == "update" and len(args) == 1 and (o.op in ("call", "ext") or (o.op == "pure" and o.args[0].startswith("hashlib"))):
            st.heap[(o, "#")] = V("hupd", cur, self.as_bytes(args[0], st))
            return NONE
        if name == "sort" and not args:
            st.heap[(o, "#")] = V("copyof", C("sorted"), cur, *[x for k in sorted(kw) if not (k == "reverse" and isc(kw[k], False) or k == "key" and isc(kw[k], None)) for x in (k, kw[k])])
            return NONE
        st.heap[(o, "#")] = V("mut", name, cur, *args)
        if name in ("setdefault",):
            return V("item", st.heap[(o, "#")], args[0])
        return NONE if name not in ("setdefault", "popitem") else V("unk", self.uid())

    def as_bytes(self, t, st):
        if t.op == "bytearray":
            return self.content(t, st.heap)
        if (t, "#") in st.heap and t.op not in ("list", "dict", "set"):
            return st.heap[(t, "#")]
        if t.op == "tobytes":
            return t.args[0]
        return t

    def external(self, name, args, kw, st, node):
        base = name.split(".")[-1]
        n = name
        if n in ("struct.unpack", "struct.unpack_from") and len(args) >= 2 and isc(args[0]):
            off = args[2] if len(args) > 2 else kw.get("offset")
            buf = self.as_bytes(args[1], st)
            self.event("unpack", st, (args[0], buf, off or C(0), n), node)
            try:
                return tm.unpack(cv(args[0]), buf, off)
            except struct.error:
                return V("unk", self.uid())
        if n == "struct.unpack_from" and len(args) == 1 and "buffer" in kw and isc(args[0]):
            return tm.unpack(cv(args[0]), self.as_bytes(kw["buffer"], st), kw.get("offset"))
        if n == "struct.pack" and args and isc(args[0]):
            try:
                r = tm.pack(cv(args[0]), args[1:])
            except struct.error:
                r = None
            if r is not None:
                return r
            return V("packed", *args, ty="bytes")
        if n == "struct.calcsize" and args and isc(args[0]):
            try:
                return C(struct.calcsize(cv(args[0])))
            except struct.error:
                return V("unk", self.uid())
        if n == "struct.Struct" and args and isc(args[0]):
            return V("structobj", args[0])
        if n == "len" and len(args) == 1:
            a = args[0]
            if a.op == "list" or a.op == "bytearray":
                c = self.content(a, st.heap)
                return tm.length(c)
            k = self.cls_of(a)
            if k is not None and k.method("__len__"):
                return self.invoke(k.method("__len__"), a, [], {}, st, node)
            if (a, "#") in st.heap:
                return tm.length(st.heap[(a, "#")])
            if a.op == "dict":
                c = self.content(a, st.heap)
                if c.op == "map":
                    return C(len(c.args) // 2)
                return V("len", c, ty="int")
            return tm.length(a)
        if n == "int.from_bytes" and args:
            end = args[1] if len(args) > 1 else kw.get("byteorder", C("big"))
            b = self.as_bytes(args[0], st)
            s = "s" if isc(kw.get("signed", FALSE), True) else "u"
            if b.op == "slice" and isc(end) and is_int_c(tm.sub(b.args[2], b.args[1]) if not isc(b.args[2], None) else NONE):
                w = cv(tm.sub(b.args[2], b.args[1]))
                return tm.rd(s, w, "<" if cv(end) == "little" else ">", b.args[0], b.args[1])
            return V("frombytes", b, end, ty="int")
        if n == "isinstance" and len(args) == 2:
            k = self.cls_of(args[0])
            cs = list(args[1].args) if args[1].op == "tuple" else [args[1]]
            if args[0].op in ("obj", "self") and k is not None and all(c.op == "cls" for c in cs):
                return C(any(c.args[0] in k.mro() for c in cs))
            if args[0].op in ("obj",) and all(c.op == "ext" for c in cs):
                return C(False)
            return tm.or_([V("isinst", args[0], c, ty="bool") for c in cs]) if cs else FALSE
        if n in ("int",) and len(args) == 1:
            if args[0].ty == "int":
                return args[0]
            return V("pure", n, *args, ty="int")
        if n in ("bytes",) and len(args) == 1:
            a = self.as_bytes(args[0], st)
            if a.ty == "int":
                if is_int_c(a) and 0 <= cv(a) <= 4096:
                    return C(bytes(cv(a)))
                return V("rep", C(b"\0"), a, ty="bytes")
            ks = self.known_seq(a, st) if a.op in ("list", "tuple") else None
            if ks is not None:
                return tm.cat([tm.fld("u", 1, "<", x) for x in ks]) if ks else C(b"")
            if a.op in ("list",):
                return V("bytesof", self.content(a, st.heap), ty="bytes")
            return a
        if n == "bytes" and not args:
            return C(b"")
        if n in ("memoryview",) and len(args) == 1:
            return self.as_bytes(args[0], st)
        if n == "bytearray":
            t = V("bytearray", self.uid(), ty="bytes")
            if not args:
                st.heap[(t, "#")] = C(b"")
            else:
                st.heap[(t, "#")] = self.external("bytes", args, {}, st, node)
            return t
        if n in ("list", "set", "sorted", "tuple", "dict", "frozenset") and len(args) <= 1:
            if n == "dict" and kw:
                t = V("dict", self.uid(), ty="dict")
                st.heap[(t, "#")] = V("map", *[x for k, v in kw.items() for x in (C(k), v)])
                return t
            if n == "tuple":
                if not args:
                    return V("tuple", ty="tuple")
                ks = self.known_seq(args[0], st)
                return V("tuple", *ks, ty="tuple") if ks is not None else V("pure", "tuple", self.content(args[0], st.heap) if args[0].op == "list" else args[0], ty="tuple")
            kind = {"sorted": "list", "frozenset": "set"}.get(n, n)
            t = V(kind, self.uid(), ty=kind if kind != "set" else None)
            if not args:
                st.heap[(t, "#")] = V("map") if n == "dict" else V("seq")
            else:
                ks = self.known_seq(args[0], st) if n in ("list",) else None
                if ks is not None:
                    st.heap[(t, "#")] = V("seq", *ks)
                else:
                    src = self.content(args[0], st.heap) if args[0].op in ("list", "set", "dict") else args[0]
                    if n == "dict" and src.op == "map":
                        st.heap[(t, "#")] = src
                    else:
                        st.heap[(t, "#")] = V("copyof", C(n), src, *[x for k in sorted(kw) if not (k == "reverse" and isc(kw[k], False) or k == "key" and isc(kw[k], None)) for x in (k, kw[k])])
            return t
        if n == "range":
            a = list(args)
            if len(a) == 1:
                a = [C(0), a[0], C(1)]
            elif len(a) == 2:
                a = a + [C(1)]
            return V("range", *a)
        if n == "enumerate":
            return V("enum_", args[0], args[1] if len(args) > 1 else kw.get("start", C(0)))
        if n == "zip" and not kw:
            return V("zip_", *args)
        if n == "reversed":
            ks = self.known_seq(args[0], st)
            if ks is not None:
                return V("tuple", *reversed(ks), ty="tuple")
            return V("reversed_", args[0])
        if n in ("io.BytesIO", "io.StringIO", "BytesIO", "StringIO"):
            t = V("stream", self.uid())
            d = self.as_bytes(args[0], st) if args else C(b"")
            st.heap[(t, "#data")] = d
            st.heap[(t, "#pos")] = C(0)
            return t
        if n in ("open", "io.open", "os.fdopen"):
            t = V("stream", self.uid())
            self.event("open", st, (t, tuple(args), kw), node)
            return t
        if n in ("uuid.UUID", "UUID"):
            for k in ("bytes_le", "bytes", "hex", "int", "fields"):
                if k in kw:
                    v = kw[k]
                    if k in ("bytes_le", "bytes"):
                        v = self.as_bytes(v, st)
                        if v.op == "uuidbytes" and v.args[0] == k:
                            return v.args[1]
                    return V("uuid", k, v, ty="uuid")
            if len(args) >= 3:
                return V("uuid", "bytes_le" if isc(args[2], None) is False and not isc(args[2]) else "bytes", args[2], ty="uuid")
            if args:
                a = args[0]
                if isc(a) and isinstance(cv(a), str):
                    import uuid as _u
                    try:
                        return V("uuid", "bytes_le", C(_u.UUID(cv(a)).bytes_le), ty="uuid")
                    except ValueError:
                        pass
                return V("uuid", "hex", a, ty="uuid")
        if n == "copy.deepcopy" or n == "copy.copy":
            a = args[0]
            if a.op in ("list", "dict", "set", "bytearray"):
                t = V(a.op, self.uid(), ty=a.ty)
                st.heap[(t, "#")] = self.content(a, st.heap)
                return t
            return V("pure", n, a)
        if n == "getattr" and len(args) >= 2 and isc(args[1]):
            return self.getattr(args[0], cv(args[1]), st, node)
        if n == "setattr" and len(args) == 3 and isc(args[1]):
            self.setattr(args[0], cv(args[1]), args[2], st, node)
            return NONE
        if n == "hasattr" and len(args) == 2:
            return V("hasattr", *args, ty="bool")
        if n == "type" and len(args) == 1:
            k = self.cls_of(args[0])
            if k is not None:
                return V("cls", k)
            return V("typeof", args[0])
        if n in ("str", "repr", "hash") and len(args) == 1:
            a = args[0]
            k = self.cls_of(a)
            if k is not None:
                for mn in (("__str__", "__repr__") if n == "str" else ("__%s__" % n,)):
                    m = k.method(mn)
                    if m is not None:
                        return self.invoke(m, a, [], {}, st, node)
            if n == "str" and a.ty == "str" and a.op != "ite":
                return a
            if n == "str" and isc(a) and isinstance(cv(a), (int, str)):
                return C(str(cv(a)))
            return V("pure", n, a, ty="str" if n != "hash" else "int")
        if n in ("sum", "min", "max", "any", "all", "map", "filter"):
            args = [self.content(a, st.heap) if a.op == "list" else a for a in args]
            if n == "sum" and len(args) == 1 and args[0].op == "seq":
                r = C(0)
                for x in args[0].args:
                    r = tm.add(r, x)
                return r
            if n in ("any", "all") and len(args) == 1 and args[0].op == "seq":
                return (tm.or_ if n == "any" else tm.and_)([tm.truth(x) for x in args[0].args])
            return V("pure", n, *args, *[x for k in sorted(kw) for x in (k, kw[k])], ty="int" if n in ("sum", "min", "max") and n == "sum" else ("bool" if n in ("any", "all") else None))
        if n == "next" and args and args[0].op == "list":
            c = self.content(args[0], st.heap)
            r = first_of(c, args[1] if len(args) > 1 else None)
            if r is not None:
                return r
            return V("pure", "next", c, *args[1:])
        if n in ("bool",) and len(args) == 1:
            return tm.truth(args[0])
        if n in ("chr", "ord", "hex", "oct", "bin", "abs", "round"):
            if len(args) == 1 and isc(args[0]):
                try:
                    return C(getattr(__import__("builtins"), n)(cv(args[0])))
                except Exception:
                    pass
            return V("pure", n, *args, ty={"ord": "int", "abs": "int"}.get(n, "str"))
        if n == "print":
            self.event("print", st, (tuple(args), kw), node)
            if "file" in kw:
                self.event("write", st, (kw["file"], V("printed", *args), NONE), node)
            return NONE
        if n in ("object.__new__",):
            return V("unk", self.uid())
        if is_exc_name(n):
            return V("exc", n, *args)
        if n in ("sys.exit", "exit", "quit", "os._exit"):
            self.raise_(st, V("exc", "SystemExit", *args), node)
            st.dead = True
            return NONE
        if n in PURE_FUNCS or n.startswith(("os.path.", "re.", "math.", "string.")):
            ty = {"os.path.join": "str", "os.path.isfile": "bool", "os.path.isdir": "bool", "os.path.exists": "bool",
                  "re.match": "match", "re.search": "match", "re.fullmatch": "match"}.get(n)
            args = [self.as_bytes(a, st) for a in args]
            kws = tuple(x for k in sorted(kw) for x in (k, kw[k]))
            t = V("pure", n, *args, *kws, ty=ty)
            if n.startswith("hashlib") or n == "copy.deepcopy":
                t = V("pure", n, *args, *kws, self.uid())
                if args:
                    st.heap[(t, "#")] = V("hupd", V("hinit", n), args[-1] if n != "hashlib.new" else args[0])
            return t
        self.event("call", st, (n, None, tuple(args), kw), node)
        return V("call", n, *args, *[x for k in sorted(kw) for x in (k, kw[k])], self.uid())


REGEX_METHODS = {"match": 1, "search": 1, "fullmatch": 1, "findall": 1, "finditer": 1, "split": 1, "sub": 2}


def is_regex(v):
    return v.op == "pure" and v.args[0] == "re.compile" and len(v.args) > 1 and all(isc(a) or isinstance(a, str) for a in v.args[1:])


def first_of(c, default, depth=0):
    """the first element of a sequence term, or default (None where it cannot be told)"""
    if depth > 24:
        return None
    if c.op == "seq":
        return c.args[0] if c.args else default
    if c.op == "ite":
        a, b = first_of(c.args[1], default, depth + 1), first_of(c.args[2], default, depth + 1)
        return None if a is None or b is None else tm.ite(c.args[0], a, b)
    if c.op == "sapp":
        return first_of(c.args[0], c.args[1], depth + 1)
    return None


COMMON = set("""append extend insert remove pop clear sort reverse update add discard setdefault popitem get keys values items copy
 read write seek tell getvalue flush close readline readlines strip split join format encode decode lower upper startswith endswith
 replace find index count parse print Print run start wait group match search exists is_file commit rollback query filter all one
 first execute debug info warning error critical exception log emit acquire release terminate communicate poll name""".split())


class ModFrame:
    """Pseudo function for evaluating module- and class-level expressions."""

    def __init__(self, mod, cls=None):
        self.mod, self.cls, self.parent, self.nested = mod, cls, None, {}
        self.qual = mod.short + ":<module>"
        self.params = []
        self.node = mod.tree

    def where(self, node=None):
        return f"{self.mod.rel}:{getattr(node, 'lineno', 1)}"


class ClassEnv(dict):
    def __init__(self, ev, cls):
        super().__init__()
        self.evr, self.cls = ev, cls

    def __contains__(self, k):
        return dict.__contains__(self, k) or k in self.cls.attrs or k in self.cls.classes or k in self.cls.methods

    def __getitem__(self, k):
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        if k in self.cls.attrs:
            return self.evr.class_value(self.cls, k, None)
        if k in self.cls.classes:
            return V("cls", self.cls.classes[k])
        return V("func", self.cls.methods[k])


class ClassSt(St):
    def __init__(self, ev, cls):
        super().__init__()
        self.env = ClassEnv(ev, cls)


def norm_enc(t):
    if isc(t) and isinstance(cv(t), str):
        s = cv(t).lower().replace("_", "-")
        s = {"utf8": "utf-8", "utf16": "utf-16", "utf-16le": "utf-16-le", "utf16le": "utf-16-le", "latin-1": "latin1"}.get(s, s)
        return C(s)
    return t


def is_exc_name(n):
    b = getattr(__import__("builtins"), n, None)
    return isinstance(b, type) and issubclass(b, BaseException)


def exc_name(t):
    if t.op == "exc":
        return t.args[0]
    if t.op == "ext":
        return t.args[0].split(".")[-1]
    if t.op == "obj":
        return t.args[0].name
    if t.op == "cls":
        return t.args[0].name
    return "?"


def mask_width(m):
    """contiguous low mask -> width, else None"""
    if m > 0 and (m & (m + 1)) == 0:
        return m.bit_length()
    return None


def bitop(op, a, b):
    if op == "BitAnd":
        if is_int_c(a) and not is_int_c(b):
            a, b = b, a
        if is_int_c(b):
            m = cv(b)
            w = mask_width(m)
            if w is not None:
                if a.op == "shr" and is_int_c(a.args[1]):
                    return V("bits", a.args[0], cv(a.args[1]), w, ty="int")
                if a.op == "bits":
                    return V("bits", a.args[0], a.args[1], min(w, a.args[2]), ty="int")
                if a.op == "rd" and a.args[0] == "u" and w >= 8 * a.args[1]:
                    return a
                return V("bits", a, 0, w, ty="int")
            return V("band", a, m, ty="int")
        x, y = sorted((a, b), key=lambda t: t.id)
        return V("and2", x, y, ty="int")
    if op == "RShift" and is_int_c(b):
        n = cv(b)
        if n == 0:
            return a
        if a.op == "band":
            m = a.args[1] >> n
            w = mask_width(m)
            if w is not None:
                return V("bits", a.args[0], n, w, ty="int")
        if a.op == "bits":
            if a.args[2] - n > 0:
                return V("bits", a.args[0], a.args[1] + n, a.args[2] - n, ty="int")
            return C(0)
        if a.op == "shr":
            return V("shr", a.args[0], C(cv(a.args[1]) + n), ty="int")
        if a.op == "rd" and a.args[0] == "u":
            return V("bits", a, n, 8 * a.args[1] - n, ty="int") if 8 * a.args[1] > n else C(0)
        return V("shr", a, b, ty="int")
    if op == "LShift":
        if is_int_c(b):
            return tm.scale(a, 1 << cv(b)) if a.ty == "int" else V("shl", a, b, ty="int")
        return V("shl", a, b, ty="int")
    if op in ("BitOr", "BitXor"):
        xs = [y for x in (a, b) for y in (x.args if x.op == op.lower() else (x,))]
        k = 0
        rest = []
        for x in xs:
            if is_int_c(x):
                k = (k | cv(x)) if op == "BitOr" else (k ^ cv(x))
            else:
                rest.append(x)
        if k:
            rest.append(C(k))
        rest = sorted(rest, key=lambda t: t.id)
        if not rest:
            return C(0)
        if len(rest) == 1:
            return rest[0]
        return V(op.lower(), *rest, ty="int")
    return V({"RShift": "shr"}.get(op, op.lower()), a, b, ty="int")


def method_index(p):
    if "_mi" not in p.__dict__:
        idx = {}
        for c in p.iter_classes():
            for n, f in c.methods.items():
                idx.setdefault(n, []).append(f)
        p._mi = idx
    return p._mi


def ctor_arg_classes(p, f, name):
    """Project classes the constructor parameter receives at its call sites."""
    idx = p.__dict__.get("_ctor_calls")
    if idx is None:
        idx = p.__dict__["_ctor_calls"] = {}
        for g in p.iter_funcs():
            for n in ast.walk(g.node):
                if isinstance(n, ast.Call):
                    c = p.resolve_expr(n.func, g.mod, g.cls)
                    if c is None and isinstance(n.func, ast.Name) and n.func.id == "cls" and g.cls is not None:
                        c = g.cls
                    if isinstance(c, Class):
                        idx.setdefault(c.qual, []).append((n, g))
    out = set()
    if f.cls is None or name not in f.params:
        return out
    i = f.params.index(name) - 1
    for n, g in idx.get(f.cls.qual, []):
        a = next((x.value for x in n.keywords if x.arg == name), n.args[i] if 0 <= i < len(n.args) else None)
        if a is not None and not isinstance(a, ast.Starred):
            out |= expr_classes(p, a, g, g.cls)
    return out


def expr_classes(p, e, f, cls, depth=0):
    """Project classes an expression may be an instance of, through local assignments, annotations and return annotations."""
    out = set()
    if depth > 4:
        return out
    if isinstance(e, ast.IfExp):
        return expr_classes(p, e.body, f, cls, depth + 1) | expr_classes(p, e.orelse, f, cls, depth + 1)
    if isinstance(e, ast.NamedExpr):
        return expr_classes(p, e.value, f, cls, depth + 1)
    if isinstance(e, ast.Call):
        c = p.resolve_expr(e.func, f.mod, f.cls)
        if c is None and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ("self", "cls") and cls is not None:
            c = cls.nested_class(e.func.attr) or cls.method(e.func.attr)
        if isinstance(c, Class):
            out.add(c)
        elif c is not None and hasattr(c, "node") and isinstance(c.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if c.node.returns is not None:
                k = p.resolve_expr(c.node.returns, c.mod, c.cls)
                if isinstance(k, Class):
                    out.add(k)
            if not out:
                for n in ast.walk(c.node):
                    if isinstance(n, ast.Return) and n.value is not None:
                        out |= expr_classes(p, n.value, c, c.cls, depth + 1)
        return out
    if isinstance(e, ast.Name):
        a = f.node.args
        for pa in a.posonlyargs + a.args + a.kwonlyargs:
            if pa.arg == e.id and pa.annotation is not None:
                c = p.resolve_expr(pa.annotation, f.mod, f.cls)
                if isinstance(c, Class):
                    out.add(c)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets) or \
                    isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and n.value is not None and isinstance(n.target, ast.Name) and n.target.id == e.id:
                if not (isinstance(n.value, ast.Name) and n.value.id == e.id):
                    out |= expr_classes(p, n.value, f, cls, depth + 1)
    return out


def attr_info(p, cls):
    """attr -> {'cls': classes assigned, 'elem': classes appended, 'ty': literal kinds, 'sites': n} over the class's MRO."""
    _ai = p.__dict__.setdefault("_ai", {})
    key = cls.qual
    if key in _ai:
        return _ai[key]
    info = {}
    _ai[key] = info

    def rec(name):
        return info.setdefault(name, {"cls": set(), "elem": set(), "ty": set(), "sites": [], "inits": set()})

    def val(e, f, r, elem=False):
        if isinstance(e, ast.Call):
            c = p.resolve_expr(e.func, f.mod, f.cls)
            if c is None and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ("self", "cls"):
                c = cls.nested_class(e.func.attr)
                m = cls.method(e.func.attr)
                if c is None and m is not None:
                    cs = expr_classes(p, e, f, cls)
                    if not elem:
                        if cs:
                            r["cls"] |= cs
                        else:
                            r["ty"].add("?")
                    else:
                        r["elem"] |= cs
                    return
            if isinstance(c, Class):
                r["elem" if elem else "cls"].add(c)
                return
            nm = ast.unparse(e.func)
            if not elem:
                if nm == "list":
                    r["ty"].add("list")
                elif nm == "dict":
                    r["ty"].add("dict")
                elif nm == "len" or nm == "int":
                    r["ty"].add("int")
                elif nm in ("bytes", "bytearray", "struct.pack"):
                    r["ty"].add("bytes")
                elif nm in ("str",):
                    r["ty"].add("str")
                else:
                    r["ty"].add("?")
            return
        if elem:
            r["elem"] |= expr_classes(p, e, f, cls)
            return
        if isinstance(e, ast.Constant):
            if e.value is None:
                r["none"] = True
            else:
                r["ty"].add({int: "int", str: "str", bytes: "bytes", bool: "bool"}.get(type(e.value), "?"))
            return
        if isinstance(e, (ast.List, ast.ListComp)):
            r["ty"].add("list")
            return
        if isinstance(e, (ast.Dict, ast.DictComp)):
            r["ty"].add("dict")
            return
        if isinstance(e, ast.Name):
            a = f.node.args
            for pa in a.args + a.kwonlyargs:
                if pa.arg == e.id and pa.annotation is not None:
                    c = p.resolve_expr(pa.annotation, f.mod, f.cls)
                    if isinstance(c, Class):
                        r["cls"].add(c)
                        return
                    nm = ast.unparse(pa.annotation)
                    cs = ctor_arg_classes(p, f, e.id) if f.name == "__init__" else set()
                    if cs:
                        r["cls"] |= cs
                        return
                    if nm in ("int", "str", "bytes", "bool"):
                        r["ty"].add(nm)
                        return
            cs = expr_classes(p, e, f, cls) or (ctor_arg_classes(p, f, e.id) if f.name == "__init__" else set())
            if cs:
                r["cls"] |= cs
                return
            if any(isinstance(h, ast.ExceptHandler) and h.name == e.id for h in ast.walk(f.node)):
                r["exc"] = True
                return
        r["ty"].add("?")

    for k in cls.mro():
        for f in k.all_funcs():
            if not f.params or f.is_static:
                continue
            slf = f.params[0]
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in tg:
                        for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == slf:
                                r = rec(x.attr)
                                r["sites"].append((f, n))
                                if x is t and n.value is not None and not isinstance(n, ast.AugAssign):
                                    val(n.value, f, r)
                                elif x is not t:
                                    r["ty"].add("?")
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "insert", "add") and n.args:
                    b = n.func.value
                    if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == slf:
                        val(n.args[-1], f, rec(b.attr), True)
                elif isinstance(n, (ast.For, ast.withitem)):
                    t = n.target if isinstance(n, ast.For) else n.optional_vars
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == slf:
                        rec(t.attr)["ty"].add("?")
    confirmed(p, cls, info)
    return info


def object_attrs(p):
    """names of attributes that hold None or an object that is always true (a library object or an exception)"""
    good, bad = set(), set()
    for c in p.iter_classes():
        for a, r in attr_info(p, c).items():
            plain = all(all(b in (None, 'object') or getattr(b, 'id', '') == 'object' for b in k.external_bases()) and k.method("__bool__") is None and k.method("__len__") is None for k in r["cls"])
            (good if (r["cls"] or r.get("exc")) and not r["ty"] and not r["elem"] and plain else bad).add(a)
        bad |= set(getattr(c, "attrs", {}) or {}) | set(c.methods)
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                bad.add(n.attr)
    return sorted(good - bad)


def attr_types(p):
    """the table spec/attrtypes.json is written from"""
    out = {}
    for c in p.iter_classes():
        t = {}
        for a, r in attr_info(p, c).items():
            if "?" not in r["ty"] and (r["cls"] or r["ty"] or r["elem"]):
                t[a] = [sorted(x.qual for x in r["cls"]), sorted(r["ty"]), sorted(x.qual for x in r["elem"])]
        if t:
            out[c.qual] = t
    return out


def confirmed(p, cls, info):
    """Where the current text no longer shows what an attribute holds, but nothing contradicts what it held when the contracts were
    confirmed, the confirmed type stands."""
    t = p.__dict__.get("_attrtypes")
    if t is None:
        fn = os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec", "attrtypes.json")
        t = {}
        if os.path.exists(fn):
            with open(fn, encoding="utf-8") as f:
                t = json.load(f)
        p.__dict__["_attrtypes"] = t
    for a, (cs, ty, el) in t.get(cls.qual, {}).items():
        r = info.get(a)
        if r is None:
            continue
        if "?" in r["ty"] and {x.qual for x in r["cls"]} <= set(cs) and r["ty"] - {"?"} <= set(ty):
            k = {p.cls(x) for x in cs}
            if None not in k:
                r["cls"], r["ty"] = k, set(ty)
        if el and not r["elem"]:
            r["elem"] = {p.cls(x) for x in el} - {None}
