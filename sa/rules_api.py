"""G03 (deprecated entry points forward to their replacements) and G01 (equality, hashing and ordering agree)."""
import ast
import json
import os

import compare
import conform
import effects
import project
import rules_names
import summ
import vf
import terms
from project import Class, Func, own_nodes

HERE = os.path.dirname(os.path.abspath(__file__))


def spec():
    return json.load(open(os.path.join(HERE, "spec", "deprecated.json"), encoding="utf-8"))


def warns(p, f, seen=()):
    """None: no DeprecationWarning; 'some': on some paths; 'all': on every path that gets anywhere"""
    best = None
    for s in f.node.body:
        top = isinstance(s, (ast.Expr, ast.Assign, ast.Return, ast.AnnAssign, ast.With, ast.Try))
        for c in ast.walk(s):
            if not isinstance(c, ast.Call):
                continue
            r = p.resolve_expr(c.func, f.mod, f.cls)
            if r == "warnings.warn" or ast.unparse(c.func) in ("warn", "warnings.warn"):
                args = [ast.unparse(a) for a in c.args[1:2]] + [ast.unparse(k.value) for k in c.keywords if k.arg == "category"]
                msg = ast.unparse(c.args[0]) if c.args else ""
                if any(a.split(".")[-1] == "DeprecationWarning" for a in args) or msg.startswith("DeprecationWarning("):
                    if top:
                        return "all"
                    best = "some"
            else:
                if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and f.cls is not None and f.params and c.func.value.id in (f.params[0], f.cls.node.name):
                    r = f.cls.method(c.func.attr)
                if isinstance(r, Func) and r is not f and r not in seen and len(seen) < 3 and warns(p, r, seen + (f,)) and name_not_public(r):
                    if top:
                        return "all"
                    best = "some"
    for d in f.node.decorator_list:
        if "deprecat" in ast.unparse(d).lower():
            return "all"
    return best


def name_not_public(r):
    return r.name.startswith("_") or "warn" in r.name.lower() or "deprecat" in r.name.lower()


def params(f):
    ps = list(f.params)
    if f.cls is not None and not f.is_static and ps:
        ps = ps[1:]
    return ps


def defaults(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    out = {x.arg: d for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults)}
    out.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    return out


def bind(args, ps):
    """fx arguments -> {parameter of the callee: node}, or None when a star argument hides the binding"""
    out, i = {}, 0
    for x in args:
        if x.op == "kw":
            if x.args[0] == "**" or x.args[0] in ("*",):
                return None
            out[x.args[0]] = x.args[1]
        elif x.op in ("star", "starred"):
            return None
        else:
            if i < len(ps):
                out[ps[i]] = x
            i += 1
    return out


def target(p, f, to):
    kind, _, nm = to.partition(":")
    if kind == "method":
        return f.cls.method(nm) if f.cls else None
    if kind == "func":
        return p.func(nm) if ":" in nm else p.func(f.mod.short + ":" + nm)
    if kind == "super":
        for b in f.cls.mro()[1:]:
            if nm in b.methods:
                return b.methods[nm]
    return None


def rule_g03(chk, p, tier):
    dep = spec()
    sp = conform.load_spec()
    live = set()
    for q, to in sorted(dep.items()):
        f = p.func(q)
        if f is None:
            chk.undec(q, "the deprecated entry point is gone")
            continue
        live.add(f)
        chk.ok("deprecated entry points")
        w = warns(p, f)
        if w is None:
            chk.violation("silent", q, "the deprecated entry point does not tell its caller with a DeprecationWarning", f.where())
        else:
            chk.ok("deprecation warnings")
        if not to:
            continue
        kind, _, nm = to.partition(":")
        if kind == "attr":
            attr_alias(chk, p, sp, f, nm)
        else:
            forward(chk, p, sp, f, target(p, f, to), to)
    uses(chk, p, live)
    chk.need("deprecated entry points", 60)
    chk.need("forwarded arguments", 25)


def facts_of(p, sp, f, opaque):
    try:
        terms.reset()
        ev = vf.Evaluator(p, opaque=(set(sp["modular"]) | opaque) - {f.qual}, max_steps=conform.MAXSTEPS)
        return summ.summarize(ev.run(f, fresh=f.name == "__init__")), ""
    except vf.GiveUp as e:
        return None, str(e)
    except RecursionError:
        return None, "too deep"


def attr_alias(chk, p, sp, f, nm):
    facts, why = facts_of(p, sp, f, set())
    if facts is None:
        return chk.undec(f.qual, why)
    slf = summ.n("self")
    if f.is_setter:
        got, want = facts.get("set:self." + nm), summ.n("p", params(f)[0] if params(f) else "")
        others = [k for k in facts if k.startswith("set:") and k != "set:self." + nm]
        if got is None and others:
            return chk.violation("wrong-alias", f.qual, f"the setter stores into {others[0][4:]} instead of {nm}", f.where())
        if got is None:
            return chk.violation("wrong-alias", f.qual, f"the setter does not store the value in {nm}", f.where())
    else:
        got, want = facts.get("ret"), summ.n("attr", slf, nm)
        if f.cls is not None and (f.cls.method(nm) is not None):
            return chk.undec(f.qual, "the replacement is itself computed")
    if got is want:
        return chk.ok("alias properties")
    if got is not None and not compare.has_unknown(got):
        other = got.op in ("c", "p") or got.op == "attr" and got.args[0] is slf
        (chk.violation("wrong-alias", f.qual, f"the alias of {nm} gives {compare.short(got, 120)}", f.where()) if other
         else chk.undec(f.qual, f"{compare.short(got, 120)} is not plainly {nm}"))
    else:
        chk.undec(f.qual, "the value is not modelled")


def forward(chk, p, sp, f, r, to):
    if r is None:
        return chk.undec(f.qual, f"the replacement {to} is gone")
    facts, why = facts_of(p, sp, f, {r.qual})
    if facts is None:
        return chk.undec(f.qual, why)
    calls = [x for k, x in facts.items() if k.startswith("fx") and x is not None and str(x.args[0]) == r.qual]
    opaque_ret = facts.get("ret")
    if not calls:
        direct = [n for n in own_nodes(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == r.name]
        if direct or any(x is None for x in facts.values()) or any(k.startswith("fx") for k in facts):
            return chk.undec(f.qual, "the call of the replacement is not modelled")
        return chk.violation("not-forwarded", f.qual, f"the deprecated entry point never reaches its replacement {r.name}", f.where())
    if len(calls) > 1:
        return several(chk, f, r, calls)
    x = calls[0]
    if x.args[1] is not summ.TRUE:
        others = compare.short(x.args[1], 120)
        if compare.has_unknown(x.args[1]):
            return chk.undec(f.qual, "the condition of the forwarding call is not modelled")
        return chk.violation("not-forwarded", f.qual, f"the replacement {r.name} is only reached when {others}", f.where())
    args = list(x.args[2:])
    rps = params(r)
    if r.cls is not None and not r.is_static and args and (args[0].op in ("self", "cls")):
        args = args[1:]
    b = bind(args, rps)
    if b is None:
        return chk.undec(f.qual, "star arguments")
    dps = params(f)
    for i, q in enumerate(dps):
        want = q if q in rps else (rps[i] if i < len(rps) and rps[i] not in dps else None)
        if want is None:
            continue               # an option of the old entry point only: decided by its contract
        pn = summ.n("p", q)
        got = b.get(want)
        if got is pn:
            chk.ok("forwarded arguments")
        elif got is None:
            chk.violation("dropped-argument", f"{f.qual}#{q}", f"{q} is not passed on to {r.name}", f.where())
        elif not compare.has_unknown(got) and (got.op in ("c", "p") or not mentions_p(got, q)):
            chk.violation("wrong-argument", f"{f.qual}#{q}", f"{r.name} gets {compare.short(got, 100)} for {want} instead of the caller's {q}", f.where())
        else:
            chk.undec(f"{f.qual}#{q}", f"passed as {compare.short(got, 100)}")
        df, dr = defaults(f).get(q), defaults(r).get(want)
        if got is pn and (df is None) != (dr is None) and dr is not None and df is None:
            pass                   # the old entry point demands the argument
        elif got is pn and df is not None and dr is not None and ast.unparse(df) != ast.unparse(dr):
            chk.violation("different-default", f"{f.qual}#{q}", f"the default of {q} is {ast.unparse(df)} here and {ast.unparse(dr)} in {r.name}", f.where())
    for q in rps:
        if q in b and q not in dps and b[q].op == "c" and q in defaults(r):
            d = defaults(r)[q]
            if isinstance(d, ast.Constant) and summ.k(d.value) is not b[q]:
                chk.violation("wrong-argument", f"{f.qual}#{q}", f"{q} is fixed to {compare.short(b[q], 60)}, which is not the default of {r.name}", f.where())
    result(chk, p, sp, f, r, opaque_ret)


def several(chk, f, r, calls):
    """Different calls in different cases: each passes on what its own case does not settle"""
    rps, dps = params(r), params(f)
    for x in calls:
        args = list(x.args[2:])
        if r.cls is not None and not r.is_static and args and args[0].op in ("self", "cls"):
            args = args[1:]
        b = bind(args, rps)
        if b is None or compare.has_unknown(x.args[1]):
            chk.undec(f.qual, "star arguments, or a condition that is not modelled")
            continue
        for i, q in enumerate(dps):
            want = q if q in rps else (rps[i] if i < len(rps) and rps[i] not in dps else None)
            if want is None or mentions_p(x.args[1], q):
                continue
            got, when = b.get(want), compare.short(x.args[1], 80)
            if got is summ.n("p", q):
                chk.ok("forwarded arguments")
            elif got is None:
                chk.violation("dropped-argument", f"{f.qual}#{q}", f"{q} is not passed on to {r.name} when {when}", f.where())
            elif not compare.has_unknown(got) and (got.op in ("c", "p") or not mentions_p(got, q)):
                chk.violation("wrong-argument", f"{f.qual}#{q}", f"{r.name} gets {compare.short(got, 100)} for {want} when {when} instead of the caller's {q}", f.where())


def mentions_p(x, q):
    st, seen = [x], set()
    pn = summ.n("p", q)
    while st:
        y = st.pop()
        if y is pn:
            return True
        if y.id in seen:
            continue
        seen.add(y.id)
        st += [a for a in y.args if isinstance(a, summ.N)]
    return False


def result(chk, p, sp, f, r, got):
    rf, why = conform.summary_of(p, r, sp["modular"])
    if rf is None or rf.get("ret") is None or got is None:
        return chk.undec(f.qual, "result not modelled")
    if got is summ.NONE:
        if rf["ret"] is summ.NONE:
            return chk.ok("results passed on")
        if compare.has_unknown(rf["ret"]):
            return chk.undec(f.qual, "the replacement's result is not modelled")
        if f.qual in NORESULT:
            return chk.ok("results passed on")
        return chk.violation("dropped-result", f.qual, f"{r.name} returns {compare.short(rf['ret'], 80)}, which is not passed on", f.where())
    st, seen = [got], set()
    while st:
        y = st.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        if y.op in ("call", "fcall") or any(isinstance(a, str) and a == r.qual for a in y.args):
            if any(str(a) == r.qual for a in y.args):
                return chk.ok("results passed on") if y is got else chk.undec(f.qual, "the result is processed further")
        st += [a for a in y.args if isinstance(a, summ.N)]
    if rf["ret"] is got or rf["ret"] is summ.NONE and got is summ.NONE:
        return chk.ok("results passed on")
    if compare.has_unknown(got):
        return chk.undec(f.qual, "result not modelled")
    if got.op == "c":
        return chk.violation("dropped-result", f.qual, f"returns {compare.short(got, 60)} instead of the result of {r.name}", f.where())
    return chk.undec(f.qual, f"returns {compare.short(got, 100)}")


NORESULT = set()


def visible(f, g):
    """the class of g is defined in, or imported into, the module of f"""
    if g.mod is f.mod:
        return True
    return any(str(v).startswith("edk2toollib." + g.mod.short) or str(v).startswith(g.mod.short) for v in f.mod.imports.values())


def uses(chk, p, live):
    a = effects.analysis(p)
    ty = rules_names.Types(p)
    names = {f.name for f in live}
    every = {}
    for f in p.iter_funcs():
        every.setdefault(f.name, []).append(f)
    attrs = {t for c in p.iter_classes() for t in vf.attr_info(p, c)}
    only = {n for n in names if all(g in live for g in every.get(n, [])) and n not in attrs and n != "__init__"}
    for f in p.iter_funcs():
        if f in live or f.parent is not None and f.parent in live:
            continue
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                hit = None
                if nm in names:
                    chk.ok("calls by a deprecated name")
                tg = rules_names.callee(p, ty, n, f)
                if isinstance(tg, list):
                    hit = next((g for g, _ in tg if g in live), None)
                if hit is None and not tg and nm in names and isinstance(n.func, ast.Attribute) and nm != "__init__":
                    near = [g for g in every[nm] if g.cls is not None and visible(f, g)]
                    if nm in only or near and all(g in live for g in near) and nm not in attrs:
                        hit = (near or every[nm])[0]
                if hit is not None:
                    chk.violation("uses-deprecated", f"{f.qual}#{nm}", f"calls the deprecated {hit.qual}", f.where(n))
            elif isinstance(n, ast.Attribute) and n.attr in names and not isinstance(n.ctx, ast.Del):
                t = ty.typ(n.value, f)
                g = None
                t = t[1] if isinstance(t, tuple) and len(t) > 1 and isinstance(t[1], Class) else t
                if isinstance(t, Class):
                    g = t.method(n.attr) if isinstance(n.ctx, ast.Load) else t.setter(n.attr)
                    g = g if isinstance(g, Func) and (g.is_prop or g.is_setter) else None
                elif t is None and n.attr in only and any(x.is_prop for x in every[n.attr]):
                    g = every[n.attr][0]
                if g in live:
                    chk.violation("uses-deprecated", f"{f.qual}#{n.attr}", f"uses the deprecated property {g.qual}", f.where(n))
        chk.ok("functions searched for uses")


# ---------------------------------------------------------------- G01
ORD = ("__lt__", "__le__", "__gt__", "__ge__")


def rule_g01(chk, p, tier):
    sp = conform.load_spec()
    hashable = {q.rsplit(".", 1)[0] for q in sp["funcs"] if q.endswith(".__hash__")}
    for c in p.iter_classes():
        eq, hs = c.methods.get("__eq__"), c.methods.get("__hash__")
        if eq is not None:
            chk.ok("equality definitions")
            foreign(chk, p, c, eq)
            one_eq(chk, p, sp, c, eq)
            if hs is None and "__hash__" not in c.attrs:
                base = next((b for b in c.mro()[1:] if isinstance(b, Class) and "__hash__" in b.methods), None)
                q = c.mod.short + ":" + getattr(c, "path", c.node.name)
                if base is not None or q in hashable:
                    chk.violation("lost-hash", eq.qual, f"{c.node.name} defines __eq__ without __hash__, so it can no longer be kept in the sets and dictionaries that hold it", eq.where())
        if eq is not None and c.methods.get("__ne__") is not None:
            a, b = facts_of(p, sp, eq, set())[0], facts_of(p, sp, c.methods["__ne__"], set())[0]
            if a and b and a.get("ret") is not None and b.get("ret") is not None:
                x, y = compare.refold(compare.mk("not", [a["ret"]])), compare.refold(b["ret"])
                v, why = compare.Cmp(None).run(x, y, None)
                if v == "diff":
                    chk.violation("ne-eq", c.methods["__ne__"].qual, f"!= is not the negation of ==: {why}", c.methods["__ne__"].where())
                elif v == "unknown":
                    chk.undec(c.methods["__ne__"].qual, why)
                else:
                    chk.ok("negations")
        if hs is not None:
            chk.ok("hash definitions")
            e = eq or next((b.methods["__eq__"] for b in c.mro()[1:] if isinstance(b, Class) and "__eq__" in b.methods), None)
            if e is not None:
                one_hash(chk, p, sp, c, e, hs)
        for m in ORD:
            if m in c.methods:
                chk.ok("orderings")
                one_order(chk, p, sp, c, c.methods[m], m, eq)
    identity(chk, p)
    chk.need("comparisons of library objects", 5)
    chk.need("equality definitions", 12)
    chk.need("hash definitions", 10)
    chk.need("symmetric equalities", 10)
    chk.need("hashes implied by equality", 10)


def swapped(x, other):
    a, b = summ.n("self"), summ.n("p", other)
    return compare.subst(x, {a: b, b: a}, {})


def other_of(f):
    ps = params(f)
    return ps[0] if len(ps) == 1 else None


def paths(x, want, cap=64):
    """ways for the boolean term x to have the truth value want: lists of (atom, value)"""
    if x.op == "c":
        return [[]] if (x is not summ.FALSE and x is not summ.NONE and not (summ.isk(x, "i") and summ.kval(x) == 0)) == want else []
    if x.op == "not":
        return paths(x.args[0], not want, cap)
    if x.op == "truth":
        return paths(x.args[0], want, cap) if x.args[0].op in ("ite", "and", "or", "not", "c", "eq", "eq0") else [[(x, want)]]
    if x.op in ("and", "or"):
        if (x.op == "and") == want:
            out = [[]]
            for a in x.args:
                out = [u + v for u in out for v in paths(a, want, cap)][:cap]
            return out
        return [u for a in x.args for u in paths(a, want, cap)][:cap]
    if x.op == "ite":
        c, a, b = x.args
        out = []
        for lit, y in ((True, a), (False, b)):
            rest = paths(y, want, cap)
            if rest:
                out += [u + v for u in paths(c, lit, cap) for v in rest]
        return out[:cap]
    return [[(x, want)]]


def sides(atom):
    """the two terms an equality atom relates"""
    if atom.op == "eq":
        a, b = atom.args
        if a.op == b.op == "tuple" and len(a.args) == len(b.args):
            return list(zip(a.args, b.args))
        return [(a, b)]
    if atom.op == "eq0" and atom.args[0].op == "lin":
        l = atom.args[0].args
        its = [(l[i], int(l[i + 1])) for i in range(0, len(l) - 2, 2)]
        if int(l[-1]) == 0 and len(its) == 2 and its[0][1] == -its[1][1] and abs(its[0][1]) == 1:
            return [(its[0][0], its[1][0])]
    return []


def roots(x, other):
    out, st, seen = set(), [x], set()
    s, o = summ.n("self"), summ.n("p", other)
    while st:
        y = st.pop()
        if y is s:
            out.add("self")
        elif y is o:
            out.add("other")
        if y.id in seen:
            continue
        seen.add(y.id)
        st += [a for a in y.args if isinstance(a, summ.N)]
    return out


def one_eq(chk, p, sp, c, f):
    other = other_of(f)
    facts, why = facts_of(p, sp, f, set())
    if facts is None or facts.get("ret") is None or other is None:
        return chk.undec(f.qual, why or "not modelled")
    x = compare.refold(facts["ret"])
    if compare.has_unknown(x):
        return chk.undec(f.qual, "the comparison is not modelled")
    if not paths(x, True):
        return chk.violation("never-equal", f.qual, "no pair of objects of the type compares equal", f.where())
    if not paths(x, False):
        return chk.violation("always-equal", f.qual, "every pair of objects of the type compares equal", f.where())
    v, why = compare.Cmp(None).run(x, swapped(x, other), None)
    if v == "diff":
        chk.violation("asymmetric", f.qual, f"a == b and b == a can differ: {why}", f.where())
    elif v == "unknown":
        odd = None
        for q in paths(x, True):
            for atom, val in q:
                t = atom.args[0] if atom.op == "truth" else atom
                if (t.op in ("lt", "le", "in") or t.op == "pm" and str(t.args[0]) in ("startswith", "endswith")) and roots(t, other) == {"self", "other"} and not any(
                        swapped(atom, other) is b for b, w in q if w == val):
                    odd = t
        if odd is not None:
            chk.violation("asymmetric", f.qual, f"a == b and b == a can differ: equality rests on {compare.short(odd, 80)}", f.where())
        else:
            chk.undec(f.qual, why)
    else:
        chk.ok("symmetric equalities")
    # reflexive: with other replaced by self nothing but True is left
    y = compare.refold(compare.subst(x, {summ.n("p", other): summ.n("self")}, {}))
    if y is summ.TRUE:
        chk.ok("reflexive equalities")
    elif y is summ.FALSE:
        chk.violation("not-reflexive", f.qual, "an object is not equal to itself", f.where())
    # each datum is compared with itself on the other side
    for atom in {a for q in paths(x, True) for a, v in q if v}:
        for l, r in sides(atom):
            if roots(l, other) | roots(r, other) == {"self", "other"} and len(roots(l, other)) == len(roots(r, other)) == 1 and swapped(l, other) is not r:
                la, ra = compare.short(l, 60), compare.short(r, 60)
                if not compare.has_unknown(l) and not compare.has_unknown(r) and l.op == r.op == "attr":
                    chk.violation("crossed-fields", f.qual, f"compares {la} with {ra}", f.where())


def one_hash(chk, p, sp, c, e, h):
    other = other_of(e)
    for n in own_nodes(h.node):
        if isinstance(n, ast.Call) and ast.unparse(n.func) in ("id", "object.__hash__") and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == (h.params or [""])[0]:
            return chk.violation("hash-eq", h.qual, "the hash is the identity of the object, so equal objects hash differently", h.where(n))
    ef, why = facts_of(p, sp, e, set())
    hf, why2 = facts_of(p, sp, h, set())
    if not ef or not hf or ef.get("ret") is None or hf.get("ret") is None or other is None:
        return chk.undec(h.qual, why or why2 or "not modelled")
    x, hs = compare.refold(ef["ret"]), compare.refold(hf["ret"])
    if compare.has_unknown(x) or compare.has_unknown(hs):
        return chk.undec(h.qual, "not modelled")
    ho = swapped(hs, other)
    ps = paths(x, True)
    if len(ps) >= 64:
        return chk.undec(h.qual, "too many ways to be equal")
    for lits in ps:
        lit = {}
        for a, v in lits:
            lit.setdefault(a, v)
        if any(lit.get(a) != v for a, v in lits):
            continue
        conds = {a: summ.TRUE if v else summ.FALSE for a, v in lit.items()}
        eqs = {}
        for a, v in lit.items():
            if v:
                for l, r in sides(a):
                    if roots(l, other) == {"other"} and roots(r, other) <= {"self"}:
                        eqs[l] = r
                    elif roots(r, other) == {"other"} and roots(l, other) <= {"self"}:
                        eqs[r] = l
        a, b = hs, ho
        for _ in range(3):
            a, b = compare.subst(a, conds, {}), compare.subst(b, conds, {})
            b = compare.subst(b, eqs, {})
        if contradictory(lit, eqs):
            continue
        if a is b:
            chk.ok("hashes implied by equality")
            continue
        un = {y for y in free_attrs(b, other)}
        if un and all(y.op in ("eq", "eq0", "lt0", "lt", "truth", "isnone") for y in lit):
            what = ", ".join(sorted(compare.short(y, 60) for y in un)[:3])
            chk.violation("hash-eq", h.qual, f"two equal objects can hash differently: the hash depends on {what}, which equality does not require to agree", h.where())
        else:
            chk.undec(h.qual, f"{compare.short(a, 80)} and {compare.short(b, 80)} not related")


def contradictory(lit, eqs):
    """an atom about other that its own rewriting turns into one with the opposite value"""
    for a, v in lit.items():
        y = compare.subst(a, eqs, {})
        if y is summ.TRUE and not v or y is summ.FALSE and v or y is not a and y in lit and lit[y] != v:
            return True
    return False


def free_attrs(x, other):
    """attributes of other left in the term"""
    out, st, seen = set(), [x], set()
    o = summ.n("p", other)
    while st:
        y = st.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        if y.op == "attr" and y.args[0] is o:
            out.add(y)
            continue
        st += [a for a in y.args if isinstance(a, summ.N)]
    return out


def one_order(chk, p, sp, c, f, m, eq):
    other = other_of(f)
    facts, why = facts_of(p, sp, f, set())
    if facts is None or facts.get("ret") is None or other is None:
        return chk.undec(f.qual, why or "not modelled")
    x = compare.refold(facts["ret"])
    if compare.has_unknown(x):
        return chk.undec(f.qual, "the ordering is not modelled")
    y = compare.refold(compare.subst(x, {summ.n("p", other): summ.n("self")}, {}))
    strict = m in ("__lt__", "__gt__")
    if y.op == "lt" and y.args[0] is y.args[1] or y.op == "le" and y.args[0] is y.args[1]:
        y = summ.FALSE if y.op == "lt" else summ.TRUE
    if y is summ.TRUE and strict or y is summ.FALSE and not strict:
        return chk.violation("ordering", f.qual, f"an object is {'' if strict else 'not '}ordered before itself by {m}", f.where())
    core = x.args[0] if x.op == "not" else x
    if core.op in ("lt", "le") and len(core.args) == 2:
        a, b = core.args
        if swapped(a, other) is not b:
            return chk.violation("ordering", f.qual, f"{m} compares {compare.short(a, 60)} with {compare.short(b, 60)}", f.where())
        first_is_self = roots(a, other) == {"self"}
        up = (x is core) == first_is_self
        if up != (m in ("__lt__", "__le__")):
            return chk.violation("ordering", f.qual, f"{m} answers the opposite order", f.where())
        if (core.op == "lt") == (x is core) and not strict or (core.op == "le") == (x is core) and strict:
            return chk.violation("ordering", f.qual, f"{m} is {'not ' if strict else ''}strict", f.where())
        return chk.ok("strict orderings")
    chk.undec(f.qual, f"ordering {compare.short(x, 80)}")


def foreign(chk, p, c, f):
    """no attribute of the other operand is read before its type was looked at"""
    other = other_of(f)
    if other is None:
        return chk.undec(f.qual, "other operand not found")
    alias = {other}
    for n in own_nodes(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == other:
            alias |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    reads, guards = [], []
    for n in own_nodes(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in alias and n.attr not in ("__class__", "__dict__"):
            reads.append(n)
        if isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id in alias for a in n.args):
            nm = ast.unparse(n.func)
            guards.append((n.lineno, n.col_offset))
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in alias and n.attr in ("__class__", "__dict__"):
            guards.append((n.lineno, n.col_offset))
        if isinstance(n, ast.Try) and any(h.type is None or "AttributeError" in ast.unparse(h.type) for h in n.handlers):
            guards.append((n.lineno, n.col_offset))
    if not reads:
        return chk.ok("foreign types answered")
    first = min((r.lineno, r.col_offset) for r in reads)
    if not any(g < first for g in guards):
        return chk.violation("foreign-type", f.qual, f"reads an attribute of the other operand without having looked at its type: comparing with a foreign object raises", f.where())
    chk.ok("foreign types answered")
    for n in own_nodes(f.node):
        if isinstance(n, ast.If) and len(n.body) == 1 and isinstance(n.body[0], ast.Return) and isinstance(n.body[0].value, ast.Constant) and n.body[0].value.value is True:
            t = n.test
            neg = isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not)
            t2 = t.operand if neg else t
            isnot = isinstance(t2, ast.Compare) and isinstance(t2.ops[0], (ast.IsNot, ast.NotEq)) and any(ast.unparse(x) in [f"type({a})" for a in alias] for x in [t2.left] + t2.comparators)
            isinst = isinstance(t2, ast.Call) and ast.unparse(t2.func) in ("isinstance", "issubclass")
            if isnot and not neg or isinst and neg:
                chk.violation("foreign-type", f.qual, "an object of a foreign type compares equal", f.where(n))


def identity(chk, p):
    """objects of a class without equality are only compared by identity: an == between two of them never means what it says"""
    a, ty = effects.analysis(p), rules_names.Types(p)

    def typ(e, f):
        t = ty.typ(e, f)
        if isinstance(t, tuple) and t[0] == "i" and isinstance(t[1], Class):
            return t[1]
        t = a.type_of(e, f)
        return t if isinstance(t, Class) else None
    for f in p.iter_funcs():
        for n in own_nodes(f.node):
            if not isinstance(n, ast.Compare):
                continue
            xs = [n.left] + n.comparators
            for l, o, r in zip(xs, n.ops, xs[1:]):
                if not isinstance(o, (ast.Eq, ast.NotEq)):
                    continue
                t, u = typ(l, f), typ(r, f)
                if t is None or t is not u or t.is_enum or t.node.decorator_list:
                    continue
                chk.ok("comparisons of library objects")
                if t.method("__eq__") is None and all(isinstance(b, Class) or str(b) in ("object", "ABC", "abc.ABC") for k in t.mro() if isinstance(k, Class) for b in k.bases):
                    chk.violation("identity", f"{f.qual}#{ast.unparse(n)[:60]}", f"{t.node.name} has no equality: equal objects compare as different", f.where(n))
