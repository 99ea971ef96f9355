"""python3 sa/run.py <property> [--tier quick|thorough] : decide one property on the current source of /repo."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.setrecursionlimit(30000)
sys.dont_write_bytecode = True
import json  # noqa: E402
from concurrent.futures import ProcessPoolExecutor  # noqa: E402

import conform  # noqa: E402
import core  # noqa: E402
import effects  # noqa: E402
import local  # noqa: E402
import project  # noqa: E402
import scopes  # noqa: E402

CTX = {}


def contract_one(q):
    p, spec, known, parts = CTX["p"], CTX["spec"], CTX["known"], CTX["plan"][q]
    f = p.func(q)
    if f is None:
        return q, "", None, "function no longer exists under this name", []
    try:
        new, why = conform.summary_of(p, f, spec["modular"], conform.has_raises(spec["funcs"][q]))
        if new is None:
            return q, f.where(), None, why, []
        kinds = set().union(*[k for k, _ in parts])

        def keep(key):
            kd = key.split(":")[0]
            return any(kd in ks and (flt is None or flt(key)) for ks, flt in parts)
        res = conform.diff_func(spec["funcs"][q], new, known, kinds, f)
        return q, f.where(), [(key, v, why) for key, v, why in res if keep(key)], "", []
    except Exception as e:      # an internal limit of the analyser is never an alarm
        return q, f.where(), None, f"analyser: {type(e).__name__} {e}", []


def contract_phase(chk, p, spec, prop):
    plan = scopes.plan(prop, spec)
    if not plan:
        return
    CTX.update(p=p, spec=spec, known=set(spec["attrs"]["all"]), plan=plan)
    effects.analysis(p)
    qs = sorted(plan)
    if len(qs) > 20:
        with ProcessPoolExecutor(min(8, os.cpu_count() or 2)) as ex:
            res = list(ex.map(contract_one, qs, chunksize=4))
    else:
        res = [contract_one(q) for q in qs]
    done = 0
    for q, where, facts, why, _ in res:
        if facts is None:
            chk.undec(q, why)
            continue
        done += 1
        for key, v, w in facts:
            if v == "same":
                chk.ok("contract facts (" + key.split(":")[0] + ")")
            elif v == "unknown":
                chk.undec(f"{q} {key}", w)
            else:
                chk.violation("contract", f"{q}#{key}", f"{conform.describe(key)} of {q}: {w}", where)
    chk.ok("contract functions", done)
    if res:
        chk.sample(f"contract: {done} functions of {len(qs)} planned, e.g. {qs[0]}")


def local_phase(chk, p, spec, prop):
    """functions that differ from their confirmed text in one place: that place alone, old and new"""
    if not scopes.SCOPES.get(prop):
        return
    try:
        found = local.edits(p, spec)
    except Exception as e:
        chk.undec("changed places", f"analyser: {type(e).__name__} {e}")
        return
    for q, (where, facts) in sorted(found.items()):
        parts = scopes.parts(prop, q)
        if not parts:
            continue
        chk.ok("functions changed in one place")
        for key, v, w in facts:
            if v != "diff":
                chk.undec(q, w)
            elif local.wanted(key, parts):
                chk.violation("local", f"{q}#{key}", f"the changed place of {q} now differs in {conform.describe(key)}: {w}", where)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    chk = core.Check(prop, tier)
    import checks
    meta = checks.META[prop]
    try:
        p = project.load()
    except project.Broken as e:
        chk.undec("project", str(e))
        return chk.finish(meta["level"], meta["explanation"])
    spec = conform.load_spec()
    contract_phase(chk, p, spec, prop)
    local_phase(chk, p, spec, prop)
    checks.run_rules(chk, p, spec, prop, tier)
    return chk.finish(meta["level"], meta["explanation"], assumptions=meta.get("assumptions"))


if __name__ == "__main__":
    sys.exit(main())
