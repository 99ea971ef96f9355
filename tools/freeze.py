"""Regenerates spec/contracts*.json from the current tree (run by hand after the contracts were reviewed)."""
import json
import os
import sys
import time
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.setrecursionlimit(30000)
import conform  # noqa: E402
import effects  # noqa: E402
import local  # noqa: E402
import inline  # noqa: E402
import project  # noqa: E402
import summ  # noqa: E402
import vf  # noqa: E402

ANN = os.path.join(HERE, "sa", "spec", "annots.json")
TYPES = os.path.join(HERE, "sa", "spec", "attrtypes.json")
for x in (ANN, TYPES):
    if os.path.exists(x) and __name__ == "__main__":
        os.remove(x)
p = project.load()
effects.analysis(p)
MAXN = 4000
# recursive dispatchers: inlining them into themselves hides what their callers do
DISPATCH = {"utility_functions:GetHostInfo", "uefi.edk2.build_objects.dsc_translator:DscTranslator._GetDscLinesFromDscObj"}


def cost(q):
    f = p.func(q)
    try:
        ev = vf.Evaluator(p, max_steps=conform.MAXSTEPS)
        r = ev.run(f, fresh=f.name == "__init__")
        s = summ.summarize(r)
        return q, ev.steps, sum(summ.dag(v, 30000) if v is not None else 30000 for v in s.values())
    except (vf.GiveUp, RecursionError):
        return q, 10 ** 6, 10 ** 6


def one(a):
    q, mod = a
    t = time.time()
    s, why = conform.summary_of(p, p.func(q), mod, raises=True)
    if s is None:
        return q, None, why, time.time() - t
    if s.get("reject") is not None and summ.dag(s["reject"], MAXN + 1) <= MAXN:
        s = {k: v for k, v in s.items() if not k.startswith("raise")}
    for k, v in list(s.items()):
        if k.startswith("raise"):
            continue
        if v is not None and summ.dag(v, MAXN + 1) > MAXN:
            s[k] = summ.n("fx", v.args[0], summ.n("?", "big")) if v.op == "fx" else None
    out = summ.pack_facts(s)
    return q, out, "", time.time() - t


if __name__ == "__main__":
    quals = [f.qual for f in p.iter_funcs() if f.parent is None]
    with ProcessPoolExecutor(8) as ex:
        costs = list(ex.map(cost, quals, chunksize=8))
        modular = sorted({q for q, st, sz in costs if st > 1500 or sz > 3000} | DISPATCH)
        res = list(ex.map(one, [(q, modular) for q in quals], chunksize=8))
    os.makedirs(os.path.join(HERE, "sa", "spec"), exist_ok=True)
    bym = {}
    for q, s, why, t in res:
        if s is None:
            print("outside the model:", q, why)
            continue
        bym.setdefault(q.split(":")[0].split(".")[0], {})[q] = s
    for fn in os.listdir(os.path.join(HERE, "sa", "spec")):
        if fn.startswith("contracts"):
            os.remove(os.path.join(HERE, "sa", "spec", fn))
    for m, fs in bym.items():
        with open(os.path.join(HERE, "sa", "spec", f"contracts_{m}.json"), "w", encoding="utf-8") as f:
            json.dump({"funcs": fs}, f, separators=(",", ":"), sort_keys=True)
    with open(os.path.join(HERE, "sa", "spec", "contracts.json"), "w", encoding="utf-8") as f:
        json.dump({"modular": modular, "attrs": {"all": conform.attr_names(p), "quals": inline.quals(p), "globals": inline.global_names(p), "objects": vf.object_attrs(p)}}, f, indent=0)
    with open(ANN, "w", encoding="utf-8") as f:
        json.dump(project.annotations(p), f, indent=0, sort_keys=True)
    with open(TYPES, "w", encoding="utf-8") as f:
        json.dump(vf.attr_types(p), f, indent=0, sort_keys=True)
    local.freeze(p)
    print(len(modular), "modular;", sum(len(x) for x in bym.values()), "functions;",
          sum(v is None for x in bym.values() for s in x.values() for v in s["f"].values()), "facts too large of",
          sum(len(s["f"]) for x in bym.values() for s in x.values()))
    print(sorted(((round(t, 2), q) for q, s, w, t in res), reverse=True)[:10])
