"""fuzz.py refactor|mutant N [seed] [module-prefix] : run the contract comparison on edited copies of single modules (in memory)."""
import ast
import collections
import os
import random
import sys
import time
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.setrecursionlimit(30000)
import conform  # noqa: E402
import mutate  # noqa: E402
import local  # noqa: E402
import project  # noqa: E402
import effects  # noqa: E402
import vf  # noqa: E402

KINDS = {"ret", "reject", "set", "in", "out", "fx"}
spec = conform.load_spec()
known = set(spec["attrs"]["all"])


def run(job):
    mode, mod, fi, kind, seed = job
    rnd = random.Random(seed)
    path = os.path.join(project.REPO, mod)
    src = open(path, encoding="utf-8").read()
    tree = ast.parse(src)
    fs = mutate.funcs(tree)
    fn, owner = fs[fi]
    table = mutate.REFACTORS if mode == "refactor" else mutate.MUTANTS
    try:
        if not table[kind](tree, fn, owner, rnd):
            return None
    except Exception as e:
        return ("TOOL", job, repr(e), "")
    ast.fix_missing_locations(tree)
    try:
        text = ast.unparse(tree)
        ast.parse(text)
    except Exception:
        return None
    if ast.dump(ast.parse(text)) == ast.dump(ast.parse(src)):
        return None
    p = project.Project(overrides={path: text})
    m = next(m for m in p.modules.values() if m.path == path)
    out, unk = [], []
    for f in p.iter_funcs(m):
        ref = spec["funcs"].get(f.qual)
        if ref is None:
            continue
        try:
            new, why = conform.summary_of(p, f, spec["modular"], conform.has_raises(ref))
            if new is None:
                unk.append((f.qual, why))
                continue
            for key, v, w in conform.diff_func(ref, new, known, KINDS, f):
                if v == "diff":
                    out.append((f.qual, key, w))
                elif v == "unknown" and not w.startswith(("too large", "calls not")):
                    unk.append((f.qual, key, w))
        except Exception as e:
            import traceback
            return ("CRASH", job, traceback.format_exc()[-600:], text)
    if os.environ.get("LOCALONLY"):
        out, unk = [], []
    for q, (_, res) in local.edits(p, spec).items():
        for k, v, w in res:
            (out if v == "diff" else unk).append((q, "LOCAL " + k, w))
    import difflib
    d = "\n".join(x for x in difflib.unified_diff(ast.unparse(ast.parse(src)).splitlines(), text.splitlines(), lineterm="", n=2))
    return ("diff" if out else ("unknown" if unk else "same"), job, out or unk, d)


if __name__ == "__main__":
    mode, N = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    pref = sys.argv[4] if len(sys.argv) > 4 else ""
    show = int(os.environ.get("SHOW", "12"))
    only = os.environ.get("KIND")
    p = project.load()
    cand = []
    for m in p.modules.values():
        if pref and pref not in m.rel:
            continue
        t = ast.parse(m.src)
        for i, (f, o) in enumerate(mutate.funcs(t)):
            cand.append((m.rel, i))
    rnd = random.Random(seed)
    table = mutate.REFACTORS if mode == "refactor" else mutate.MUTANTS
    jobs = []
    for k in range(N):
        mod, fi = rnd.choice(cand)
        jobs.append((mode, mod, fi, only or rnd.choice(sorted(table)), rnd.randrange(10 ** 9)))
    t0 = time.time()
    stat = collections.Counter()
    bykind = collections.defaultdict(collections.Counter)
    shown = 0
    want = os.environ.get("WANT", "diff" if mode == "refactor" else "same,unknown").split(",")
    with ProcessPoolExecutor(8) as ex:
        for r in ex.map(run, jobs, chunksize=4):
            if r is None:
                continue
            stat[r[0]] += 1
            bykind[r[1][3]][r[0]] += 1
            if (r[0] in want or r[0] in ("CRASH", "TOOL")) and shown < show:
                shown += 1
                print("-----", r[0], r[1])
                for o in (r[2] if isinstance(r[2], list) else [r[2]])[:3]:
                    print("   ", str(o)[:500])
                print("\n".join(r[3].splitlines()[:30]))
    print(dict(stat), "%.0fs" % (time.time() - t0))
    for k, v in sorted(bykind.items()):
        print("  ", k, dict(v))
