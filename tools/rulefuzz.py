"""rulefuzz.py N [seed] : apply refactorings to many functions at once (in memory) and report every absolute-rule violation that appears."""
import ast
import collections
import os
import random
import sys
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.setrecursionlimit(30000)
import checks  # noqa: E402
import conform  # noqa: E402
import core  # noqa: E402
import mutate  # noqa: E402
import project  # noqa: E402

os.environ["SA_DEBUG"] = "1"
SPEC = conform.load_spec()


def edit(seed):
    rnd = random.Random(seed)
    over, log = {}, collections.defaultdict(list)
    for m in project.load().modules.values():
        tree = ast.parse(m.src)
        fs = mutate.funcs(tree)
        for fn, owner in fs:
            if rnd.random() < 0.35:
                k = rnd.choice(sorted(mutate.REFACTORS))
                try:
                    if mutate.REFACTORS[k](tree, fn, owner, rnd):
                        log[m.short].append((fn.name, k))
                except Exception:
                    pass
        ast.fix_missing_locations(tree)
        try:
            t = ast.unparse(tree)
            ast.parse(t)
            over[m.path] = t
        except Exception:
            pass
    return over, log


def run(seed):
    over, log = edit(seed)
    p = project.Project(overrides=over)
    out, und = [], 0
    only = os.environ.get("ONLY", "").split(",")
    for i, rules in checks.RULES.items():
        if only != [""] and i not in only:
            continue
        chk = core.Check(i, "thorough")
        try:
            checks.run_rules(chk, p, SPEC, i, "thorough")
        except Exception:
            import traceback
            out.append((i, "CRASH", traceback.format_exc()[-800:], ""))
        und += len(chk.undecided)
        for k, (w, t) in chk.findings.items():
            out.append((i, k, w, t))
        for b in chk.broken:
            out.append((i, "lost", b, ""))
    return seed, out, und, log, over


if __name__ == "__main__":
    n, seed = int(sys.argv[1]), int(sys.argv[2]) if len(sys.argv) > 2 else 1
    seen = set()
    with ProcessPoolExecutor(8) as ex:
        for s, out, und, log, over in ex.map(run, range(seed * 1000, seed * 1000 + n)):
            for o in out:
                if (o[0], o[1]) in seen:
                    continue
                seen.add((o[0], o[1]))
                print(f"[seed {s}]", *[str(x)[:500] for x in o])
                mod = o[1].split("|")[-1].split(":")[0]
                print("     edits:", [x for x in log.get(mod, []) if x[0] in o[1]][:5])
                if os.environ.get("SHOWSRC") and ":" in str(o[2]):
                    rel, ln = str(o[2]).rsplit(":", 1)
                    for pth, t in over.items():
                        if pth.endswith(rel):
                            print("\n".join(t.splitlines()[max(0, int(ln) - 6):int(ln) + 6]))
            print(f"seed {s}: {len(out)} findings, {und} undecided, {sum(map(len, log.values()))} edits")
