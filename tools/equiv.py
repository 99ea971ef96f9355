"""equiv.py [name...] : hand-written behaviour-preserving edits (in memory); every check must stay quiet on each of them."""
import os
import sys
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.setrecursionlimit(30000)
import checks  # noqa: E402
import conform  # noqa: E402
import core  # noqa: E402
import local  # noqa: E402
import project  # noqa: E402

SPEC = conform.load_spec()
KINDS = {"ret", "reject", "set", "in", "out", "fx"}
known = set(SPEC["attrs"]["all"])


def cases():
    import equiv_cases
    import equiv_cases2  # noqa: F401
    import equiv_cases3  # noqa: F401
    import equiv_cases4  # noqa: F401
    import equiv_cases5  # noqa: F401
    import equiv_cases6  # noqa: F401
    import equiv_cases7  # noqa: F401
    import equiv_cases8  # noqa: F401
    return equiv_cases.CASES


def run(job):
    name, edits = job
    over = {}
    for fn, old, new in edits:
        path = os.path.join(project.REPO, "edk2toollib", fn)
        s = over.get(path) or open(path, encoding="utf-8").read()
        if old not in s:
            return name, [("TOOL", "no such text: " + old[:60], "")], 0, 0
        over[path] = s.replace(old, new, 1)
    p = project.Project(overrides=over)
    out, unk, same, uk = [], 0, 0, []
    mods = [m for m in p.modules.values() if m.path in over]
    for m in mods if not os.environ.get("LOCALONLY") else ():
        for f in p.iter_funcs(m):
            ref = SPEC["funcs"].get(f.qual)
            if ref is None:
                continue
            new, why = conform.summary_of(p, f, SPEC["modular"], conform.has_raises(ref))
            if new is None:
                unk += 1
                continue
            for key, v, w in conform.diff_func(ref, new, known, KINDS, f):
                if v == "diff":
                    out.append((f.qual, key, w))
                elif v == "unknown":
                    unk += 1
                    uk.append((f.qual, key, w))
                else:
                    same += 1
    for q, (_, res) in local.edits(p, SPEC).items():
        for key, v, w in res:
            if v == "diff":
                out.append(("LOCAL", q, key, w))
    if os.environ.get("LOCALONLY"):
        return name, [o for o in out if o[0] == "LOCAL"], unk, same
    for i in checks.RULES:
        chk = core.Check(i, "thorough")
        checks.run_rules(chk, p, SPEC, i, "thorough")
        for k, (w, t) in chk.findings.items():
            out.append((i, k, t))
    if os.environ.get("U"):
        out += [("unknown",) + u for u in uk]
    return name, out, unk, same


if __name__ == "__main__":
    want = sys.argv[1:]
    todo = [c for c in cases() if not want or c[0] in want]
    bad = 0
    with ProcessPoolExecutor(8) as ex:
        for name, out, unk, same in ex.map(run, todo):
            print(("ALARM " if any(o[0] != "unknown" for o in out) else "quiet "), name, "same", same, "unknown", unk)
            bad += bool(out)
            for o in out[:12]:
                print("      ", *[str(x)[:300] for x in o])
    print("alarms:", bad, "of", len(todo))
