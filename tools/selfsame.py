"""Every contract against the unchanged tree must compare 'same' (or 'unknown'), never 'diff'."""
import os, sys, collections
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.setrecursionlimit(30000)
import conform, project, effects
from concurrent.futures import ProcessPoolExecutor
KINDS = {"ret", "reject", "set", "in", "out", "fx"}
p = project.load(); spec = conform.load_spec(); known = set(spec["attrs"]["all"]); effects.analysis(p)
def go(q):
    f = p.func(q)
    if f is None: return q, [("gone","diff","")]
    new, why = conform.summary_of(p, f, spec["modular"], conform.has_raises(spec["funcs"][q]))
    if new is None: return q, [("-","unknown",why)]
    return q, conform.diff_func(spec["funcs"][q], new, known, KINDS, f)
if __name__ == "__main__":
    st = collections.Counter()
    with ProcessPoolExecutor(8) as ex:
        for q, r in ex.map(go, sorted(spec["funcs"]), chunksize=8):
            for k, v, w in r:
                st[v] += 1
                if v == "diff" or (v == "unknown" and not w.startswith(("too large"))): print(v, q, k, w[:200])
    print(dict(st))
