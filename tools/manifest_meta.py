"""Writes MANIFEST.json from properties.jsonl's source list and sa/checks.py."""
import json
import os
import sys

NA = {
    "N01": "the reference is git's own matcher over all strings: deciding equality of the generated regular expressions with it needs a formal model of git's wildmatch and a language-equivalence engine, not a source analysis; sampling would be testing",
    "N02": "the reference is the EDK II build tools' expression evaluator, which is not in this repository and whose semantics (macro expansion, string/number coercion) is not available offline; the structural part (evaluation order, stack discipline, rejection) is claimed under P02",
    "N03": "quantifies over interleavings inside SQLite and SQLAlchemy, whose code and isolation behaviour are outside the analysed source; the session protocol visible in the source is claimed under D01",
    "N04": "the answer depends on the registry and the output of vswhere and vcvarsall on a Windows host, which no source analysis can bound; the handling of the queries' results is claimed under U01",
}


def write(props, here):
    sys.path.insert(0, os.path.join(here, "sa"))
    import checks
    out = {"version": 1, "setup_cmd": "python3 -c \"import ast, json\"", "checks": [], "not_applicable": [], "notes":
           "All checks are static: they parse the current source under /repo/edk2toollib on every run and never import or execute it. "
           "See DESIGN.md for what each one decides and what it leaves undecided."}
    for p in props:
        i = p["id"]
        if i in NA:
            out["not_applicable"].append({"property": i, "reason": NA[i]})
            continue
        if i not in checks.META:
            continue
        m = checks.META[i]
        out["checks"].append({"property": i, "quick_cmd": f"python3 sa/run.py {i} --tier quick", "thorough_cmd": f"python3 sa/run.py {i} --tier thorough",
                              "evidence_file": f"evidence/{i}.json", "technique": m["technique"], "level": m["level"], "level_note": m["explanation"]})
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")
