"""Obligations, findings, known-findings filter, evidence file and exit code shared by every check."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known-findings.txt")


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.findings = {}        # key -> text
        self.counts = {}
        self.undecided = []
        self.notes = []
        self.samples = []
        self.broken = []

    # -- results
    def violation(self, rule, construct, text, where=""):
        key = f"{rule}|{construct}"
        if key not in self.findings:
            self.findings[key] = (where, text)

    def ok(self, what, k=1):
        self.counts[what] = self.counts.get(what, 0) + k

    def undec(self, construct, why):
        self.undecided.append((construct, why))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def need(self, what, least):
        """Instance floor: fewer instances than confirmed by hand means the rule lost its anchors (recorded, not an alarm)."""
        have = self.counts.get(what, 0)
        if have < least:
            self.broken.append(f"{what}: {have} analysed, {least} confirmed")

    # -- known findings
    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN, encoding="utf-8"):
                line = line.rstrip("\n")
                if line.startswith("known: property=" + self.prop + " "):
                    rest = line.split(" ", 2)[2]
                    key, _, text = rest.partition(" :: ")
                    out[key.strip()] = text.strip()
        return out

    def finish(self, level, explanation, measured=None, assumptions=None):
        known = self.known()
        viol, kn = [], []
        for key, (where, text) in sorted(self.findings.items()):
            (kn if key in known else viol).append((key, where, text))
        for key, where, text in kn:
            print(f"KNOWN-FINDING: property={self.prop} {key} {known[key]}")
        evdir = os.environ.get("SA_EVIDENCE", os.path.join(HERE, "evidence"))
        os.makedirs(evdir, exist_ok=True)
        cov = {"explanation": explanation}
        cov.update(measured or {})
        cov["counts"] = dict(sorted(self.counts.items()))
        cov["undecided"] = len(self.undecided)
        cov["undecided_list"] = [f"{c}: {w}" for c, w in self.undecided[:60]]
        cov["known_findings"] = len(kn)
        if self.samples:
            cov["samples"] = self.samples
        if self.broken:
            cov["lost_anchors"] = self.broken
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": level, "coverage": cov, "wall_s": round(time.time() - self.t0, 3)}
        if assumptions:
            ev["assumptions"] = assumptions
        rep = os.path.join(evdir, f"{self.prop}.replay.txt")
        if viol:
            ev["violations"] = [f"{k} at {w}: {t}" for k, w, t in viol]
            with open(rep, "w", encoding="utf-8") as f:
                for k_, w, t in viol:
                    f.write(f"rule|construct: {k_}\nwhere: {w}\nwhat: {t}\n\n")
        elif os.path.exists(rep):
            os.remove(rep)
        with open(os.path.join(evdir, f"{self.prop}.json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1)
        n = sum(self.counts.values())
        print(f"{self.prop}: {n} obligations decided, {len(self.undecided)} undecided, {len(kn)} known, {len(viol)} violations; "
              + ", ".join(f"{k_}={v}" for k_, v in sorted(self.counts.items())))
        for k_, w, t in viol:
            print(f"  {w}: [{k_}] {t}")
        for b in self.broken:
            print("  lost anchor: " + b)
        if viol:
            print(f"VIOLATION property={self.prop} replay={rep}")
            return 1
        return 0
