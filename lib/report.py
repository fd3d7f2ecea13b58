"""What a rule reports, and how it becomes a verdict and an evidence file."""
import json
import os
import sys
import time

from facts import Broken, VERIF

KF = os.path.join(VERIF, "known_findings.json")


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.viols = {}       # stable key -> (where, text)
        self.counts = {}
        self.samples = {}
        self.rules = []
        self.assumptions = []
        self.short = []       # what was not found often enough

    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        self.assumptions.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, least):
        """the analysis is void when it saw fewer instances than this"""
        if self.counts.get(name, 0) < least:
            self.short.append("only %d %s found (at least %d expected): the code this rule is "
                         "anchored in is not where the rule looks for it"
                         % (self.counts.get(name, 0), name, least))

    def sample(self, name, text):
        s = self.samples.setdefault(name, [])
        if len(s) < 6 and text not in s:
            s.append(text)

    def viol(self, key, where, text):
        self.viols.setdefault(key, (where, text))

    def finish(self):
        known = {}
        if os.path.exists(KF):
            for e in json.load(open(KF))["findings"]:
                if e["property"] == self.prop and e.get("status") == "known":
                    known[e["key"]] = e["what"]
        new = 0
        for key, (where, text) in sorted(self.viols.items()):
            if key in known:
                print("KNOWN-FINDING: property=%s %s [%s]" % (self.prop, known[key], key))
                continue
            new += 1
            print("%s: %s" % (where, text))
            print("    key: %s" % key)
        out = os.path.join(VERIF, "evidence")
        os.makedirs(out, exist_ok=True)
        rep = os.path.join(out, "%s.report.txt" % self.prop)
        with open(rep, "w") as f:
            for key, (where, text) in sorted(self.viols.items()):
                f.write("%s: %s\n    key: %s%s\n" % (where, text, key,
                                                      "  (known)" if key in known else ""))
        ev = {
            "property": self.prop, "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
            "coverage": {
                "explanation": "Static analysis of the resolved syntax trees and control flow "
                               "graphs of /repo's current sources; nothing is run. Rules: "
                               + " | ".join(self.rules),
                "analysed": self.counts,
                "samples": [{"kind": k, "cases": v} for k, v in self.samples.items()],
                "known_findings": sorted(k for k in self.viols if k in known),
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": new,
        }
        with open(os.path.join(out, "%s.json" % self.prop), "w") as f:
            json.dump(ev, f, indent=1)
        for n, c in sorted(self.counts.items()):
            print("  %-58s %d" % (n, c))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.prop, rep))
            return 1
        if self.short:
            raise Broken(self.short[0])
        print("OK property=%s" % self.prop)
        return 0
