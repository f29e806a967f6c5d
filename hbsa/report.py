"""Verdicts: obligations, violations, known findings, evidence files."""
import json, os, sys, time
from .build import AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, rule):
        self.pid, self.rule = pid, rule
        self.t0 = time.time()
        self.counts = {}          # rule name -> number of obligations examined
        self.disch = {}           # rule name -> number discharged
        self.viol = {}            # key -> (where, message)
        self.samples = {}
        self.assume = []
        self.info = {}

    def ok(self, rule, where="", n=1):
        self.counts[rule] = self.counts.get(rule, 0) + n
        self.disch[rule] = self.disch.get(rule, 0) + n
        s = self.samples.setdefault(rule, [])
        if where and len(s) < 6 and where not in s:
            s.append(where)

    def bad(self, rule, key, where, msg):
        k = "%s|%s" % (rule, key)
        self.counts[rule] = self.counts.get(rule, 0) + 1
        self.viol.setdefault(k, (where, msg))

    def check(self, cond, rule, key, where, msg):
        if cond:
            self.ok(rule, where)
        else:
            self.bad(rule, key, where, msg)
        return cond

    def floor(self, rule, n, what=""):
        """an analysis that finds nothing to examine has lost its anchor: neither pass nor violation"""
        if self.counts.get(rule, 0) < n and not self.viol:
            raise AnalysisError("%s: rule '%s' examined %d instance(s), expected at least %d %s" % (
                self.pid, rule, self.counts.get(rule, 0), n, what))

    def finish(self, tier, seed, tree=None):
        known = json.load(open(os.path.join(VERIF, "known_findings.json")))
        kn = {(e["property"], e["key"]): e for e in known["findings"]}
        new = []
        for k, (where, msg) in sorted(self.viol.items()):
            e = kn.get((self.pid, k))
            if e:
                print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, e["what"], where))
            else:
                new.append((k, where, msg))
        ev = {"property": self.pid, "tier": tier, "seed": seed, "level": "other",
              "coverage": {
                  "explanation": self.rule,
                  "obligations": sum(self.counts.values()),
                  "discharged": sum(self.disch.values()),
                  "obligations_by_rule": self.counts,
                  "samples": self.samples, **self.info},
              "assumptions": self.assume,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": [{"key": k, "where": w, "what": m} for k, w, m in new]}
        if tree is not None:
            ev["coverage"]["translation_units"] = len(tree.objs)
            ev["coverage"]["regenerated_sources"] = tree.regenerated
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if new:
            rp = os.path.join(d, self.pid + ".violations.txt")
            with open(rp, "w") as f:
                for k, w, m in new:
                    f.write("%s\n  at %s\n  %s\n" % (k, w, m))
            for k, w, m in new:
                print("  %s: %s  [%s]" % (w, m, k))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s: %d obligations examined, %d discharged (%s)" % (
            self.pid, sum(self.counts.values()), sum(self.disch.values()),
            ", ".join("%s=%d" % kv for kv in sorted(self.counts.items()))))
        return 0
