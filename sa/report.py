"""Obligations, findings, evidence."""
import contextlib
import json
import os
import sys
import time

VERIF = os.environ.get("VERIF_DIR") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FLATDATA_REPO", "/repo")


class AnalysisBroken(Exception):
    """an anchor of the analysis is gone or the analysis cannot interpret the code: no verdict"""


class Report:
    def __init__(self, prop, rule, explanation):
        self.prop, self.rule, self.explanation = prop, rule, explanation
        self.obligations = 0
        self.discharged = 0
        self.by_rule = {}
        self.violations = []     # (key, text)
        self.samples = []
        self.t0 = time.time()
        self.extra = {}
        self.floors = []
        self.problems = []       # parts without a verdict

    def ok(self, rule, construct, cond, msg="", key=None):
        """one obligation; construct names the function / site / instance"""
        self.obligations += 1
        d = self.by_rule.setdefault(rule, [0, 0])
        d[0] += 1
        if cond:
            self.discharged += 1
            d[1] += 1
            if d[0] <= 2:
                self.samples.append("%s: %s" % (rule, construct))
            return True
        self.violations.append((key or "%s|%s" % (rule, construct), "%s: %s: %s" % (rule, construct, msg)))
        return False

    def floor(self, what, count, minimum):
        """instance-count floor: fewer instances than confirmed by hand means the analysis lost its subject"""
        self.floors.append((what, count, minimum))

    @contextlib.contextmanager
    def part(self, site):
        """a part of the analysis; that it cannot be decided does not hide what other parts find"""
        from .dom import Top
        try:
            yield
        except (AnalysisBroken, Top) as e:
            self.problems.append("%s: %s" % (site, e))

    def finish(self):
        known = load_known()
        new, old = [], []
        for key, text in self.violations:
            (old if (self.prop, key) in known else new).append((key, text))
        # a confirmed violation outweighs parts without verdict
        if not new:
            if self.problems:
                raise AnalysisBroken("%s: %s" % (self.prop, self.problems[0][-2000:]))
            for what, count, minimum in self.floors:
                if count < minimum:
                    raise AnalysisBroken("%s: %s %d < %d" % (self.prop, what, count, minimum))
        elif self.problems:
            print("note: no verdict for %s" % self.problems[0][-300:])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {
            "explanation": self.explanation,
            "rule": self.rule,
            "obligations": self.obligations,
            "discharged": self.discharged,
            "obligations_by_rule": {k: {"instances": v[0], "discharged": v[1]} for k, v in sorted(self.by_rule.items())},
            "samples": self.samples[:20],
            "known_findings": [t for _, t in old],
        }
        for what, count, minimum in self.floors:
            cov["instances: " + what] = {"count": count, "floor": minimum}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": os.environ.get("VERIF_TIER", "quick"),
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
              "wall_s": round(time.time() - self.t0, 3)}
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        print("%s: %d obligations, %d discharged, rules: %s" % (
            self.prop, self.obligations, self.discharged,
            ", ".join("%s %d/%d" % (k, v[1], v[0]) for k, v in sorted(self.by_rule.items()))))
        for what, count, minimum in self.floors[:12]:
            print("  %s: %d (floor %d)" % (what, count, minimum))
        for key, text in old[:20]:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        if new:
            rp = os.path.join(VERIF, "evidence", self.prop + ".violations.txt")
            with open(rp, "w") as f:
                for key, text in new:
                    f.write("[%s]\n  %s\n" % (key, text))
            for key, text in new[:12]:
                print("  " + text)
            if len(new) > 12:
                print("  ... %d more" % (len(new) - 12))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return set()
    with open(p) as f:
        d = json.load(f)
    return {(e["property"], e["key"]) for e in d.get("known", [])}
