"""Verdict, evidence file and exit status of one property check."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class OutOfTime(BaseException):
    pass


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.errors = 0
        self.violations = {}     # key -> message
        self.obligations = 0
        self.discharged = 0
        self.undecided = {}
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.notes = []

    def rule(self, text):
        self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ok(self, sample=None):
        self.obligations += 1
        self.discharged += 1
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def bad(self, key, msg):
        self.obligations += 1
        self.violations.setdefault(key, msg)

    def check(self, cond, key, msg, sample=None):
        if cond:
            self.ok(sample)
        else:
            self.bad(key, msg)
        return cond

    def undec(self, key, msg):
        self.obligations += 1
        self.undecided.setdefault(key, msg)

    def merge(self, other):
        """Add what another report found."""
        self.obligations += other.obligations
        self.discharged += other.discharged
        for k, m in other.violations.items():
            self.violations.setdefault(k, m)
        for k, m in other.undecided.items():
            self.undecided.setdefault(k, m)
        for k, n in other.counts.items():
            self.count(k, n)
        self.samples += other.samples[:max(0, 12 - len(self.samples))]

    def floor(self, name, n):
        """The rule must still have at least n instances to look at."""
        got = self.counts.get(name, 0)
        if got < n:
            self.bad("floor:" + name, "only %d instance(s) of '%s' found, at least %d expected: the rule lost its anchor"
                     % (got, name, n))

    def guard(self, label, f, *a, **k):
        """Run one obligation group; an analysis error leaves it undecided, it never hides the others."""
        if self.errors > 30:
            self.undec("error:more", "the analysis of this part was given up")
            return None
        try:
            return f(*a, **k)
        except Exception as e:      # noqa
            self.errors += 1
            self.undec("error:" + label, "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
            return None

    def finish(self, level, level_note):
        known = {}
        if os.path.exists(KNOWN):
            for k in json.load(open(KNOWN))["findings"]:
                if k["property"] == self.pid and k.get("status", "open") == "open":
                    known[k["key"]] = k
        new, old = {}, {}
        for k, m in self.violations.items():
            (old if k in known else new)[k] = m
        tier = os.environ.get("VERIF_TIER", "quick")
        ev = os.environ.get("VERIF_EV") or os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        for k in sorted(old):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k].get("what", k)))
        replay = os.path.join(ev, self.pid + ".violation.txt")
        if new:
            with open(replay, "w") as f:
                for k, m in sorted(new.items()):
                    f.write("%s\n    %s\n" % (k, m))
            for k, m in sorted(new.items())[:40]:
                print("%s: %s\n    %s" % (self.pid, k, m))
        elif os.path.exists(replay):
            os.unlink(replay)
        for k, m in sorted(self.undecided.items())[:20]:
            print("UNDECIDED %s: %s (%s)" % (self.pid, k, m.split("\n")[0]))
        cov = {
            "explanation": level_note,
            "obligations": self.obligations,
            "discharged": self.discharged,
            "undecided": sorted(self.undecided),
            "rules": self.rules,
            "analysed": self.counts,
            "samples": self.samples,
            "known_findings": sorted(old),
        }
        if self.notes:
            cov["notes"] = self.notes
        json.dump({
            "property": self.pid,
            "tier": tier if tier in ("quick", "thorough") else "quick",
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }, open(os.path.join(ev, self.pid + ".json"), "w"), indent=1)
        print("%s: %d obligations, %d discharged, %d violation(s), %d known, %d undecided  %s"
              % (self.pid, self.obligations, self.discharged, len(new), len(old), len(self.undecided),
                 " ".join("%s=%s" % kv for kv in sorted(self.counts.items()))))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.pid, replay))
            return 1
        return 0
