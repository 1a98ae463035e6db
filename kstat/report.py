"""Evidence, known findings and verdict lines shared by all checks."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Report(object):
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.findings = {}
        self.obligations = []
        self.seen = set()
        self.undecided = []
        self.functions = set()
        self.assumptions = []
        self.minimum = 1
        self.notes = []

    def ok(self, what, where=""):
        k = (what, where)
        if k not in self.seen:
            self.seen.add(k)
            self.obligations.append("%s%s" % (what, " @ " + where if where else ""))

    def undec(self, what):
        if what not in self.undecided:
            self.undecided.append(what)

    def bad(self, rule, construct, message, where=""):
        """A definite violation: rule + construct identify it."""
        key = "%s|%s" % (rule, construct)
        if key not in self.findings:
            self.findings[key] = {"rule": rule, "construct": construct, "message": message, "where": where}

    def fn(self, name):
        self.functions.add(name)

    def finish(self):
        known = {}
        try:
            with open(KNOWN) as fh:
                for e in json.load(fh)["findings"]:
                    if e.get("status") == "known" and e["property"] == self.pid:
                        known[e["key"]] = e
        except FileNotFoundError:
            pass
        new = []
        for k, f in sorted(self.findings.items()):
            if k in known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]["what"]))
            else:
                new.append((k, f))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        replay = os.path.join(VERIF, "evidence", "%s.violations.txt" % self.pid)
        n_ob = len(self.obligations)
        ev = {
            "property": self.pid,
            "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": self.rule,
                "functions_analysed": len(self.functions),
                "obligations_decided": n_ob,
                "obligations_violated": len(self.findings),
                "undecided": self.undecided[:60],
                "undecided_count": len(self.undecided),
                "functions": sorted(self.functions)[:120],
                "samples": self.obligations[:12],
                "notes": self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(new),
        }
        with open(os.path.join(VERIF, "evidence", "%s.json" % self.pid), "w") as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
            fh.write("\n")
        print("%s: %d functions analysed, %d obligations decided, %d undecided, %d violated, %.1f s"
              % (self.pid, len(self.functions), n_ob, len(self.undecided), len(self.findings), ev["wall_s"]))
        if new:
            with open(replay, "w") as fh:
                fh.write("rule: %s\nre-run: cd %s && python3 -m kstat.run %s\n\n" % (self.rule, VERIF, self.pid))
                for k, f in new:
                    fh.write("%s\n  at %s\n  %s\n\n" % (k, f["where"], f["message"]))
            for k, f in new[:20]:
                print("  %s: [%s] %s: %s" % (f["where"], f["rule"], f["construct"], f["message"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, replay))
            return 1
        if os.path.exists(replay):
            os.remove(replay)
        if n_ob < self.minimum:
            print("ANALYSIS-BROKEN: %s decided %d obligations, expected at least %d" % (self.pid, n_ob, self.minimum))
            return 2
        return 0
