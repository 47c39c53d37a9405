"""Obligations, violations, known findings and evidence of one check run."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.txt")


class Report:
    def __init__(self, pid, tier, title=""):
        self.pid, self.tier, self.title = pid, tier, title
        self.t0 = time.time()
        self.rules = {}          # rule -> dict(checked, violated, undecided)
        self.desc = {}           # rule -> text
        self.viol = {}           # key -> dict
        self.undec = {}
        self.samples = []
        self.counts = {}
        self.assumptions = []
        self.short = []

    def rule(self, name, text):
        self.desc[name] = text
        self.rules.setdefault(name, {"checked": 0, "violated": 0, "undecided": 0})

    def ok(self, rule, what=None, n=1):
        r = self.rules.setdefault(rule, {"checked": 0, "violated": 0, "undecided": 0})
        r["checked"] += n
        if what is not None and len([s for s in self.samples if s["rule"] == rule]) < 3:
            self.samples.append({"rule": rule, "obligation": what})

    def undecided(self, rule, where, why):
        r = self.rules.setdefault(rule, {"checked": 0, "violated": 0, "undecided": 0})
        r["undecided"] += 1
        self.undec.setdefault(rule, []).append("%s: %s" % (where, why))

    def violation(self, rule, file, func, construct, msg, line=0, path=""):
        """construct: line-independent text naming what is wrong."""
        key = "|".join([rule, file, func, construct])
        if key in self.viol:
            return
        r = self.rules.setdefault(rule, {"checked": 0, "violated": 0, "undecided": 0})
        r["violated"] += 1
        self.viol[key] = {"rule": rule, "file": file, "function": func, "construct": construct, "line": line,
                          "message": msg, "path": path}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, rule, least):
        """The rule must have found at least about this many instances, otherwise the run is broken, not passed."""
        r = self.rules.get(rule, {"checked": 0, "violated": 0, "undecided": 0})
        n = r["checked"] + r["violated"] + r["undecided"]
        if n < (least + 1) // 2:
            self.short.append("rule %s found %d instances, expected about %d" % (rule, n, least))

    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                for line in f:
                    line = line.rstrip("\n")
                    if line.startswith("known: property=%s " % self.pid):
                        rest = line.split(" ", 2)[2]
                        key, _, text = rest.partition(" :: ")
                        out[key.strip()] = text.strip()
        return out

    def finish(self, prog=None):
        known = self.known()
        new = {k: v for k, v in self.viol.items() if k not in known}
        old = {k: v for k, v in self.viol.items() if k in known}
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of the source of /repo/skmine (parsed afresh, nothing imported or "
                               "executed). Rules applied: " + " ".join("[%s] %s" % kv for kv in self.desc.items()),
                "rules": {k: dict(v) for k, v in self.rules.items()},
                "obligations_checked": sum(r["checked"] for r in self.rules.values()),
                "obligations_undecided": sum(r["undecided"] for r in self.rules.values()),
                "known_findings": len(old),
                "samples": self.samples,
                "undecided": {k: v[:40] for k, v in self.undec.items()},
            },
            "wall_s": round(time.time() - self.t0, 3), "violations": len(new),
        }
        if prog is not None:
            ev["coverage"]["modules_parsed"] = len(prog.modules)
            ev["coverage"]["functions_parsed"] = sum(1 for _ in prog.all_functions())
        ev["coverage"].update(self.counts)
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        d = os.path.join(VERIF, "evidence")
        if os.environ.get("SA_NOEVIDENCE"):
            import tempfile
            d = tempfile.mkdtemp(prefix="sa-evidence-")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
        vp = os.path.join(d, self.pid + ".violation.json")
        if os.path.exists(vp):
            os.remove(vp)
        for k in sorted(old):
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, known[k] or old[k]["message"], k))
        print("%s %s: %d obligations hold, %d undecided, %d new violations, %.1fs" % (
            self.pid, self.title, ev["coverage"]["obligations_checked"], ev["coverage"]["obligations_undecided"],
            len(new), ev["wall_s"]))
        for n, r in self.rules.items():
            print("  rule %-28s checked %-5d undecided %-4d violated %d" % (n, r["checked"], r["undecided"], r["violated"]))
        if new:
            with open(vp, "w") as f:
                json.dump([dict(v, key=k) for k, v in sorted(new.items())], f, indent=1)
            for k, v in sorted(new.items()):
                print("  %s:%s %s: [%s] %s%s" % (v["file"], v["line"], v["function"], v["rule"], v["message"],
                                                  " via " + v["path"] if v["path"] else ""))
                print("    key: " + k)
            print("VIOLATION property=%s replay=%s" % (self.pid, vp))
            return 1
        for x in self.short:
            print("ANALYSIS-BROKEN property=%s %s" % (self.pid, x))
        return 3 if self.short else 0
