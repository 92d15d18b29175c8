"""Results of one check: obligations, violations, evidence file, known findings, exit status."""
import json
import os
import time
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")


def load_known(prop):
    """keys of recorded findings that stay unrepaired:  known: property=C01 key=<key> <what fails>"""
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return out


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.ok = 0
        self.obl = {}            # rule -> [discharged, violated, undecided]
        self.viol = {}           # key -> dict
        self.und = []
        self.samples = []
        self.cover = {}
        self.rules = {}

    def rule(self, name, text):
        self.rules[name] = text

    def _slot(self, rule):
        return self.obl.setdefault(rule, [0, 0, 0])

    def good(self, rule, what=None):
        self._slot(rule)[0] += 1
        if what is not None and len([s for s in self.samples if s["rule"] == rule]) < 4:
            self.samples.append({"rule": rule, "obligation": what, "verdict": "holds"})

    def bad(self, rule, where, msg, key=None):
        """a specific construct that breaks the rule"""
        key = key or re.sub(r":\d+", "", "%s|%s" % (rule, where)).replace(" ", "_")
        self._slot(rule)[1] += 1
        if key not in self.viol:
            self.viol[key] = {"rule": rule, "where": where, "message": msg, "key": key}

    def undecided(self, rule, what, why):
        self._slot(rule)[2] += 1
        if len(self.und) < 60:
            self.und.append({"rule": rule, "obligation": what, "why": str(why)[:300]})

    def count(self, name, n=1):
        self.cover[name] = self.cover.get(name, 0) + n

    def set(self, name, v):
        self.cover[name] = v

    def finish(self, explanation):
        known = load_known(self.prop)
        new, old = [], []
        for k, v in sorted(self.viol.items()):
            (old if k in known else new).append(v)
        tot = [sum(x[i] for x in self.obl.values()) for i in range(3)]
        cov = {
            "explanation": explanation,
            "rules": self.rules,
            "obligations": sum(tot),
            "discharged": tot[0],
            "violated": tot[1],
            "undecided": tot[2],
            "per_rule": {k: {"discharged": v[0], "violated": v[1], "undecided": v[2]} for k, v in self.obl.items()},
            "undecided_list": self.und,
            "samples": self.samples[:40],
            "violations": new[:50],
            "known_findings": old,
        }
        cov.update(self.cover)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
              "wall_s": round(time.time() - self.t0, 3)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        p = os.path.join(ROOT, "evidence", self.prop + ".json")
        with open(p, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
        print("%s: %d obligations, %d hold, %d violated, %d undecided, %.1f s" % (self.prop, sum(tot), tot[0], tot[1], tot[2], ev["wall_s"]))
        for v in old:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[v["key"]]))
        if sum(tot) == 0:
            print("ERROR property=%s nothing was analysed" % self.prop)
            return 2
        if new:
            rp = os.path.join(ROOT, "evidence", self.prop + ".violations.txt")
            with open(rp, "w") as f:
                for v in new:
                    f.write("%(rule)s\n  at %(where)s\n  %(message)s\n" % v)
            for v in new[:12]:
                print("  [%s] %s: %s" % (v["rule"], v["where"], v["message"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0
