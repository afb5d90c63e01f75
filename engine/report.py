"""Obligations of one property, known findings, evidence and the verdict."""
import json, os, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, tier, seed, rule):
        self.prop, self.tier, self.seed, self.rule = prop, tier, seed, rule
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.ok = []        # discharged obligations (keys)
        self.viol = {}      # key -> text
        self.und = {}       # key -> why
        self.counts = {}
        self.assume = []
        self.floors = []

    def good(self, key, n=1):
        self.ok.append((key, n))

    def bad(self, key, text):
        self.viol.setdefault(key, text)

    def undecided(self, key, why):
        self.und.setdefault(key, why)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n):
        """anchors that must be present; a rule that matches nothing passes vacuously"""
        self.floors.append((name, n))
        if self.counts.get(name, 0) < n:
            self.bad("floor:" + name, "only %d %s found, expected at least %d: the analysis lost its anchors"
                     % (self.counts.get(name, 0), name, n))

    def lemma(self, name, mod, mir, keep=lambda key: True):
        """what this property takes for granted and another rule decides"""
        try:
            S = Report(self.prop, self.tier, self.seed, "")
            (mod if callable(mod) else mod.run)(S, mir)
        except Exception as e:
            self.undecided("lemma " + name, "%s: %s" % (type(e).__name__, e))
            return
        n = sum(k for key, k in S.ok if keep(key))
        if n:
            self.good("lemma " + name, n)
        for k, v in S.viol.items():
            if keep(k):
                self.bad("%s: %s" % (name, k), v)
        for k, v in S.und.items():
            if keep(k):
                self.undecided("%s: %s" % (name, k), v)

    def known(self):
        res = {}
        p = os.path.join(ROOT, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith("finding: property=%s " % self.prop):
                    rest = l[len("finding: property=%s " % self.prop):]
                    key, _, text = rest.partition(" :: ")
                    res[key.strip()[4:] if key.startswith("key=") else key.strip()] = text.strip()
        return res

    def finish(self):
        known = self.known()
        self.viol, self.und, self.ok = dict(self.viol), dict(self.und), list(self.ok)
        new = {k: v for k, v in self.viol.items() if k not in known}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        replay = os.path.join(ROOT, "evidence", "%s.violations.txt" % self.prop)
        if self.viol:
            with open(replay, "w") as f:
                for k, v in self.viol.items():
                    f.write("%s %s\n%s\n\n" % ("known" if k in known else "NEW", k, v))
        elif os.path.exists(replay):
            os.unlink(replay)
        nob = sum(n for _, n in self.ok) + len(self.viol) + len(self.und)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "other",
            "coverage": {
                "explanation": self.rule,
                "obligations": nob,
                "discharged": sum(n for _, n in self.ok),
                "subjects_discharged": len(self.ok),
                "undetermined": len(self.und),
                "undetermined_list": ["%s: %s" % (k, v[:300]) for k, v in list(self.und.items())[:60]],
                "analysed": self.counts,
                "floors": {n: k for n, k in self.floors},
                "samples": [k for k, _ in self.ok[:40]],
            },
            "assumptions": self.assume,
            "violations": ["%s: %s" % (k, v[:1500]) for k, v in new.items()],
            "known_findings": sorted(k for k in self.viol if k in known),
            "wall_s": round(time.time() - self.t0, 3),
        }
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.viol:
            if k in known:
                print("KNOWN-FINDING: property=%s %s :: %s" % (self.prop, k, known[k]))
        for k, v in new.items():
            print("%s: %s" % (k, v[:2000]))
        print("%s: %d obligations, %d discharged, %d undetermined, %d violated (%d known), %s" % (
            self.prop, nob, sum(n for _, n in self.ok), len(self.und), len(self.viol), len(self.viol) - len(new), self.counts))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        return 0
