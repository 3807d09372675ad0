"""Obligations, verdicts, known findings and evidence of one check run."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")

OK, FAIL, OPEN = "ok", "fail", "undecided"


class Report:
    def __init__(self, prop, rule, floor=1):
        self.prop = prop
        self.rule = rule
        self.floor = floor
        self.t0 = time.time()
        self.obl = {}  # key -> (status, where, detail)
        self.notes = []
        self.analysed = {}
        self.assume = []
        self.errors = []

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def ob(self, key, status, where="", detail=""):
        """One obligation.  A key is decided by its worst instance."""
        rank = {OK: 0, OPEN: 1, FAIL: 2}
        old = self.obl.get(key)
        if old is None or rank[status] > rank[old[0]]:
            self.obl[key] = (status, where, detail)

    def ok(self, key, where="", detail=""):
        self.ob(key, OK, where, detail)

    def fail(self, key, where="", detail=""):
        self.ob(key, FAIL, where, detail)

    def open(self, key, where="", detail=""):
        self.ob(key, OPEN, where, detail)

    def anchor(self, present, key, detail=""):
        """A public construct the check needs; a missing one fails closed."""
        if present:
            self.ok("anchor " + key)
        else:
            self.fail("anchor " + key, "", detail or "the construct this check analyses is missing")

    def known(self):
        try:
            d = json.load(open(KNOWN))
        except FileNotFoundError:
            return {}
        return {f["key"]: f for f in d.get("findings", []) if f["property"] == self.prop}

    def finish(self):
        known = self.known()
        fails = {k: v for k, v in self.obl.items() if v[0] == FAIL}
        oks = [k for k, v in self.obl.items() if v[0] == OK]
        opens = {k: v for k, v in self.obl.items() if v[0] == OPEN}
        if len(oks) < self.floor:
            fails["coverage-floor"] = (FAIL, "", "only %d obligations could be established (floor %d): the analysed constructs are missing" % (len(oks), self.floor))
        new = {k: v for k, v in fails.items() if k not in known}
        for k in fails:
            if k in known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, known[k].get("what", k)))
        rep = os.path.join(VERIF, "reports")
        os.makedirs(rep, exist_ok=True)
        rp = os.path.join(rep, self.prop + ".txt")
        with open(rp, "w") as f:
            f.write("property %s\nrule: %s\n\n" % (self.prop, self.rule))
            for k, (s, w, d) in sorted(new.items()):
                f.write("VIOLATED  %s\n   at: %s\n   %s\n\n" % (k, w, d))
            for k, (s, w, d) in sorted(opens.items()):
                f.write("undecided %s\n   at: %s\n   %s\n" % (k, w, d))
            for k in sorted(oks):
                f.write("ok        %s\n" % k)
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        cov = {
            "explanation": self.rule,
            "obligations": len(self.obl),
            "discharged": len(oks),
            "undecided": len(opens),
            "violated": len(fails),
            "analysed": self.analysed,
            "samples": sorted(oks)[:: max(1, len(oks) // 12)][:14],
            "undecided_samples": sorted(opens)[:20],
        }
        json.dump({
            "property": self.prop,
            "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": cov,
            "assumptions": self.assume,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }, open(os.path.join(ev, self.prop + ".json"), "w"), indent=1)
        for k, (s, w, d) in sorted(new.items())[:12]:
            print("  %s\n      at %s\n      %s" % (k, w, d))
        print("%s: %d obligations, %d established, %d undecided, %d violated (%d new), %.1fs" % (self.prop, len(self.obl), len(oks), len(opens), len(fails), len(new), time.time() - self.t0))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0
