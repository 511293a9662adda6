"""Obligations, evidence and exit status."""
import json, os, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

EVID = os.environ.get("VP_EVIDENCE") or os.path.join(VERIF, "evidence")

class Report:
    def __init__(self, prop, rule, trusted=(), level="proof"):
        self.level = level
        self.prop, self.rule, self.trusted = prop, rule, list(trusted)
        self.ob = []          # (key, status, where, detail)
        self.keys = set()
        self.analysed = set()
        self.notes = []
        self.t0 = time.time()
        self.counts = {}

    def add(self, key, status, where="", detail=""):
        k, n = key, 1
        while k in self.keys:
            n += 1
            k = "%s#%d" % (key, n)
        self.keys.add(k)
        self.ob.append((k, status, where, detail))

    def ok(self, key, where="", detail=""):
        self.add(key, "ok", where, detail)

    def bad(self, key, where="", detail=""):
        self.add(key, "bad", where, detail)

    def und(self, key, where="", detail=""):
        self.add(key, "undecided", where, detail)

    def decide(self, key, holds, where="", detail=""):
        """holds: True / False / None"""
        self.add(key, "ok" if holds is True else "bad" if holds is False else "undecided", where, detail if holds is not True else "")

    def saw(self, interp):
        for q, f, l in interp.analysed:
            self.analysed.add("%s (%s:%d)" % (q, f, l))
        for w in interp.notes:
            if len(self.notes) < 200:
                self.notes.append("%s at %s" % w)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def require(self, what, n, least):
        """the analysis must have found its anchors, or it has decided nothing"""
        self.counts[what] = n
        if n < least:
            from .extract import AnalysisBroken
            raise AnalysisBroken("%s: found %d %s, expected at least %d" % (self.prop, n, what, least))

    def finish(self, tier, seed, selftest):
        known = load_known(self.prop)
        bad = [o for o in self.ob if o[1] == "bad"]
        fresh = []
        for o in bad:
            k = next((x for x in known if x["key"] == o[0]), None)
            if k:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
            else:
                fresh.append(o)
        okc = sum(1 for o in self.ob if o[1] == "ok")
        und = [o for o in self.ob if o[1] == "undecided"]
        ev = {
            "property": self.prop, "tier": tier, "seed": seed, "level": self.level,
            "coverage": {
                "obligations": len(self.ob), "discharged": okc, "undecided": len(und),
                "violated": len(bad), "rule": self.rule, "explanation": self.rule,
                "checker_cmd": "python3 check.py %s" % self.prop,
                "trusted_base": ["clang 18 front end (parsing, types, overload resolution)",
                                 "vp/ai.py, vp/aix.py, vp/alg.py (value numbering and normal forms)",
                                 "stubs/ (declarations of libraries that are not installed)"] + self.trusted,
                "functions_analysed": len(self.analysed),
                "functions": sorted(self.analysed),
                "counts": self.counts,
                "undecided_list": [{"obligation": o[0], "where": o[2], "why": o[3][:300]} for o in und][:80],
                "samples": [{"obligation": o[0], "status": o[1], "where": o[2]} for o in self.ob][:400],
                "violated_list": [{"obligation": o[0], "where": o[2], "detail": o[3][:2000]} for o in bad],
                "self_test": selftest,
                "notes": sorted(set(self.notes))[:60],
            },
            "assumptions": self.trusted,
            "violations": len(fresh),
            "wall_s": round(time.time() - self.t0, 2),
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions analysed; %.1fs" %
              (self.prop, len(self.ob), okc, len(und), len(bad), len(self.analysed), time.time() - self.t0))
        if fresh:
            rp = os.path.join(EVID, self.prop + ".violation.txt")
            with open(rp, "w") as f:
                for o in fresh:
                    f.write("%s\n  at %s\n  %s\n" % (o[0], o[2], o[3]))
            for o in fresh:
                print("violated: %s\n   at %s\n   %s" % (o[0], o[2], o[3][:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0


def load_known(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k.get("status") == "open"]
