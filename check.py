#!/usr/bin/env python3
"""python3 check.py P05 [P06 ...]   decide properties on /repo's working tree"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main(argv):
    from vp.extract import AnalysisBroken
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    props = [a for a in argv if not a.startswith("-")]
    if props == ["all"]:
        props = sorted(f[:-3].upper() for f in os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "vp", "checks")) if f[0] == "p" and f[1:3].isdigit())
    rc = 0
    for p in props:
        try:
            mod = importlib.import_module("vp.checks." + p.lower())
            rep = mod.run(tier)
            st = mod.selftest() if hasattr(mod, "selftest") else []
            r = rep.finish(tier, seed, st)
        except AnalysisBroken as e:
            print("analysis could not run: %s" % e, file=sys.stderr)
            r = 3
        except Exception:
            traceback.print_exc()
            r = 3
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
