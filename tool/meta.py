#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, level="proof", note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    PROPS[-1]["_m"] = None if na else dict(technique=technique, level=level, note=note)
    if na:
        NA.append(dict(property=id, reason=na))


exec(open(os.path.join(HERE, "tool", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if k != "_m"}) + "\n")
man = dict(version=1, setup_cmd="python3 -m vp.extract",
           checks=[dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % p["id"],
                        technique=p["_m"]["technique"], level=p["_m"]["level"], level_note=p["_m"]["note"]) for p in PROPS if p["_m"]],
           not_applicable=NA,
           notes="All checks are static: tool/extract.cpp (a clang-18 front end client) dumps the type-checked program of /repo's working tree, vp/ interprets it abstractly. No repository code is executed.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
