"""rewrites the seeded table at the end of DESIGN.md"""
import json, glob, os
L = ["| seeded | breaks | caught by |", "|---|---|---|"]
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    j = json.load(open(d))
    L.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), j["what_it_breaks"], j["property"]))
s = open("/verif/DESIGN.md").read()
k = "via `tool/try.sh ID PROP`" if 0 else "fail with the patch.\n"
a = s.index(k) + len(k)
open("/verif/DESIGN.md", "w").write(s[:a] + "\n" + "\n".join(L) + "\n")
