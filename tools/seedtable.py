"""the table of planted bugs at the end of DESIGN.md, from seeded*/*/meta.json"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| bug | caught by | what it breaks | needs |\n|----|----|----|----|")
for d in ("seeded", "seeded_f90"):
    for f in sorted(glob.glob(os.path.join(V, d, "*", "meta.json"))):
        m = json.load(open(f))
        c = lambda s: str(s).replace("|", "/").replace("\n", " ")
        print("| %s%s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), " (f90)" if d != "seeded" else "", m["property"], c(m["what_it_breaks"]), c(m["needs"])))
