"""show.py FILE: print a violation compactly."""
import json, sys
for f in sys.argv[1:]:
    d = json.load(open(f))
    print(f, d["verdict"], d["scenario"]["id"])
    for s in d["scenario"]["steps"]:
        print("   step", json.dumps(s))
    for e in d["events"]:
        h = {k: (dict(p=v["p"], U=v["U"], sh=v["sh"]) if isinstance(v, dict) and "U" in v else v) for k, v in e["heap"].items()}
        print("   ev", e["op"], json.dumps(e["a"])[:400], e["raised"], e["crash"], e["ret"], json.dumps(h)[:1500])
        print("      val", json.dumps(e["val"])[:600])
