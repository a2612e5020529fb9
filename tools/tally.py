"""What the recorded sessions of a property were: calls, refusals."""
import json, sys, collections
for p in sys.argv[1:]:
    c = collections.Counter()
    for line in open("/verif/work/%s/trace-b.ndjson" % p):
        for e in json.loads(line)["ev"]:
            c[e["op"], e["raised"], e["crash"]] += 1
    for k, v in sorted(c.items()):
        print(p, v, *k)
