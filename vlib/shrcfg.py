"""SST configuration for C14: a ring of vushr components, each with its script (JSON file in argument 1)."""
import json
import sys
import sst

d = json.load(open(sys.argv[1]))
cs = []
for c in d["comps"]:
    x = sst.Component(c["name"], "vushr.comp")
    x.addParams({"phases": d["phases"], "script": ";".join(" ".join(str(w) for w in op) for op in c["ops"])})
    if c.get("rank") is not None:
        x.setRank(c["rank"][0], c["rank"][1])
    cs.append(x)
for i, x in enumerate(cs):
    l = sst.Link("l%d" % i)
    l.connect((x, "a", "%dns" % d["lat"]), (cs[(i + 1) % len(cs)], "b", "%dns" % d["lat"]))
