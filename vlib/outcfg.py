"""SST configuration for C19: components of one type in a ring (JSON file in argument 1)."""
import json
import sys
import sst

d = json.load(open(sys.argv[1]))
for k, v in d["opts"].items():
    sst.setProgramOption(k, v)
cs = []
for c in d["comps"]:
    x = sst.Component(c["name"], d["type"])
    x.addParams(c["params"])
    if c.get("rank"):
        x.setRank(c["rank"][0], c["rank"][1])
    cs.append(x)
if len(cs) > 1:
    for i, x in enumerate(cs):
        l = sst.Link("l%d" % i)
        l.connect((x, "a", d["lat"]), (cs[(i + 1) % len(cs)], "b", d["lat"]))
