"""SST configuration for C21: cells with a link to themselves (JSON file in argument 1)."""
import json
import sys
import sst

d = json.load(open(sys.argv[1]))
sst.setProgramOption("timebase", d["timebase"])
for c in d["comps"]:
    x = sst.Component(c["name"], "vucon.cell")
    x.addParams(c["params"])
    if c["part"] is not None:
        x.setSubComponent("part", "vucon.part").addParams({"vec": c["part"]})
    l = sst.Link("l_" + c["name"])
    l.connect((x, "a", "1" + d["timebase"][1:]), (x, "b", "1" + d["timebase"][1:]))
