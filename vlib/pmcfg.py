"""SST configuration for C24: vupm components, their subcomponents, links and port modules (JSON file in argument 1)."""
import json
import sys
import sst

d = json.load(open(sys.argv[1]))
sst.setProgramOption("timebase", "1ps")
sst.setStatisticOutput("sst.statOutputCSV", {"filepath": d["stats"], "separator": ";"})
sst.setStatisticLoadLevel(5)
els = []
for c in d["comps"]:
    x = sst.Component(c["name"], "vupm.comp")
    p = {"ports": " ".join(c["ports"]), "acts": ";".join(" ".join(str(w) for w in a) for a in c["acts"])}
    if c["anon"]:
        p["anon"] = "[" + ",".join('"' + " ".join(a) + '"' for a in c["anon"]) + "]"
    x.addParams(p)
    if c.get("rank") is not None:
        x.setRank(c["rank"][0], c["rank"][1])
    e = [x] + [x] * len(c["anon"])
    for i, s in enumerate(c["sub"]):
        y = x.setSubComponent("slot", "vupm.sub", i)
        y.addParam("ports", " ".join(s))
        e.append(y)
    els.append(e)
for i, l in enumerate(d["links"]):
    k = sst.Link("l%d" % i)
    k.connect((els[l[0][0]][l[0][1]], l[0][2], "%dps" % l[1]), (els[l[2][0]][l[2][1]], l[2][2], "%dps" % l[3]))
for m in d["mods"]:
    ci, el, port = m["at"]
    if m["how"] == "args":
        pm = els[ci][el].addPortModule(port, m["type"], m["params"])
    else:
        pm = els[ci][el].addPortModule(port, m["type"])
        for k, v in m["params"].items():
            pm.addParam(k, v)
    if m["stats"] == "all":
        pm.enableAllStatistics()
    elif m["stats"]:
        pm.enableStatistics(m["stats"])
