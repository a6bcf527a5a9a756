"""SST configuration for C10: builds what the JSON file (argument 1) describes, through varying API forms."""
import json
import sys
import sst

d = json.load(open(sys.argv[1]))
for k, v in d["opts"].items():
    sst.setProgramOption(k, v)
for name, kv, form in d["shared"]:
    if form:
        for k, v in kv.items():
            sst.addSharedParam(name, k, v)
    else:
        sst.addSharedParams(name, kv)
E = {}
SH = {}


def common(x, c, path):
    E[path] = x
    items = [(k, v) for k, v in c["params"]]
    if c["form"] & 1:
        for k, v in items:
            x.addParam(k, v)
    else:
        x.addParams(dict(items))
    for s in c["sets"]:
        x.addSharedParamSet(s)
    if c.get("coords"):
        co = c["coords"]
        f = c["form"] >> 1 & 3
        if f == 0:
            x.setCoordinates(*co)
        elif f == 1:
            x.setCoordinates(list(co))
        else:
            x.setCoordinates(tuple(co))
    for i, s in enumerate(c["subs"]):
        y = x.setSubComponent(s["slot"], "vucf.sub", s["idx"])
        common(y, s, "%s:%s[%d]" % (path, s["slot"], s["idx"]))
    if c.get("level") is not None:
        x.setStatisticLoadLevel(c["level"], False)
    if c.get("allstats") is not None:
        x.enableAllStatistics(c["allstats"], False)
    for n, p in c.get("stats", []):
        if c["form"] & 8:
            x.enableStatistic(n, p)
        elif p:
            x.enableStatistics([n], p)
        else:
            x.enableStatistics([n])


def portmods(x, c, path):
    for port, params, form, st in c.get("pms", []):
        if form & 1:
            m = x.addPortModule(port, "vucf.pm", params)
        else:
            m = x.addPortModule(port, "vucf.pm")
            if form & 2:
                m.addParams(params)
            else:
                for k, v in params.items():
                    m.addParam(k, v)
        if c.get("pmset"):
            m.addSharedParamSet(c["pmset"])
        if st:
            m.setStatisticLoadLevel(st[0])
            if st[1] is not None:
                m.enableAllStatistics(st[1])
            for n, p in st[2]:
                m.enableStatistic(n, p)
    for s in c["subs"]:
        p = "%s:%s[%d]" % (path, s["slot"], s["idx"])
        # addPortModule is a method of components only
        if hasattr(E[p], "addPortModule"):
            portmods(E[p], s, p)


for c in d["comps"]:
    x = sst.Component(c["name"], "vucf.node")
    common(x, c, c["name"])
    if "weight" in c:
        x.setWeight(c["weight"])
    if "rank" in c:
        x.setRank(*c["rank"])
    for nm, p, users in c.get("shstats", []):
        s = x.createStatistic(nm, p)
        for path, stat in users:
            E[path].setStatistic(stat, s)
    portmods(x, c, c["name"])
for l in d["links"]:
    k = sst.Link(l["name"])
    if l["nocut"]:
        k.setNoCut()
    a, b = l["a"], l["b"]
    if l["form"] == 0:
        k.connect((E[a[0]], a[1], a[2]), (E[b[0]], b[1], b[2]))
    else:
        E[a[0]].addLink(k, a[1], a[2])
        E[b[0]].addLink(k, b[1], b[2])
if d.get("statlevel") is not None:
    sst.setStatisticLoadLevel(d["statlevel"])
if d.get("statout"):
    sst.setStatisticOutput(d["statout"][0], d["statout"][1])
for g in d.get("groups", []):
    x = sst.StatisticGroup(g["name"])
    if g["freq"]:
        x.setFrequency(g["freq"])
    if g["out"]:
        x.setOutput(sst.StatisticOutput(g["out"][0], g["out"][1]))
    for n, p in g["stats"]:
        x.addStatistic(n, p) if p else x.addStatistic(n)
    for n in g["comps"]:
        x.addComponent(E[n])
cs = [E[k] for k in sorted(E)]
for i, x in enumerate(cs):
    for j, y in enumerate(cs[:6]):
        if (x == y) != (i == j) or (x != y) != (i != j):
            print("COMPARE %s %s" % (x.getFullName(), y.getFullName()))
