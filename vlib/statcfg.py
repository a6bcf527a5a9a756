"""SST configuration for the statistics check: argument = JSON file."""
import json
import sys
import sst

d = json.load(open(sys.argv[1]))
if d["opts"]:
    for k, v in d["opts"].items():
        sst.setProgramOption(k, v)
E = {}
for c in d["comps"]:
    x = sst.Component(c["name"], "vstat.C")
    x.addParams({"regs": c["regs"], "ops": c["ops"], "share": c.get("share", 0), "primary": c.get("primary", 0), "early": c.get("early", 0)})
    if "rank" in c:
        x.setRank(*c["rank"])
    E[c["name"]] = x
    for i, s in enumerate(c.get("subs", [])):
        y = x.setSubComponent("sub", "vstat.S", i)
        y.addParams({"regs": s["regs"], "ops": s["ops"]})
        E["%s:sub[%d]" % (c["name"], i)] = y
S = {}
L = {}
for st in d["cfg"]:
    k = st[0]
    if k == "load":
        sst.setStatisticLoadLevel(st[1])
    elif k == "loadC":
        E[st[1]].setStatisticLoadLevel(st[2], st[3])
    elif k == "loadN":
        sst.setStatisticLoadLevelForComponentName(st[1], st[2], st[3])
    elif k == "loadT":
        sst.setStatisticLoadLevelForComponentType(st[1], st[2], st[3])
    elif k == "allAll":
        sst.enableAllStatisticsForAllComponents(st[1])
    elif k == "allC":
        E[st[1]].enableAllStatistics(st[2], st[3])
    elif k == "allN":
        sst.enableAllStatisticsForComponentName(st[1], st[2], st[3])
    elif k == "allT":
        sst.enableAllStatisticsForComponentType(st[1], st[2], st[3])
    elif k == "statC":
        # equal lists are one list
        l = L.setdefault(tuple(st[2]), st[2])
        r = E[st[1]].enableStatistics(l, st[3], st[4])
        if l != st[2] or len(r) != len(st[2]):
            raise RuntimeError("enableStatistics(%s) left the list as %s and returned %s" % (st[2], l, r))
    elif k == "stat1":
        E[st[1]].enableStatistic(st[2], st[3])
    elif k == "statN":
        sst.enableStatisticsForComponentName(st[1], st[2], st[3], st[4])
    elif k == "statT":
        sst.enableStatisticsForComponentType(st[1], st[2], st[3], st[4])
    elif k == "mk":
        S[st[2]] = E[st[1]].createStatistic(st[2], st[3])
    elif k == "set":
        E[st[1]].setStatistic(st[2], S[st[3]])
    elif k == "out":
        sst.setStatisticOutput(st[1], st[2])
    elif k == "group":
        # name, frequency or None, output [type, params], statistics [[name, params]], components
        g = sst.StatisticGroup(st[1])
        if st[3]:
            g.setOutput(sst.StatisticOutput(st[3][0], st[3][1]))
        if st[6]:
            for n in st[5]:
                g.addComponent(E[n])
            for n, p in st[4]:
                g.addStatistic(n, p)
        else:
            for n, p in st[4]:
                g.addStatistic(n, p)
            for n in st[5]:
                g.addComponent(E[n])
        if st[2]:
            g.setFrequency(st[2])
