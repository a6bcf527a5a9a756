# Runs inside sst: builds the configuration described by a JSON scenario file.
import sst, json, sys
sc = json.load(open(sys.argv[1]))
for k, v in sc.get("opts", {}).items():
    sst.setProgramOption(k, v)
for s in sc.get("shared_params", []):
    sst.addGlobalParams(s[0], s[1])
comps = {}


def subs(parent, lst):
    for s in lst:
        c = parent.setSubComponent(s["slot"], s["type"], s.get("idx", 0))
        comps[s["name"]] = c
        c.addParams({k: str(v) for k, v in s.get("params", {}).items()})
        subs(c, s.get("subs", []))


for c in sc["comps"]:
    o = sst.Component(c["name"], c["type"])
    comps[c["name"]] = o
    o.addParams({k: str(v) for k, v in c.get("params", {}).items()})
    if "rank" in c:
        o.setRank(*c["rank"])
    if "weight" in c:
        o.setWeight(c["weight"])
    subs(o, c.get("subs", []))
for l in sc["links"]:
    a, b = l["a"], l["b"]
    # equivalent ways to describe a link
    v = l.get("form", 0)
    k = sst.Link(l["name"], a[2]) if v in (1, 4) else sst.Link(l["name"])
    if l.get("nocut"):
        k.setNoCut()
    if v == 1 and a[2] == b[2]:
        k.connect((comps[a[0]], a[1]), (comps[b[0]], b[1]))
        continue
    if v == 2:
        comps[a[0]].addLink(k, a[1], a[2])
        comps[b[0]].addLink(k, b[1], b[2])
        continue
    if v == 3:
        k.connect((comps[b[0]], b[1], sst.UnitAlgebra(b[2])), (comps[a[0]], a[1], sst.UnitAlgebra(a[2])))
        continue
    if v == 4:
        comps[b[0]].addLink(k, b[1], b[2])
        comps[a[0]].addLink(k, a[1])
        continue
    k.connect((comps[a[0]], a[1], a[2]), (comps[b[0]], b[1], b[2]))
for p in sc.get("portmods", []):
    comps[p["comp"]].addPortModule(p["port"], p["type"], p.get("params", {}))
st = sc.get("stats")
if st:
    sst.setStatisticLoadLevel(st.get("level", 5))
    sst.setStatisticOutput(st["output"], st.get("outparams", {}))
    for e in st.get("enable", []):
        comps[e["comp"]].enableStatistics([e["stat"]], e.get("params", {}))
