# Runs inside sst: components with generated parameters (checks/c09.py)
import sst, json, sys
d = json.load(open(sys.argv[1]))


def val(v):
    if isinstance(v, dict):
        if "set" in v:
            return set(v["set"])
        if "tuple" in v:
            return tuple(v["tuple"])
        return v["dict"]
    return v


for s, k, v, how in d["shared"]:
    if how == 0:
        sst.addGlobalParam(s, k, val(v))
    elif how == 1:
        sst.addSharedParam(s, k, val(v))
    else:
        sst.addSharedParams(s, {k: val(v)})
for n, c in enumerate(d["comps"]):
    o = sst.Component("c%d" % n, "vupar.P")
    o.addParams({"__out": sys.argv[2] + "/o%d" % n, "__ops": c["ops"]})
    u = o.setSubComponent("sub", "vupar.Q")
    for x, ops in ((o, c["cfg"]), (u, c.get("cfg2", []))):
        for op in ops:
            if op[0] == "p":
                x.addParam(op[1], val(op[2]))
            elif op[0] == "P":
                x.addParams({k: val(v) for k, v in op[1]})
            elif op[0] == "g":
                x.addGlobalParamSet(op[1])
            else:
                x.addSharedParamSet(op[1])
