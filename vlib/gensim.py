"""Random simulation programs (scenarios) for the vtest agents, and their shrinker."""
import copy
from . import refsim

SCALES = [  # (timebase, unit for one base step, unit divisor so that 1 step = k timebases)
    ("1ps", "ns", 1), ("1ps", "ps", 100), ("1ns", "ns", 1), ("1fs", "ps", 1), ("10ps", "ns", 1), ("1ps", "us", 1), ("500fs", "ps", 5)]


def t(n, sc):
    return "%d%s" % (n * sc[2], sc[1])


def agent_name(parent, slot, idx, many):
    return "%s:%s[%d]" % (parent, slot, idx) if many else "%s:%s" % (parent, slot)


def gen(rng, ncomp=(2, 7), clocks=(0, 2), polling=True, subs=True, selfs=True, untimed=True, latmax=6, multi_ok=False,
        one_clock=True, onoff=True, ordered=True, heavy=False, primaries=None, conn=1.0, act=120, connected=False):
    sc = rng.choice(SCALES)
    s = {"opts": {"timebase": sc[0]}, "comps": [], "links": []}
    nc = rng.randint(*ncomp)
    ags = []   # (agent dict, owner index)
    for i in range(nc):
        c = {"name": "c%d" % i, "type": "vtest.agent", "params": {}}
        s["comps"].append(c)
        ags.append(c)
        if subs and rng.random() < 0.3:
            k = rng.randint(1, 3)
            c["params"]["nsub"] = k
            c["subs"] = []
            for j in range(k):
                # a slot holding one subcomponent has no index in the name
                nm = agent_name(c["name"], "sub", j, k > 1)
                sb = {"name": nm, "slot": "sub", "idx": j, "type": "vtest.subagent", "params": {}}
                c["subs"].append(sb)
                ags.append(sb)
    span = rng.randint(act // 2, act * 2)
    for a in ags:
        p = a["params"]
        p["seed"] = rng.getrandbits(62)
        p["fan"] = rng.choice([0, 10, 25, 40, 60])
        p["drop"] = rng.choice([0, 2, 10])
        p["nullp"] = rng.choice([0, 0, 5, 20])
        p["tickp"] = rng.choice([0, 5, 20, 60])
        p["maxdelay"] = rng.choice([0, 0, 1, 2, 5, 20])
        p["ttl"] = rng.choice([0, 2, 4, 6, 8])
        p["ninit"] = rng.choice([0, 1, 1, 2, 4])
        p["untp"] = rng.choice([10, 50, 80]) if untimed else 0
        p["R"] = rng.choice([0, 0, 1, 2, 4]) if untimed else 0
        p["R2"] = rng.choice([0, 0, 1, 2]) if untimed else 0
        p["api"] = rng.choice([0, rng.getrandbits(30)])
        if rng.random() < 0.3:
            p["alt"] = t(rng.randint(1, 3), sc)
        if rng.random() < 0.2:
            p["deftb"] = t(rng.randint(1, 3), sc)
        cl = []
        for _ in range(rng.randint(*clocks)):
            if one_clock and cl:
                per = cl[0][0]
            else:
                per = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 10])
            mode = rng.choice("FFFSD" if not onoff else "FFSSDDX")
            cl.append((per, mode, rng.randint(1, 6), rng.choice([0, 1, 1, 2, 3, 5, 7, 11]), 1 if ordered and rng.random() < 0.35 else 0))
        if one_clock and len(cl) > 1:
            # several handlers of one component on one clock: only registerOrderedClock fixes their order;
            # the relative order of different clocks at the same time is not specified either
            cl = [c[:4] + (1,) for c in cl]
        a["_cl"], a["_ports"] = cl, []
    nl = max(1, int(rng.uniform(0.6, 2.0) * len(ags) * conn))
    pairs = []
    if connected:
        own = lambda c: [c] + c.get("subs", [])
        pairs = [(rng.choice(own(rng.choice(s["comps"][:i]))), rng.choice(own(s["comps"][i]))) for i in range(1, nc)]
        rng.shuffle(pairs)
    for li in range(max(nl, len(pairs))):
        a = rng.choice(ags)
        b = rng.choice(ags)
        if li < len(pairs):
            a, b = pairs[li] if rng.random() < 0.5 else pairs[li][::-1]
        elif a is b:
            # a link whose two ends are ports of the same component
            if rng.random() < 0.5:
                continue
        pa = "p%d" % len(a["_ports"])
        a["_ports"].append([pa, "H"])
        pb = "p%d" % len(b["_ports"])
        b["_ports"].append([pb, "H"])
        la = t(rng.choice([1, 1, 1, 2, 2, 3, rng.randint(1, latmax)]), sc)
        lb = la if rng.random() < 0.6 else t(rng.choice([1, 1, 2, 3, rng.randint(1, latmax)]), sc)
        s["links"].append({"name": "l%s%d" % (rng.choice("abz"), li), "a": [a["name"], pa, la], "b": [b["name"], pb, lb]})
        if rng.random() < 0.4:
            s["links"][-1]["form"] = rng.randint(1, 4)
    for a in ags:
        haspoll = False
        ports = []
        for pn, k in a["_ports"]:
            f = [pn, k, "-" if ("deftb" in a["params"] and rng.random() < 0.5) else t(rng.choice([1, 1, 1, 2, 3]), sc)]
            if polling and any(c[1] in "FD" for c in a["_cl"]) and rng.random() < 0.3:
                f[1] = "P"
                haspoll = True
            add = rng.random()
            f += [t(rng.randint(1, 3), sc) if add < 0.15 else "-", t(rng.randint(1, 3), sc) if 0.1 < add < 0.25 else "-"]
            ports.append(":".join(f))
        if selfs:
            for j in range(rng.choice([0, 0, 0, 1, 2])):
                ports.append("s%d:S:%s" % (j, t(rng.choice([1, 1, 2]), sc)))
        rng.shuffle(ports)
        # (re)activation from inside a clock handler is a separate scenario class
        cl = [(p, ("F" if haspoll and m == "X" else m), n, mm, o) for p, m, n, mm, o in a["_cl"]]
        core = refsim.seconds(t(1, sc)) / refsim.seconds(sc[0])
        a["params"]["ports"] = ";".join(ports)
        a["params"]["clocks"] = ";".join("%s:%s:%d:%d:%d" % (t(p, sc), m, n, mm * int(core) + (rng.choice([0, 0, 1]) if core > 1 else 0), o) for p, m, n, mm, o in cl)
        del a["_cl"], a["_ports"]
    core = int(refsim.seconds(t(1, sc)) / refsim.seconds(sc[0]))
    prim = [c for c in s["comps"] if rng.random() < 0.5] or [rng.choice(s["comps"])]
    for c in prim:
        ts = [rng.randint(1, span) * core + rng.choice([0, 0, 1])]
        if multi_ok and rng.random() < 0.4:
            ts.append(ts[-1] + rng.randint(1, 20) * core + 5)
            ts.append(ts[-1] + rng.randint(1, 20) * core + 5)
        c["params"]["okat"] = ";".join(map(str, ts))
    if rng.random() < 0.2:
        s["opts"]["stop-at"] = t(rng.randint(1, span), sc)
    return s


def bounded(rng, lim=6000, **kw):
    """A scenario plus its reference run, within an activity budget."""
    for _ in range(20):
        s = gen(rng, **kw)
        for _ in range(4):
            sim = refsim.Sim(s, lim)
            try:
                ref = sim.run()
                return s, sim, ref
            except OverflowError:
                for c in s["comps"]:
                    for a in [c] + c.get("subs", []):
                        p = a["params"]
                        p["ttl"] = max(0, p["ttl"] - 3)
                        p["fan"] = p["fan"] // 2
                        p["tickp"] = p["tickp"] // 2
            except RuntimeError:
                break
    raise RuntimeError("generator could not produce a bounded scenario")


def used_ports(s):
    return {(e[0], e[1]) for l in s["links"] for e in (l["a"], l["b"])}


def clean(s):
    """Drop links whose ends vanished and port specs that are no longer connected."""
    names = set()
    for c in s["comps"]:
        names.add(c["name"])
        for b in c.get("subs", []):
            names.add(b["name"])
    s["links"] = [l for l in s["links"] if l["a"][0] in names and l["b"][0] in names]
    up = used_ports(s)
    for c in s["comps"]:
        for a in [c] + c.get("subs", []):
            ps = [x for x in a["params"].get("ports", "").split(";") if x]
            a["params"]["ports"] = ";".join(x for x in ps if x.split(":")[1] == "S" or (a["name"], x.split(":")[0]) in up)
    return s


def connected(s):
    own = {}
    for c in s["comps"]:
        for a in [c] + c.get("subs", []):
            own[a["name"]] = c["name"]
    seen, todo = {s["comps"][0]["name"]}, [s["comps"][0]["name"]]
    while todo:
        x = todo.pop()
        for l in s["links"]:
            e = [own[l["a"][0]], own[l["b"][0]]]
            for y in e:
                if x in e and y not in seen:
                    seen.add(y)
                    todo.append(y)
    return len(seen) == len(s["comps"])


def shrink(s):
    if len(s["comps"]) > 1:
        for i in range(len(s["comps"])):
            n = copy.deepcopy(s)
            del n["comps"][i]
            if any(c["params"].get("okat") for c in n["comps"]):
                yield clean(n)
    for i in range(len(s["links"])):
        n = copy.deepcopy(s)
        del n["links"][i]
        yield clean(n)
    for i, c in enumerate(s["comps"]):
        if c.get("subs"):
            n = copy.deepcopy(s)
            del n["comps"][i]["subs"]
            n["comps"][i]["params"].pop("nsub", None)
            yield clean(n)
        for j, a in enumerate([c] + c.get("subs", [])):
            def get(n):
                return n["comps"][i] if j == 0 else n["comps"][i]["subs"][j - 1]
            p = a["params"]
            for k in ("R", "R2", "nullp", "tickp", "drop", "fan", "ninit", "maxdelay", "ttl", "api", "seed"):
                v = p.get(k, 0)
                for nv in ((0, v // 2) if k != "seed" else (1, v // 1000003)):
                    if v and nv != v:
                        n = copy.deepcopy(s)
                        get(n)["params"][k] = nv
                        yield n
            for k in ("clocks", "ports"):
                xs = [x for x in p.get(k, "").split(";") if x]
                for q in range(len(xs)):
                    if k == "ports" and xs[q].split(":")[1] != "S":
                        continue
                    n = copy.deepcopy(s)
                    get(n)["params"][k] = ";".join(xs[:q] + xs[q + 1:])
                    yield n
            for k in ("alt",):
                if k in p:
                    n = copy.deepcopy(s)
                    del get(n)["params"][k]
                    yield n
            if j == 0 and p.get("okat"):
                ts = p["okat"].split(";")
                if len(ts) >= 3:
                    n = copy.deepcopy(s)
                    get(n)["params"]["okat"] = ";".join(ts[:-2])
                    yield n
                if int(ts[0]) > 1:
                    n = copy.deepcopy(s)
                    get(n)["params"]["okat"] = ";".join(str(int(x) // 2 + k) for k, x in enumerate(ts))
                    yield n
    if "stop-at" in s["opts"]:
        n = copy.deepcopy(s)
        del n["opts"]["stop-at"]
        yield n


def logname(name):
    return name.replace("/", "_").replace(":", "_")


def diff(ref, logs):
    """First difference between the reference logs and the observed ones, or None."""
    for k in ref:
        a, b = ref[k], logs.get(logname(k))
        if b is None:
            return k, -1, "(log)", "(missing)"
        if a != b:
            for i in range(max(len(a), len(b))):
                x = a[i] if i < len(a) else "(end)"
                y = b[i] if i < len(b) else "(end)"
                if x != y:
                    return k, i, x, y
    return None
