"""C10: a Python configuration is built exactly as written, and the Python and JSON files sst writes out for it build the same
simulation again (and a second generation of those files is identical to the first)."""
import json, os, re, struct
from vlib import build, sstrun
from vlib.check import Out

PID = "C10"
LIBS = ["vucf"]
RULE = ("random configurations (parameters with awkward strings, shared parameter sets, nested subcomponents, link names and latencies, port modules, "
        "statistics, groups, program options) built through varying API forms; every element dumps what it received; the dump must equal the model of the "
        "configuration and must not change when the simulation is built from --output-json or --output-config files. Non-trivial: at least one subcomponent, "
        "one link and five parameters.")
N = {"quick": 300, "thorough": 2600}
TIME = {"quick": 150, "thorough": 2400}

CH = ["a", "b", "Z", "0", "9", " ", "_", "-", ".", ":", ",", "/", "=", "+", "%", "#", "'", '"', "\\", "\n", "\t", "{", "}", "[", "]", "\\n", "%s", "%d",
      "$", "&", "é", "λ", "€", "true", "1e5", "\\\"", "\r"]
KCH = "abzKXY019_."


def val(rng):
    k = rng.random()
    if k < 0.25:
        return rng.choice([0, 1, -5, 2.5, 10 ** 18, True, False, 1e-9])
    if k < 0.3:
        return ""
    if k < 0.5:
        return "".join(rng.choice("abcxyz0189") for _ in range(rng.randint(1, 8)))
    return "".join(rng.choice(CH) for _ in range(rng.randint(1, 9)))


def key(rng):
    return rng.choice("akZ_") + "".join(rng.choice(KCH) for _ in range(rng.randint(0, 6)))


def name(rng, used):
    """a valid element name that is not used yet, often similar to one that is"""
    while True:
        if used and rng.random() < 0.4:
            n = rng.choice(sorted(used))
            k = rng.randrange(4)
            n = n.replace(".", "_") if k == 0 else n.replace("_", ".") if k == 1 else n + rng.choice(["_", "0", ".a", "_a"]) if k == 2 else n.swapcase()
        else:
            n = rng.choice("abAx") + "".join(rng.choice(["a", "b", "A", "_", ".a", ".b", "0", "1", "x"]) for _ in range(rng.randint(0, 4)))
        if n not in used and len(n) < 20 and re.fullmatch(r"_?[A-Za-z][A-Za-z0-9_]*(\.(_[A-Za-z0-9]|[A-Za-z])[A-Za-z0-9_]*)*", n):
            return n


def sparams(rng, i):
    p = {}
    if rng.random() < 0.6:
        p["type"] = rng.choice(["sst.AccumulatorStatistic", "sst.HistogramStatistic"])
        if p["type"][4] == "H":
            p.update({"minvalue": "0", "binwidth": str(rng.randint(1, 4)), "numbins": "5"})
    if rng.random() < 0.3:
        p["rate"] = rng.choice(["3us", "0ns", "10 us"])
    return p


def stats(rng, c):
    if rng.random() < 0.5:
        for s in rng.sample(["s0", "s1", "s2"], rng.randint(1, 2)):
            c["stats"].append([s, sparams(rng, 0)])
    if rng.random() < 0.2:
        c["allstats"] = sparams(rng, 0)
    if rng.random() < 0.3:
        c["level"] = rng.choice([0, 1, 2, 3, 5, 7])


def lat(rng, tb):
    k = rng.randrange(5)
    if k == 0:
        return "%d%s" % (rng.randint(1, 50), rng.choice(["ns", "us"]))
    if k == 1:
        return "%s %s" % (rng.choice(["1.5", "0.25", "12.125"]), rng.choice(["ns", "us"]))
    if k == 2:
        return "%dps" % (rng.randint(1, 50 * 10 ** 6))
    if k == 3:
        return "%d MHz" % rng.choice([1, 2, 4, 5, 100, 500]) if rng.random() < 0.3 else "%d ns" % rng.randint(1, 50 * 10 ** 3)
    return "%dps" % (rng.randint(1, 49999) * 1000)


def gen(rng, i, tier):
    shared = []
    for n in rng.sample(["set0", "set.1", "g-x", "set 2"], rng.choice([0, 0, 1, 2, 3])):
        shared.append([n, {key(rng): val(rng) for _ in range(rng.randint(1, 4))}, rng.randrange(2)])
    names = []

    def node(depth):
        ps = {key(rng): val(rng) for _ in range(rng.choice([0, 1, 3, 6]))}
        c = {"params": sorted(ps.items()), "sets": rng.sample([s[0] for s in shared], rng.randint(0, len(shared))) if shared else [], "form": rng.randrange(16),
             "subs": [], "stats": []}
        if rng.random() < 0.3:
            f = c["form"] >> 1 & 3
            c["coords"] = [rng.choice([0, 1.5, -2.25, 1e6, 1234567.875, 1.0 / 3]) for _ in range(rng.randint(1, 3 if f == 0 else 4))]
        stats(rng, c)
        if depth < 3:
            ns = rng.choice([0, 0, 1, 2, 3] if depth else [0, 1, 2, 3])
            slots = [(s, n) for s in ("a", "slot_b") for n in (0, 1, 2, 9, 10, 11, 12)]
            for s, n in rng.sample(slots, ns):
                x = node(depth + 1)
                x.update(slot=s, idx=n)
                c["subs"].append(x)
        return c

    comps = []
    for _ in range(rng.randint(1, 5)):
        n = name(rng, names)
        names.append(n)
        c = node(0)
        c["name"] = n
        if rng.random() < 0.3:
            c["weight"] = rng.choice([0.5, 2, 1e-7, 3.14159265358979])
        comps.append(c)
    # paths
    nodes = []

    def walk(c, p):
        nodes.append((p, c))
        for s in c["subs"]:
            walk(s, "%s:%s[%d]" % (p, s["slot"], s["idx"]))
    for c in comps:
        walk(c, c["name"])
    links = []
    free = {p: list(range(12)) for p, _ in nodes}
    lnames = set()
    for _ in range(rng.randint(0, 8)):
        a, b = rng.choice(nodes)[0], rng.choice(nodes)[0]
        if len(free[a]) < 2 or len(free[b]) < 2:
            continue
        pa = free[a].pop(rng.randrange(len(free[a])))
        pb = free[b].pop(rng.randrange(len(free[b])))
        n = name(rng, lnames)
        lnames.add(n)
        links.append({"name": n, "nocut": int(rng.random() < 0.2), "a": [a, "p%d" % pa, lat(rng, 0)], "b": [b, "p%d" % pb, lat(rng, 0)], "form": rng.randrange(2)})
    # port modules, on connected ports of components
    for c in comps:
        ports = [x[1] for l in links for x in (l["a"], l["b"]) if x[0] == c["name"]]
        c["pms"] = []
        if shared and rng.random() < 0.3:
            c["pmset"] = rng.choice(shared)[0]
        for q in ports:
            while rng.random() < 0.35:
                st = None
                if rng.random() < 0.4:
                    st = [rng.choice([1, 3, 5]), {} if rng.random() < 0.5 else None, [["n0", {}]] if rng.random() < 0.5 else []]
                c["pms"].append([q, {"tag": "t%d" % rng.randrange(99), **({"x1": str(val(rng))} if rng.random() < 0.4 else {}), **({"send": "1"} if rng.random() < 0.3 else {})},
                                 rng.randrange(4), st])
        # shared statistics within the component's tree
        c["shstats"] = []
        if rng.random() < 0.25:
            tree = [(p, x) for p, x in nodes if p == c["name"] or p.startswith(c["name"] + ":")]
            used = {(p, s) for p, x in tree for s, _ in x["stats"]}
            for nm in rng.sample(["sh", "s h.x", "sh-1", "s0", "s1", "s2"], rng.choice([1, 1, 2, 3])):
                us = []
                for p, x in rng.sample(tree, min(len(tree), 2)):
                    left = [s for s in ("s0", "s1", "s2") if (p, s) not in used]
                    if left:
                        us.append([p, rng.choice(left)])
                        used.add(tuple(us[-1]))
                if us:
                    c["shstats"].append([nm, sparams(rng, 0), us])
    s = {"shared": shared, "comps": comps, "links": links, "opts": {"timebase": rng.choice(["1ps", "1ns", "100fs", "1ps"])}}
    if s["opts"]["timebase"] == "1ns":
        for l in links:
            for e in ("a", "b"):
                l[e][2] = "%d%s" % (rng.randint(1, 10 ** rng.randint(1, 4)), rng.choice(["ns", " ns"]))
    s["opts"]["stop-at"] = rng.choice(["5us", "60 us", "123457ns"])
    if rng.random() < 0.3:
        s["opts"]["partitioner"] = rng.choice(["sst.linear", "sst.roundrobin", "linear"])
    if rng.random() < 0.3:
        s["opts"]["timeVortex"] = rng.choice(["sst.timevortex.priority_queue", "sst.timevortex.map.binned"])
    if rng.random() < 0.2:
        s["opts"]["interthread-links"] = "true"
    if rng.random() < 0.2:
        s["opts"]["output-prefix-core"] = rng.choice(["@x SST:", "(@r/@t) ", 'a"b'])
    if rng.random() < 0.8:
        s["statlevel"] = rng.choice([1, 2, 3, 4, 5, 7])
        s["statout"] = ["sst.statoutputcsv", {"filepath": "./st.csv", "separator": rng.choice([", ", ";", "|"])}]
        if rng.random() < 0.25:
            s["groups"] = [{"name": "grp %d" % k, "freq": rng.choice([None, "4us", "1500 ns", "1.2345678us", "3123456.789 ns", "7123456789 ps", "0.3 MHz"]),
                            "out": rng.choice([None, ["sst.statoutputcsv", {"filepath": "./g%d.csv" % k}]]),
                            "stats": [[n, sparams(rng, 0)] for n in rng.sample(["s0", "s1", "s2"], rng.randint(1, 2))],
                            "comps": rng.sample(names, rng.randint(1, len(names)))} for k in range(rng.randint(1, 2))]
    return s


def sv(d):
    return {k: str(v) for k, v in d.items()}


def to_json(s):
    """the same configuration as a JSON document (which has no coordinates and weights)"""
    def stat(n, p):
        r = {"name": n}
        if p:
            r["params"] = sv(p)
        return r

    def common(c, path, top, shared):
        r = {}
        if c["params"]:
            r["params"] = sv(dict(c["params"]))
        if c["sets"]:
            r["params_shared_sets"] = c["sets"]
        o = {}
        if c.get("level") is not None:
            o["statistic_load_level"] = c["level"]
        if c.get("allstats") is not None:
            o["enable_all_stats" if c["form"] & 1 else "enable_all_statistics"] = True
            if c["allstats"]:
                o["params"] = sv(c["allstats"])
        if o:
            r["statistics_options"] = dict(reversed(list(o.items()))) if c["form"] & 2 else o
        st = [stat(n, p) for n, p in c["stats"]]
        for nm, p, users in shared:
            for q, n in users:
                if q == path:
                    x = {"name": n, "shared": True, "shared_name": nm}
                    if p:
                        x["params"] = sv(p)
                    st.append(dict(reversed(list(x.items()))) if c["form"] & 4 else x)
        if st:
            r["statistics"] = st
        pm = []
        for port, params, form, x in c.get("pms", []):
            m = {"port": port, "type": "vucf.pm"}
            if params:
                m["params"] = sv(params)
            if c.get("pmset"):
                m["params_shared_sets"] = [c["pmset"]]
            if x:
                m["statistics_options"] = {"statistic_load_level": x[0]}
                if x[1] is not None:
                    m["statistics_options"]["enable_all_statistics"] = True
                    if x[1]:
                        m["statistics_options"]["params"] = sv(x[1])
                if x[2]:
                    m["statistics"] = [stat(n, p) for n, p in x[2]]
            pm.append(m)
        if pm:
            r["port_modules"] = pm
        subs = []
        for x in c["subs"]:
            h = {"slot_name": x["slot"], "slot_number": x["idx"], "type": "vucf.sub"}
            if x["form"] & 8:
                h = dict(reversed(list(h.items())))
            h.update(common(x, "%s:%s[%d]" % (path, x["slot"], x["idx"]), False, shared))
            subs.append(h)
        if subs:
            r["subcomponents"] = subs
        if c["form"] & 8:
            r = dict(reversed(list(r.items())))
        return r
    j = {"program_options": sv(s["opts"])}
    if s["shared"]:
        j["shared_params"] = {n: sv(kv) for n, kv, _ in s["shared"]}
    o = {}
    if s.get("statlevel") is not None:
        o["statistic_load_level"] = s["statlevel"]
    if s.get("statout"):
        o["statistic_output"] = s["statout"][0]
        o["params"] = s["statout"][1]
    if o:
        j["statistics_options"] = o
    j["components"] = []
    for c in s["comps"]:
        h = {"type": "vucf.node", "name": c["name"]} if c["form"] & 4 else {"name": c["name"], "type": "vucf.node"}
        h.update(common(c, c["name"], True, c["shstats"]))
        j["components"].append(h)
    if s.get("groups"):
        j["statistics_group"] = []
        for g in s["groups"]:
            h = {"name": g["name"], "components": g["comps"], "statistics": [stat(n, p) for n, p in g["stats"]]}
            if g["freq"]:
                h["frequency"] = g["freq"]
            if g["out"]:
                h["output"] = {"type": g["out"][0], "params": g["out"][1]}
            j["statistics_group"].append(h)
    j["links"] = []
    for l in s["links"]:
        e = lambda x: {"component": x[0], "port": x[1], "latency": x[2]}
        h = {"name": l["name"], "left": e(l["a"]), "right": e(l["b"])}
        if l["nocut"]:
            h["noCut" if l["form"] else "no_cut"] = True
        j["links"].append(h)
    return j


def hexs(s):
    return s.encode().hex() or "-"


def tbname(s):
    return s["opts"]["timebase"]


def ps(t):
    """latency string -> femtoseconds (exact)"""
    from fractions import Fraction as F
    import re
    m = re.match(r"([0-9.]+) ?([a-zA-Z]+)$", t)
    v, u = F(m.group(1)), m.group(2)
    if u == "MHz":
        return F(10 ** 9) / v
    return v * {"fs": 1, "ps": 1000, "ns": 10 ** 6, "us": 10 ** 9, "ms": 10 ** 12}[u]


def model(s):
    """expected dump, without time base line"""
    sets = {n: {k: str(v) for k, v in kv.items()} for n, kv, _ in s["shared"]}
    D = {}
    tb = {"1ps": 1000, "1ns": 10 ** 6, "100fs": 100}[tbname(s)]
    nm = {}

    def name(p, c, parents):
        return p

    def walk(c, path, disp, top):
        nm[path] = disp
        out = []
        ps_ = {}
        for n in c["sets"]:
            for k, v in sets[n].items():
                ps_.setdefault(k, v)
        ps_.update({k: str(v) for k, v in c["params"]})
        out.append("T " + ("vucf.node" if top else "vucf.sub"))
        for k in sorted(ps_, key=lambda x: x.encode()):
            out.append("P %s %s" % (hexs(k), hexs(ps_[k])))
        out.append("R 0 0")
        co = list(c.get("coords") or [0.0, 0.0, 0.0])
        while len(co) < 3:
            co.append(0.0)
        out.append("C" + "".join(" %.17g" % float(x) for x in co))
        out.append("B")
        for sl in ("a", "slot_b"):
            here = sorted([x for x in c["subs"] if x["slot"] == sl], key=lambda x: x["idx"])
            for x in here:
                out.append("S %s %d ok" % (sl, x["idx"]))
        D[disp] = out
        for x in c["subs"]:
            # a subcomponent alone in a slot is named without the number
            alone = len([y for y in c["subs"] if y["slot"] == x["slot"]]) == 1
            walk(x, "%s:%s[%d]" % (path, x["slot"], x["idx"]), disp + ":" + x["slot"] + ("" if alone else "[%d]" % x["idx"]), False)
    for c in s["comps"]:
        walk(c, c["name"], c["name"], True)
    conn = {}
    for l in s["links"]:
        conn.setdefault(nm[l["a"][0]], []).append(int(l["a"][1][1:]))
        conn.setdefault(nm[l["b"][0]], []).append(int(l["b"][1][1:]))
    for d, v in conn.items():
        for q in sorted(v):
            D[d].append("L p%d" % q)
    # arrivals: the receiver's side latency is the sender's
    pms = {}
    for c in s["comps"]:
        for q, p, _, _ in c.get("pms", []):
            pms.setdefault((nm[c["name"]], q), []).append({**(sets[c["pmset"]] if c.get("pmset") else {}), **p})

    def tag(p):
        return p["tag"] + "".join(",%s=%s" % (k, hexs(p[k])) for k in sorted(p))
    ev = {}
    for l in s["links"]:
        for x, y in (("a", "b"), ("b", "a")):
            src, dst = (nm[l[x][0]], l[x][1]), (nm[l[y][0]], l[y][1])
            t = int(ps(l[x][2]) / tb)
            f = "%s.%s" % src
            for p in [p for p in pms.get(src, []) if p.get("send")] + [p for p in pms.get(dst, []) if not p.get("send")]:
                f += "/" + tag(p)
            ev.setdefault(dst[0], []).append((t, "E %d %s %s" % (t, dst[1], f)))
    return D, ev


def norm(lines):
    out, ev = [], []
    for l in lines:
        if l.startswith("E "):
            ev.append((int(l.split(" ")[1]), l))
        elif l.startswith("B "):
            out.append("B")
        else:
            out.append(l)
    return out, sorted(ev)


def one(d, tag, cfg, extra=()):
    w = os.path.join(d, tag)
    os.makedirs(w + "/out")
    r = sstrun.sst(w, list(extra) + cfg, extra_env={"VERIF_OUT": w + "/out"}, timeout=60)
    logs = sstrun.read_logs(w + "/out")
    csv = {}
    for f in sorted(os.listdir(w)):
        if f.endswith(".csv"):
            # the order of rows at the same time is not part of the configuration
            csv[f] = sorted(open(os.path.join(w, f)).read().splitlines())
    return w, r, logs, csv


def jnorm(f):
    """the content of a JSON configuration, without the order of the links"""
    j = json.load(open(f))
    if j.get("links"):
        j["links"].sort(key=lambda l: l["name"])
    return j


def run_case(s):
    o = Out()
    o.n = 1
    D, EV = model(s)
    end = None
    if "stop-at" in s["opts"]:
        tb = {"1ps": 1000, "1ns": 10 ** 6, "100fs": 100}[tbname(s)]
        end = int(ps(s["opts"]["stop-at"]) / tb)
    d = sstrun.scratch("c10")
    try:
        json.dump(s, open(d + "/sc.json", "w"))
        w0, r0, logs0, csv0 = one(d, "w0", [build.VERIF + "/vlib/cfg10.py", "--model-options=" + d + "/sc.json"],
                                  ["--output-json=o.json", "--output-config=o.py"])
        if r0.timeout or r0.rc != 0:
            o.fail(s, "original-crash", "sst ended with %s%s: %s" % (r0.rc, " timeout" if r0.timeout else "", r0.out[-1500:]))
            return o
        if "COMPARE" in r0.out:
            o.fail(s, "compare", "Python comparison of component objects is wrong: " + r0.out[r0.out.index("COMPARE"):][:200])
        if set(D) != set(logs0):
            o.fail(s, "original-elements", "elements built: %s, expected %s" % (sorted(logs0), sorted(D)))
            return o
        for n in D:
            a, ev = norm(logs0[n])
            if a != D[n]:
                x = [(p, q) for p, q in zip(D[n] + [None] * 20, a + [None] * 20) if p != q][0]
                o.fail(s, "original-" + str(x[0] or x[1]).split(" ")[0], "element %s: configured %r, received %r" % ((n,) + x))
                return o
            we = sorted(e for e in EV.get(n, []) if end is None or e[0] < end)
            ev = [e for e in ev if end is None or e[0] < end]
            if we != ev:
                x = [(p, q) for p, q in zip(we + [None] * 20, ev + [None] * 20) if p != q][0]
                o.fail(s, "original-event", "element %s: expected arrival %r, observed %r" % ((n,) + x))
                return o
        gens = {}
        json.dump(to_json(s), open(d + "/direct.json", "w"), indent=1, ensure_ascii=len(s["comps"]) % 2 == 0)
        for tag, cfg in (("json", w0 + "/o.json"), ("python", w0 + "/o.py"), ("direct", d + "/direct.json")):
            if not os.path.exists(cfg):
                o.fail(s, tag + "-missing", "no output file was written")
                continue
            w, r, logs, csv = one(d, tag, [cfg], ["--output-json=o.json", "--output-config=o.py"])
            if r.timeout or r.rc != 0:
                o.fail(s, tag + "-crash", "running the written %s configuration ended with %s: %s" % (tag, r.rc, r.out[-1200:]))
                continue
            bad = False
            if set(logs) != set(logs0):
                o.fail(s, tag + "-elements", "elements: %s instead of %s" % (sorted(logs), sorted(logs0)))
                continue
            for n in sorted(logs0):
                a, b = norm(logs0[n]), norm(logs[n])
                if tag != "python":
                    # the JSON format has no coordinates
                    a = ([x for x in a[0] if x[0] != "C"], a[1])
                    b = ([x for x in b[0] if x[0] != "C"], b[1])
                if a[0] != b[0] or a[1] != b[1] or [x for x in logs0[n] if x[0] == "B"] != [x for x in logs[n] if x[0] == "B"]:
                    fa, fb = a[0] + [x[1] for x in a[1]], b[0] + [x[1] for x in b[1]]
                    x = ([(p, q) for p, q in zip(fa + [None] * 20, fb + [None] * 20) if p != q] or [("B", "B")])[0]
                    o.fail(s, tag + "-" + str(x[0] or x[1]).split(" ")[0], "element %s: original %r, from the written %s configuration %r" % (n, x[0], tag, x[1]))
                    bad = True
                    break
            if not bad and csv != csv0:
                n = [k for k in set(csv) | set(csv0) if csv.get(k) != csv0.get(k)][0]
                a, b = csv0.get(n, []), csv.get(n, [])
                o.fail(s, tag + "-stats", "statistics file %s: only original %s, only reloaded %s" % (n, [x for x in a if x not in b][:4], [x for x in b if x not in a][:4]))
                bad = True
            if tag == "python" and not bad:
                x, y = [sorted(l.split(".setWeight")[1] for l in open(q + "/o.py") if ".setWeight" in l) for q in (w0, w)]
                wt = sorted("%.9g" % struct.unpack("f", struct.pack("f", c["weight"]))[0] for c in s["comps"] if c.get("weight", 1) != 1)
                if x != y or [q.strip()[1:-1] for q in x] != wt:
                    o.fail(s, "python-weight", "weights written %s and %s, configured %s" % (x, y, wt))
                    bad = True
            if not bad:
                j0, j1 = jnorm(w0 + "/o.json"), jnorm(w + "/o.json")
                if j0 != j1:
                    k = [k for k in sorted(set(j0) | set(j1)) if j0.get(k) != j1.get(k)][0]
                    o.fail(s, tag + "-regen-" + k, "the JSON output of the simulation built from %s differs in %r: %s / %s" % (tag, k, str(j0.get(k))[:300], str(j1.get(k))[:300]))
    finally:
        sstrun.rmtree(d)
    nsub = sum(1 for n in D if ":" in n)
    if nsub and s["links"] and sum(len(x) for x in D.values()) > 10:
        o.nontrivial.append((len(D), len(s["links"]), nsub))
    for k in ("groups", "statout"):
        if s.get(k):
            o.cls(k)
    for c in s["comps"]:
        if c["pms"]:
            o.cls("port_modules", len(c["pms"]))
        if c["shstats"]:
            o.cls("shared_stats")
    o.cls("subcomponents", nsub)
    o.cls("links", len(s["links"]))
    o.sample = {"elements": sorted(D), "first": D[sorted(D)[0]], "links": s["links"][:2]}
    return o


def shrink(s):
    def cp():
        return json.loads(json.dumps(s))
    for k in ("groups", "statout", "statlevel"):
        if k in s:
            t = cp()
            t.pop(k)
            if k == "statout":
                t.pop("groups", None)
            yield t
    for k in list(s["opts"]):
        if k not in ("timebase", "stop-at"):
            t = cp()
            t["opts"].pop(k)
            yield t
    for i in range(len(s["links"])):
        t = cp()
        l = t["links"].pop(i)
        for c in t["comps"]:
            c["pms"] = [p for p in c["pms"] if not any([c["name"], p[0]] == e[:2] for e in (l["a"], l["b"]))]
        yield t
    used = {e[0] for l in s["links"] for e in (l["a"], l["b"])} | {u[0] for c in s["comps"] for x in c["shstats"] for u in x[2]}
    gused = {n for g in s.get("groups", []) for n in g["comps"]}
    for i, c in enumerate(s["comps"]):
        if len(s["comps"]) > 1 and c["name"] not in gused and not any(u == c["name"] or u.startswith(c["name"] + ":") for u in used):
            t = cp()
            t["comps"].pop(i)
            yield t
        for k in ("pms", "shstats"):
            for j in range(len(c[k])):
                t = cp()
                t["comps"][i][k].pop(j)
                yield t
        if "weight" in c:
            t = cp()
            t["comps"][i].pop("weight")
            yield t

    def nodes(t):
        def w(c, p):
            yield c, p
            for x in c["subs"]:
                yield from w(x, "%s:%s[%d]" % (p, x["slot"], x["idx"]))
        for c in t["comps"]:
            yield from w(c, c["name"])
    n = len(list(nodes(s)))
    for i in range(n):
        c, p = list(nodes(s))[i]
        for j, x in enumerate(c["subs"]):
            q = "%s:%s[%d]" % (p, x["slot"], x["idx"])
            if not any(u == q or u.startswith(q + ":") for u in used):
                t = cp()
                list(nodes(t))[i][0]["subs"].pop(j)
                yield t
        for k in ("coords", "level", "allstats"):
            if c.get(k) is not None:
                t = cp()
                list(nodes(t))[i][0].pop(k)
                yield t
        for k in ("stats", "sets", "params"):
            for j in range(len(c[k])):
                t = cp()
                list(nodes(t))[i][0][k].pop(j)
                yield t
    for j in range(len(s["shared"])):
        if not any(s["shared"][j][0] in c["sets"] for c, _ in nodes(s)):
            t = cp()
            t["shared"].pop(j)
            yield t
