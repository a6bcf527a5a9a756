"""C24: port modules.  Chains of port modules (deterministic rules: pass, drop, change, replace; and sst.portmodules.random_drop) on the send and receive
sides of ports of components, user subcomponents and anonymous subcomponents with shared ports; everything modules and handlers see is compared to a model,
on any job shape and after a restart."""
import copy, csv, glob, heapq, json, os
from vlib import build, sstrun
from vlib.check import Out

PID = "C24"
LIBS = ["vupm"]
RULE = ("random element trees, links, chains of 0-4 port modules per port and scripts of events with replies; the events each module and each handler sees (time, value, type, order), untimed data, statistics of the modules and runs "
        "resumed from checkpoints are compared to a model. Non-trivial: at least two modules saw events, and at least one event was dropped, changed or replaced.")
N = {"quick": 400, "thorough": 3000}
TIME = {"quick": 150, "thorough": 2400}
SHAPES = [(1, 1), (1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1)]
M32 = (1 << 32) - 1


class Marsaglia:
    def __init__(self, z, w):
        self.z, self.w = z, w

    def uniform(self):
        while True:
            self.z = (36969 * (self.z & 65535) + (self.z >> 16)) & M32
            self.w = (18000 * (self.w & 65535) + (self.w >> 16)) & M32
            x = float((((self.z << 16) & M32) + self.w + 1) & M32) * 2.328306435454494e-10
            if x < 1.0:
                return x


def gen(rng, i, tier):
    n = rng.randint(1, 4)
    s = {"comps": [], "links": [], "mods": [], "shape": list(rng.choice(SHAPES)) if n > 1 else [1, 1], "restart": None}
    ends = []
    names = ["p%d" % k for k in range(8)]
    for ci in range(n):
        mine = rng.sample(names, rng.randint(0, 3))
        rest = [q for q in names if q not in mine]
        rng.shuffle(rest)
        anon = []
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            anon.append([rest.pop() for _ in range(rng.randint(1, 2))])
        sub = [rng.sample(names, rng.randint(1, 2)) for _ in range(rng.choice([0, 0, 1, 2]))]
        if not (mine or anon or sub):
            mine = [names[0], names[3]]
        s["comps"].append({"name": "c%d" % ci, "ports": mine, "anon": anon, "sub": sub, "acts": []})
        for el, ps in enumerate([mine] + anon + sub):
            ends += [(ci, el, p) for p in ps]
    if len(ends) % 2:
        s["comps"][0]["sub"].append(["p0"])
        ends.append((0, len(s["comps"][0]["anon"]) + len(s["comps"][0]["sub"]), "p0"))
    rng.shuffle(ends)
    lats = rng.choice([[1, 2], [1, 3, 10], [5], [100, 7]])
    for k in range(0, len(ends), 2):
        s["links"].append([list(ends[k]), rng.choice(lats), list(ends[k + 1]), rng.choice(lats)])
    s["json"] = rng.random() < 0.35
    for e in ends:
        if not s["json"] and e[1] > len(s["comps"][e[0]]["anon"]):
            continue    # only JSON configurations have port modules on subcomponents
        for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
            if rng.random() < 0.25:
                p = {"drop_prob": rng.choice(["0", "1", "0.5", "0.1", "0.9"]), "drop_on_send": rng.choice(["true", "false"])}
                if rng.random() < 0.7:
                    p["rngseed"] = str(rng.choice([1, 7, 12345, 4294967295, rng.randint(1, M32)]))
                if rng.random() < 0.3:
                    p["verbose"] = "true"
                t = "sst.portmodules.random_drop"
            else:
                m = rng.choice([1, 2, 3, 7, 10])
                p = {"side": rng.choice([1, 1, 2, 2, 3, 3, 0]), "a": rng.randint(0, 5), "m": m, "add": rng.choice([0, 1, 1000, 2 ** 33]), "null": rng.choice(["true", "false"]),
                     "id": "m%d" % len(s["mods"])}
                for k in ("drop", "replace", "change"):
                    q = [x for x in range(m) if rng.random() < (0.2 if k == "drop" else 0.35)]
                    if q and rng.random() < 0.8:
                        p[k] = str(q)
                p = {k: str(v) for k, v in p.items()}
                t = "vupm.mod"
            st = ["observed", "dropped"] if t[0] == "s" else ["seen", "dropped"]
            s["mods"].append({"at": list(e), "type": t, "params": p, "how": rng.choice(["args", "add"]), "stats": rng.choice(["all", "all", st, [], st[1:]])})
    span = rng.choice([10, 50, 300])
    for ci, c in enumerate(s["comps"]):
        L = [(el, p) for k, el, p in ends if k == ci]
        for _ in range(rng.choice([0, 3, 10, 25])):
            el, p = rng.choice(L)
            c["acts"].append([rng.randint(0, span), el, p, rng.randint(0, 60), rng.choice([0, 0, 1, 3, 6]), rng.choice([0, 0, 0, 1, 13])])
    if s["shape"] != [1, 1] and rng.random() < 0.6:
        R, T = s["shape"]
        for k, c in enumerate(s["comps"]):
            c["rank"] = [k % R, k // R % T] if k < R * T else [rng.randrange(R), rng.randrange(T)]
    if rng.random() < 0.4:
        s["restart"] = list(rng.choice([s["shape"], s["shape"], [1, 1]]))
        s["period"] = max(1, rng.randint(1, span) // rng.choice([1, 2, 4]))
        s["pick"] = rng.random()
    return s


def jcfg(s, stats):
    """the scenario as a JSON configuration"""
    C, nm = [], element_names(s)

    def mods(ci, els):
        r = []
        for m in s["mods"]:
            if m["at"][0] == ci and m["at"][1] in els:
                x = {"port": m["at"][2], "type": m["type"], "params": m["params"]}
                st = m["stats"]
                if st == "all":
                    st = ["observed", "dropped"] if m["type"][0] == "s" else ["seen", "dropped"]
                if st:
                    x["statistics"] = [{"name": q} for q in st]
                r.append(x)
        return r
    for ci, c in enumerate(s["comps"]):
        p = {"ports": " ".join(c["ports"]), "acts": ";".join(" ".join(str(w) for w in a) for a in c["acts"])}
        na = len(c["anon"])
        if na:
            p["anon"] = "[" + ",".join('"' + " ".join(a) + '"' for a in c["anon"]) + "]"
        x = {"name": c["name"], "type": "vupm.comp", "params": p}
        y = {"port_modules": mods(ci, range(na + 1)), "subcomponents": []}
        for k, ps in enumerate(c["sub"]):
            z = {"slot_name": "slot", "slot_number": k, "type": "vupm.sub", "params": {"ports": " ".join(ps)}, "port_modules": mods(ci, [1 + na + k])}
            y["subcomponents"].append({q: w for q, w in z.items() if w != []})
        if ci % 2:
            y = dict(reversed(list(y.items())))
        x.update({q: w for q, w in y.items() if w != []})
        if c.get("rank") is not None:
            x["partition"] = {"rank": c["rank"][0], "thread": c["rank"][1]}
        C.append(x)

    def end(e, lat):
        c = s["comps"][e[0]]
        na = len(c["anon"])
        return {"component": c["name"] if e[1] <= na else "%s:slot[%d]" % (c["name"], e[1] - 1 - na), "port": e[2], "latency": "%dps" % lat}
    return {"program_options": {"timebase": "1ps"},
            "statistics_options": {"statisticLoadLevel": 5, "statisticOutput": "sst.statOutputCSV", "params": {"filepath": stats, "separator": ";"}},
            "components": C,
            "links": [{"name": "l%d" % i, "left": end(l[0], l[1]), "right": end(l[2], l[3])} for i, l in enumerate(s["links"])]}


def model(s):
    """returns logs (handlers and modules), untimed, statistics, last time"""
    peer, tag = {}, {}
    for a, la, b, lb in s["links"]:
        # the latency of a direction is the sum given at its sending side in connect()
        peer[tuple(a)] = (tuple(b), la)
        peer[tuple(b)] = (tuple(a), lb)
    own = {}
    for ci, c in enumerate(s["comps"]):
        k = 0
        for el, ps in enumerate([c["ports"]] + c["anon"] + c["sub"]):
            own[(ci, el)] = ps
            for p in ps:
                tag[(ci, el, p)] = k
                k += 1
    mods = {}
    for i, m in enumerate(s["mods"]):
        p = m["params"]
        st = {"n": 0, "drop": 0, "i": i}
        if m["type"] == "vupm.mod":
            st["side"] = int(p["side"])
            for k in ("drop", "replace", "change"):
                st["L" + k] = json.loads(p.get(k, "[]"))
        else:
            st["side"] = 2 if p["drop_on_send"] == "true" else 1
            st["rng"] = Marsaglia(int(p.get("rngseed", 7)), 13)
            st["prob"] = float(p["drop_prob"])
        mods.setdefault(tuple(m["at"]), []).append((m, st))
    name = element_names(s)
    log, cnt = {}, {"drop": 0, "change": 0, "replace": 0, "seen": 0}

    def through(end, side, t, v, kind):
        where = "%s/%s" % (name[end[:2]], end[2])
        for k, (m, st) in enumerate(mods.get(end, [])):
            if not st["side"] & side:
                continue
            st["n"] += 1
            cnt["seen"] += 1
            if "rng" in st:
                if st["rng"].uniform() < st["prob"]:
                    st["drop"] += 1
                    cnt["drop"] += 1
                    return None
                continue
            p = m["params"]
            h = (v * 7 + (st["n"] - 1) * int(p["a"])) % 2 ** 64 % int(p["m"])
            log.setdefault("pm_" + p["id"], []).append((t, "%s %d %d %d" % ("R" if side == 1 else "S", t, v, st["n"])))
            if h in st["Ldrop"]:
                st["drop"] += 1
                cnt["drop"] += 1
                return None
            if h in st["Lchange"]:
                v = (v + int(p["add"])) % 2 ** 64
                cnt["change"] += 1
            if h in st["Lreplace"]:
                v ^= 0x5a5a
                kind = "other"
                cnt["replace"] += 1
        return v, kind

    h, seq, last = [], 0, 0

    def send(end, t, v, hops, delay):
        nonlocal seq
        r = through(end, 2, t, v, "ev")
        if r is None:
            return
        dst, lat = peer[end]
        seq += 1
        heapq.heappush(h, (t + delay + lat, dst[0], tag[dst], seq, "R", (dst, r[0], hops, r[1])))

    for ci, c in enumerate(s["comps"]):
        for ai, a in enumerate(c["acts"]):
            if a[2] != "end":
                heapq.heappush(h, (a[0], ci, 999, ai - 10 ** 9, "A", a))
    while h:
        t, ci, _, _, k, x = heapq.heappop(h)
        last = t
        if k == "A":
            send((ci, x[1], x[2]), t, x[3], x[4], x[5])
            continue
        dst, v, hops, kind = x
        r = through(dst, 1, t, v, kind)
        if r is None:
            continue
        v, kind = r
        log.setdefault(name[dst[:2]], []).append((t, "R %s %d %d %d %s" % (dst[2], t, v, hops, kind)))
        if hops > 0:
            ps = own[dst[:2]]
            send(dst[:2] + (ps[v % len(ps)],), t, (v + 1) % 2 ** 64, hops - 1, 0)
    return log, mods, cnt, last, name


def element_names(s):
    r = {}
    for ci, c in enumerate(s["comps"]):
        r[(ci, 0)] = c["name"]
        for k in range(len(c["anon"])):
            r[(ci, 1 + k)] = c["name"]    # anonymous subcomponents go by the name of their parent
        for k in range(len(c["sub"])):
            r[(ci, 1 + len(c["anon"]) + k)] = "%s:slot[%d]" % (c["name"], k) if len(c["sub"]) > 1 else "%s:slot" % c["name"]
    return r


def check_logs(s, o, what, got, M, t0):
    log, mods, cnt, last, name = M
    for e in sorted(set(name.values()) | {"pm_" + m["params"]["id"] for m in s["mods"] if "id" in m["params"]}):
        want = [x for t, x in log.get(e, []) if t >= t0]
        L = got.get(e, [])
        have = [l for l in L if l[:2] in ("R ", "S ")]
        if e.startswith("pm_"):
            have = [" ".join(l.split(" ")[:4]) for l in have]
        if have != want:
            k = next((i for i, (a, b) in enumerate(zip(have, want)) if a != b), min(len(have), len(want)))
            o.fail(s, what + ("-module" if e.startswith("pm_") else "-handler"), "%s: event %d is %r instead of %r (%d of %d)" % (e, k, have[k:k + 1], want[k:k + 1], len(have), len(want)))
            return False
        if any(l.startswith("missing") for l in L):
            o.fail(s, what + "-port", "%s: %s" % (e, L[0]))
            return False
    for at, ms in mods.items():
        nm = name[at[:2]]
        for k, (m, st) in enumerate(ms):
            if "id" not in m["params"]:
                continue
            L = got.get("pm_" + m["params"]["id"], [])
            full = "%s.%s.%d" % (nm, at[2], k)
            if t0 == 0:
                reg = sorted(l for l in L if l[:2] in ("r ", "s "))
                want = sorted("%s %s/%s %s" % (q, nm, at[2], full) for q, b in (("r", 1), ("s", 2)) if st["side"] & b)
                if reg != want:
                    o.fail(s, what + "-install", "module %s: installed as %s instead of %s" % (full, reg, want))
                    return False
            for l in L:
                w = l.split(" ")
                if w[0] in "RS" and (w[4:] != ["%s/%s" % (nm, at[2]), full, "17" if w[0] == "R" else "18"]):
                    o.fail(s, what + "-metadata", "module %s: %s" % (full, l))
                    return False
    return True


def check_stats(s, o, what, files, M):
    log, mods, cnt, last, name = M
    rows = {}
    for f in files:
        with open(f) as fh:
            rd = list(csv.reader(fh, delimiter=";"))
        if not rd:
            continue
        head = [x.strip() for x in rd[0]]
        for r in rd[1:]:
            d = dict(zip(head, [x.strip() for x in r]))
            rows.setdefault((d["ComponentName"], d["StatisticName"]), []).append(d)
    want = {}
    for at, ms in mods.items():
        for k, (m, st) in enumerate(ms):
            if not m["stats"]:
                continue
            full = "%s.%s.%d" % (name[at[:2]], at[2], k)
            a, b = ("observed", "dropped") if "rng" in st else ("seen", "dropped")
            for q, v in ((a, st["n"]), (b, st["drop"])):
                if (m["stats"] == "all" or q in m["stats"]) and (st["side"] or what == "run"):
                    want[(full, q)] = v
    have = {}
    for k, v in rows.items():
        d = v[-1]
        x = [z for y, z in d.items() if y.startswith("Sum.")]
        have[k] = (len(v), sorted(int(z) for z in x if z))
    # modules without statistics of their own follow the global level
    bad = {k: (v, have.get(k)) for k, v in want.items() if have.get(k, (0, []))[0] != 1 or v not in have[k][1]}
    if bad:
        o.fail(s, what + "-statistics", "statistics (expected, reported): %s; all: %s" % (bad, sorted(have.items())[:20]))
        return False
    return True


def run_case(s):
    o = Out()
    o.n = 1
    R, T = s["shape"]
    M = model(s)
    log, mods, cnt, last, name = M
    d = sstrun.scratch("c24")
    try:
        j = copy.deepcopy(s)
        j["stats"] = d + "/stats.csv"
        for c in j["comps"]:
            c["acts"].append([last + 1, 0, "end", 0, 0, 0])
            if R * T == 1:
                c.pop("rank", None)
        if s["json"]:
            json.dump(jcfg(j, j["stats"]), open(d + "/sc.json", "w"))
            cfg = [d + "/sc.json"]
        else:
            json.dump(j, open(d + "/sc.json", "w"))
            cfg = [build.VERIF + "/vlib/pmcfg.py", "--model-options=" + d + "/sc.json"]
        os.makedirs(d + "/out")
        args = []
        if any(c.get("rank") for c in j["comps"]):
            args.append("--partitioner=sst.self")
        elif R * T > 1:
            args.append("--partitioner=sst.roundrobin")
        if s["restart"]:
            args.append("--checkpoint-sim-period=%dps" % s["period"])
        r = sstrun.sst(d, args + cfg, R, T, extra_env={"VERIF_OUT": d + "/out"}, timeout=60)
        got = sstrun.read_logs(d + "/out")
        o.cls("%dx%d" % (R, T))
        o.cls("json" if s["json"] else "python")
        if r.rc != 0 or r.timeout:
            o.fail(s, "crash", "rc %s %s: %s" % (r.rc, "timeout" if r.timeout else "", r.out[-1200:]))
            return o
        # untimed data is not intercepted
        for (ci, el), nm in name.items():
            u = sorted(l for l in got.get(nm, []) if l.startswith("U "))
            c = s["comps"][ci]
            w = sorted("U %s 4242" % p for e2, ps in enumerate([c["ports"]] + c["anon"] + c["sub"]) if name[(ci, e2)] == nm for p in ps)
            if u != w:
                o.fail(s, "untimed", "%s: untimed data %s instead of %s" % (nm, u, w))
                return o
        if not check_logs(s, o, "run", got, M, 0):
            return o
        n = sum(st["drop"] for ms in mods.values() for m, st in ms if m["params"].get("verbose") == "true")
        if r.out.count(": Dropping event on ") != n:
            o.fail(s, "verbose", "%d dropped events were announced instead of %d" % (r.out.count(": Dropping event on "), n))
            return o
        if not check_stats(s, o, "run", glob.glob(d + "/stats*.csv"), M):
            return o
        if s["restart"]:
            cps = sorted((int(os.path.basename(os.path.dirname(f)).split("_")[2]), f) for f in glob.glob(d + "/checkpoint/*/*.sstcpt"))
            cps = [x for x in cps if x[0] <= last]
            if cps:
                t0, f = cps[int(s["pick"] * len(cps))]
                os.makedirs(d + "/out2")
                for x in glob.glob(d + "/stats*.csv"):
                    os.unlink(x)
                R2, T2 = s["restart"]
                r = sstrun.sst(d, [f], R2, T2, extra_env={"VERIF_OUT": d + "/out2"}, timeout=60)
                if r.rc != 0 or r.timeout:
                    o.fail(s, "restart-crash", "restart at %d of %s on %s: rc %s %s: %s" % (t0, s["shape"], s["restart"], r.rc, "timeout" if r.timeout else "", r.out[-1200:]))
                    return o
                if not check_logs(s, o, "restart", sstrun.read_logs(d + "/out2"), M, t0):
                    return o
                if not check_stats(s, o, "restart", glob.glob(d + "/stats*.csv"), M):
                    return o
                o.cls("restart")
    finally:
        sstrun.rmtree(d)
    if sum(st["n"] > 0 for ms in mods.values() for m, st in ms) >= 2 and cnt["drop"] + cnt["change"] + cnt["replace"]:
        o.nontrivial.append((R, T, len(s["mods"]), cnt["drop"], cnt["seen"]))
    o.sample = {"shape": s["shape"], "modules": ["%s on %s side %s" % (m["type"], m["at"], m["params"].get("side")) for m in s["mods"]][:6], "counts": cnt, "restart": s["restart"]}
    return o


def shrink(s):
    if s["restart"]:
        n = copy.deepcopy(s)
        n["restart"] = None
        yield n
    if s["shape"] != [1, 1]:
        n = copy.deepcopy(s)
        n["shape"] = [1, 1]
        if n["restart"]:
            n["restart"] = [1, 1]
        yield n
    for k in range(len(s["mods"])):
        n = copy.deepcopy(s)
        del n["mods"][k]
        yield n
    for ci in range(len(s["comps"])):
        for ai in range(len(s["comps"][ci]["acts"])):
            n = copy.deepcopy(s)
            del n["comps"][ci]["acts"][ai]
            yield n
