"""C02: the partitioning of a simulation (ranks, threads, partitioner, event queue, interthread
links) is invisible to the components.  Oracle: the reference simulator."""
from vlib import gensim, refsim, sstrun
from vlib.check import Out

PID = "C02"
LIBS = ["vtest"]
RULE = ("random simulation program x random execution configuration (1-4 MPI ranks x 1-4 threads, 5 partitioners or explicit placement, "
        "timeVortex, interthread links); every component's log must equal the serial reference up to the simulation end. "
        "Non-trivial: >=2 partitions in use, >=20 deliveries and at least one event crossing partitions.")
N = {"quick": 320, "thorough": 4000}
TIME = {"quick": 200, "thorough": 2700}
JOBS = 5
CONFIRM = (2, 8)
AG = "vtest.agent"
# partitions without any cut link are simulated as independent threads: see known_findings.json
FIXED = [
    {"known": "independent-end", "limit": 30, "opts": {"timebase": "1ns", "stop-at": "700ns"}, "links": [],
     "comps": [{"name": "c0", "type": AG, "params": {"seed": 5, "okat": "300"}, "rank": [0, 0]},
               {"name": "c1", "type": AG, "params": {"seed": 6, "okat": "900"}, "rank": [1, 2]}],
     "ex": {"ranks": 2, "threads": 3, "part": "self"}},
    {"known": "independent-hang", "limit": 8, "opts": {"timebase": "1ns"}, "links": [],
     "comps": [{"name": "c0", "type": AG, "params": {"seed": 5, "okat": "300"}, "rank": [0, 0]},
               {"name": "c1", "type": AG, "params": {"seed": 6, "clocks": "10ns:F:1:1:0"}, "rank": [0, 1]}],
     "ex": {"ranks": 1, "threads": 2, "part": "self"}},
    # a multi-threaded rank without cross-rank links
    {"opts": {"timebase": "1ns"}, "links": [{"name": "l", "a": ["c0", "p0", "1ns"], "b": ["c1", "p0", "1ns"]}],
     "comps": [{"name": "c0", "type": AG, "params": {"seed": 5, "okat": "300", "ports": "p0:H:1ns:-:-"}, "rank": [0, 0]},
               {"name": "c1", "type": AG, "params": {"seed": 6, "ports": "p0:H:1ns:-:-"}, "rank": [2, 1]}],
     "ex": {"ranks": 3, "threads": 2, "part": "self"}},
    # direct interthread links with a minimum latency of one core cycle
    {"opts": {"timebase": "1ns"}, "links": [{"name": "l", "a": ["c0", "p0", "1ns"], "b": ["c1", "p0", "1ns"]}],
     "comps": [{"name": "c0", "type": AG, "params": {"seed": 5, "untp": 0, "ttl": 50, "fan": 0, "drop": 0, "okat": "300", "ports": "p0:H:1ns:-:-"}, "rank": [0, 0]},
               {"name": "c1", "type": AG, "params": {"seed": 6, "untp": 0, "ttl": 50, "fan": 0, "ports": "p0:H:1ns:-:-"}, "rank": [0, 1]}],
     "ex": {"ranks": 1, "threads": 2, "part": "self", "itl": True}},
]
SHAPES = [(1, 2), (1, 2), (1, 3), (1, 4), (2, 1), (2, 1), (3, 1), (2, 2), (2, 2), (4, 1), (2, 3), (3, 2)]


def gen(rng, i, tier):
    r, t = rng.choice(SHAPES)
    itl = t > 1 and rng.random() < 0.3
    s, sim, ref = gensim.bounded(rng, lim=3000 if tier == "quick" else 10000, multi_ok=False,
                                 ncomp=(2, 7) if rng.random() < 0.8 else (6, 14), latmax=12,
                                 polling=True, untimed=not itl, connected=True)
    if rng.random() < 0.5 and "stop-at" not in s["opts"]:
        # a stop time inside the run: both ends are then specified exactly
        e = sim.end
        core = refsim.seconds("1fs")
        s["opts"]["stop-at"] = "%dfs" % int(max(1, rng.randint(1, max(1, e))) * (sim.tb / core))
    part = rng.choice(["linear", "roundrobin", "self", "self", "self", "simple"])
    ex = {"ranks": r, "threads": t, "part": part}
    if part == "self":
        for c in s["comps"]:
            c["rank"] = [rng.randrange(r), rng.randrange(t)]
        # keep at least two partitions in use
        s["comps"][0]["rank"], s["comps"][-1]["rank"] = [0, 0], [r - 1, t - 1]
    if rng.random() < 0.3 and not itl:
        ex["tv"] = rng.choice(["sst.timevortex.priority_queue", "sst.timevortex.map.binned"])
    if itl:
        # direct interthread links do not support untimed data (EXPERIMENTAL option)
        ex["itl"] = True
    # (no "nocut" links here: they can pull everything onto one thread, which then ends on its own, one cycle
    # earlier than the serial run - see the known findings; C11 covers the nocut guarantee)
    for l in s["links"]:
        l.pop("nocut", None)
    if rng.random() < 0.5:
        # schedule perturbation: handlers sleep now and then
        ex["jit"] = "%d,%d,%d" % (rng.randrange(1 << 30), rng.choice([5, 20, 60]), rng.choice([1, 30, 200]))
    if rng.random() < 0.4:
        # large payloads, so that the exchange buffers between ranks have to grow
        ex["pad"] = rng.choice([300, 2000, 6000])
    s["ex"] = ex
    return s


def when(l):
    f = l.split(" ")
    if f[0] in ("E", "N"):
        return int(f[2])
    if f[0] in ("T", "K", "W", "A+", "A-", "WACT", "S"):
        return int(f[1])
    if f[0] in ("i", "Ui", "NOLINK"):
        return 0
    if f[0] in ("c", "Uc", "F"):
        return None
    return 0


def cut(log, end):
    return [l for l in log if when(l) is not None and when(l) <= end]


def args_of(s):
    ex = s["ex"]
    a = ["--partitioner=sst." + ex["part"]]
    if ex.get("tv"):
        a.append("--timeVortex=" + ex["tv"])
    if ex.get("itl"):
        a.append("--interthread-links")
    return a


def run_case(s):
    o = run_case_(s)
    if s.get("known"):
        o.fails = [(c, s["known"], m) for c, k, m in o.fails]
    return o


def run_case_(s):
    o = Out()
    o.n = 1
    sim = refsim.Sim(s)
    try:
        ref = sim.run()
    except (OverflowError, RuntimeError, KeyError):
        return o
    ex = s["ex"]
    d = sstrun.scratch("c02")
    try:
        r, logs = sstrun.run_scenario(s, d, args_of(s), ranks=ex["ranks"], threads=ex["threads"], timeout=s.get("limit", 90),
                                       extra_env={k: str(ex[x]) for k, x in (("VT_JITTER", "jit"), ("VT_PAD", "pad")) if ex.get(x)})
    finally:
        sstrun.rmtree(d)
    if r.timeout:
        o.fail(s, "timeout", "parallel simulation did not finish in 90 s (reference: %d activities): %s" % (sim.stats["acts"], r.out[-300:]))
        return o
    if r.rc != 0:
        o.fail(s, "crash", "sst exited with %s: %s" % (r.rc, r.out[-1500:]))
        return o
    exact = sim.ended == "stop"
    if not exact:
        a = {k: cut(v, sim.end) for k, v in ref.items()}
        b = {k: cut(v, sim.end) for k, v in logs.items()}
    else:
        a, b = ref, logs
    df = gensim.diff(a, b)
    if df:
        o.fail(s, "trace", "component %s log line %d: expected %r, observed %r" % df)
    elif not exact:
        for k, v in logs.items():
            f = [l for l in v if l.startswith("F ")]
            if len(f) != 1:
                o.fail(s, "finish", "component %s finish() called %d times" % (k, len(f)))
            elif f[0].split(" ")[2] != str(sim.end):
                o.fail(s, "endtime", "component %s saw end time %s, expected %d" % (k, f[0], sim.end))
    multi = ex["ranks"] * ex["threads"] > 1 and len(s["comps"]) > 1
    if multi and sim.stats["events"] >= 20 and s["links"]:
        o.nontrivial.append((sim.stats, sim.end, sorted(map(len, ref.values())), ex))
    o.cls("%dx%d" % (ex["ranks"], ex["threads"]))
    o.cls("part_" + ex["part"])
    o.cls("exact" if exact else "prefix")
    if ex.get("itl"):
        o.cls("interthread_links")
    if ex.get("pad"):
        o.cls("large_payloads")
    if ex.get("jit"):
        o.cls("perturbed_schedule")
    o.cls("events", sim.stats["events"])
    o.sample = {"comps": len(s["comps"]), "links": len(s["links"]), "events": sim.stats["events"], "end": sim.end, "ex": ex}
    return o


def shrink(s):
    for n in gensim.shrink(s):
        if gensim.connected(n):
            yield n
    import copy
    for k in ("tv", "itl", "jit", "pad"):
        if k in s["ex"]:
            n = copy.deepcopy(s)
            del n["ex"][k]
            yield n
    for l in range(len(s["links"])):
        if s["links"][l].get("nocut"):
            n = copy.deepcopy(s)
            del n["links"][l]["nocut"]
            yield n
