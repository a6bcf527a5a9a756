"""C01: exactly-once, on-time, correctly ordered event delivery (serial), against refsim."""
from vlib import gensim, refsim, sstrun
from vlib.check import Out

PID = "C01"
LIBS = ["vtest"]
RULE = ("random component graphs (ports, self links, polling links, subcomponents, clocks, added latencies, null events) whose "
        "agents send hash-driven traffic; the complete per-component delivery log is compared with an independent reference "
        "simulator. Non-trivial: at least 20 deliveries and at least one same-time same-component tie.")
N = {"quick": 700, "thorough": 6000}
TIME = {"quick": 150, "thorough": 2400}


def gen(rng, i, tier):
    s, sim, ref = gensim.bounded(rng, lim=4000 if tier == "quick" else 20000, multi_ok=False,
                                 ncomp=(1, 7) if rng.random() < 0.8 else (6, 14))
    return s


def kind(x, y):
    a, b = x.split(" ")[0], y.split(" ")[0]
    return a if a == b else a + "/" + b


def run_case(s):
    o = Out()
    o.n = 1
    sim = refsim.Sim(s)
    try:
        ref = sim.run()
    except (OverflowError, RuntimeError, KeyError):
        return o
    d = sstrun.scratch("c01")
    try:
        r, logs = sstrun.run_scenario(s, d)
    finally:
        sstrun.rmtree(d)
    if r.timeout:
        o.fail(s, "timeout", "simulation did not finish in 120 s (reference: %d activities)" % sim.stats["acts"])
        return o
    if r.rc != 0:
        o.fail(s, "crash", "sst exited with %s: %s" % (r.rc, r.out[-1500:]))
        return o
    df = gensim.diff(ref, logs)
    if df:
        o.fail(s, "trace", "component %s log line %d: expected %r, observed %r" % df)
    if sim.stats["events"] >= 20 and sim.stats["ties"] >= 1:
        o.nontrivial.append((sim.stats, sim.end, sorted(map(len, ref.values()))))
    o.cls("events", sim.stats["events"])
    o.cls("ticks", sim.stats["ticks"])
    o.cls("ties", sim.stats["ties"])
    for c in s["comps"]:
        if c.get("subs"):
            o.cls("with_subcomponents")
            break
    if any(":P:" in a["params"]["ports"] for c in s["comps"] for a in [c] + c.get("subs", [])):
        o.cls("with_polling")
    o.sample = {"comps": len(s["comps"]), "links": len(s["links"]), "events": sim.stats["events"], "end": sim.end,
                "first_log": {k: v[:6] for k, v in list(ref.items())[:1]}}
    return o


shrink = gensim.shrink
