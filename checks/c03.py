"""C03: checkpoints are transparent, and a restart from any checkpoint with any parallelism continues exactly."""
import os, shutil, glob
from vlib import gensim, refsim, sstrun
from vlib.check import Out
import c02

PID = "C03"
LIBS = ["vtest"]
RULE = ("random simulation program x execution configuration x checkpoint period x restart configuration; the checkpointing run and every "
        "restarted run must give all components the reference log. Non-trivial: a restart from a checkpoint taken strictly inside the run with "
        ">=5 deliveries after it.")
N = {"quick": 220, "thorough": 3000}
TIME = {"quick": 200, "thorough": 2700}
JOBS = 5
CONFIRM = (2, 6)
SHAPES = [(1, 1)] * 5 + [(1, 2)] * 2 + [(1, 3), (2, 1), (2, 1), (3, 1), (2, 2), (1, 4)]


def pick_ex(rng):
    r, t = rng.choice(SHAPES)
    return {"ranks": r, "threads": t, "part": rng.choice(["linear", "roundrobin", "simple"])}


def gen(rng, i, tier):
    ex = pick_ex(rng)
    s, sim, ref = gensim.bounded(rng, lim=1500 if tier == "quick" else 6000, multi_ok=False,
                                 ncomp=(2, 6), latmax=10, connected=True)
    for l in s["links"]:
        l.pop("nocut", None)
    e = max(4, sim.end)
    core = sim.tb / refsim.seconds("1fs")
    s["cp"] = "%dfs" % int(max(1, rng.randint(max(1, e // 6), max(1, e // 2))) * core)
    if rng.random() < 0.3 and "stop-at" not in s["opts"]:
        s["opts"]["stop-at"] = "%dfs" % int(max(1, rng.randint(1, e)) * core)
    if rng.random() < 0.35:
        ex["tv"] = rng.choice(["sst.timevortex.priority_queue", "sst.timevortex.map.binned"])
    for c in s["comps"]:
        for a in [c] + c.get("subs", []):
            if rng.random() < 0.3:
                a["params"]["rng"] = 1
    s["ex"] = ex
    k = rng.random()
    if k < 0.4:
        s["rex"] = dict(ex)
    elif k < 0.55:
        s["rex"] = {"ranks": 1, "threads": 1}
    elif k < 0.65 and ex["ranks"] != ex["threads"]:
        s["rex"] = {"ranks": ex["threads"], "threads": ex["ranks"]}
    else:
        s["rex"] = pick_ex(rng)
    s["which"] = [rng.randrange(100) for _ in range(1 if rng.random() < 0.6 else 2)]
    return s


def compare(o, s, sim, ref, logs, what):
    exact = sim.ended == "stop"
    if exact:
        a, b = ref, logs
    else:
        a = {k: c02.cut(v, sim.end) for k, v in ref.items()}
        b = {k: c02.cut(v, sim.end) for k, v in logs.items()}
    df = gensim.diff(a, b)
    if df:
        o.fail(s, what + "-trace", "%s: component %s log line %d: expected %r, observed %r" % ((what,) + df))
        return False
    if not exact:
        for k, v in logs.items():
            f = [l for l in v if l.startswith("F ")]
            if len(f) != 1 or f[0].split(" ")[2] != str(sim.end):
                o.fail(s, what + "-end", "%s: component %s finish lines %s, expected end time %d" % (what, k, f, sim.end))
                return False
    return True


def run_case(s):
    o = Out()
    o.n = 1
    sim = refsim.Sim(s)
    try:
        # "rng" mixes random numbers drawn from serialized generators into the state: not modelled, so the
        # reference then is the plain serial run
        if any(a["params"].get("rng") for c in s["comps"] for a in [c] + c.get("subs", [])):
            ref = None
        ref0 = sim.run()
    except (OverflowError, RuntimeError, KeyError):
        return o
    ex, rex = s["ex"], s["rex"]
    d = sstrun.scratch("c03")
    try:
        withrng = any(a["params"].get("rng") for c in s["comps"] for a in [c] + c.get("subs", []))
        if withrng:
            r, ref = sstrun.run_scenario(s, d, [], timeout=60)
            if r.rc != 0 or r.timeout:
                o.fail(s, "plain-crash", "plain run: rc %s %s" % (r.rc, r.out[-800:]))
                return o
            # end time of the plain run
            ends = {l.split(" ")[2] for v in ref.values() for l in v if l.startswith("F ")}
            sim.end = int(ends.pop())
            shutil.rmtree(d + "/logs")
        else:
            ref = ref0
        args = c02.args_of(s) + ["--checkpoint-sim-period=" + s["cp"], "--output-directory=" + d]
        r, logs = sstrun.run_scenario(s, d, args, ranks=ex["ranks"], threads=ex["threads"], timeout=90)
        if r.timeout or r.rc != 0:
            o.fail(s, "cp-crash", "checkpointing run: rc %s %s %s" % (r.rc, "timeout" if r.timeout else "", r.out[-1000:]))
            return o
        if not compare(o, s, sim, ref, logs, "checkpointing run"):
            return o
        cps = sorted(glob.glob(d + "/checkpoint/*/*.sstcpt"), key=lambda f: int(f.rsplit("_", 1)[1][:-7]))
        nexp = int((sim.end - 1) // (refsim.seconds(s["cp"]) / sim.tb)) if sim.end > 0 else 0
        if len(cps) < nexp:
            o.fail(s, "cp-missing", "expected at least %d checkpoints, found %s" % (nexp, [os.path.basename(c) for c in cps]))
            return o
        o.cls("checkpoints", len(cps))
        if sim.ended != "stop":
            # parallel runs may take one more checkpoint between the end of the simulation and its detection
            cps = [f for f in cps if int(f.rsplit("_", 1)[1][:-7]) <= sim.end]
        for w in s["which"]:
            if not cps:
                break
            f = cps[w % len(cps)]
            t = int(f.rsplit("_", 1)[1][:-7])
            shutil.rmtree(d + "/logs")
            os.makedirs(d + "/logs")
            ra = []
            if rex.get("tv"):
                ra.append("--timeVortex=" + rex["tv"])
            if rex.get("part"):
                ra.append("--partitioner=sst." + rex["part"])
            r = sstrun.sst(d, ra + [f], rex["ranks"], rex["threads"], timeout=90)
            o.n += 1
            if r.timeout or r.rc != 0:
                o.fail(s, "restart-crash", "restart from %s with %s: rc %s %s %s" % (os.path.basename(f), rex, r.rc, "timeout" if r.timeout else "", r.out[-1000:]))
                return o
            if not compare(o, s, sim, ref, sstrun.read_logs(d + "/logs"), "restart"):
                return o
            after = sum(1 for v in ref.values() for l in v if l[0] == "E" and int(l.split(" ")[2]) > t and int(l.split(" ")[2]) <= sim.end)
            if after >= 5:
                o.nontrivial.append((sim.stats, t, ex, rex))
            o.cls("restart %s" % ("same" if (rex["ranks"], rex["threads"]) == (ex["ranks"], ex["threads"]) else
                                  "serial" if rex["ranks"] * rex["threads"] == 1 else
                                  "remap" if rex["ranks"] * rex["threads"] == ex["ranks"] * ex["threads"] else "repartition"))
    finally:
        sstrun.rmtree(d)
    o.cls("%dx%d" % (ex["ranks"], ex["threads"]))
    o.sample = {"comps": len(s["comps"]), "links": len(s["links"]), "events": sim.stats["events"], "end": sim.end, "cp": s["cp"], "ex": ex, "rex": rex}
    return o


def shrink(s):
    import copy
    for n in gensim.shrink(s):
        if gensim.connected(n):
            yield n
    if s["ex"].get("tv"):
        n = copy.deepcopy(s)
        del n["ex"]["tv"]
        yield n
    if len(s["which"]) > 1:
        for w in s["which"]:
            n = copy.deepcopy(s)
            n["which"] = [w]
            yield n
