"""C11: every partitioner puts every component somewhere valid (no-cut links uncut, parts balanced as documented, given ranks kept), the
partition is invisible to the simulation, and the partition sst writes out can be loaded again, whole or in parallel."""
import json, os
from vlib import build, sstrun
from vlib.check import Out
import c10

PID = "C11"
LIBS = ["vucf"]
RULE = ("random configurations (as for C10, with no-cut links, subcomponent links, weights) x ranks x threads x partitioner; placement and every delivery are compared "
        "to the model; the written partition is loaded again. Non-trivial: at least four components, more than one part and at least one link between components.")
N = {"quick": 200, "thorough": 1200}
TIME = {"quick": 150, "thorough": 2400}
SHAPES = [(1, 2), (2, 1), (2, 2), (1, 4), (3, 1), (2, 3), (1, 3), (4, 1), (3, 2)]


def gen(rng, i, tier):
    while True:
        s = c10.gen(rng, i, tier)
        if len(s["comps"]) >= 2 or rng.random() < 0.1:
            break
    for k in ("groups", "statout", "statlevel"):
        s.pop(k, None)
    # a few more plain components and links between top level components
    names = [c["name"] for c in s["comps"]]
    for _ in range(rng.choice([0, 0, 2, 5, 11])):
        n = c10.name(rng, names)
        names.append(n)
        s["comps"].append({"params": [], "sets": [], "form": 0, "subs": [], "stats": [], "name": n, "pms": [], "shstats": []})
    used = {(e[0], e[1]) for l in s["links"] for e in (l["a"], l["b"])}
    lnames = {l["name"] for l in s["links"]}
    for _ in range(rng.randint(1, 2 * len(names))):
        e = []
        for _ in range(2):
            c = rng.choice(names)
            f = [q for q in range(12) if (c, "p%d" % q) not in used]
            if not f:
                break
            q = "p%d" % rng.choice(f)
            used.add((c, q))
            e.append([c, q, "%d ns" % rng.randint(1, 3000)])
        if len(e) == 2:
            n = c10.name(rng, lnames)
            lnames.add(n)
            s["links"].append({"name": n, "nocut": int(rng.random() < 0.25), "a": e[0], "b": e[1], "form": rng.randrange(2)})
    for c in s["comps"]:
        # nothing in this model may end the simulation before stop-at
        c["params"] = [list(p) for p in c["params"] if p[0] != "verif_primary"] + [["verif_primary", 1]]
        for x in nodes(c):
            # nothing but rank 0 writes statistics
            x["stats"], x["level"], x["allstats"], x["shstats"] = [], None, None, []
        for p in c["pms"]:
            p[3] = None
    part = rng.choice(["linear", "roundrobin", "simple", "self", "self", "single"])
    s["opts"]["partitioner"] = "sst." + part
    s["opts"]["stop-at"] = rng.choice(["5 us", "60us"])
    s["shape"] = list(rng.choice(SHAPES))
    R, T = s["shape"]
    groups = components(s)
    at = {g: [rng.randrange(R), rng.randrange(T)] for g in set(groups.values())}
    for c in s["comps"]:
        if part == "self":
            c["rank"] = at[groups[c["name"]]]
    s["load"] = rng.choice(["json", "json", "json-parallel", "python-parallel"])
    s["opts"].pop("output-prefix-core", None)
    return s


def nodes(c):
    yield c
    for x in c["subs"]:
        yield from nodes(x)


def components(s):
    """name -> representative of its group joined by no-cut links"""
    g = {c["name"]: c["name"] for c in s["comps"]}

    def f(x):
        while g[x] != x:
            x = g[x]
        return x
    for l in s["links"]:
        if l["nocut"]:
            g[f(l["a"][0].split(":")[0])] = f(l["b"][0].split(":")[0])
    return {n: f(n) for n in g}


def placement(logs):
    return {n: tuple(int(x) for x in [q for q in logs[n] if q.startswith("R ")][0].split()[1:]) for n in logs}


def compare(o, s, D, EV, end, logs, what):
    if set(logs) != set(D):
        o.fail(s, what + "-elements", "elements %s instead of %s" % (sorted(logs), sorted(D)))
        return False
    for n in sorted(D):
        a, ev = c10.norm(logs[n])
        w = [x for x in D[n] if not x.startswith("R ")]
        a = [x for x in a if not x.startswith("R ")]
        if what == "json":
            # no coordinates in that format
            w, a = [x for x in w if x[0] != "C"], [x for x in a if x[0] != "C"]
        we = sorted(e for e in EV.get(n, []) if e[0] < end)
        ev = [e for e in ev if e[0] < end]
        if w != a or we != ev:
            x = [(p, q) for p, q in zip(w + we + [None] * 20, a + ev + [None] * 20) if p != q][0]
            o.fail(s, what + "-content", "element %s: expected %r, observed %r" % ((n,) + x))
            return False
    return True


def run_case(s):
    o = Out()
    o.n = 1
    R, T = s["shape"]
    D, EV = c10.model(s)
    part = s["opts"]["partitioner"][4:]
    tb = {"1ps": 1000, "1ns": 10 ** 6, "100fs": 100}[c10.tbname(s)]
    end = int(c10.ps(s["opts"]["stop-at"]) / tb)
    groups = components(s)
    d = sstrun.scratch("c11")
    try:
        json.dump(s, open(d + "/sc.json", "w"))
        par = s["load"].endswith("-parallel")
        kind = s["load"].split("-")[0]
        ext = {"json": "json", "python": "py"}[kind]
        out = ["--output-%s=o.%s" % ("json" if kind == "json" else "config", ext)] + ["--output-partition"] + (["--parallel-output"] if par else [])

        def go(tag, args):
            w = os.path.join(d, tag)
            os.makedirs(w + "/out")
            r = sstrun.sst(w, args, R, T, extra_env={"VERIF_OUT": w + "/out"}, timeout=100)
            return w, r, sstrun.read_logs(w + "/out")
        w0, r0, logs = go("w0", out + [build.VERIF + "/vlib/cfg10.py", "--model-options=" + d + "/sc.json"])
        if r0.timeout or r0.rc != 0:
            o.fail(s, "run-crash", "sst with %d ranks, %d threads and %s ended with %s%s: %s" % (R, T, part, r0.rc, " timeout" if r0.timeout else "", r0.out[-1200:]))
            return o
        if not compare(o, s, D, EV, end, logs, "run"):
            return o
        P = placement(logs)
        for n, (r, t) in P.items():
            if r >= R or t >= T:
                o.fail(s, "range", "%s was placed on %d,%d of %d,%d" % (n, r, t, R, T))
                return o
            if P[n.split(":")[0]] != (r, t):
                o.fail(s, "subcomponent", "%s is not on the rank and thread of its component" % n)
                return o
        for n, g in groups.items():
            if P[n] != P[g]:
                o.fail(s, "no-cut", "%s: %s and %s are connected by no-cut links but placed on %s and %s" % (part, n, g, P[n], P[g]))
                return o
        gs = sorted(set(groups.values()))
        cnt = {}
        for g in gs:
            cnt[P[g]] = cnt.get(P[g], 0) + 1
        parts, n = R * T, len(gs)
        if part == "self":
            bad = [c["name"] for c in s["comps"] if P[c["name"]] != tuple(c["rank"])]
            if bad:
                o.fail(s, "self", "%s: placed on %s, configured otherwise" % (bad[0], P[bad[0]]))
        elif part == "single":
            if set(P.values()) != {(0, 0)}:
                o.fail(s, "single", "placement %s" % P)
        elif part in ("linear", "roundrobin"):
            # as even as possible
            have = sorted(cnt.get((r, t), 0) for r in range(R) for t in range(T))
            if have[-1] - have[0] > 1:
                o.fail(s, "balance", "%s: %d components joined into %d groups were spread as %s over %d ranks of %d threads" % (part, len(groups), n, have, R, T))
        elif part == "simple":
            p2 = 1
            while p2 < parts:
                p2 *= 2
            if n >= p2 and len(cnt) < parts:
                o.fail(s, "balance", "simple: %d groups leave parts of %d x %d empty: %s" % (n, R, T, cnt))
        if o.fails:
            return o
        # the written partition
        args = (["--parallel-load=MULTI"] if par else ["--partitioner=sst.self"]) + [w0 + "/o." + ext]
        w1, r1, logs1 = go("w1", args)
        if r1.timeout or r1.rc != 0:
            o.fail(s, s["load"] + "-crash", "loading the written partition ended with %s%s: %s" % (r1.rc, " timeout" if r1.timeout else "", r1.out[-1200:]))
            return o
        if not compare(o, s, D, EV, end, logs1, kind):
            return o
        P1 = placement(logs1)
        if P1 != P:
            x = [n for n in P if P[n] != P1[n]][0]
            o.fail(s, s["load"] + "-placement", "%s: written from a run with it on %s, loaded on %s" % (x, P[x], P1[x]))
    finally:
        sstrun.rmtree(d)
    if len(s["comps"]) >= 4 and R * T > 1 and any(l["a"][0].split(":")[0] != l["b"][0].split(":")[0] for l in s["links"]):
        o.nontrivial.append((part, R, T, len(s["comps"]), len(gs)))
    o.cls(part)
    o.cls(s["load"])
    o.cls("cut_links", sum(P[l["a"][0].split(":")[0]] != P[l["b"][0].split(":")[0]] for l in s["links"]))
    o.sample = {"shape": s["shape"], "partitioner": part, "placement": {n: P[n] for n in list(groups)[:8]}}
    return o


def shrink(s):
    yield from c10.shrink(s)
