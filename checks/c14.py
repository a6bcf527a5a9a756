"""C14: SharedArray / SharedMap / SharedSet.  Random scripts of initialize, write and publish operations spread over the components, construction and
init phases of serial, threaded and multi-rank jobs; everything the components see is compared to a model, also after a restart; injected misuse must be
reported."""
import copy, glob, json, os
from vlib import build, sstrun
from vlib.check import Out

PID = "C14"
LIBS = ["vushr"]
RULE = ("random scripts over 2-6 components and 1-5 shared objects of seven types; each read (value, size, published state, iteration, lookup, bounds) during init, setup, run and after a restart is "
        "compared to a model, misuse (conflicting writes, writes after publish or init, mismatched types) must end the run with its error. Non-trivial: an object shared by at least two components with at least three written entries.")
N = {"quick": 250, "thorough": 2500}
TIME = {"quick": 150, "thorough": 2400}
TYPES = ["ai", "ab", "as", "mi", "ms", "si", "sk"]
FAULTS = ["conflict", "published", "late", "lateinit", "twice", "initvalue", "verify", "type"]
SHAPES = [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1), (4, 1), (1, 1), (2, 1)]


def value(rng, t):
    if t == "ai":
        return rng.choice([-1, 7, 2 ** 31 - 1, -2 ** 31, rng.randint(-99, 99)])
    if t == "ab":
        return rng.randint(0, 1)
    if t in ("as", "mi"):
        return "".join(rng.choice("abcXYZ019_") for _ in range(rng.choice([1, 3, 40])))
    if t == "ms":
        return rng.choice([-1, 2 ** 63 - 1, -2 ** 63, rng.randint(-99, 99)])
    if t == "sk":
        return rng.randint(0, 99)
    return "in"


def gen(rng, i, tier):
    n = rng.randint(2, 6)
    R, T = rng.choice(SHAPES)
    P = rng.choice([1, 1, 2, 3, 4])
    objs = []
    for k in range(rng.randint(1, 5)):
        t = rng.choice(TYPES)
        o = {"t": t, "name": rng.choice(["obj", "a.b", "x:y"]) + str(k), "v": rng.choice(["fe", "init", "no"]), "len": rng.choice([1, 3, 8, 30])}
        if t == "ms":
            o["keys"] = rng.sample(["k%d" % q for q in range(30)] + ["Zz", "a" * 50], o["len"])
        elif t in ("ai", "ab", "as"):
            o["keys"] = list(range(o["len"]))
        else:
            o["keys"] = rng.sample(range(-40, 40), o["len"])
        iv = {"ai": rng.choice([0, 0, 5, -3]), "ab": rng.randint(0, 1), "as": rng.choice(["init", "_"])}.get(t, 0)
        o["iv"] = iv
        o["vals"] = []
        for _ in o["keys"]:
            x = value(rng, t)
            while x == iv and t != "ab":
                x = value(rng, t)
            o["vals"].append(x)
        # in-place modification, by one component per entry: not for types whose readers could see a torn value
        o["modify"] = o["v"] == "no" and (t in ("ai", "ab", "ms") or T == 1) and t[0] != "s" and rng.random() < 0.8
        o["owner"] = [rng.randrange(n) for _ in o["keys"]]
        objs.append(o)
    comps = [{"name": "c%d" % k, "ops": []} for k in range(n)]
    for ci, c in enumerate(comps):
        used = {}
        for o in objs:
            sl = used.get(o["t"], 0)
            if sl == 2 or rng.random() < 0.2:
                continue
            used[o["t"]] = sl + 1
            ph = rng.choice([-1, -1, -1, 0, rng.randrange(P)])
            ln = rng.choice([o["len"], o["len"], rng.randint(0, o["len"])]) if o["t"][0] == "a" else 0
            if ph >= 0 and T > 1 and o["t"][0] == "a":
                ln = 0
            c["ops"].append(["o", ph, o["t"], sl, o["name"], ln, o["iv"], o["v"]] + o["keys"])
            lim = ln if o["t"][0] == "a" else len(o["keys"])
            w = []
            for _ in range(rng.choice([0, 1, 3, 10])):
                if lim:
                    j = rng.randrange(lim)
                    x = o["vals"][j]
                    if o["modify"]:
                        if o["owner"][j] != ci:
                            continue
                        x = value(rng, o["t"])
                    w.append(["w", rng.randrange(ph, P), o["t"], sl, o["keys"][j], x])
            w.sort(key=lambda q: q[1])
            c["ops"] += w
            if rng.random() < 0.7:
                c["ops"].append(["p", rng.randrange(w[-1][1] if w else ph, P), o["t"], sl])
                if rng.random() < 0.2:
                    c["ops"].append(["p", rng.randrange(c["ops"][-1][1], P), o["t"], sl])
        c["ops"].sort(key=lambda q: q[1])
    s = {"comps": comps, "phases": P, "objs": objs, "shape": [R, T], "lat": rng.choice([1, 7]), "fault": None, "restart": None}
    if rng.random() < 0.35:
        s["fault"] = rng.choice(FAULTS)
        if not fault(rng, s):
            s["fault"] = None
    if not s["fault"] and rng.random() < 0.4:
        s["restart"] = list(rng.choice(SHAPES))
    if R * T > 1 and rng.random() < 0.5:
        for c in comps:
            c["rank"] = [rng.randrange(R), rng.randrange(T)]
    return s


def fault(rng, s):
    """add one misuse; False if the script has no place for it"""
    k, P, T = s["fault"], s["phases"], s["shape"][1]
    inst = [(c, op) for c in s["comps"] for op in c["ops"] if op[0] == "o"]
    rng.shuffle(inst)

    def writable(c, op):
        o = [q for q in s["objs"] if q["name"] == op[4]][0]
        return (op[5] if op[2][0] == "a" else len(op) - 8) > 0, o
    for c, op in inst:
        ok, o = writable(c, op)
        pub = [q[1] for q in c["ops"] if q[0] == "p" and q[2:4] == op[2:4]]
        other = [(d, q) for d, q in inst if q is not op and q[4] == op[4]]
        if k == "conflict":
            if op[2] == "si" or o["v"] == "no" or not ok or pub:
                continue
            for d, q in other:
                if any(x[0] == "p" and x[2:4] == q[2:4] for x in d["ops"]):
                    continue
                lim = min(x[5] if x[2][0] == "a" else len(x) - 8 for x in (op, q))
                if not lim:
                    continue
                if op[2] == "ab":
                    if o["v"] == "init":
                        continue
                j = rng.randrange(lim)
                a = o["vals"][j]
                b = 1 - a if op[2] == "ab" else value(rng, op[2])
                while b == a or b == o["iv"]:
                    if op[2] == "ab":
                        break
                    b = value(rng, op[2])
                c["ops"].append(["w", rng.randrange(op[1], P), op[2], op[3], op[8 + j], a])
                d["ops"].append(["w", rng.randrange(q[1], P), q[2], q[3], op[8 + j], b])
                return True
        elif k == "published":
            if not ok:
                continue
            ph = rng.randrange(op[1], P)
            c["ops"].append(["p", ph, op[2], op[3]])
            c["ops"].append(["w", rng.choice([ph, P - 1, 100, 101]), op[2], op[3], op[8], o["vals"][0]])
            return True
        elif k == "late":
            if not ok or pub:
                continue
            c["ops"].append(["w", rng.choice([100, 101]), op[2], op[3], op[8], o["vals"][0]])
            return True
        elif k == "lateinit":
            free = [sl for sl in (0, 1) if not any(q[0] == "o" and q[2:4] == [op[2], sl] for q in c["ops"])]
            if not free:
                continue
            c["ops"].append(["o", rng.choice([100, 101]), op[2], free[0]] + [rng.choice([op[4], "newname"])] + op[5:])
            return True
        elif k == "twice":
            c["ops"].append(["o", rng.choice([q for q in (op[1], P - 1, 100)])] + op[2:])
            return True
        elif k in ("initvalue", "verify"):
            free = [(d, sl) for d in s["comps"] for sl in (0, 1) if not any(q[0] == "o" and q[2:4] == [op[2], sl] for q in d["ops"])]
            if not free or not ok or (k == "initvalue" and op[2][0] != "a"):
                continue
            d, sl = rng.choice(free)
            n = ["o", -1, op[2], sl] + op[4:]
            if k == "verify":
                n[7] = rng.choice([x for x in ("fe", "init", "no") if x != op[7]])
            else:
                n[6] = 1 - op[6] if op[2] == "ab" else "other" if op[2] == "as" else op[6] + 1
            d["ops"].append(n)
            return True
        elif k == "type":
            t = rng.choice([x for x in TYPES if x != op[2]])
            free = [(d, sl) for d in s["comps"] for sl in (0, 1) if not any(q[0] == "o" and q[2:4] == [t, sl] for q in d["ops"])]
            if not free:
                continue
            d, sl = rng.choice(free)
            d["ops"].append(["o", -1, t, sl, op[4], 0, 0, "fe"])
            return True
    return False


MSG = {"conflict": ["two different values", "two non-equal values"], "published": ["after publish() was called"], "late": ["after init phase"],
       "lateinit": ["after the init() phase"], "twice": ["more than once"], "initvalue": ["Two different init_data"],
       "verify": ["ifferent verify"], "type": ["requested with two different types"]}


def model(s):
    """expected dump lines per component: list of (prefix, predicate data)"""
    insts, writes, sizes, pubs = {}, {}, {}, {}
    for ci, c in enumerate(s["comps"]):
        names = {}
        for oi, op in enumerate(c["ops"]):
            if op[0] == "o":
                names[(op[2], op[3])] = op[4]
                insts.setdefault(op[4], []).append((op[1], ci, oi, op))
                sizes.setdefault(op[4], []).append((op[1], op[5]))
            elif op[0] == "w":
                writes.setdefault(names[(op[2], op[3])], []).append((op[1], ci, oi, op[4], op[5]))
            else:
                pubs.setdefault((names[(op[2], op[3])], ci), []).append(op[1])
    return insts, writes, sizes, pubs


def show(t, x):
    return str(x)


def check_log(s, ci, log, M, o, what):
    insts, writes, sizes, pubs = M
    c = s["comps"][ci]
    D = {}
    for l in log:
        w = l.split(" ")
        if w[0] == "D":
            D[(int(w[1]), int(w[2]))] = (w[3], l.split(" ", 4)[4] if len(w) > 4 else "")
    P = s["phases"]
    want = [(ph, oi) for ph in list(range(P)) + [100, 101, 102, 103] for oi, op in enumerate(c["ops"]) if op[0] == "o" and op[1] < ph]
    if sorted(want) != sorted(D):
        o.fail(s, what + "-phases", "%s: phases and objects seen %s instead of %s" % (c["name"], sorted(D), sorted(want)))
        return False
    for ph, oi in want:
        op = c["ops"][oi]
        name, t = op[4], op[2]
        ob = [q for q in s["objs"] if q["name"] == name][0]
        pub, txt = D[(ph, oi)]
        if ph >= 100:
            wp = "pub"
        else:
            # instances initialised before this phase have published before it
            before = [q for q in insts[name] if q[0] < ph]
            wp = "pub" if all(any(x < ph for x in pubs.get((name, q[1]), [])) for q in before) else "open"
        if pub != wp:
            o.fail(s, what + "-published", "%s: %s seen as %s in phase %d, expected %s" % (c["name"], name, pub, ph, wp))
            return False
        W = sorted(writes.get(name, []), key=lambda q: (q[0], q[1], q[2]))
        cur = {}
        for q in W:
            if q[0] < ph:
                cur[q[3]] = q[4]
        size = max([x[1] for x in sizes[name] if x[0] < ph] + [0])
        if ph < 100:
            got = txt.split(" ") if txt else []
            keys = op[8:]
            if len(got) != len(keys):
                o.fail(s, what + "-read", "%s: bad line %r" % (c["name"], txt))
                return False
            big = max([x[1] for x in sizes[name] if x[0] <= ph] + [0])
            for k, g in zip(keys, got):
                allow = set()
                if t[0] == "a":
                    allow.add("-" if k >= size else show(t, cur.get(k, op[6])))
                    if k < big:
                        allow |= {show(t, op[6])} if k >= size else set()
                else:
                    allow.add(show(t, cur[k]) if k in cur else "-")
                allow |= {show(t, q[4]) for q in W if q[0] == ph and q[3] == k}
                if g not in allow:
                    o.fail(s, what + "-read", "%s: phase %d, %s %s[%s] is %r, expected %s" % (c["name"], ph, t, name, k, g, sorted(allow)))
                    return False
        else:
            if t[0] == "a":
                its = [show(t, cur.get(k, op[6])) for k in range(size)]
                exp = " ".join(["%d%s" % (size, "f" if size else "e")] + its + ["|"] + its + ["|"] + its[::-1])
            else:
                ks = sorted(cur)
                its = [str(k) if t == "si" else "%s=%s" % (k, cur[k]) for k in ks]
                exp = " ".join(["%d%s" % (len(ks), "f" if ks else "e")] + its + ["|"] + its[::-1])
            if txt != exp:
                o.fail(s, what + "-content", "%s: phase %d, %s %s is %r, expected %r" % (c["name"], ph, t, name, txt[:600], exp[:600]))
                return False
    return True


def check(s, logs, M, o, what):
    if sorted(logs) != sorted(c["name"] for c in s["comps"]):
        o.fail(s, what + "-logs", "logs of %s" % sorted(logs))
        return False
    rets = {}
    for ci, c in enumerate(s["comps"]):
        log = logs[c["name"]]
        if not check_log(s, ci, log, M, o, what):
            return False
        r = log[-1]
        for l in log:
            if l.startswith("I "):
                _, oi, v = l.split(" ")
                rets.setdefault((r, c["ops"][int(oi)][4]), []).append(int(v))
    if what == "run":
        for k, v in rets.items():
            if sorted(v) != list(range(len(v))):
                o.fail(s, "share-order", "%s on rank %s: initialize() returned %s" % (k[1], k[0], v))
                return False
    return True


def run_case(s):
    o = Out()
    o.n = 1
    R, T = s["shape"]
    d = sstrun.scratch("c14")
    try:
        json.dump(s, open(d + "/sc.json", "w"))
        os.makedirs(d + "/out")
        args = ["--stop-at=60ns", "--output-directory=" + d]
        if any(c.get("rank") for c in s["comps"]):
            args.append("--partitioner=sst.self")
        if s["restart"]:
            args.append("--checkpoint-sim-period=15ns")
        r = sstrun.sst(d, args + [build.VERIF + "/vlib/shrcfg.py", "--model-options=" + d + "/sc.json"], R, T, extra_env={"VERIF_OUT": d + "/out"}, timeout=100)
        if s["fault"]:
            o.cls("fault " + s["fault"])
            if r.timeout:
                o.fail(s, "fault-timeout", "%s: the run did not end" % s["fault"])
            elif r.rc == 0:
                o.fail(s, "fault-missed-" + s["fault"], "%s was not reported (%d ranks, %d threads)" % (s["fault"], R, T))
            elif not any(m in r.out for m in MSG[s["fault"]]):
                o.fail(s, "fault-message-" + s["fault"], "%s ended with %s and %s" % (s["fault"], r.rc, r.out[-1200:]))
            else:
                o.nontrivial.append((s["fault"], R, T))
            return o
        if r.timeout or r.rc != 0:
            o.fail(s, "run-crash", "rc %s %s %s" % (r.rc, "timeout" if r.timeout else "", r.out[-1200:]))
            return o
        M = model(s)
        if not check(s, sstrun.read_logs(d + "/out"), M, o, "run"):
            return o
        if s["restart"]:
            cps = sorted(glob.glob(d + "/checkpoint/*/*.sstcpt"))
            if len(cps) < 3:
                o.fail(s, "checkpoints", "%d checkpoints" % len(cps))
                return o
            for f in os.listdir(d + "/out"):
                os.unlink(d + "/out/" + f)
            R2, T2 = s["restart"]
            r = sstrun.sst(d, [cps[len(s["objs"]) % 3]], R2, T2, extra_env={"VERIF_OUT": d + "/out"}, timeout=100)
            if r.timeout or r.rc != 0:
                o.fail(s, "restart-crash", "rc %s %s %s" % (r.rc, "timeout" if r.timeout else "", r.out[-1200:]))
                return o
            if not check(s, sstrun.read_logs(d + "/out"), M, o, "restart"):
                return o
            o.cls("restart")
        insts, writes = M[0], M[1]
        if any(len(insts[n]) > 1 and len({q[3] for q in writes.get(n, [])}) > 2 for n in insts):
            o.nontrivial.append((R, T, s["restart"], len(s["objs"])))
        o.cls("%dx%d" % (R, T))
        for ob in s["objs"]:
            o.cls(ob["t"] + "/" + ob["v"])
        o.sample = {"shape": s["shape"], "objects": {n: len(insts[n]) for n in insts}, "phases": s["phases"]}
    finally:
        sstrun.rmtree(d)
    return o


def shrink(s):
    for ci in range(len(s["comps"])):
        for oi in reversed(range(len(s["comps"][ci]["ops"]))):
            op = s["comps"][ci]["ops"][oi]
            n = copy.deepcopy(s)
            if op[0] == "o":
                if s["fault"]:
                    continue
                n["comps"][ci]["ops"] = [q for q in n["comps"][ci]["ops"] if q[2:4] != op[2:4]]
            else:
                del n["comps"][ci]["ops"][oi]
            yield n
    for ci in range(len(s["comps"])):
        if len(s["comps"]) > 2 and not s["comps"][ci]["ops"]:
            n = copy.deepcopy(s)
            del n["comps"][ci]
            yield n
    if s["restart"]:
        n = copy.deepcopy(s)
        n["restart"] = None
        yield n
