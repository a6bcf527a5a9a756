"""C16: the simulation ends when and as it was asked to (primary components, stop-at, signals, exit-after, fatal errors), every life-cycle call is made
exactly once and in order on every component, serially and in parallel."""
import copy, heapq, itertools, json, os, re
from fractions import Fraction
from vlib import build, refsim, sstrun
from vlib.check import Out

PID = "C16"
LIBS = ["vulife"]
RULE = ("random scripts of end-related actions (OK / do-not-end calls, signals, fatal errors) over 1-5 components x stop-at x job shapes; the complete life-cycle log of every component, the exit code and the reported time "
        "are compared to a model. Non-trivial: at least two components, two actions and an end time above zero.")
N = {"quick": 600, "thorough": 3000}
TIME = {"quick": 150, "thorough": 2400}
SHAPES = [(1, 1), (1, 1), (1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1)]
MAX = 2 ** 64 - 1
TBS = [("1ns", "ns", 1), ("1ps", "ps", 1), ("100ps", "ns", 10), ("1us", "us", 1)]


KNOWN = {"known": "direct-links-empty", "opts": {"timebase": "1ns"}, "lat": "2 ns", "L": 2, "shape": [1, 2], "kind": "empty",
         "comps": [{"name": "c0", "params": {"ninit": 0, "ncomplete": 0, "primary": 1}, "acts": [[3, "send"]]},
                   {"name": "c1", "params": {"ninit": 0, "ncomplete": 0}, "acts": []}]}


def gen(rng, i, tier):
    if i == 0:
        return copy.deepcopy(KNOWN)
    n = rng.randint(1, 5)
    R, T = rng.choice(SHAPES)
    if n == 1:
        R, T = 1, 1
    tb, unit, per = rng.choice(TBS)
    lat = rng.randint(1, 9)
    s = {"opts": {"timebase": tb}, "lat": "%d %s" % (lat, unit), "L": lat * per, "shape": [R, T], "comps": []}
    kind = rng.choice(["end"] * 6 + ["stop", "stop", "term", "int", "usr", "usr", "fatal", "empty"])
    if rng.random() < 0.02:
        kind = "after"
    s["kind"] = kind
    span = rng.choice([5, 40, 400])
    serial = R * T == 1
    prim = rng.sample(range(n), rng.randint(1, n))
    hold = rng.choice(prim)
    M = rng.randint(1, span) + 3 * s["L"]
    for c in range(n):
        acts = []
        if c in prim:
            top = span if serial else M - 1
            ts = sorted(rng.randint(0, top) for _ in range(rng.choice([1, 1, 1, 2, 3, 5, 7])))
            if rng.random() < 0.3 and serial:
                # several transitions at one or neighbouring times
                t0 = rng.randint(0, span)
                ts = sorted(t0 + rng.choice([0, 0, 1]) for _ in range(rng.choice([3, 5])))
            w = "ok"
            for t in ts:
                acts.append((t, w))
                if rng.random() < 0.85:
                    w = "notok" if w == "ok" else "ok"
            if acts[-1][1] == "notok" or (not serial and w == "ok"):
                acts.append((rng.randint(acts[-1][0], max(acts[-1][0], top)), "ok"))
            if not serial and c == hold:
                acts = [(M, "ok")]
        elif rng.random() < 0.3:
            acts.append((rng.randint(0, span), rng.choice(["ok", "notok"])))
        for _ in range(rng.choice([0, 0, 1, 3, 6])):
            acts.append((rng.randint(0, span), "send"))
        if kind == "usr":
            for _ in range(rng.randint(0, 2)):
                acts.append((rng.randint(0, span), rng.choice(["usr1", "usr2"])))
        rng.shuffle(acts)
        p = {"ninit": rng.choice([0, 0, 1, 3]), "ncomplete": rng.choice([0, 0, 1, 2])}
        if c in prim:
            p["primary"] = 1
        if rng.random() < 0.4:
            p["clock"] = "%d %s" % (rng.randint(1, 9), unit)
        s["comps"].append({"name": "c%d" % c, "params": p, "acts": [list(a) for a in acts]})
    if kind == "empty":
        # the primary component never agrees to end, but at some time there is nothing left to do
        for c in s["comps"]:
            c["params"].pop("clock", None)
        q = s["comps"][hold]["acts"]
        q[:] = [a for a in q if a[1] == "send"] + [[x, w] for x, w in [(rng.randint(0, span), "ok"), (span + 1, "notok")] if w == "notok" or serial and rng.random() < 0.5]
    if kind in ("term", "int", "fatal"):
        s["comps"][rng.randrange(n)]["acts"].append([rng.randint(0, span), "fatal" + rng.choice(["3", "-1"]) if kind == "fatal" else kind])
    if kind == "stop":
        x = rng.randint(1, 2 * span)
        if not serial:
            while abs(x - M) <= 3 * s["L"] + 2:
                x += 1
        v = Fraction(x, per)
        u = {"ns": 10 ** 9, "ps": 10 ** 12, "us": 10 ** 6}[unit]
        f = rng.choice([(unit, 1), ("us", Fraction(10 ** 6, u)), ("fs", Fraction(10 ** 15, u)), ("s", Fraction(1, u))])
        q = v * f[1]
        txt = "%d" % q if q.denominator == 1 else ("%.18f" % q).rstrip("0")
        s["opts"]["stop-at"] = txt + rng.choice(["", " "]) + f[0]
        s["stop"] = x
        s["stopform"] = rng.choice(["opt", "arg"])
    if kind == "after":
        s["comps"][0]["params"].update(primary=1, clock="1 " + unit, slow=200)
        s["comps"][0]["acts"] = [a for a in s["comps"][0]["acts"] if a[1] == "send"]
        s["after"] = rng.choice(["1", "1s", "0:1", "0:00:01"])
    if not serial and rng.random() < 0.5:
        for c in s["comps"]:
            c["rank"] = [rng.randrange(R), rng.randrange(T)]
        if len({c["rank"][0] for c in s["comps"]}) == 1 and R > 1 or len({tuple(c["rank"]) for c in s["comps"]}) == 1:
            # partitions without cut links end on their own (see C02)
            for k, c in enumerate(s["comps"]):
                c["rank"] = [k % R, k // R % T]
    return s


def model(s, order=None):
    """per component the run events (kind, time) of the serial run, end time, how it ended"""
    n = len(s["comps"])
    order = order or list(range(n))
    h, seq = [], 0
    for ci, c in enumerate(s["comps"]):
        for ai, (t, w) in enumerate(c["acts"]):
            heapq.heappush(h, (t, 50, (order[ci], 9), seq, ("A", ci, ai)))
            seq += 1
    if s.get("stop") is not None:
        heapq.heappush(h, (s["stop"], 30, (0, 0), seq, ("stop",)))
    st = [1 if c["params"].get("primary") else None for c in s["comps"]]
    ref = sum(x == 1 for x in st)
    logs = [[] for _ in range(n)]
    endt = None
    trans = 0
    while h:
        t, p, _, _, w = heapq.heappop(h)
        if w[0] == "stop":
            return logs, t, "stop", trans
        if w[0] == "exit":
            if ref == 0:
                return logs, endt, "exit", trans
            continue
        if w[0] == "E":
            logs[w[1]].append(("E", t))
            continue
        _, ci, ai = w
        a = s["comps"][ci]["acts"][ai][1]
        logs[ci].append(("A " + a, t))
        if a == "ok" and st[ci] == 1:
            st[ci] = 0
            ref -= 1
            trans += 1
            if ref == 0:
                endt = t
                seq += 1
                heapq.heappush(h, (t + 1, 99, (0, 0), seq, ("exit",)))
        elif a == "notok" and st[ci] == 0:
            st[ci] = 1
            ref += 1
            trans += 1
        elif a == "send" and n > 1:
            seq += 1
            heapq.heappush(h, (t + s["L"], 50, (order[(ci + 1) % n], 1), seq, ("E", (ci + 1) % n)))
        elif a in ("term", "int"):
            return logs, t, "signal", trans
        elif a.startswith("fatal"):
            return logs, t, a, trans
    if any(x == 1 for x in st) and not any(c["params"].get("clock") for c in s["comps"]):
        return logs, MAX, "empty", trans
    return logs, None, "never", trans


def untimed(s, key, n):
    """(number of phases, received per component and phase)"""
    k = len(s["comps"])
    if k == 1:
        return 1, [[0]]
    m = [int(c["params"][key]) for c in s["comps"]]
    ph = max(m) + 1
    return ph, [[(p - 1 < m[(i + 1) % k]) + (p - 1 < m[i - 1]) if p else 0 for p in range(ph)] for i in range(k)]


SI = {"fs": -15, "ps": -12, "ns": -9, "us": -6, "ms": -3, "s": 0, "ks": 3, "Ms": 6, "Gs": 9}
SI.update({"Ms": 6, "Gs": 9, "Ts": 12, "ks": 3, "Ps": 15})


def run_case(s):
    o = Out()
    o.n = 1
    R, T = s["shape"]
    serial = R * T == 1
    logs, end, how, trans = model(s)
    kind = s["kind"]
    if how == "never" and kind != "after":
        return o
    if kind == "after":
        how, end = "after", None
    d = sstrun.scratch("c16")
    try:
        j = copy.deepcopy(s)
        for c in j["comps"]:
            c["params"]["acts"] = ";".join("%d %s" % (t, w) for t, w in c.pop("acts"))
            if R * T == 1:
                c.pop("rank", None)
        args = []
        if s.get("stopform") == "arg":
            args.append("--stop-at=" + j["opts"].pop("stop-at"))
        if any(c.get("rank") for c in j["comps"]):
            args.append("--partitioner=sst.self")
        elif not serial:
            args.append("--partitioner=sst.roundrobin")
        if s.get("known"):
            args.append("--interthread-links")
        if kind == "after":
            args.append("--exit-after=" + s["after"])
        json.dump(j, open(d + "/sc.json", "w"))
        os.makedirs(d + "/out")
        r = sstrun.sst(d, args + [build.VERIF + "/vlib/lifecfg.py", "--model-options=" + d + "/sc.json"], R, T, extra_env={"VERIF_OUT": d + "/out"}, timeout=8 if s.get("known") else 60)
        got = sstrun.read_logs(d + "/out")
    finally:
        sstrun.rmtree(d)
    o.cls(kind + "/" + how)
    o.cls("%dx%d" % (R, T))
    if r.timeout:
        o.fail(s, s.get("known", "timeout"), "the run did not end (expected: %s at %s)" % (how, end))
        return o
    fat = {a for c in s["comps"] for _, a in c["acts"] if a.startswith("fatal")}
    if how.startswith("fatal"):
        want = {"fatal3": 3, "fatal-1": 255}[how]
        if r.rc == 0 or (R == 1 and r.rc != want):
            o.fail(s, "fatal-code", "%s: exit code %s" % (how, r.rc))
        elif "vulife fatal" not in r.out:
            o.fail(s, "fatal-message", "%s: no message in %s" % (how, r.out[-500:]))
        elif any(l.startswith("F ") for v in got.values() for l in v):
            o.fail(s, "fatal-finish", "finish() was called after a fatal error")
        o.nontrivial.append((how, R, T))
        return o
    if r.rc != 0:
        if fat:
            return o    # in parallel, a thread may reach it before the end is noticed
        o.fail(s, "crash", "rc %s: %s" % (r.rc, r.out[-1200:]))
        return o
    if fat and not serial:
        return o
    m = re.search(r"Simulation is complete, simulated time: ([-0-9.e+]+) (\w+)", r.out)
    if not m:
        o.fail(s, "message", "no completion message: %s" % r.out[-500:])
        return o
    shown = Fraction(m.group(1)) * Fraction(10) ** SI[m.group(2)]
    tb = refsim.seconds(s["opts"]["timebase"])
    if sorted(got) != sorted(c["name"] for c in s["comps"]):
        o.fail(s, "logs", "components that ran: %s" % sorted(got))
        return o
    if serial and kind != "after":
        # the order of same-time events in different components is not specified, and matters when primaries come and go at one time
        E = {l.split()[2] for v in got.values() for l in v if l.startswith("F ")}
        run = [[(" ".join(l.split()[:-2]), int(l.split()[-2])) for l in got[c["name"]] if l[0] in "EA"] for c in s["comps"]]
        if E != {str(end)} or run != logs and how != "signal":
            for q in itertools.permutations(range(len(s["comps"]))):
                alt = model(s, q)
                if {str(alt[1])} == E and (run == alt[0] or alt[2] == "signal"):
                    logs, end, how, trans = alt
                    break
    # a signal or exit-after in parallel is obeyed at the next synchronization
    free = how == "after" or (how == "signal" and not serial)
    if free:
        E = {l.split()[2] for v in got.values() for l in v if l.startswith("F ")}
        if len(E) != 1:
            o.fail(s, "end-differs", "components ended at %s" % sorted(E))
            return o
        t = int(E.pop())
        late = s["L"] * 3 + 1
        alt = None
        if how == "signal" and s.get("kind") in ("term", "int"):
            # the simulation may have ended by itself meanwhile
            # it is handled in the sync after the one that thread 0 may be waiting in, which may be far away if there is little to do
            m2 = copy.deepcopy(s)
            for c in m2["comps"]:
                c["acts"] = [a if a[1] not in ("term", "int") else [a[0], "noop"] for a in c["acts"]]
            nxt = min([x for v in model(m2)[0] for _, x in v if x > end + s["L"]] + [MAX])
            if not (end <= t <= max(end + late, nxt + 2 * s["L"] + 1)):
                o.fail(s, "signal-time", "signal at %d, the run (synchronizing every %d) ended at %d" % (end, s["L"], t))
                return o
        end = t
    if abs(shown - end * tb) > end * tb / 10 ** 5:
        o.fail(s, "message-time", "the end at %d x %s was reported as %s %s" % (end, s["opts"]["timebase"], m.group(1), m.group(2)))
        return o
    ip, iu = untimed(s, "ninit", 0)
    cp, cu = untimed(s, "ncomplete", 0)
    for ci, c in enumerate(s["comps"]):
        L = [l.split() for l in got[c["name"]]]
        L = [(" ".join(x[:-2]), int(x[-2]), int(x[-1])) for x in L]
        pos = 0

        def bad(msg):
            o.fail(s, "lifecycle", "%s: %s; log %s" % (c["name"], msg, got[c["name"]][:60]))
        seq = [x for x in L if x[0] not in ("E",) and not x[0].startswith("A ")]
        want = [("C",)]
        for p in range(ip):
            want += [("I", p, 0)] + [("UI", p, 0)] * iu[ci][p]
        want += [("S", 0, 0)]
        for p in range(cp):
            want += [("P", p, end)] + [("UP", p, 0)] * cu[ci][p]
        want += [("F", end, end)]
        if how == "signal":
            want += [("X", end, 0)]
        want += [("D", 0, 0)]
        have = [("C",) if x[0] == "C" else x for x in seq]
        if how == "signal" and not serial and want != have and [x for x in want if x[0] != "X"] == have:
            # ended by its own primaries at the synchronization that would have handled the signal
            lo, e2, h2, _ = model(dict(s, comps=[dict(q, acts=[a for a in q["acts"] if a[1] not in ("term", "int")]) for q in s["comps"]]))
            if h2 in ("exit", "stop", "empty") and e2 is not None and e2 <= end:
                have = want
        if want != have:
            bad("life cycle %s instead of %s" % (have, want))
            return o
        # where the run events lie
        names = [x[0] for x in L]
        si, fi = names.index("S"), names.index("P")
        ev = [(x[0], x[1]) for x in L[si + 1:fi]]
        if len(ev) != sum(x[0] == "E" or x[0].startswith("A ") for x in L):
            bad("events outside of the run")
            return o
        if serial and how == "signal":
            # of the events of other components at the time of the signal, any number may be done
            full = full_log(s, ci)
            if ev != full[:len(ev)] or [x for x in ev if x[1] < end] != [x for x in full if x[1] < end] or any(x[1] > end for x in ev) or (("A term", end) in logs[ci] or ("A int", end) in logs[ci]) and ev != logs[ci]:
                bad("run events %s of %s up to the signal at %d" % (ev, full, end))
                return o
        elif serial and how != "after":
            if ev != logs[ci]:
                bad("run events %s instead of %s" % (ev, logs[ci]))
                return o
        else:
            full = full_log(s, ci)
            lim = end if how in ("exit",) else end - 1
            a, b = [x for x in ev if x[1] <= lim], [x for x in full if x[1] <= lim]
            if a != b:
                bad("run events %s instead of %s up to %d" % (a, b, lim))
                return o
    if kind == "usr":
        exp = sum(x[0] == "A usr2" for c in logs for x in c)
        if serial:
            k = sum(r.out.count("status of c%d\n" % i) for i in range(len(s["comps"])))
            if k != exp * len(s["comps"]):
                o.fail(s, "status", "%d component status lines for %d SIGUSR2 signals and %d components" % (k, exp, len(s["comps"])))
                return o
            k = len(re.findall(r"CurrentSimCycle: ", r.out))
            if k != sum(x[0] in ("A usr1", "A usr2") for c in logs for x in c):
                o.fail(s, "status", "%d core status reports" % k)
                return o
    if how == "signal" and "EMERGENCY SHUTDOWN" not in r.out and serial:
        o.fail(s, "signal-message", r.out[-500:])
    if len(s["comps"]) > 1 and sum(len(c["acts"]) for c in s["comps"]) > 1 and end:
        o.nontrivial.append((kind, how, R, T, trans))
    o.sample = {"kind": kind, "ended": how, "end": end, "shape": s["shape"], "acts": {c["name"]: c["acts"][:6] for c in s["comps"]}}
    return o


def full_log(s, ci):
    """all run events of a component if nothing ended the simulation"""
    n = len(s["comps"])
    ev = [(t, 9, ai, "A " + w) for ai, (t, w) in enumerate(s["comps"][ci]["acts"])]
    if n > 1:
        for ai, (t, w) in enumerate(s["comps"][ci - 1]["acts"]):
            if w == "send":
                ev.append((t + s["L"], 1, ai, "E"))
    return [(w, t) for t, _, _, w in sorted(ev)]


def shrink(s):
    for ci in range(len(s["comps"])):
        for ai in range(len(s["comps"][ci]["acts"])):
            n = copy.deepcopy(s)
            del n["comps"][ci]["acts"][ai]
            yield n
    if s["shape"] == [1, 1] or s["shape"] == (1, 1):
        for ci in range(len(s["comps"])):
            if len(s["comps"]) > 1:
                n = copy.deepcopy(s)
                del n["comps"][ci]
                yield n
    for ci in range(len(s["comps"])):
        for k in ("ninit", "ncomplete"):
            if s["comps"][ci]["params"][k]:
                n = copy.deepcopy(s)
                n["comps"][ci]["params"][k] = 0
                yield n
        if "clock" in s["comps"][ci]["params"] and s["kind"] != "after":
            n = copy.deepcopy(s)
            del n["comps"][ci]["params"]["clock"]
            yield n
