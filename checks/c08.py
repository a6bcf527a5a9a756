"""C08: clock contract: who fires, when, in which order, with which cycle, under any script of clock operations."""
import glob, json, os, random
from vlib import sstrun
from vlib.check import Out

PID = "C08"
LIBS = ["vuclk"]
RULE = ("random components with up to 10 clock handlers (ordered and not, own and sub-component) and scripts of activate/deactivate/register/"
        "unregister/query operations carried out from event handlers, from handlers of the same and of other clocks, and at the end; the full "
        "call history is judged against the clock contract. Non-trivial: at least 30 firings and at least one operation issued inside a clock "
        "handler on a handler of the same clock.")
N = {"quick": 760, "thorough": 9000}
TIME = {"quick": 110, "thorough": 1800}


def gen(rng, i, tier):
    end = rng.choice([12, 30, 60, 120, 400 if tier == "quick" else 2000])
    pool = rng.sample([1, 2, 3, 4, 5, 6, 7, 10, 12, 24], rng.choice([1, 1, 2, 2, 3]))
    comps = []
    for c in range(rng.choice([1, 1, 2, 3, 4])):
        nh = rng.randint(1, 10)
        pord = rng.choice([0, 0.3, 0.7, 1])
        hs = [[rng.choice(pool), int(rng.random() < pord), int(rng.random() < 0.25), int(rng.random() < 0.75), rng.randrange(3)] for _ in range(nh)]
        for h in hs:
            if h[2]:
                h[4] = 0
        ops = []
        inside = rng.random() < 0.75
        for _ in range(rng.randint(0, 40)):
            j = rng.randrange(nh)
            p = hs[j][0]
            k = rng.random()
            what = rng.choice("aaaddddnR")
            if inside and k < 0.55:
                t = rng.randrange(nh)
                if rng.random() < 0.4:
                    j, what = t, rng.choice("xxxdaxn")
                if what == "x":
                    j = t
                ops.append(["c", t, rng.randint(1, max(1, min(25, end // hs[t][0]))), what, j])
            elif k < 0.95:
                tm = rng.randint(0, end)
                if rng.random() < 0.5:
                    tm = tm // p * p
                ops.append(["t", tm, 0, what, j])
            else:
                ops.append([rng.choice("pf"), 0, 0, "n" if rng.random() < 0.5 else rng.choice("ad"), j])
        comps.append({"name": "c%d" % c, "h": hs, "ops": ops, "end": rng.randint(max(1, end // 2), end)})
    s = {"comps": comps}
    if rng.random() < 0.2:
        s["cp"] = rng.randint(max(1, end // 6), end)
    if rng.random() < 0.25:
        s["threads"] = min(len(comps), rng.choice([2, 3]))
    return s


def judge(o, s, c, lines, end, what, par):
    """Replay one component's history against the contract."""
    hs = c["h"]
    n = len(hs)
    act = [False] * n
    reg = [-1] * n            # registration sequence number
    nreg = 0
    calls = [0] * n
    promise = [None] * n      # first cycle promised by the last activation (None: nothing to check)
    last = [0] * n            # last fired cycle
    expect = [None] * n       # handler must fire at every cycle from this one on
    fin = False

    def bad(key, msg):
        o.fail(s, what + key, "%s component %s: %s" % (what or "run", c["name"], msg))
        return False

    def due(j, t):
        """cycles of handler j that must have happened strictly before time t (only while active)"""
        return (t - 1) // hs[j][0]

    # due cycles are checked when the handler's state changes and at the end
    def settle(j, t, line, same_tick_done):
        """handler j was active since expect[j]; all its cycles before time t (and at t, when same_tick_done) must have fired"""
        if not act[j] or expect[j] is None:
            return True
        p = hs[j][0]
        upto = t // p if same_tick_done else (t - 1) // p
        if upto >= expect[j] and last[j] < upto:
            return bad("missed", "handler %d (period %d, %s) did not fire in cycle %d although active (last fired %d); at log line %r"
                       % (j, p, "ordered" if hs[j][1] else "unordered", max(expect[j], last[j] + 1), last[j], line))
        return True

    # clocks that no other component uses: when one has had no active handler for a whole tick it has stopped, and an
    # activation from another clock's handler in one of its ticks starts it with the next one
    alone = {h[0] for h in hs} - {h[0] for x in s["comps"] if x["name"] != c["name"] for h in x["h"]}
    idle = {p: -1 for p in alone}

    def stopped(p, t):
        return p in alone and not any(act[q] for q in range(n) if hs[q][0] == p) and (idle[p] < 0 or (t - 1) // p * p > idle[p])

    t = 0
    curtime, fired_here = -1, []
    stack = None
    stats = {"fires": 0, "inside": 0}
    for line in lines:
        f = line.split(" ")
        t, prio, k, j, a, b = int(f[0]), int(f[1]), f[2], int(f[3]), int(f[4]), int(f[5])
        if k == "Z":
            # finish(): the clocks have stopped, the time is the end time
            if t != end and end is not None:
                return bad("endtime", "finish() at time %d, expected %d" % (t, end))
            for q in range(n):
                if not settle(q, t, line, True):
                    return False
            fin = True
            continue
        if fin:
            if k in "an" and a != t // hs[j][0] + 1:
                return bad("next-end", "in finish() at %d the next cycle of period %d was given as %d" % (t, hs[j][0], a))
            continue
        if t != curtime:
            if t < curtime:
                return bad("order", "time went backwards at %r" % line)
            curtime, fired_here = t, []
        if k == "E":
            continue
        p = hs[j][0]
        if k == "F":
            stats["fires"] += 1
            if t == 0 or t % p:
                return bad("time", "handler %d (period %d) fired at time %d" % (j, p, t))
            if a != t // p:
                return bad("cycle", "handler %d (period %d) fired at time %d with cycle number %d" % (j, p, t, a))
            if prio != 40:
                return bad("prio", "handler %d fired with current priority %d" % (j, prio))
            if not act[j]:
                return bad("inactive", "handler %d fired at %d although inactive" % (j, t))
            calls[j] += 1
            if b != calls[j]:
                return bad("count", "call %d of handler %d logged as %d" % (calls[j], j, b))
            if last[j] >= a:
                return bad("twice", "handler %d fired twice in cycle %d" % (j, a))
            if expect[j] is not None and a > expect[j] and last[j] < a - 1:
                return bad("missed", "handler %d skipped cycle %d" % (j, max(last[j] + 1, expect[j])))
            if promise[j] is not None:
                if a < promise[j]:
                    return bad("early", "handler %d fired in cycle %d, its activation promised %d" % (j, a, promise[j]))
                promise[j] = None
            if hs[j][1]:
                for q in fired_here:
                    if hs[q][1] and hs[q][0] == p and reg[q] > reg[j]:
                        return bad("ordered", "ordered handler %d fired after %d at time %d" % (j, q, t))
            fired_here.append(j)
            last[j] = a
            stack = j
            continue
        # an operation; inside the clock handler `stack` when the priority says so
        inside = stack if prio == 40 and fired_here else None
        own = inside is not None and hs[inside][0] == p
        # is this period's tick at time t over? event handlers (50) run after all ticks of the same time
        over = prio > 40 or t == 0
        nxt = t // p + 1
        if k in "Xd" and act[j] and p in alone:
            idle[p] = t
        if k == "X":
            act[j] = False
            expect[j] = promise[j] = None
            continue
        if k == "R":
            if a != 1:
                return bad("active", "handler %d is not active after registration at %d" % (j, t))
            if b != p:
                return bad("period", "handler %d has clock period %d, not %d" % (j, b, p))
            reg[j] = nreg
            nreg += 1
        if k in "an" and prio in (40, 50) and t > 0:
            ok = {nxt} if over or t % p or own or (k == "a" and stopped(p, t)) else {nxt, nxt - 1}
            if a not in ok:
                return bad("next", "at time %d (priority %d) the next cycle of period %d was given as %d, expected %s" % (t, prio, p, a, sorted(ok)))
        if k in "aR":
            if k == "a" and b != 1:
                return bad("active", "handler %d is not active after activate at %d" % (j, t))
            if not act[j]:
                lenient = not over and t % p == 0 and not stopped(p, t)
                act[j] = True
                # an ordered handler activated by a handler of its own clock may still run in this tick
                expect[j] = nxt
                promise[j] = nxt
                if lenient and (hs[j][1] or not own):
                    promise[j] = nxt - 1
                    if k == "a" and not own and a == nxt - 1:
                        expect[j] = nxt - 1
                    elif k == "a" and not own:
                        promise[j] = nxt
                if last[j] >= (promise[j] or 0):
                    promise[j] = last[j] + 1
        if k == "d":
            if b != 0:
                return bad("active", "handler %d is active after deactivate at %d" % (j, t))
            if not settle(j, t, line, over):
                return False
            act[j] = False
            expect[j] = promise[j] = None
        if own:
            stats["inside"] += 1
        if not par and t > end + 1:
            return bad("late", "activity after the end: %r" % line)
    if not fin:
        return bad("finish", "finish() was not called")
    return stats


def run_case(s):
    o = Out()
    o.n = 1
    sc = {"comps": [{"name": c["name"], "type": "vuclk.clk", "params": {
        "h": ";".join(",".join(map(str, h)) for h in c["h"]), "ops": ";".join(",".join(map(str, x)) for x in c["ops"]), "end": c["end"]}}
        for c in s["comps"]], "links": [], "opts": {}}
    for i in range(len(s["comps"]) - 1):
        lat = "%dps" % (1 + len(s["comps"][i]["ops"]))
        sc["links"].append({"name": "l%d" % i, "a": ["c%d" % i, "r", lat], "b": ["c%d" % (i + 1), "l", lat]})
    end = max(c["end"] for c in s["comps"])
    th = s.get("threads", 1)
    d = sstrun.scratch("c08")
    runs = []
    try:
        args = ["--timebase=1ps"]
        if s.get("cp"):
            args += ["--checkpoint-sim-period=%dps" % s["cp"], "--output-directory=" + d]
        if th > 1:
            args += ["--partitioner=roundrobin"]
        r, logs = sstrun.run_scenario(sc, d, args, threads=th)
        runs.append(("", r, logs))
        if s.get("cp") and r.rc == 0 and not r.timeout:
            cps = sorted(glob.glob(d + "/checkpoint/*/*.sstcpt"), key=lambda f: int(f.rsplit("_", 1)[1][:-7]))
            cps = [f for f in cps if int(f.rsplit("_", 1)[1][:-7]) < end]
            if cps:
                f = cps[random.Random(json.dumps(s)).randrange(len(cps))]
                for x in glob.glob(d + "/logs/*"):
                    os.unlink(x)
                r = sstrun.sst(d, ["--load-checkpoint", f], threads=th)
                runs.append(("restart-", r, sstrun.read_logs(d + "/logs")))
    finally:
        sstrun.rmtree(d)
    nf = ni = 0
    for what, r, logs in runs:
        if r.timeout or r.rc != 0:
            o.fail(s, what + "crash", "sst ended with %s%s: %s" % (r.rc, " (timeout)" if r.timeout else "", r.out[-1200:]))
            return o
        for c in s["comps"]:
            if c["name"] not in logs:
                o.fail(s, what + "nolog", "component %s wrote no log" % c["name"])
                return o
            st = judge(o, s, c, logs[c["name"]], end, what, th > 1)
            if not st:
                return o
            nf += st["fires"]
            ni += st["inside"]
        if what:
            o.cls("restarted")
    o.cls("firings", nf)
    o.cls("ops-inside-own-clock", ni)
    if nf >= 30 and ni:
        o.nontrivial.append((nf, ni))
    o.sample = {"scenario": s["comps"][0], "firings": nf, "operations inside own clock": ni}
    return o


def shrink(s):
    for i in range(len(s["comps"])):
        if len(s["comps"]) > max(1, s.get("threads", 1)):
            yield dict(s, comps=[dict(c, name="c%d" % k) for k, c in enumerate(s["comps"][:i] + s["comps"][i + 1:])])
    for k in ("cp", "threads"):
        if k in s:
            t = dict(s)
            t.pop(k)
            yield t
    for i, c in enumerate(s["comps"]):
        def put(**kw):
            l = list(s["comps"])
            l[i] = dict(c, **kw)
            return dict(s, comps=l)
        m = len(c["ops"])
        for a, b in ((0, m // 2), (m // 2, m)):
            if m > 3:
                yield put(ops=c["ops"][:a] + c["ops"][b:])
        for x in range(m):
            yield put(ops=c["ops"][:x] + c["ops"][x + 1:])
        for x in range(len(c["h"]) - 1, -1, -1):
            if len(c["h"]) > 1:
                ops = [list(p) for p in c["ops"] if p[4] != x and not (p[0] == "c" and p[1] == x)]
                for p in ops:
                    if p[4] > x:
                        p[4] -= 1
                    if p[0] == "c" and p[1] > x:
                        p[1] -= 1
                yield put(h=c["h"][:x] + c["h"][x + 1:], ops=ops)
        if c["end"] > 2:
            yield put(end=c["end"] // 2)
