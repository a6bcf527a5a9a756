"""Independent reference simulator for "vtest" agents (see harness/vtest.cc).

Specified behaviour: every event sent on a link is delivered exactly once at send time + delay +
link latency (+ added send/recv latency); activities run in (time, priority) order with clocks
(40) before events (50); events arriving at one component at the same time run in the order its
links were configured, self links last, FIFO within a link; clock handlers run at every multiple
of the period while active.  Nothing here is derived from sst-core's data structures.
"""
import heapq
from fractions import Fraction

M64 = (1 << 64) - 1
CLOCK, EVENT, EXIT, STOP = 40, 50, 99, 30


def sm64(x):
    x = (x + 0x9E3779B97F4A7C15) & M64
    x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & M64
    x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & M64
    return x ^ (x >> 31)


def mix(a, b):
    return sm64(a ^ ((b * 0xD6E8FEB86659FD93 + (a << 7) + (a >> 3)) & M64))


UNITS = {"fs": Fraction(1, 10**15), "ps": Fraction(1, 10**12), "ns": Fraction(1, 10**9), "us": Fraction(1, 10**6),
         "ms": Fraction(1, 1000), "s": Fraction(1)}
HZ = {"Hz": Fraction(1), "kHz": Fraction(1000), "MHz": Fraction(10**6), "GHz": Fraction(10**9)}


def seconds(t):
    """'3ns' -> Fraction seconds; '2GHz' -> its period."""
    i = 0
    while i < len(t) and (t[i].isdigit() or t[i] == "."):
        i += 1
    v, u = Fraction(t[:i]), t[i:].strip()
    if u in HZ:
        return 1 / (v * HZ[u])
    return v * UNITS[u]


class Ev:
    __slots__ = ("seed", "ttl")

    def __init__(self, s, t):
        self.seed, self.ttl = s & M64, t


class Link:
    __slots__ = ("lat", "tb", "dst", "dport", "q", "iq")

    def __init__(self):
        self.lat = 0
        self.q = []     # pending polled events (time, seq, ev)
        self.iq = []    # pending untimed (phase, ev)


class Clock:
    def __init__(self, sim, per):
        self.sim, self.per = sim, per
        self.handlers = []   # unordered, in activation order
        self.groups = {}     # agent key -> list of all handlers in registration order
        self.sched = False

    def any_active(self):
        return bool(self.handlers) or any(h.active for g in self.groups.values() for h in g)

    def schedule(self):
        s = self.sim
        nxt = (s.now // self.per + 1) * self.per
        if s.prio < CLOCK and s.now != 0 and s.now % self.per == 0:
            nxt = s.now
        s.push(nxt, CLOCK, 0, self)
        self.sched = True

    def next_cycle(self):
        """cycle number the next call will carry"""
        s = self.sim
        c = s.now // self.per
        if self.sched and s.now % self.per == 0 and s.prio < CLOCK and s.now:
            return c
        return c + 1

    def activate(self, h):
        if h.active:
            return
        h.active = True
        if not h.ordered:
            self.handlers.append(h)
        if not self.sched:
            self.schedule()

    def deactivate(self, h):
        if not h.active:
            return
        h.active = False
        if not h.ordered:
            self.handlers.remove(h)

    def run(self):
        if not self.any_active():
            self.sched = False
            return
        cyc = self.sim.now // self.per
        for h in list(self.handlers):
            if h.active and h.fn(cyc, h.idx):
                h.active = False
                self.handlers.remove(h)
        for g in self.groups.values():
            for h in g:
                if h.active and h.fn(cyc, h.idx):
                    h.active = False
        self.sim.push(self.sim.now + self.per, CLOCK, 0, self)


class H:
    __slots__ = ("fn", "idx", "ordered", "active", "clk")


class Agent:
    def __init__(self, sim, name, params, order, comp):
        self.sim, self.name, self.p, self.order, self.comp = sim, name, params, order, comp
        g = lambda k, d: int(params.get(k, d))
        self.state = g("seed", 1) & M64
        self.fan, self.drop, self.nullp, self.tickp = g("fan", 30), g("drop", 5), g("nullp", 5), g("tickp", 20)
        self.untp, self.maxdelay, self.ttl, self.ninit = g("untp", 50), g("maxdelay", 10), g("ttl", 5), g("ninit", 1)
        self.R, self.R2 = g("R", 0), g("R2", 0)
        self.alt = sim.cyc(params["alt"]) if params.get("alt") else None
        self.deftb = sim.cyc(params["deftb"]) if params.get("deftb") else 0
        self.log = []
        self.nrx = 0
        self.ports, self.clocks = [], []
        self.okat = [int(x) for x in params.get("okat", "").split(";") if x] if comp is self or comp is None else []

    def L(self, *a):
        self.log.append(" ".join(str(x) for x in a))

    def setup_ports(self):
        s = self.sim
        for spec in [x for x in self.p.get("ports", "").split(";") if x]:
            f = spec.split(":")
            name, kind, tb = f[0], f[1], f[2]
            if kind == "S":
                l = Link()
                l.lat = 0
                l.dst = (self, len(self.ports))
                out = l
                inl = l
            else:
                e = s.ends.get((self.name, name))
                if e is None:
                    self.L("NOLINK", name)
                    continue
                out, inl = e
                inl.dst = (self, len(self.ports))
            out.tb = self.deftb if tb == "-" else s.cyc(tb)
            if len(f) > 3 and f[3] != "-":
                out.lat += s.cyc(f[3])
            if len(f) > 4 and f[4] != "-":
                inl.lat += s.cyc(f[4])
            self.ports.append((name, kind, out, inl))
        for i, spec in enumerate([x for x in self.p.get("clocks", "").split(";") if x]):
            f = spec.split(":")
            c = {"mode": f[1], "n": int(f[2]), "m": int(f[3]), "ticks": 0}
            per = s.cyc(f[0])
            clk = s.clock(per)
            h = H()
            h.fn, h.idx, h.ordered, h.active, h.clk = self.on_tick, i, f[4] == "1", False, clk
            if h.ordered:
                clk.groups.setdefault(self.comp_key(), []).append(h)
            clk.activate(h)
            c["h"] = h
            self.clocks.append(c)

    def comp_key(self):
        return (self.comp or self).name

    def do_send(self, hc, ttl):
        if not self.ports:
            return
        name, kind, out, _ = self.ports[hc % len(self.ports)]
        delay = (hc >> 16) % (self.maxdelay + 1)
        e = None if (hc >> 40) % 100 < self.nullp else Ev(mix(hc, 7), ttl)
        how = (hc >> 48) % 4
        if how == 0:
            d = 0
        elif how == 1 and self.alt is not None:
            d = delay * self.alt
        else:
            d = delay * out.tb
        self.sim.send(out, d, e, kind == "S")

    def process(self, kind, idx, e):
        s = self.sim
        now = s.now
        self.nrx += 1
        self.state = mix(self.state, idx * 1000003 + 17)
        pname = self.ports[idx][0]
        if e is None:
            self.state = mix(self.state, now)
            self.L("N", kind, now, s.prio, pname, "%016x" % self.state)
            return
        self.state = mix(self.state, e.seed)
        self.state = mix(self.state, now)
        self.L("E", kind, now, s.prio, pname, "%016x" % e.seed, e.ttl, "%016x" % self.state)
        for i, c in enumerate(self.clocks):
            if c["mode"] != "X":
                continue
            h = c["h"]
            if e.seed % 5 == 0 and h.active:
                h.clk.deactivate(h)
                self.L("A-", now, i)
            elif e.seed % 5 == 1 and not h.active:
                h.clk.activate(h)
                self.L("A+", now, i, h.clk.next_cycle())
        if e.ttl <= 0:
            return
        h = mix(self.state, 0xF00)
        n = 1
        if h % 100 < self.fan:
            n = 2
        if (h >> 10) % 100 < self.drop:
            n = 0
        for c in range(n):
            self.do_send(mix(h, c + 1), e.ttl - 1)

    def on_tick(self, cyc, idx):
        s = self.sim
        now = s.now
        c = self.clocks[idx]
        c["ticks"] += 1
        self.state = mix(self.state, 0xC10C + idx)
        self.state = mix(self.state, now)
        self.L("T", now, s.prio, idx, cyc, "%016x" % self.state)
        for i, (name, kind, out, inl) in enumerate(self.ports):
            if kind != "P":
                continue
            while inl.q and inl.q[0][0] <= now:
                _, _, e = heapq.heappop(inl.q)
                self.process("P", i, e)
        h = mix(self.state, 0xF11)
        if h % 100 < self.tickp:
            self.do_send(mix(h, 3), self.ttl // 2)
        if c["mode"] == "S" and c["ticks"] >= c["n"]:
            return True
        if c["mode"] == "D" and c["ticks"] % c["n"] == 0:
            self.wake(c["m"], 1000 + idx, mix(self.state, 9))
            return True
        return False

    def wake(self, d, k, seed):
        s = self.sim
        s.push(s.now + d, EVENT, (self.order, 10**9), (self.on_wake, k, seed))

    def on_wake(self, k, seed):
        s = self.sim
        if k >= 1000:
            h = self.clocks[k - 1000]["h"]
            if h.active:
                self.L("WACT", s.now, k - 1000)
                return
            h.clk.activate(h)
            self.L("W", s.now, s.prio, k - 1000, h.clk.next_cycle())
        else:
            self.L("K", s.now, k)
            if k % 2 == 0:
                s.ref -= 1
                if s.ref == 0:
                    s.endt = s.now
                    s.push(s.now + 1, EXIT, 0, "exit")
            else:
                s.ref += 1

    def untimed(self, kind, phase, R):
        s = self.sim
        self.L(kind, phase, s.now)
        for i, (name, k, out, inl) in enumerate(self.ports):
            if k == "S":
                continue
            while inl.iq and inl.iq[0][0] <= phase:
                _, e = inl.iq.pop(0)
                self.state = mix(self.state, (e.seed + i) & M64)
                self.L("U" + kind, phase, name, "%016x" % e.seed, "%016x" % self.state)
                if e.ttl > 0 and self.state % 100 < self.untp:
                    self.send_untimed(out, phase, Ev(mix(self.state, 77), e.ttl - 1))
        if phase < R:
            for i, (name, k, out, inl) in enumerate(self.ports):
                if k == "S":
                    continue
                h = mix(mix(self.state, phase + 100), i)
                n = 1 + (h >> 9) % 2 if h % 100 < self.untp else 0
                for j in range(n):
                    self.send_untimed(out, phase, Ev(mix(h, j), (h >> 20) % 2))

    def send_untimed(self, out, phase, e):
        self.sim.untimed_sent += 1
        out.iq.append((phase + 1, e))

    def do_setup(self):
        self.L("S", self.sim.now)
        for i, t in enumerate(self.okat):
            self.wake(t, i, 0)
        for i in range(self.ninit):
            self.do_send(mix(mix(self.state, 0x5E7), i), self.ttl)

    def do_finish(self):
        s = self.sim
        self.L("F", s.now, s.now, self.nrx)


class Sim:
    def __init__(self, sc, max_acts=400000):
        self.sc = sc
        self.tb = seconds(sc.get("opts", {}).get("timebase", "1ps"))
        self.now, self.prio, self.seq = 0, 0, 0
        self.heap, self.clks, self.ends = [], {}, {}
        self.ref, self.endt = 0, None
        self.max_acts = max_acts
        self.stats = {"acts": 0, "events": 0, "ticks": 0, "ties": 0}

    def cyc(self, t):
        q = seconds(t) / self.tb
        assert q.denominator == 1 and q > 0, t
        return int(q)

    def push(self, t, prio, tag, what):
        self.seq += 1
        if not isinstance(tag, tuple):
            tag = (tag, 0)
        heapq.heappush(self.heap, (t, prio, tag, self.seq, what))

    def clock(self, per):
        if per not in self.clks:
            self.clks[per] = Clock(self, per)
            self.clks[per].schedule()
        return self.clks[per]

    def send(self, out, d, e, is_self):
        t = self.now + d + out.lat
        ag, pi = out.dst
        kind = ag.ports[pi][1]
        if kind == "P":
            self.seq += 1
            heapq.heappush(out.q, (t, self.seq, e))
        else:
            self.push(t, EVENT, (ag.order, 10**9 if is_self else pi), (ag.process, "H", pi, e))

    def run(self):
        sc = self.sc
        for l in sc["links"]:
            (ca, pa, la), (cb, pb, lb) = l["a"], l["b"]
            ab, ba = Link(), Link()
            ab.lat, ba.lat = self.cyc(la), self.cyc(lb)
            self.ends[(ca, pa)] = (ab, ba)   # (outgoing, incoming)
            self.ends[(cb, pb)] = (ba, ab)
        ags, n = [], 0
        for c in sc["comps"]:
            a = Agent(self, c["name"], c.get("params", {}), n, None)
            n += 1
            ags.append(a)
            a.setup_ports()
            if a.okat:
                self.ref += 1
            for sb in c.get("subs", []):
                b = Agent(self, sb["name"], sb.get("params", {}), n, a)
                b.okat = []
                n += 1
                ags.append(b)
                b.setup_ports()
        self.agents = ags
        ph = 0
        while True:
            self.untimed_sent = 0
            for a in ags:
                a.untimed("i", ph, a.R)
            ph += 1
            if not self.untimed_sent:
                break
        self.init_phases = ph
        for (o, i) in self.ends.values():
            o.iq, i.iq = [], []
        for a in ags:
            a.do_setup()
        stop = sc.get("opts", {}).get("stop-at")
        if stop:
            self.push(self.cyc(stop), STOP, 0, "stop")
        self.last = []
        pt = None
        while True:
            if not self.heap:
                raise RuntimeError("scenario does not end")
            t, p, tag, _, w = heapq.heappop(self.heap)
            self.now, self.prio = t, p
            self.stats["acts"] += 1
            if (t, p, tag) == pt:
                self.stats["ties"] += 1
            pt = (t, p, tag)
            if self.stats["acts"] > self.max_acts:
                raise OverflowError("scenario too large")
            if w == "exit":
                if self.ref == 0:
                    end = self.endt
                    self.ended = "exit"
                    break
            elif w == "stop":
                end = t
                self.ended = "stop"
                break
            elif isinstance(w, Clock):
                self.stats["ticks"] += 1
                w.run()
            else:
                self.stats["events"] += 1
                w[0](*w[1:])
        self.now = self.end = end
        ph = 0
        while True:
            self.untimed_sent = 0
            for a in ags:
                a.untimed("c", ph, a.R2)
            ph += 1
            if not self.untimed_sent:
                break
        for a in ags:
            a.do_finish()
        return {a.name: a.log for a in ags}
