"""Conversion between physical time and core cycles."""
from fractions import Fraction as Fr
from vlib import unit, check
from c05 import SI, ULP
from c06 import half_even

PID = "C07"
LIBS = ["vunum"]
N = {"quick": 160, "thorough": 1200}
BATCH = 120
RULE = ("a case asks for one conversion (time or frequency string to core cycles through five entry points, cycles back and forth, period of a converter, current time in a base) under one "
        "core timebase at one simulated time; it counts as non-trivial if the string is not exactly the timebase and the answer is neither 0 nor an error, distinct by (timebase, current time, case)")
ASSUMPTIONS = ["exact ties at .5 cycles are accepted in either direction unless exactly representable"]
BASES = ["1fs", "10fs", "100fs", "1ps", "1ps", "1ps", "10ps", "100ps", "1ns", "10 ns", "1us", "1000 ns", "250ps", "3ps", "1.5ns", "500 fs", "16ps", "1GHz", "2 GHz", "500MHz", "1THz"]


def tbase(tb):
    return sec(tb)[0]


MAX = 2 ** 64 - 1


def gen_time(rng):
    p = rng.choice(["", "f", "p", "p", "n", "n", "u", "m", "k"])
    v = rng.choice(["0", "1", "1", "2", "3", "5", "7", "10", "100", "250", "999", "1000", "0.5", "1.5", "0.25", "2.5",
                    str(rng.randrange(10 ** 6)), "%.3f" % (rng.random() * 1000), "%.6f" % (rng.random() * 10)])
    return v + rng.choice(["", " "]) + p + "s"


def gen_freq(rng):
    p = rng.choice(["", "k", "M", "M", "G", "G", "T", "m", "Ki", "Mi"])
    v = rng.choice(["1", "1", "2", "3", "4", "5", "7", "1.5", "2.4", "3.2", "8", "10", "333", "500", "%.3f" % (rng.random() * 100 + 0.1), str(1 + rng.randrange(1000))])
    return v + rng.choice(["", " "]) + p + rng.choice(["Hz", "hz"])


def sec(s):
    """period in seconds as an exact rational (None for zero frequency), kind"""
    s = s.replace(" ", "")
    i = 0
    while i < len(s) and (s[i].isdigit() or s[i] == "."):
        i += 1
    v, u = Fr(s[:i]), s[i:]
    if u.lower().endswith("hz"):
        return 1 / (v * SI.get(u[:-2], 1)), "f"
    return v * SI.get(u[:-1], 1), "t"


def gen(rng, i, tier):
    tb = rng.choice(BASES) if rng.random() < 0.8 else "%dps" % rng.randrange(1, 2000)
    at = rng.choice([0, 1, 7, 999, 1000, 1001, 12345, rng.randrange(10 ** 6), rng.randrange(10 ** 12)])
    cs = []
    for _ in range(BATCH):
        k = rng.random()
        s = gen_freq(rng) if k < 0.4 else gen_time(rng)
        q = rng.choice("FFFFCCPNNM")
        if q == "C":
            cs.append([q, s, rng.choice([0, 1, 2, 1000, rng.getrandbits(rng.randint(1, 40))])])
        elif q == "N" and k < 0.4:
            cs.append(["F", s])
        elif q == "M":
            cs.append(["M"])
        else:
            cs.append([q, s])
    return {"tb": tb, "at": at, "cases": cs}


def enc(c):
    return "time " + ":".join([c[0]] + ([unit.hx(c[1])] if len(c) > 1 else []) + [str(x) for x in c[2:]])


def factor(tb, s):
    """set of acceptable factors, or exception name"""
    p, kind = sec(s)
    x = p / tbase(tb)
    if x > MAX:
        return "X overflow"
    if 0 < x < 1:
        return "X underflow"
    r = half_even(x)
    if kind == "t":
        return {int(x), int(x) + 1} if x - int(x) == Fr(1, 2) else {r}
    # 1/f on a 24 digit grid: relative error around 1e-24 * f
    tol = 40 * ULP * (1 + 1 / p) * (1 + 1 / tbase(tb))
    lo, hi = half_even(max(x - tol, Fr(0))), half_even(x + tol)
    if hi - lo > 1:
        return None
    return {lo, hi, r}


def judge(tb, at, c, l):
    k = c[0]
    if k == "M":
        t = at * tbase(tb)
        # a base is rounded to a whole number of core cycles; bases below the core timebase are converted exactly
        opts = [{at}]
        for b, e in (("1ns", 9), ("1us", 6), ("1ms", 3)):
            f = factor(tb, b)
            opts.append({int(t * 10 ** e)} if isinstance(f, str) else {at // x for x in f})
        ex = [sorted(x) for x in opts]
        g = l.split(" ")
        try:
            ok = len(g) == 6 and all(int(x) in e for x, e in zip(g, opts)) and Fr(g[4]) == t and (t == 0 or g[5] == "s")
        except (ValueError, IndexError):
            ok = False
        return None if ok else ("now", "current time at cycle %d: got %s, expected %s and %s s" % (at, l, ex, float(t)))
    s = c[1]
    f = factor(tb, s)
    if f is None:
        return None
    if k == "F":
        if isinstance(f, str):
            return None if l == f else ("factor", "%r with timebase %s: expected %s, got %s" % (s, tb, f, l))
        try:
            g = [int(x) for x in l.split()]
        except ValueError:
            return "factor", "%r with timebase %s: expected %s, got %s" % (s, tb, f, l)
        if len(g) != 5 or any(x not in f for x in g) or len(set(g)) != 1:
            return "factor", "%r with timebase %s: expected %s by all five routes, got %s" % (s, tb, f, l)
        return None
    if k == "N":
        p, _ = sec(s)
        if p == 0:
            return None
        if isinstance(f, str):
            if f == "X overflow":
                return None if l == f else ("now", "current time in %r: got %s, expected %s" % (s, l, f))
            ex = int(at * tbase(tb) / p)
            if ex > MAX:
                return None
            ok = {ex}
        else:
            ok = {at // x for x in f if x}
        g = l.split()
        if len(g) != 2 or g[0] != g[1] or not g[0].isdigit() or int(g[0]) not in ok:
            return "now", "current time in %r at cycle %d, timebase %s: got %s, expected %s" % (s, at, tb, l, sorted(ok))
        return None
    if isinstance(f, str):
        return None if l == f else ("conv", "%r with timebase %s: expected %s, got %s" % (s, tb, f, l))
    if k == "C":
        ok = set()
        for x in f:
            if x == 0:
                return None
            ok.add("%d %d" % (c[2] * x % 2 ** 64, c[2] // x))
        return None if l in ok else ("conv", "conversions of %d with %r, timebase %s: got %s, expected %s" % (c[2], s, tb, l, ok))
    if k == "P":
        g = l.split(" ")
        try:
            ok = any(Fr(g[0]) == x * tbase(tb) for x in f) and (g[1] == "s")
        except (ValueError, IndexError):
            ok = False
        return None if ok else ("period", "period of %r with timebase %s: got %s, expected %s cycles" % (s, tb, l, f))


def run_case(case):
    o = check.Out()
    cs = [c for c in case["cases"] if not (c[0] in "CN" and sec(c[1])[0] == 0)]
    res = unit.run("vunum", [enc(c) for c in cs], args=["--timebase=" + case["tb"]], at=case["at"])
    for c, r in zip(cs, res):
        o.n += 1
        one = {"tb": case["tb"], "at": case["at"], "cases": [c]}
        o.cls(c[0])
        if r is None:
            continue
        if isinstance(r, str) or not r:
            o.fail(one, "crash", "%s: %s" % (c, r))
            continue
        if not r[0].startswith("X") and r[0] not in ("0 0",):
            o.nontrivial.append((case["tb"], case["at"], c))
        else:
            o.cls("error or zero")
        j = judge(case["tb"], case["at"], c, r[0])
        if j:
            o.fail(one, j[0], j[1])
    o.sample = {"tb": case["tb"], "at": case["at"], "cases": cs[:3]}
    return o


def shrink(case):
    for at in (0, 1, 1000):
        yield dict(case, at=at)
