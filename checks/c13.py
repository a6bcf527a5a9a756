"""Random number generators and distributions against reference implementations."""
import math
from vlib import unit, check

PID = "C13"
LIBS = ["vurng"]
N = {"quick": 300, "thorough": 4000}
BATCH = 25
RULE = ("a case is a program of engine constructions, seeds, draws of every kind, distributions sharing engines and checkpoints of the whole set; non-trivial if it draws after a checkpoint or a reseed, crosses a "
        "batch of 624 Mersenne numbers or draws from a distribution, distinct by program")
ASSUMPTIONS = ["discrete outcomes are numbered from 1 as in the project's reference outputs; outcome values within 1e-9 of a boundary of the distribution are not judged",
               "logarithm, exponential and square root are judged to a relative 1e-12"]
M32 = 2 ** 32 - 1


class MT:
    def __init__(s, seed):
        s.seed(seed)

    def seed(s, v):
        s.n = [v & M32]
        for i in range(1, 624):
            s.n.append((1812433253 * (s.n[-1] ^ (s.n[-1] >> 30)) + i) & M32)
        s.i = 624

    def u32(s):
        if s.i == 624:
            n = s.n
            for i in range(624):
                t = (n[i] & 0x80000000) | (n[(i + 1) % 624] & 0x7fffffff)
                n[i] = n[(i + 397) % 624] ^ (t >> 1) ^ (0x9908b0df if t & 1 else 0)
            s.i = 0
        v = s.n[s.i]
        s.i += 1
        v ^= v >> 11
        v ^= (v << 7) & 0x9d2c5680
        v ^= (v << 15) & 0xefc60000
        return v ^ (v >> 18)

    def uni(s):
        while True:
            v = s.u32()
            if v != M32:
                return v / M32


class MW:
    def __init__(s, z, w):
        s.z, s.w = z & M32, w & M32

    def seed(s, v):
        s.z, s.w = v & M32, (((~v) << 1) + 1) & M32

    def u32(s):
        s.z = (36969 * (s.z & 65535) + (s.z >> 16)) & M32
        s.w = (18000 * (s.w & 65535) + (s.w >> 16)) & M32
        return ((s.z << 16) + s.w) & M32

    def uni(s):
        return ((s.u32() + 1) & M32) * 2.328306435454494e-10


class XS:
    def __init__(s, v):
        s.seed(v)

    def seed(s, v):
        s.s = [v & M32, 0, 0, 0]

    def u32(s):
        x, y, z, w = s.s
        t = (x ^ (x << 11)) & M32
        w2 = w ^ (w >> 19) ^ t ^ (t >> 8)
        s.s = [y, z, w, w2]
        return w2

    uni = MT.uni


class Unj(Exception):
    """outcome on a boundary: not judged from here on"""


def sgn(v, b):
    return v - (1 << b) if v >> (b - 1) else v


def draw(r, k):
    if k == "u":
        return r.uni()
    if k in "iI":
        v = r.u32()
        return sgn(v, 32) if k == "i" else v
    lo = r.u32()
    v = lo | (r.u32() << 32)
    return sgn(v, 64) if k == "l" else v


class Dist:
    def __init__(s, k, r, p):
        s.k, s.r, s.p, s.pair = k, r, p, None

    def get(s):
        k, r, p = s.k, s.r, s.p
        if k == "c":
            return p[0]
        if k == "e":
            return math.log(1 - r.uni()) / (-1 * p[0])
        if k == "g":
            if s.pair is not None:
                v, s.pair = s.pair, None
                return v
            for _ in range(10000):
                u, v = r.uni(), r.uni()
                q = u * u + v * v
                if q < 1 and q != 0:
                    break
            if r.uni() < .5:
                u = -u
            if r.uni() < .5:
                v = -v
            m = math.sqrt(-2.0 * math.log(q) / q)
            s.pair = p[0] + p[1] * v * m
            return p[0] + p[1] * u * m
        if k == "p":
            L, x, n = math.exp(-p[0]), 1.0, 0
            while True:
                n += 1
                x *= r.uni()
                if abs(x - L) < 1e-13:
                    raise Unj()
                if not x > L:
                    return n - 1.0
        u = r.uni()
        if k == "u":
            n = int(p[0])
            x = u * n
            if n == 0:
                n, x = 1, u
            if x == 0.0 and u == 0.0:
                return 0.0
            if abs(x - round(x)) < 1e-9:
                raise Unj()
            return float(math.floor(x))
        acc, out = 0.0, 0
        for i, q in enumerate(p):
            if abs(u - acc) < 1e-9:
                raise Unj()
            if u > acc:
                out = i + 1
            acc += q
        return float(out)


def xs_inverse(w):
    """seed x whose first output is w"""
    t = w
    t = w ^ (t >> 8)
    for _ in range(4):
        t = w ^ (t >> 8)
    x = t
    for _ in range(4):
        x = (t ^ (x << 11)) & M32
    return x


def rseed(rng):
    return rng.choice([1, 2, 10111, M32, 2 ** 31, rng.getrandbits(32) or 1, rng.getrandbits(32) or 1, rng.getrandbits(8) or 1])


def gen_prog(rng):
    ops, eng, dist = [], {}, {}
    own = set()
    for _ in range(rng.randint(3, 14)):
        q = rng.random()
        if not eng or q < .15:
            a = rng.randrange(4)
            if any(d == a for d in dist.values()):
                continue
            k = rng.choice("MMAAXX")
            s1 = rseed(rng)
            if k == "X" and rng.random() < .3:
                s1 = xs_inverse(rng.choice([M32, 0x80000000, 0x7fffffff, 1]))
            s2 = rng.choice([0, 1, M32, rng.getrandbits(32)])
            if k == "A" and rng.random() < .15:
                s1 = s2 = 0xffff0000
            if rng.random() < .15:
                # clock seeded, then seeded: deterministic again
                s = rng.choice([rseed(rng), rng.getrandbits(64), 2 ** 32 + 5])
                if k == "X" and s & M32 == 0:
                    continue
                ops.append(["E", a, k.lower(), 0, 0])
                if rng.random() < .3:
                    ops.append(["N", a, "u", rng.randint(1, 30)])
                if k != "X":
                    ops.append(["S", a, s])
                else:
                    ops.append(["S", a, s])
            else:
                ops.append(["E", a, k, s1, s2])
            eng[a] = k
        elif q < .22:
            a = rng.choice(list(eng))
            s = rng.choice([rseed(rng), rng.getrandbits(64), 0, 2 ** 32, 2 ** 63 - 1])
            if eng[a] == "A" and rng.random() < .4:
                ops.append(["R", a, rng.choice([0, 1, 0xffff0000, M32, rng.getrandbits(32)]), rng.choice([0, 0xffff0000, M32, rng.getrandbits(32)])])
                if ops[-1][2:] == [0, 0]:
                    ops[-1][2] = 5
            else:
                if s & M32 == 0 and (eng[a] == "X"):
                    s = 77
                ops.append(["S", a, s])
        elif q < .50:
            a = rng.choice(list(eng))
            ks = "".join(rng.choice("uuiIlL") for _ in range(rng.randint(1, 4)))
            ops.append(["N", a, ks, rng.choice([1, 2, 5, 20, 100, 310, 700])])
        elif q < .68:
            a = rng.randrange(4)
            b = rng.choice(list(eng))
            k = rng.choice("cegpuddgg")
            p = {"c": lambda: [rng.choice([0.0, -1.5, 1e300, rng.random()])], "e": lambda: [rng.choice([1.0, .5, 3.0, 1e-3, 100.0])],
                 "g": lambda: [rng.choice([0.0, 1.5, -100.0]), rng.choice([1.0, .25, 10.0])], "p": lambda: [rng.choice([.1, 1.0, 3.0, 20.0])],
                 "u": lambda: [rng.choice([1, 2, 3, 7, 10, 49, 1000, 0])], "d": None}[k]
            if k == "d":
                n = rng.choice([1, 2, 3, 5, 8])
                w = [rng.choice([1, 2, 5, 0, 10]) for _ in range(n)]
                if not sum(w):
                    w[0] = 1
                p = [x / sum(w) for x in w]
            else:
                p = p()
            ops.append(["D", a, k, b] + p)
            dist[a] = b
        elif q < .70:
            ops.append(["Q", rng.choice("eugpd")])
        elif q < .90 and dist:
            a = rng.choice(list(dist))
            ops.append(["G", a, rng.choice([1, 1, 2, 3, 7, 50, 200])])
            if rng.random() < .2:
                ops.append(["P", a])
        else:
            ops.append(["Z", rng.choice(["k", "d"])])
    return ops


def tok(ops):
    t = []
    for o in ops:
        if o[0] == "Q":
            # an owned, clock seeded engine: only the range is judged
            p = {"e": [2.5], "u": [6], "g": [1.0, 2.0], "p": [3.0], "d": [.25, .25, .5]}[o[1]]
            t.append("D:3:%s:-:%s" % (o[1], ":".join(repr(x) for x in p)))
            t.append("G:3:40")
        else:
            t.append(":".join(repr(x) if isinstance(x, float) else str(x) for x in o))
    return " ".join(t)


def near(a, b):
    if a == b:
        return True
    return isinstance(a, float) and isinstance(b, float) and abs(a - b) <= 1e-12 * max(abs(a), abs(b)) + 1e-300


def judge(case, lines):
    """None or (key, message)"""
    eng, dist, rnd, lost = {}, {}, set(), set()
    li = 0
    for l in lines:
        if l.startswith("F "):
            return l.split()[1], l
    val = [l.split()[1:] for l in lines if l == "v" or l.startswith("v ")]
    if len(val) != sum(o[0] in "NGPQ" for o in case):
        return "rng-output", "missing output: %s" % lines[-1:]
    for n, o in enumerate(case):
        a = o[1] if len(o) > 1 else None
        if o[0] == "E":
            eng[a] = {"M": lambda: MT(o[3]), "A": lambda: MW(o[3], o[4]), "X": lambda: XS(o[3]), "m": lambda: MT(0), "a": lambda: MW(0, 0), "x": lambda: XS(1)}[o[2]]()
            rnd.discard(a)
            if o[2] in "max":
                rnd.add(a)
        elif o[0] == "S":
            eng[a].seed(o[2])
            rnd.discard(a)
        elif o[0] == "R":
            eng[a].z, eng[a].w = o[2] & M32, o[3] & M32
            rnd.discard(a)
        elif o[0] == "N":
            got = val[li]
            li += 1
            if len(got) != o[3]:
                return "rng-output", "op %d: %d values" % (n, len(got))
            for i, g in enumerate(got):
                k = o[2][i % len(o[2])]
                g = float.fromhex(g) if k == "u" else int(g)
                if k == "u" and not 0.0 <= g < 1.0:
                    return "rng-range", "op %d %s value %d: nextUniform %r" % (n, o, i, g)
                if a in rnd:
                    continue
                e = draw(eng[a], k)
                if not near(g, e):
                    return "rng-value", "op %d %s value %d (%s): %r expected %r" % (n, o, i, k, g, e)
        elif o[0] == "D":
            dist[a] = Dist(o[2], eng[o[3]], o[4:])
            dist[a].b = o[3]
        elif o[0] == "Q":
            got = [float.fromhex(x) for x in val[li]]
            li += 1
            dist.pop(3, None)
            ok = {"e": lambda x: x >= 0 and math.isfinite(x), "u": lambda x: x in range(6), "g": math.isfinite, "p": lambda x: x >= 0 and x == int(x) and x < 60,
                  "d": lambda x: x in (0, 1, 2, 3)}[o[1]]
            bad = [x for x in got if not ok(x)]
            if bad or len(got) != 40:
                return "dist-range", "clock seeded %s gives %r" % (o[1], bad)
            if o[1] in "eg" and len(set(got)) < 30:
                return "dist-range", "clock seeded %s repeats: %r" % (o[1], got)
        elif o[0] == "G":
            got = [float.fromhex(x) for x in val[li]]
            li += 1
            d = dist.get(a)
            if d is None or d.b in rnd:
                continue
            if len(got) != o[2]:
                return "rng-output", "op %d: %d values" % (n, len(got))
            for i, g in enumerate(got):
                try:
                    e = d.get()
                except Unj:
                    # stay in step with the real value is impossible for poisson: stop judging
                    if d.k == "p":
                        return None
                    continue
                if not near(g, e):
                    return "dist-value", "op %d %s value %d of %s%s: %r expected %r" % (n, o, i, d.k, d.p, g, e)
        elif o[0] == "P":
            got = [float.fromhex(x) for x in val[li]]
            li += 1
            d = dist.get(a)
            if d is not None:
                e = {"c": d.p[:1], "e": d.p[:1], "p": d.p[:1], "g": d.p[:2]}.get(d.k, [])
                if got != e:
                    return "dist-param", "op %d %s: %r expected %r" % (n, d.k, got, e)
    return None


def clean(ops):
    """Drop operations that refer to engines or distributions that do not exist (after shrinking)."""
    eng, dist, r = {}, {}, []
    for o in ops:
        if o[0] == "E":
            if o[1] in dist.values():
                continue
            eng[o[1]] = o[2].upper()
        elif o[0] in "SNR":
            if o[1] not in eng or (o[0] == "R" and eng[o[1]] != "A"):
                continue
        elif o[0] == "D":
            if o[3] not in eng:
                continue
            dist[o[1]] = o[3]
        elif o[0] in "GP":
            if o[1] not in dist:
                continue
        elif o[0] == "Q":
            dist.pop(3, None)
        r.append(o)
    return r


def FIXED():
    xs = [["E", 0, "X", xs_inverse(M32), 0], ["N", 0, "u", 3], ["E", 1, "A", 0xffff0000, 0xffff0000], ["N", 1, "u", 5], ["Z", "d"], ["N", 0, "uL", 10]]
    mt = [["E", 0, "M", 10111, 0], ["N", 0, "I", 623], ["Z", "d"], ["N", 0, "I", 5], ["N", 0, "L", 700], ["D", 0, "g", 0, 0.0, 1.0], ["G", 0, 1], ["Z", "d"], ["G", 0, 3], ["N", 0, "u", 2]]
    r = [{"p": [xs, mt]}]
    for s, i in MT_MAX:
        r.append({"p": [[["E", 0, "M", s, 0], ["N", 0, "I", i], ["N", 0, "u", 2]], [["E", 0, "M", s, 0], ["N", 0, "I", i + 1]]]})
    return r


# (seed, index): the generator's output number `index` is 0xFFFFFFFF, so nextUniform has to draw again
MT_MAX = [(66863146, 58), (74800405, 40), (101875901, 87), (107573263, 52), (107605181, 60), (147791615, 7)]


def gen(rng, i, tier):
    ps = []
    while len(ps) < BATCH:
        p = clean(gen_prog(rng))
        # a Gaussian (or an engine stuck at zero) must not be fed by a dead engine
        st, ok = {}, True
        for o in p:
            if o[0] == "E":
                st[o[1]] = o[3] or o[4] if o[2] == "A" else o[3] if o[2] == "X" else 1
            elif o[0] == "S":
                st[o[1]] = 1
            elif o[0] == "R":
                st[o[1]] = o[2] or o[3]
            elif o[0] == "D" and not st.get(o[3]):
                ok = False
        if ok and p:
            ps.append(p)
    return {"p": ps}


def nontriv(p):
    z, n = False, 0
    for o in p:
        if o[0] in "ZS":
            z = True
        elif o[0] == "N":
            n += o[3]
            if z or n > 624:
                return True
        elif o[0] == "G":
            return True
    return False


def run_case(case):
    o = check.Out()
    res = unit.run("vurng", ["rng " + tok(p) for p in case["p"]])
    for p, l in zip(case["p"], res):
        if l is None:
            continue
        o.n += 1
        if isinstance(l, str):
            o.fail({"p": [p]}, "rng-crash", l)
            continue
        e = judge(p, l)
        if e:
            o.fail({"p": [p]}, e[0], e[1])
        if nontriv(p):
            o.nontrivial.append(p)
        for x in p:
            o.cls(x[0] + (x[2] if x[0] in "ED" else ""))
    o.sample = tok(case["p"][0])[:300]
    return o


def shrink(case):
    p = case["p"][0]
    for i in range(len(p)):
        q = clean(p[:i] + p[i + 1:])
        if q:
            yield {"p": [q]}
    for i, o in enumerate(p):
        if o[0] in "NG" and o[-1] > 1:
            for v in (1, o[-1] // 2, o[-1] - 1):
                yield {"p": [p[:i] + [o[:-1] + [v]] + p[i + 1:]]}
        if o[0] == "N" and len(o[2]) > 1:
            for k in o[2]:
                yield {"p": [p[:i] + [o[:2] + [k] + o[3:]] + p[i + 1:]]}
