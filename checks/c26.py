"""String conversion and tokenizing helpers against Python."""
import math, struct
from vlib import unit, check

PID = "C26"
LIBS = ["vunum"]
N = {"quick": 240, "thorough": 2000}
BATCH = 300
RULE = ("a case converts or tokenizes one generated string; non-trivial if the string has a prefix, sign, exponent, several tokens or is rejected, i.e. is not a plain decimal number, distinct by (operation, string)")
INT = {"b": None, "i": (-2 ** 31, 2 ** 31 - 1), "I": (0, 2 ** 32 - 1), "l": (-2 ** 63, 2 ** 63 - 1), "L": (0, 2 ** 64 - 1), "q": (-2 ** 63, 2 ** 63 - 1),
       "Q": (0, 2 ** 64 - 1), "h": (-2 ** 15, 2 ** 15 - 1), "H": (0, 2 ** 16 - 1), "c": (-128, 127), "e": (0, 1)}
NATIVE = "ilLqQ"
WS = " \t\n\r\v\f"
BOOLS = {"true": 1, "t": 1, "yes": 1, "y": 1, "on": 1, "1": 1, "false": 0, "f": 0, "no": 0, "n": 0, "off": 0, "0": 0}


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def gen1(rng):
    k = rng.choice("iIlLqQhHcbbfdDsTTTRRKKEEWe")
    if k == "b":
        s = rng.choice(list(BOOLS) + ["maybe", "", "2", "tru", " true", "00"])
        s = "".join(c.upper() if rng.random() < 0.4 else c for c in s)
        return [k, s]
    if k in INT:
        lo, hi = INT[k]
        q = rng.random()
        if q < 0.08:
            return [k, rng.choice(["", "abc", "x1", "-", "+", " ", "--1", ".5"])]
        if q < 0.18 and k in NATIVE:
            v = rng.choice([hi + 1, hi * 10, lo - 1 if lo else hi + 2, 10 ** 25])
        else:
            v = rng.choice([lo, hi, 0, 1, rng.randint(lo, hi), rng.randint(lo, hi) >> rng.randint(0, 60)])
        b = rng.choice("dddxXo")
        m = abs(v)
        s = str(m) if b == "d" else "0x%x" % m if b == "x" else "0X%X" % m if b == "X" else "0%o" % m
        if v < 0:
            s = "-" + s
        elif rng.random() < 0.1:
            s = "+" + s
        if rng.random() < 0.1:
            s = rng.choice(WS) + s
        if rng.random() < 0.1:
            s += rng.choice([" ", "zz", ".5", "s"])
        return [k, s, v]
    if k in "fdD":
        v = rng.choice([0.0, 1.0, -1.5, rng.random(), rng.uniform(-1e6, 1e6), rng.random() * 10.0 ** rng.randint(-30, 30), -rng.random() * 10.0 ** rng.randint(-30, 30), 1e6, 1e-6])
        s = repr(v) if rng.random() < 0.7 else "%.*g" % (rng.randint(1, 17), v)
        return [k, s]
    alpha = rng.choice(["ab ,\t", "a,b;c", "xyz \n\r\v\f\t", 'ab,\\"', "abc"])
    s = "".join(rng.choice(alpha) for _ in range(rng.randint(0, 14)))
    if k == "T":
        if rng.random() < 0.4:
            # delimiters that overlap themselves, and inputs made of their own characters
            s = "".join(rng.choice("aab:: ") for _ in range(rng.randint(0, 14)))
            return [k, s, rng.choice(["::", "aa", "aba", "a:a", ": ", ":::"]), rng.choice([0, 1])]
        return [k, s, rng.choice([",", ";", ", ", "a", "ab", " "]), rng.choice([0, 1])]
    if k == "W":
        return [k, "".join(rng.choice("aBcZ09_ Q") for _ in range(rng.randint(0, 12)))]
    return [k, s]


def esc_tokens(s):
    out, tok, q, e = [], "", False, False
    first = True
    i = 0
    res = []
    while True:
        tok, q, e = "", False, False
        while i < len(s):
            c = s[i]
            i += 1
            if e:
                tok += c
                e = False
            elif c == "," and not q:
                break
            elif c == '"':
                q = not q
            elif c == "\\":
                e = True
            else:
                tok += c
        if i >= len(s) and tok == "":
            return res
        res.append(tok)
        if i >= len(s):
            return res


def expect(c):
    k, s = c[0], c[1]
    if k == "b":
        v = BOOLS.get(s.lower())
        return "X invalid_argument" if v is None else str(v)
    if k in INT:
        if len(c) < 3:
            return "X invalid_argument"
        lo, hi = INT[k]
        if k in NATIVE and not lo <= c[2] <= hi:
            if k in "LQ" and c[2] < 0:
                return None
            return "X out_of_range"
        return str(c[2])
    if k == "s":
        return unit.hx(s)
    if k == "T":
        t = s.split(c[2]) if s else []
        if c[3]:
            t = [x.strip(WS) for x in t]
        return " ".join(["n%d" % len(t)] + [unit.hx(x) for x in t])
    if k == "R":
        return unit.hx(s.strip(WS))
    if k == "W":
        return unit.hx(s.lower())
    if k == "K":
        return " ".join(["n"] + [unit.hx(x) for x in s.translate({ord(w): " " for w in WS}).split(" ") if x])
    if k == "E":
        return " ".join(["n"] + [unit.hx(x) for x in esc_tokens(s)])
    return None


def enc(c):
    r = "fs %s:%s" % (c[0], unit.hx(c[1]))
    if c[0] == "T":
        r += ":%s:%d" % (unit.hx(c[2]), c[3])
    return r


def judge(c, r):
    k, s = c[0], c[1]
    if k in "fdD":
        v = float(s)
        if len(r) != 2:
            return "float", "%r gives %s" % (s, r)
        g, t = float.fromhex(r[0]), unit.unhx(r[1])
        ex = f32(v) if k == "f" else v
        if g != ex and not (k == "D" and abs(g - v) <= abs(v) * 2.3e-16):
            return "float", "%r gives %r, expected %r" % (s, g, ex)
        try:
            w = float(t)
        except ValueError:
            return "to_string", "%r printed as %r" % (g, t)
        # fixed notation with 17 decimals in the middle range, 17 digits elsewhere
        if abs(w - g) > max(abs(g) * 1e-15, 1e-17):
            return "to_string", "%r printed as %r" % (g, t)
        return None
    e = expect(c)
    if e is not None and (not r or r[0] != e or any(x.startswith("F ") for x in r)):
        return "value:" + k, "%r gives %s, expected %s" % (c, r, e)


def gen(rng, i, tier):
    return {"cases": [gen1(rng) for _ in range(BATCH)]}


def run_case(case):
    o = check.Out()
    cs = case["cases"]
    res = unit.run("vunum", [enc(c) for c in cs])
    for c, r in zip(cs, res):
        o.n += 1
        o.cls(c[0])
        if not c[1].isdigit():
            o.nontrivial.append(c)
        if r is None:
            continue
        if isinstance(r, str):
            o.fail({"cases": [c]}, "crash", "%r: %s" % (c, r))
            continue
        j = judge(c, r)
        if j:
            o.fail({"cases": [c]}, j[0], j[1])
    o.sample = cs[:3]
    return o


def shrink(case):
    for c in case["cases"]:
        if len(c) == 2 or c[0] == "T":
            for i in range(len(c[1])):
                yield {"cases": [[c[0], c[1][:i] + c[1][i + 1:]] + c[2:]]}
