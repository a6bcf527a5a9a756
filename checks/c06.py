"""Decimal fixed point numbers against exact rational arithmetic."""
from fractions import Fraction as Fr
from vlib import unit, check

PID = "C06"
LIBS = ["vunum"]
N = {"quick": 100, "thorough": 1200}
BATCH = 250
JOBS = 8
RULE = ("a case is a program of 2-14 operations (parse, construct from integer or double, arithmetic, inverse, comparison, rounding, printing) over 8 registers; it counts as "
        "non-trivial if it has at least 2 arithmetic operations or comparisons on values with non-zero fraction digits, distinct by program text")
ASSUMPTIONS = ["division and inverse are judged with a tolerance of a few units of the last place scaled by the operands (the algorithm is Newton-Raphson on a fixed grid)",
               "results outside the representable range are not generated (arithmetic wraps there)"]
FMT = {"dec33": (3, 3), "dec24": (2, 4), "dec41": (4, 1)}


def parse_out(s):
    return Fr(s)


def trunc(x, F):
    m = abs(x) * 10 ** (8 * F)
    q = Fr(m.numerator // m.denominator, 10 ** (8 * F))
    return -q if x < 0 else q


def half_even(m):
    q, r = divmod(m.numerator, m.denominator)
    t = 2 * r
    if t > m.denominator or (t == m.denominator and q % 2):
        q += 1
    return q


def gen_num(rng, W, F):
    k = rng.random()
    nd = rng.choice([0, 0, 1, 2, 3, 5, 8, 9, rng.randint(0, 8 * F)])
    wd = rng.choice([1, 1, 2, 3, 7, 8, 9, rng.randint(1, 8 * W - 1)])
    dig = lambda n: "".join(rng.choice("0001234556789999") for _ in range(n))
    w = dig(wd)
    s = w
    if nd:
        s += "." + dig(nd)
    if k < 0.25:
        # exponent form that stays in range
        lo, hi = -(8 * F - nd), 8 * W - 1 - wd
        e = rng.randint(min(lo, 0) - (6 if rng.random() < 0.3 else 0), max(hi, 0))
        s += rng.choice("eE") + str(e)
    elif k < 0.3:
        s = w + "." + dig(8 * F + rng.randint(1, 12))
    if rng.random() < 0.3:
        s = "-" + s
    return s


def gen_prog(rng):
    fmt = rng.choice(["dec33", "dec33", "dec33", "dec24", "dec41"])
    W, F = FMT[fmt]
    R = [Fr(0)] * 8
    lim = Fr(10) ** (8 * W)
    ops = []
    nr = 0
    for i in range(rng.randint(2, 14)):
        k = rng.random()
        if nr < 2 or k < 0.22:
            d = nr if nr < 8 else rng.randrange(8)
            q = rng.random()
            if q < 0.75:
                s = gen_num(rng, W, F)
                if rng.random() < 0.02:
                    # too large: must be refused
                    ops.append(["Y", d, "%s%d%se%d" % (rng.choice(["", "-"]), rng.randint(1, 9), rng.choice(["", ".25", "000"]), 8 * W + rng.choice([0, 1, 5, 20, 200]))])
                    continue
                if abs(Fr(s)) >= lim:
                    continue
                ops.append(["P", d, s])
                R[d] = trunc(Fr(s), F)
            elif q < 0.82:
                v = rng.choice([0, 1, 2 ** 64 - 1, 2 ** 63, rng.getrandbits(rng.randint(1, 64))])
                if v >= lim:
                    continue
                ops.append(["U", d, str(v)])
                R[d] = Fr(v)
            elif q < 0.9:
                v = rng.choice([0, -1, 2 ** 63 - 1, -2 ** 63 + 1, rng.getrandbits(rng.randint(1, 62)) * rng.choice([1, -1])])
                if abs(v) >= lim:
                    continue
                ops.append(["L", d, str(v)])
                R[d] = Fr(v)
            else:
                v = rng.choice([1.0, -1.0, 0.5, rng.random() * 10 ** rng.randint(-6, 12), -rng.random() * 10 ** rng.randint(-6, 12)])
                ops.append(["D", d, repr(v)])
                R[d] = Fr(v)
            nr = max(nr, d + 1)
            continue
        a, b, d = rng.randrange(nr), rng.randrange(nr), rng.randrange(8)
        op = rng.choice("++--**/inccccttttludk")
        if op in "+-*":
            v = R[a] + R[b] if op == "+" else R[a] - R[b] if op == "-" else R[a] * R[b]
            if abs(v) >= lim / 2:
                continue
            ops.append([op, d, a, b])
            R[d] = v
            nr = max(nr, d + 1) if d <= nr else nr
        elif op in "/i":
            x = R[b]
            if x == 0 or not (Fr(10) ** (-4 * F) <= abs(x) <= Fr(10) ** (4 * W)):
                continue
            v = 1 / x if op == "i" else R[a] / x
            if abs(v) >= lim / 1000 or abs(1 / x) >= lim / 1000:
                continue
            ops.append([op, d, b] if op == "i" else [op, d, a, b])
            R[d] = v
        elif op == "n":
            ops.append(["n", d, a])
            R[d] = -R[a]
        elif op == "c":
            ops.append(["c", a, b])
        elif op == "t":
            ops.append(["t", a, rng.choice([0, 1, 2, 3, 5, 6, 8, 12, 16, 17, 24, 30, 48, 60])])
        elif op == "l":
            if abs(R[a]) < 2 ** 62:
                ops.append(["l", a])
        elif op == "u":
            if 0 <= R[a] < 2 ** 63:
                ops.append(["u", a])
        elif op == "k":
            if 0 <= R[a] < 2 ** 62:
                ops.append(["k", a])
        else:
            ops.append(["d", a])
        nr = min(8, max(nr, nr))
    return {"fmt": fmt, "ops": ops}


def encode(p):
    t = []
    for o in p["ops"]:
        if o[0] in "PY":
            t.append("P:%d:%s" % (o[1], unit.hx(o[2])))
        else:
            t.append(":".join(map(str, o)))
    return p["fmt"] + " " + " ".join(t)


def judge(p, lines):
    """None or (key, message)."""
    W, F = FMT[p["fmt"]]
    ulp = Fr(1, 10 ** (8 * F))
    R = [Fr(0)] * 8
    if len(lines) != len(p["ops"]):
        return "crash", "%d results for %d operations" % (len(lines), len(p["ops"]))
    for o, l in zip(p["ops"], lines):
        k = o[0]
        msg = None
        if k == "Y":
            if not l.startswith("X "):
                return "overflow", "%r accepted as %s" % (o[2], l)
            continue
        if l.startswith("X ") or l.startswith("!"):
            return "exception:" + k, "%r threw %s" % (o, l)
        try:
            if k in "PULDi+-*/n":
                got = Fr(l)
            elif k == "t":
                got = Fr(l)
            elif k == "d":
                got = float.fromhex(l)
        except ValueError:
            return "format:" + k, "%r gives %r" % (o, l)
        if k in "PULD":
            tol = Fr(0)
            if k == "P":
                ex = trunc(Fr(o[2]), F)
            elif k in "UL":
                ex = Fr(int(o[2]))
            else:
                ex = Fr(float(o[2]))
                tol = abs(ex) / 2 ** 48 + 2 * ulp
            if abs(got - ex) > tol:
                msg = "expected %s" % ex
            R[o[1]] = got
        elif k in "+-*":
            a, b = R[o[2]], R[o[3]]
            ex = a + b if k == "+" else a - b if k == "-" else trunc(a * b, F)
            if abs(ex) >= Fr(10) ** (8 * W):
                return None
            if got != ex:
                msg = "%s %s %s: expected %s" % (float(a), k, float(b), ex)
            R[o[1]] = got
        elif k in "/i":
            a, b = (R[o[2]], R[o[3]]) if k == "/" else (Fr(1), R[o[2]])
            if b == 0 or abs(a / b) >= Fr(10) ** (8 * W) / 1000 or abs(1 / b) >= Fr(10) ** (8 * W) / 1000:
                return None
            ex = a / b
            tol = 20 * ulp * (1 + abs(1 / b)) * (1 + abs(a))
            if abs(got - ex) > tol:
                msg = "%s / %s: expected %s" % (float(a), float(b), float(ex))
            R[o[1]] = got
        elif k == "n":
            if got != -R[o[2]]:
                msg = "expected %s" % -R[o[2]]
            R[o[1]] = got
        elif k == "c":
            a, b = R[o[1]], R[o[2]]
            ex = "".join("01"[x] for x in (a < b, a <= b, a == b, a != b, a >= b, a > b, a == 0))
            if l != ex:
                msg = "comparison of %s and %s: expected %s (< <= == != >= > isZero)" % (float(a), float(b), ex)
        elif k == "t":
            a, n = R[o[1]], o[2]
            nd = 8 * (W + F)
            if n <= 0 or n > nd:
                n = nd
            m = abs(a)
            if m == 0:
                ex = Fr(0)
            else:
                e = len(str(m.numerator // m.denominator)) if m >= 1 else 0
                if m < 1:
                    while m * 10 ** (-e + 1) < 1:
                        e -= 1
                # m in [10^(e-1), 10^e)
                sc = Fr(10) ** (n - e)
                ex = Fr(half_even(m * sc)) / sc
            if a < 0:
                ex = -ex
            if got != ex:
                msg = "printing %s with %d digits: expected %s" % (a, o[2], float(ex))
        elif k in "luk":
            a = R[o[1]]
            if (a < 0 and k != "l") or abs(a) >= 2 ** 62:
                return None
            r = half_even(abs(a)) * (-1 if a < 0 else 1)
            if k == "l" and l != str(r):
                msg = "rounding %s: expected %d" % (float(a), r)
            ok = {r, int(a)}
            if k == "u" and int(l) not in ok:
                msg = "unsigned value of %s" % float(a)
            if k == "k":
                x, y = map(int, l.split())
                if x != r or y not in ok:
                    msg = "convert_to of %s" % float(a)
        elif k == "d":
            a = R[o[1]]
            if abs(Fr(got) - a) > abs(a) / 2 ** 45 + ulp:
                msg = "toDouble of %s" % a
        if msg:
            return "value:" + k, "%r gives %s; %s" % (o, l, msg)
    return None


def gen(rng, i, tier):
    return {"progs": [gen_prog(rng) for _ in range(BATCH)]}


def nontrivial(p):
    return sum(1 for o in p["ops"] if o[0] in "+-*/ict") >= 2 and any(o[0] == "P" and "." in o[2] for o in p["ops"])


def run_case(case):
    o = check.Out()
    P = case["progs"]
    res = unit.run("vunum", [encode(p) for p in P])
    for p, r in zip(P, res):
        o.n += 1
        if nontrivial(p):
            o.nontrivial.append(encode(p))
        for x in p["ops"]:
            o.cls(x[0])
        if r is None:
            continue
        if isinstance(r, str):
            o.fail({"progs": [p]}, "crash", r)
            continue
        j = judge(p, r)
        if j:
            o.fail({"progs": [p]}, j[0], p["fmt"] + ": " + j[1])
    o.sample = P[0]
    return o


def shrink(case):
    for p in case["progs"]:
        n = len(p["ops"])
        for i in range(n):
            yield {"progs": [{"fmt": p["fmt"], "ops": p["ops"][:i] + p["ops"][i + 1:]}]}
        for i, op in enumerate(p["ops"]):
            if op[0] == "P" and len(op[2]) > 1:
                for j in range(len(op[2])):
                    s = op[2][:j] + op[2][j + 1:]
                    try:
                        if abs(Fr(s)) >= Fr(10) ** (8 * FMT[p["fmt"]][0]):
                            continue
                    except (ValueError, ZeroDivisionError):
                        continue
                    yield {"progs": [{"fmt": p["fmt"], "ops": p["ops"][:i] + [["P", op[1], s]] + p["ops"][i + 1:]}]}
