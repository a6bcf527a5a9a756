"""UnitAlgebra (C++ and Python interfaces) against exact rationals with unit exponents."""
import re, os
from fractions import Fraction as Fr
from vlib import unit, check, sstrun, build
from c06 import half_even, trunc

PID = "C05"
LIBS = ["vunum"]
N = {"quick": 160, "thorough": 1000}
BATCH = 200
RULE = ("a case is a program of 2-12 operations (parse, + - * /, scaling, inverse, comparisons, hasUnits, printing, rounding, print/parse round trip) on quantities with units; it counts "
        "as non-trivial if it parses a prefixed or compound unit and performs at least one arithmetic operation or comparison, distinct by program text")
ASSUMPTIONS = ["quotients and inverses are judged with a tolerance of a few units of the last place (24 decimal places) scaled by the operands",
               "values outside the representable range (24 whole, 24 fraction digits) are not generated"]
F = 3
ULP = Fr(1, 10 ** 24)
LIM = Fr(10) ** 24
SI = {"a": Fr(1, 10 ** 18), "f": Fr(1, 10 ** 15), "p": Fr(1, 10 ** 12), "n": Fr(1, 10 ** 9), "u": Fr(1, 10 ** 6), "m": Fr(1, 1000),
      "k": Fr(1000), "K": Fr(1000), "M": Fr(10 ** 6), "G": Fr(10 ** 9), "T": Fr(10 ** 12), "P": Fr(10 ** 15), "E": Fr(10 ** 18),
      "ki": Fr(2 ** 10), "Ki": Fr(2 ** 10), "Mi": Fr(2 ** 20), "Gi": Fr(2 ** 30), "Ti": Fr(2 ** 40), "Pi": Fr(2 ** 50), "Ei": Fr(2 ** 60)}
BASE = ["s", "B", "b", "events"]
COMP = {"Hz": {"s": -1}, "hz": {"s": -1}, "Bps": {"B": 1, "s": -1}, "bps": {"b": 1, "s": -1}, "event": {"events": 1}}


def uadd(a, b, k=1):
    r = dict(a)
    for x, n in b.items():
        r[x] = r.get(x, 0) + k * n
        if r[x] == 0:
            del r[x]
    return r


def split_unit(u):
    """(multiplier, unit dict) or None."""
    if u in BASE:
        return Fr(1), {u: 1}
    if u in COMP:
        return Fr(1), COMP[u]
    for n in (2, 1):
        p = u[:n]
        if len(p) == n and p in SI:
            if n == 1 and u[1:2] == "i" and p in "kKMGTPE":
                continue
            t = u[n:]
            if t in BASE:
                return SI[p], {t: 1}
            if t in COMP:
                return SI[p], COMP[t]
    return None


def parse(s):
    """(number, multiplier, units, error bound of the multiplier, out of range?) of a well formed string."""
    m = re.fullmatch(r"\s*(-?[0-9]*\.?[0-9]*(?:[eE][-+]?[0-9]+)?)\s*([A-Za-z1/-]*)\s*", s)
    num, us = m.group(1), m.group(2)
    mult, units, err, low = Fr(1), {}, Fr(0), False
    g = us.split("/")
    for k, part in enumerate(g):
        for u in part.split("-") if part else []:
            if u == "1":
                continue
            f, d = split_unit(u)
            if k == 0:
                err = err * f + (ULP if (mult * f * 10 ** 24).denominator != 1 else 0)
                mult = mult * f
            elif f != 1:
                err = err / f + mult * 20 * ULP * (1 + 1 / f) + ULP
                mult = mult / f
            if not Fr(1, 10 ** 18) <= mult <= 10 ** 18:
                low = True
            units = uadd(units, d, 1 if k == 0 else -1)
    return Fr(num), mult, units, err, low


def ustr(u):
    if not u:
        return ""
    if u == {"s": -1}:
        return "Hz"
    n = [b for b in BASE for _ in range(max(0, u.get(b, 0)))]
    d = [b for b in BASE for _ in range(max(0, -u.get(b, 0)))]
    return ("-".join(n) or "1") + ("/" + "-".join(d) if d else "")


def gen_str(rng):
    for _ in range(100):
        nu = []
        de = []
        for lst, k in ((nu, rng.choice([0, 1, 1, 1, 1, 1, 2, 3])), (de, rng.choice([0, 0, 0, 1, 1, 2]))):
            for _ in range(k):
                u = rng.choice(BASE + list(COMP) + ["s", "s", "Hz"])
                p = rng.choice([""] * 8 + list(SI))
                lst.append(p + u)
        if de and not nu:
            continue
        us = "-".join(nu) + ("/" + "-".join(de) if de else "")
        nd = rng.choice([0, 0, 0, 1, 2, 3, 6, 12])
        num = str(rng.choice([0, 1, 2, 5, 10, 999, 1000, 1024, rng.randrange(10 ** rng.randint(1, 12))]))
        if nd:
            num += "." + "".join(rng.choice("0123456789") for _ in range(nd))
        if rng.random() < 0.15:
            num += "e" + str(rng.randint(-6, 9))
        if rng.random() < 0.2:
            num = "-" + num
        s = num + rng.choice(["", "", " ", "  "]) + us
        if rng.random() < 0.1:
            s = rng.choice([" ", "\t", "\n ", " \r\n"]) + s + rng.choice(["\t", " ", "\n"])
        v, mult, u, ex, low = parse(s)
        if low or abs(v * mult) >= 10 ** 17 or (v != 0 and abs(v * mult) < Fr(1, 10 ** 18)):
            continue
        return s
    return "1ns"


BAD = ["5 xs", "1 foo", "3 s/q", "1.2.3 ns", "1.2x3 s", "7 nss", "5 kiHzz", "1 s-", "2 zs"]


def gen_prog(rng):
    R = [(Fr(0), {})] * 8
    ops = []
    nr = 0
    for _ in range(rng.randint(2, 12)):
        if nr < 2 or rng.random() < 0.25:
            d = nr if nr < 8 else rng.randrange(8)
            if rng.random() < 0.03:
                ops.append(["X", d, rng.choice(BAD)])
                continue
            s = gen_str(rng)
            u = ustr(R[rng.randrange(nr)][1]) if nr and rng.random() < 0.4 else "1/"
            if not u.startswith("1/"):
                # same units as an existing one
                s = re.match(r"\s*-?[0-9.]+(?:e-?[0-9]+)?", s).group(0) + " " + u
                v = Fr(re.match(r"\s*(\S+)", s).group(1))
                if abs(v) >= 10 ** 17:
                    continue
            v, mult, u, ex, low = parse(s)
            ops.append(["P", d, s])
            R[d] = (v * mult, u)
            nr = max(nr, d + 1)
            continue
        a, b, d = rng.randrange(nr), rng.randrange(nr), rng.randrange(nr)
        op = rng.choice("++--**//svinccctbbldhzr")
        (va, ua), (vb, ub) = R[a], R[b]
        if op in "+-":
            if ua != ub and rng.random() < 0.7:
                continue
            if ua == ub:
                v = va + vb if op == "+" else va - vb
                if abs(v) > 10 ** 20:
                    continue
                R[d] = (v, ua)
            ops.append([op, d, a, b])
        elif op == "*":
            v = va * vb
            u = uadd(ua, ub)
            if abs(v) > 10 ** 20 or sum(map(abs, u.values())) > 8:
                continue
            R[d] = (v, u)
            ops.append([op, d, a, b])
        elif op in "/i":
            if not Fr(1, 10 ** 12) <= abs(vb) <= 10 ** 12:
                continue
            v, u = (1 / vb, uadd({}, ub, -1)) if op == "i" else (va / vb, uadd(ua, ub, -1))
            if abs(v) > 10 ** 18 or sum(map(abs, u.values())) > 8:
                continue
            R[d] = (v, u)
            ops.append([op, d, a, b] if op == "/" else [op, d, b])
        elif op == "s":
            k = rng.choice([0, 1, -1, 2, 3, 10, 1000, rng.randrange(10 ** 6)])
            if abs(va * k) > 10 ** 20:
                continue
            R[d] = (va * k, ua)
            ops.append([op, d, a, k])
        elif op == "v":
            k = rng.choice([1, -1, 2, 3, 7, 10, 1000, rng.randrange(1, 10 ** 6)])
            R[d] = (va / k, ua)
            ops.append([op, d, a, k])
        elif op == "c":
            ops.append([op, a, b])
        elif op == "t":
            ops.append([op, a, rng.choice([0, 1, 3, 6, 9, 17, 40])])
        elif op == "b":
            ops.append([op, a, rng.choice([0, 3, 6, 6, 12])])
        elif op in "dz":
            ops.append([op, a])
        elif op == "l":
            if abs(va) < 2 ** 62:
                ops.append([op, a])
        elif op == "h":
            s = gen_str(rng)
            u = s.strip()
            m = re.match(r"-?[0-9.]+(?:e-?[0-9]+)?\s*(.*)", u)
            ops.append([op, a, m.group(1) if rng.random() < 0.5 else ustr(ua)])
        elif op == "r":
            # quantities without a numerator unit (other than Hz) are printed as "x 1/unit", which is not in the input grammar
            if ustr(ua).startswith("1/"):
                continue
            R[d] = (va, ua)
            ops.append([op, d, a])
    return ops


def encode(ops):
    t = []
    for o in ops:
        if o[0] in "PXh":
            t.append("%s:%d:%s" % ("P" if o[0] == "X" else o[0], o[1], unit.hx(o[2])))
        else:
            t.append(":".join(map(str, o)))
    return "ua " + " ".join(t)


def val(l):
    p = l.split(" ", 1)
    return Fr(p[0]), (p[1] if len(p) > 1 else "").strip()


def judge(ops, lines):
    R = [(Fr(0), {})] * 8
    if len(lines) != len(ops):
        return "crash", "%d results for %d operations: %s" % (len(lines), len(ops), lines[-1:])
    for o, l in zip(ops, lines):
        k, msg = o[0], None
        exc = l.startswith("X ") or l.startswith("!")
        if k == "X":
            if l not in ("X InvalidUnitType", "X InvalidNumberString"):
                return "malformed", "%r accepted or wrong exception: %s" % (o[2], l)
            continue
        if exc and not (k in "+-" and R[o[2]][1] != R[o[3]][1]):
            return "exception:" + k, "%r threw %s" % (o, l)
        if k in "P+-*/svir":
            tol = Fr(0)
            d = o[1]
            if k == "P":
                v, mult, u, err, low = parse(o[2])
                ev = trunc(trunc(v, F) * mult, F)
                if err:
                    tol = 2 * err * (1 + abs(v)) + ULP
            else:
                va, ua = R[o[2]]
                if k in "+-":
                    vb, ub = R[o[3]]
                    if ua != ub:
                        if l != "X NonMatchingUnits":
                            return "units:" + k, "%s %s %s gives %s, expected an exception" % (ustr(ua), k, ustr(ub), l)
                        continue
                    ev, u = (va + vb if k == "+" else va - vb), ua
                elif k == "*":
                    vb, ub = R[o[3]]
                    ev, u = trunc(va * vb, F), uadd(ua, ub)
                elif k == "/":
                    vb, ub = R[o[3]]
                    if vb == 0:
                        return None
                    ev, u = va / vb, uadd(ua, ub, -1)
                    tol = 20 * ULP * (1 + abs(1 / vb)) * (1 + abs(va))
                elif k == "s":
                    ev, u = va * o[3], ua
                elif k == "v":
                    ev, u = va / o[3], ua
                    tol = 20 * ULP * (1 + abs(va))
                elif k == "i":
                    if va == 0:
                        return None
                    ev, u = 1 / va, uadd({}, ua, -1)
                    tol = 20 * ULP * (1 + abs(ev))
                elif k == "r":
                    ev, u = va, ua
            if abs(ev) >= LIM / 10 or tol > 1 + abs(ev):
                return None
            try:
                gv, gu = val(l)
            except ValueError:
                return "format:" + k, "%r gives %r" % (o, l)
            if abs(gv - ev) > tol:
                msg = "expected %s %s (%s)" % (ev, ustr(u), float(ev))
            elif gu != ustr(u):
                msg = "expected units %r" % ustr(u)
            R[d] = (gv, u)
        elif k == "c":
            (va, ua), (vb, ub) = R[o[1]], R[o[2]]
            if ua != ub:
                ex = "01 X NonMatchingUnits"
            else:
                ex = "".join("01"[x] for x in (va == vb, va != vb, va < vb, va <= vb, va >= vb, va > vb))
            if l != ex:
                msg = "comparing %s %s with %s %s: expected %s (== != < <= >= >)" % (float(va), ustr(ua), float(vb), ustr(ub), ex)
        elif k in "tb":
            va, ua = R[o[1]]
            n = o[2] if 0 < o[2] <= 48 else 48
            try:
                p = l.split(" ", 1)
                gv, gu = Fr(p[0]), p[1] if len(p) > 1 else ""
            except ValueError:
                return "format:" + k, "%r gives %r" % (o, l)
            f = Fr(1)
            if k == "b":
                w = ustr(ua)
                pre = gu[:len(gu) - len(w)] if gu.endswith(w) else gu
                gu = gu[len(pre):]
                if pre and pre not in SI:
                    msg = "unknown prefix %r" % pre
                else:
                    f = SI.get(pre, Fr(1))
                    # the prefix must put the value in [1, 1000), up to rounding; without one no prefix may do so
                    m = abs(va / f)
                    if pre and not Fr(999999, 10 ** 6) <= m <= Fr(1000001, 1000):
                        msg = "value not in [1, 1000)"
                    if not pre and any(Fr(100001, 100000) <= abs(va / x) < Fr(99999, 100) for q, x in SI.items() if len(q) == 1):
                        msg = "a prefix was possible"
            if not msg:
                m = abs(va / f)
                if m:
                    e = 0
                    while m >= Fr(10) ** e:
                        e += 1
                    while m < Fr(10) ** (e - 1):
                        e -= 1
                    unitp = Fr(10) ** (e - n)
                else:
                    unitp = Fr(0)
                slack = (20 * ULP * (1 + m) * (1 + 1 / f) + unitp * Fr(51, 100)) if k == "b" else unitp / 2
                if abs(gv - va / f) > slack:
                    msg = "printing %s with %d digits" % (float(va), o[2])
                elif gu.strip() != ustr(ua):
                    msg = "units printed as %r" % gu
        elif k == "l":
            va = R[o[1]][0]
            ex = half_even(abs(va)) * (-1 if va < 0 else 1)
            if l != str(ex):
                msg = "rounding %s: expected %d" % (va, ex)
        elif k == "d":
            va = R[o[1]][0]
            if abs(Fr(float.fromhex(l)) - va) > abs(va) / 2 ** 45 + ULP:
                msg = "double value of %s" % va
        elif k == "h":
            v, mult, u, ex, low = parse("1 " + o[2])
            if l != "01"[u == R[o[1]][1]]:
                msg = "hasUnits(%r) of %r" % (o[2], ustr(R[o[1]][1]))
        elif k == "z":
            if l != "01"[R[o[1]][0] == 0]:
                msg = "isValueZero of %s" % R[o[1]][0]
        if msg:
            return "value:" + k, "%r gives %r; %s" % (o, l, msg)
    return None


PYX = {"X InvalidUnitType": "X ValueError", "X InvalidNumberString": "X ValueError", "X NonMatchingUnits": "X TypeError"}


def run_both(lines):
    d = sstrun.scratch("ua")
    try:
        open(d + "/in", "w").write("".join(l + "\n" for l in lines))
        r = sstrun.sst(d, ["--model-options=vunum %s/in %s/out %s/pyout" % (d, d, d), build.VERIF + "/vlib/uacfg.py"])
        return r, unit.parse(d + "/out"), unit.parse(d + "/pyout")
    finally:
        sstrun.rmtree(d)


def gen(rng, i, tier):
    return {"progs": [gen_prog(rng) for _ in range(BATCH)]}


def nontrivial(p):
    return any(o[0] in "+-*/ic" for o in p) and any(o[0] == "P" and re.search(r"[a-zA-Z]{2}|[/-][a-zA-Z]", o[2]) for o in p)


def run_case(case):
    o = check.Out()
    P = case["progs"]
    lines = [encode(p) for p in P]
    r, cpp, py = run_both(lines)
    if (r.rc != 0 or r.timeout) and len(P) > 1:
        for p in P:
            x = run_case({"progs": [p]})
            o.n += x.n
            o.fails += x.fails
        return o
    for i, p in enumerate(P):
        o.n += 1
        if nontrivial(p):
            o.nontrivial.append(lines[i])
        for x in p:
            o.cls(x[0])
        one = {"progs": [p]}
        if i not in py or i not in cpp or r.rc != 0:
            o.fail(one, "crash", "rc=%s python part %s, C++ part %s\n%s" % (r.rc, i in py, i in cpp, r.out[-1500:]))
            continue
        j = judge(p, cpp[i])
        if j:
            o.fail(one, j[0], j[1])
            continue
        for op, c, y in zip(p, cpp[i], py[i]):
            e = PYX.get(c, c)
            if op[0] == "c" and c.startswith("01 X"):
                e = "01 X TypeError"
            if op[0] == "d":
                ok = float.fromhex(c) == float.fromhex(y)
            else:
                ok = e.strip() == y.strip()
            if not ok:
                o.fail(one, "python:" + op[0], "%r: C++ gives %r, Python gives %r" % (op, c, y))
                break
    o.sample = P[0]
    return o


def shrink(case):
    for p in case["progs"]:
        for i in range(len(p)):
            yield {"progs": [p[:i] + p[i + 1:]]}
        for i, op in enumerate(p):
            if op[0] == "P":
                for j in range(len(op[2])):
                    s = op[2][:j] + op[2][j + 1:]
                    try:
                        if parse(s) is None:
                            continue
                    except Exception:
                        continue
                    yield {"progs": [p[:i] + [["P", op[1], s]] + p[i + 1:]]}
