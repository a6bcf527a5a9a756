"""Component parameters: delivery from the configuration, lookup order, conversion, containers, copies, serialization."""
import ctypes, json, math, os, re, struct
from vlib import unit, check, sstrun, build

PID = "C09"
LIBS = ["vupar"]
N = {"quick": 250, "thorough": 3000}
NCOMP = 30
RULE = ("a case runs a generated program of Params operations in a component configured with generated local and shared parameters; non-trivial if it uses a shared set, a scope, a container, a copy or a serialization, distinct by program")
WS = " \t\n\r\v\f"
KEYS = ["a", "b", "c", "x.a", "x.b", "x.y.a", "xx.a", "x.", "size", "%d", "A", "long_parameter_name", "p.q", "x"]
SETS = ["g1", "g2", "g.3"]
INTR = {"i": (-2 ** 31, 2 ** 31 - 1), "I": (0, 2 ** 32 - 1), "l": (-2 ** 63, 2 ** 63 - 1), "L": (0, 2 ** 64 - 1)}
BOOLS = {"true": "1", "t": "1", "yes": "1", "y": "1", "on": "1", "1": "1", "false": "0", "f": "0", "no": "0", "n": "0", "off": "0", "0": "0"}


class X(Exception):
    pass


def pystr(v):
    """What the value of a parameter set from Python is."""
    if isinstance(v, dict):
        if "set" in v:
            return str(set(v["set"]))
        if "tuple" in v:
            return str(tuple(v["tuple"]))
        return str(v["dict"])
    return str(v)


def conv(t, s):
    """String to value: exact for the values the generator produces; None where unspecified."""
    if t == "s":
        return unit.hx(s)
    if t == "b":
        if s.lower() in BOOLS:
            return BOOLS[s.lower()]
        raise X("invalid_argument")
    if t in INTR:
        m = re.match(r"[ \t\n\r\v\f]*([+-]?)(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)", s)
        if not m:
            raise X("invalid_argument")
        d = m.group(2)
        v = int(d, 16) if d[:2] in ("0x", "0X") else int(d, 8) if d[0] == "0" else int(d)
        if m.group(1) == "-":
            v = -v
        lo, hi = INTR[t]
        if not lo <= v <= hi:
            return None
        return str(v)
    if t in "fd":
        m = re.match(r"[ \t\n\r\v\f]*([+-]?)0[xX]([0-9a-fA-F]+)(?![.pP0-9a-fA-F])", s)
        if m:
            v = float(int(m.group(1) + m.group(2), 16))
            return v if t == "d" else struct.unpack("f", struct.pack("f", v))[0]
        m = re.match(r"[ \t\n\r\v\f]*[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)", s)
        if not m:
            raise X("invalid_argument")
        v = float(m.group(0))
        if t == "f":
            v = struct.unpack("f", struct.pack("f", v))[0]
        return v
    if t == "u":
        m = re.fullmatch(r"\s*(\d+)\s*(ns|us|GHz|B|)\s*", s)
        if not m:
            return None
        n, u = int(m.group(1)), m.group(2)
        return None
    return None


def tokens(s, d):
    out, start, q, skip = [], None, None, False
    for i, c in enumerate(s):
        if skip:
            skip = False
            continue
        if start is None:
            if c in WS:
                continue
            start = i
        if q:
            if c == "\\":
                skip = True
            elif c == q:
                q = None
        elif c == d:
            out.append(s[start:i])
            start = None
        elif c in "\"'":
            q = c
    if start is not None:
        out.append(s[start:])
    return out


def cleant(t):
    t = t.rstrip(WS)
    if not t or t[0] not in "\"'":
        return t
    q = t[0]
    if t[-1] != q or len(t) < 2:
        raise X("invalid_argument")
    return t[1:-1].replace("\\" + q, q)


class P:
    def __init__(s, loc=None, sh=None):
        s.loc, s.sh = dict(loc or {}), list(sh or [])

    def find(s, k, S):
        for m in [s.loc] + [S[x] for x in s.sh]:
            if k in m:
                return m[k]
        return None

    def flat(s, S):
        r = {}
        for m in [s.loc] + [S[x] for x in s.sh]:
            for k, v in m.items():
                r.setdefault(k, v)
        return r


def fmt(t, v):
    if t in "fd":
        return v
    return v


def container(op, t, s):
    """Expected result line pieces: list of values / pairs; raises X."""
    if op == "A":
        if not (s[:1] == "[" and s[-1:] == "]"):
            return [conv(t, s)]
        return [conv(t, cleant(x)) for x in tokens(s[1:-1], ",")]
    if op == "S":
        if s.startswith("set(["):
            s = "{" + s[5:-2] + "}"
        if not (s[:1] == "{" and s[-1:] == "}"):
            return [conv(t, s)]
        return [conv(t, cleant(x)) for x in tokens(s[1:-1], ",")]
    if not (s[:1] == "{" and s[-1:] == "}"):
        raise X("invalid_argument")
    r = {}
    for x in tokens(s[1:-1], ","):
        kv = tokens(x, ":")
        if len(kv) != 2:
            raise X("invalid_argument")
        k, v = cleant(kv[0]), cleant(kv[1])
        if op == "M":
            r[conv("s", k)] = conv(t, v)
        else:
            r[conv(t, k)] = conv("s", v)
    return r


DEF = {"i": "-7", "I": "7", "l": "-70000000000", "L": "18446744073709551615", "b": "true", "f": "1.5", "d": "-2.25", "s": "dflt", "u": "3ns"}
ZERO = {"i": "0", "I": "0", "l": "0", "L": "0", "b": "0", "f": 0.0, "d": 0.0, "s": "-", "u": None}


def expect(case, S, sets):
    """Yields one expected item per op: a string, None (unspecified) or a callable judging the line."""
    c = case
    r = [P() for _ in range(6)]
    for q, ops in ((r[0], c["cfg"]), (r[4], c.get("cfg2", []))):
        for op in ops:
            if op[0] == "p":
                q.loc[op[1]] = pystr(op[2])
            elif op[0] == "P":
                for k, v in op[1]:
                    q.loc[k] = pystr(v)
            else:
                q.sh.append(op[1])
    r[0].loc["__ops"] = c["_ops"]
    r[0].loc["__out"] = c["_out"]
    for o in c["ops"]:
        k, a = o[0], o[1]
        if k in "ck":
            r[a] = P(r[o[2]].loc, r[o[2]].sh)
            yield "ok"
        elif k == "i":
            if o[4] or o[2] not in r[a].loc:
                r[a].loc[o[2]] = o[3]
            yield "ok"
        elif k == "I":
            b = r[o[2]]
            for kk, v in b.loc.items():
                r[a].loc.setdefault(kk, v)
            for x in b.sh:
                if x not in r[a].sh:
                    r[a].sh.append(x)
            yield "ok"
        elif k == "g":
            pre = o[3] + "."
            r[a] = P({kk[len(pre):]: v for kk, v in r[o[2]].flat(S).items() if kk.startswith(pre)})
            yield "ok"
        elif k == "x":
            r[a] = P()
            yield "ok"
        elif k == "z":
            if o[2]:
                r[a] = P(r[a].flat(S))
            else:
                pass
            yield "ok"
        elif k == "C":
            f = 1 if r[a].find(o[2], S) is not None else 0
            yield "%d %d" % (f, f)
        elif k == "V":
            v = r[a].find(o[2], S)
            yield "%d" % (v is not None and len(v) >= 2 and v[0] == "[" and v[-1] == "]")
        elif k == "s":
            f = r[a].flat(S)
            yield " ".join(["k", str(len(f)), "1" if not f else "0"] + ["%s=%s" % (unit.hx(x), unit.hx(f[x])) for x in sorted(f, key=lambda z: z.encode())])
        else:
            t = o[3]
            v = r[a].find(o[2], S)
            try:
                if k == "f":
                    form, d = o[5], o[4]
                    if t == "s" and form in (1, 3):
                        form += 1
                    if t == "b" and form == 5:
                        form = 6
                    elif t != "b" and form == 6:
                        form = 4
                    if v is None and form in (4, 5):
                        e = ZERO[t]
                    else:
                        # forms 0 and 2 convert the default themselves
                        if form in (0, 2):
                            conv(t, d)
                        e = conv(t, d if v is None else v)
                    suf = {0: " %d", 1: " %d", 2: " -", 3: " -", 4: " n", 5: " N%d", 6: " %d"}[form]
                    if "%d" in suf:
                        suf = suf % (v is not None)
                    yield None if e is None else ("v", e, suf)
                else:
                    if v is None:
                        yield ("c", k, [])
                    else:
                        e = container(k, t, v)
                        if isinstance(e, dict):
                            yield None if None in e.values() or None in e else ("c", k, e)
                        else:
                            yield None if None in e else ("c", k, e)
            except X as e:
                yield "X " + str(e)


def sorter(t):
    return (lambda x: bytes.fromhex(x) if x != "-" else b"") if t == "s" else (lambda x: int(x) if t != "fd" else x)


def judge(e, o, line):
    if e is None:
        return line is not None
    if isinstance(e, str):
        return e == line
    if e[0] == "v":
        if isinstance(e[1], float):
            m = line.split(" ")
            return len(m) == 2 and " " + m[1] == e[2] and float.fromhex(m[0]) == e[1]
        return line == e[1] + e[2]
    t = o[3]
    m = line.split(" ")
    if m[0] != {"A": "a", "S": "s", "M": "m", "m": "m"}[o[0]]:
        return False

    def one(s, t):
        return float.fromhex(s) if t in "fd" else s
    try:
        if o[0] == "A":
            return [one(x, t) for x in m[1:]] == list(e[2])
        if o[0] == "S":
            got = [one(x, t) for x in m[1:]]
            return len(got) == len(set(got)) and set(got) == set(e[2])
        got = {}
        for x in m[1:]:
            a, b = x.split("=")
            got[one(a, "s" if o[0] == "M" else t)] = one(b, t if o[0] == "M" else "s")
        return len(got) == len(m) - 1 and got == dict(e[2])
    except ValueError:
        return False


def genval(rng):
    k = rng.randint(0, 12)
    w = lambda: "".join(rng.choice("ab1 ,:'\"\\[]{}.-x") for _ in range(rng.randint(0, 8)))
    if k == 0:
        return rng.choice([rng.randint(-10, 10), rng.randint(-2 ** 63, 2 ** 64 - 1), rng.randint(-2 ** 31, 2 ** 32 - 1)])
    if k == 1:
        return rng.choice([True, False])
    if k == 2:
        return rng.choice([rng.uniform(-100, 100), float(rng.randint(-5, 5)), rng.random() * 10 ** rng.randint(-12, 12)])
    if k in (3, 4):
        return [rng.randint(-99, 99) for _ in range(rng.randint(0, 5))]
    if k == 5:
        return [w() for _ in range(rng.randint(0, 4))]
    if k == 6:
        return {"set": rng.sample(range(-20, 20), rng.randint(0, 4))} if rng.random() < 0.7 else {"set": [w()]}
    if k in (7, 8):
        return {"dict": {w(): rng.choice([w(), rng.randint(0, 99), rng.random()]) for _ in range(rng.randint(0, 4))}}
    if k == 9:
        return rng.choice(["[1,2, 3]", "[ 'a' , \"b,c\",d ]", "{1:2, 3 :4}", "{ 'a:b' : 1 }", "set([1, 2])", "set(['q', 'r'])", "[]", "{}", "[", "]", "{", "a[1]", " [1]", "[1] ", "['a]", "[,]", "[1,,2]", "{a}", "{a:1:2}", "{:}",
                           "[ 1.5,2.5 ]", "0x1F", "017", "+5", "3ns", "1e3", "['it\\'s', 'x\\\\y']", "true", "Yes", "off", "maybe", "", "  7", "7  ", "[true, no]"])
    return w()


def gencfg(rng, n):
    cfg = []
    for _ in range(rng.randint(0, n)):
        q = rng.random()
        if q < 0.6:
            cfg.append(["p", rng.choice(KEYS), genval(rng)])
        elif q < 0.75:
            cfg.append(["P", [[k, genval(rng)] for k in rng.sample(KEYS, rng.randint(0, 4))]])
        else:
            s = rng.choice(SETS)
            if ["g", s] not in cfg and ["s", s] not in cfg:
                cfg.append([rng.choice("gs"), s])
    return cfg


def gencomp(rng):
    # cfg2: the parameters of a subcomponent, whose Params are register 4
    cfg, cfg2 = gencfg(rng, 8), gencfg(rng, 5)
    ops = []
    for _ in range(rng.randint(4, 20)):
        q = rng.random()
        a, b = rng.choice([0, 0, 0, 1, 2, 3, 4]), rng.choice([0, 0, 1, 2, 3, 4, 4])
        k = rng.choice(KEYS)
        if q < 0.08:
            ops.append([rng.choice("ck"), a, b])
        elif q < 0.14:
            ops.append(["i", a, k, pystr(genval(rng)), rng.choice([0, 1])])
        elif q < 0.19:
            ops.append(["I", a, b])
        elif q < 0.27:
            ops.append(["g", a, b, rng.choice(["x", "x", "x.y", "p", "", "q", "xx"])])
        elif q < 0.28:
            ops.append(["x", a])
        elif q < 0.33:
            ops.append(["z", a, rng.choice([0, 1])])
        elif q < 0.38:
            ops.append(["C", a, k])
        elif q < 0.42:
            ops.append(["V", a, k])
        elif q < 0.5:
            ops.append(["s", a])
        elif q < 0.75:
            t = rng.choice("iIlLbfdss")
            ops.append(["f", a, k, t, DEF[t] if rng.random() < 0.9 else "bad", rng.randint(0, 6)])
        elif q < 0.85:
            ops.append(["A", a, k, rng.choice("iIlLbfdsss")])
        elif q < 0.92:
            ops.append(["S", a, k, rng.choice("iIlLdsss")])
        else:
            ops.append([rng.choice("Mm"), a, k, rng.choice("iIlLdsss")])
    return {"cfg": cfg, "cfg2": cfg2, "ops": ops}


def gen(rng, i, tier):
    shared = [[rng.choice(SETS), rng.choice(KEYS), genval(rng), rng.choice([0, 1, 2])] for _ in range(rng.choice([0, 3, 8, 14, 30]))]
    return {"shared": shared, "comps": [gencomp(rng) for _ in range(NCOMP)], "ranks": 2 if i % 12 == 3 else 1}


def enc(o):
    k = o[0]
    if k in "ckIz":
        return "%s:%d:%d" % (k, o[1], o[2])
    if k == "i":
        return "i:%d:%s:%s:%d" % (o[1], unit.hx(o[2]), unit.hx(o[3]), o[4])
    if k == "g":
        return "g:%d:%d:%s" % (o[1], o[2], unit.hx(o[3]))
    if k in "xs":
        return "%s:%d" % (k, o[1])
    if k in "CV":
        return "%s:%d:%s" % (k, o[1], unit.hx(o[2]))
    r = "%s:%d:%s:%s" % (k, o[1], unit.hx(o[2]), o[3])
    return r + ":%s:%d" % (unit.hx(o[4]), o[5]) if k == "f" else r


def run_case(case):
    o = check.Out()
    d = sstrun.scratch("c09")
    try:
        S = {x: {} for x in SETS}
        for s, k, v, how in case["shared"]:
            S[s][k] = pystr(v)
        for n, c in enumerate(case["comps"]):
            c["_ops"] = " ".join(enc(x) for x in c["ops"])
            c["_out"] = d + "/o%d" % n
        json.dump({"shared": case["shared"], "comps": [{"cfg": c["cfg"], "cfg2": c.get("cfg2", []), "ops": c["_ops"]} for c in case["comps"]]}, open(d + "/in.json", "w"))
        r = sstrun.sst(d, ["--model-options=%s/in.json %s" % (d, d), build.VERIF + "/vlib/parcfg.py"], ranks=case.get("ranks", 1))
        if case.get("ranks", 1) > 1:
            o.cls("two_ranks")
        for n, c in enumerate(case["comps"]):
            o.n += 1
            f = d + "/o%d" % n
            single = {"shared": case["shared"], "comps": [c], "ranks": case.get("ranks", 1)}
            lines = open(f, errors="replace").read().split("\n")[:-1] if os.path.exists(f) else []
            if len(lines) != len(c["ops"]):
                o.fail(strip(single), "crash", "component stopped after %d of %d operations: rc=%s %s" % (len(lines), len(c["ops"]), r.rc, r.out[-600:]))
                continue
            if any(x[0] in "ckgIzASMm" for x in c["ops"]) or any(x[0] in "gs" for x in c["cfg"] + c.get("cfg2", [])):
                o.nontrivial.append(json.dumps([c["cfg"], c.get("cfg2"), c["ops"]]))
            for op, e, l in zip(c["ops"], expect(c, S, None), lines):
                o.cls(op[0])
                if not judge(e, op, l):
                    key = op[0] if op[0] != "f" else "f" + op[3]
                    o.fail(strip(single), "op:" + key, "%r gives %r (%s), expected %r" % (op, l, dec(l), e))
                    break
        if r.rc != 0 or r.timeout:
            o.fail(strip(case), "exit", "sst exited with %s: %s" % (r.rc, r.out[-600:]))
    finally:
        sstrun.rmtree(d)
    o.sample = {"shared": case["shared"][:2], "comp": {k: v for k, v in case["comps"][0].items() if k[0] != "_"}}
    return o


def dec(l):
    return " ".join("=".join(repr(unit.unhx(y)) if re.fullmatch("([0-9a-f]{2})+", y) else y for y in x.split("=")) for x in l.split(" "))[:300]


def strip(case):
    c = json.loads(json.dumps(case))
    for x in c["comps"]:
        x.pop("_ops", None)
        x.pop("_out", None)
    return c


def shrink(case):
    c = strip(case)
    if c.get("ranks", 1) > 1:
        yield {**c, "ranks": 1}
    for i in range(len(c["shared"])):
        yield {**c, "shared": c["shared"][:i] + c["shared"][i + 1:]}
    if len(c["comps"]) == 1:
        x = c["comps"][0]
        for k in ("ops", "cfg", "cfg2"):
            for i in range(len(x.get(k, []))):
                yield {**c, "comps": [{**x, k: x[k][:i] + x[k][i + 1:]}]}
