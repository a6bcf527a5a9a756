"""C21: the interactive console stops where told, shows and changes exactly the live state, and changes nothing else."""
import copy, json, os, re, struct
from vlib import build, sstrun
from vlib.check import Out

PID = "C21"
LIBS = ["vucon"]
RULE = ("random serial simulations (components and subcomponents with variables of every kind, changed by events and clocks) driven by random console scripts (navigation, prints in every base, sets with good and bad values, "
        "runs of exact lengths, watchpoints with every operator on constants and variables, chains, handler selection, traces with set actions); the transcript and the state logged by every handler are compared to a model. "
        "Non-trivial: the console was entered at least twice at different times and at least 3 values were set or printed.")
N = {"quick": 900, "thorough": 12000}
TIME = {"quick": 100, "thorough": 2400}
INTS = {"i8": (8, 1), "i16": (16, 1), "i32": (32, 1), "i64": (64, 1), "u8": (8, 0), "u16": (16, 0), "u32": (32, 0), "u64": (64, 0)}
OPS = ["<", "<=", ">", ">=", "==", "!="]
WORDS = ["a", "hello", "x=1", "Zz", "ü", "10", "true", "-5", "#", "[q]", "%d"]


def rangeof(n):
    if n not in INTS:
        return (-2 ** 31, 2 ** 31 - 1)
    b, sg = INTS[n]
    return (-2 ** (b - 1), 2 ** (b - 1) - 1) if sg else (0, 2 ** b - 1)


def wrap(n, x):
    b, sg = INTS.get(n, (32, 1))
    x &= 2 ** b - 1
    return x - 2 ** b if sg and x >> (b - 1) else x


def intval(rng, n):
    lo, hi = rangeof(n)
    return max(lo, min(hi, rng.choice([0, 1, 2, 3, 5, 7, -1, -2, lo, hi, hi - 1, lo + 1, rng.randint(-20, 20), rng.randint(lo, hi), hi // 2, hi // 2 + 1])))


def dbl(rng):
    return rng.choice([0, 1, -1, 0.5, 2.25, -3.75, 100, rng.randint(-4000, 4000) / 8])


def text(rng):
    return " ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 3)))


def anyvar(rng, vec):
    c = list(INTS) * 2 + ["f", "d", "b", "s"] + ["v%d" % i for i in range(vec)] * 2
    return rng.choice(c)


def oper(rng, vec, part):
    """an operation of the simulation: op var value"""
    pre = ""
    if part is not None and rng.random() < 0.3:
        pre, vec = "part.", part
    n = anyvar(rng, vec)
    op = rng.choice("+++=")
    if n in ("f", "d"):
        v = repr(float(dbl(rng)))
    elif n == "b":
        v = rng.choice(["true", "false"])
    elif n == "s":
        v = rng.choice(["a", "hello", "Zz"])
    elif op == "+":
        v = str(rng.choice([1, 1, 1, 2, 3, -1, -1, 100, -100, 2 ** 31 - 1]))
    else:
        v = str(intval(rng, n))
    return "%s %s %s" % (op, pre + n, v)


def comparison(rng, vars_, busy):
    n = rng.choice(busy if busy and rng.random() < 0.6 else [v for v in vars_ if v != "s"] if rng.random() < 0.95 else vars_)
    if n == "s" or rng.random() < 0.3:
        return [n, "changed"]
    op = rng.choice(OPS)
    r = rng.random()
    if r < 0.3:
        rhs = rng.choice([v for v in vars_ if v != "s"])
    elif r < 0.45:
        rhs = repr(float(dbl(rng)))
    else:
        rhs = str(min(intval(rng, n), 2 ** 63 - 1))
    return [n, op, rhs] if rng.random() < 0.93 or not re.fullmatch(r"-?[\d.]+", rhs) else [rhs, op, n]


BLANK = ["# comment", "   "]
PARSEERR = ["verbose abc", "print -r 99999999999 u8", "print -v 99999999999 u8", "print v[99999999999999999999]", "unwatch 99999999999", "history 99999999999"]
AGAIN = ["print", "set", "time", "pwd", "run", "handler", "ptrace", "history", "call", "badcd", "junk"]  # commands that mean the same when repeated from the same place


class Invalid(Exception):
    """a shrunk script that no longer makes sense"""


class Hist:
    """command history"""
    def __init__(self, replay=""):
        self.items = []
        self.append("replay " + replay + "\n", ["junk", ""], None)
        self.append("confirm false", ["junk", ""], None)

    def append(self, text, c, cwd):
        self.items.append((self.items[-1][0] + 1 if self.items else 0, text, c, cwd))
        del self.items[:-200]

    def find(self, token):
        """-> (item or None, echo only)"""
        echo = token.endswith(":p")
        a = token[1:-2] if echo else token[1:]
        back = self.items[::-1]
        if a == "!":
            return back[0], echo
        if a[0] == "-":
            k = int(a[1:])
            return (back[k - 1] if 1 <= k <= len(back) else None), echo
        if a[0] == "?":
            return next((x for x in back if a[1:] in x[1]), None), echo
        it = next((x for x in back if x[0] == int(a)), None) if a.isdigit() else None
        return it or next((x for x in back if x[1].startswith(a)), None), echo


def gen(rng, i, tier):
    unit = rng.choice(["1ns", "1ns", "1ps", "10ns"])
    n = rng.choice([1, 1, 2, 3])
    top = rng.choice([10, 40, 200])
    times = rng.sample(range(1, top + n * 14), n * rng.choice([1, 3, 8, 12]))
    comps = []
    for ci in range(n):
        vec, part = rng.choice([0, 0, 2, 4]), rng.choice([None, None, 0, 3])
        acts = [[t, [oper(rng, vec, part) for _ in range(rng.choice([0, 1, 2, 3]))]] for t in sorted(times[ci::n])]
        clock = ci == 0 and rng.random() < 0.6
        comps.append({"name": "c%d" % ci, "vec": vec, "part": part, "init": [oper(rng, vec, part) for _ in range(rng.choice([0, 2, 6]))], "acts": acts,
                      "ticks": rng.randint(1, 12) if clock else 0, "period": rng.randint(1, 9), "tick": [oper(rng, vec, part) for _ in range(rng.choice([1, 1, 2]))] if clock else []})
    s = {"tb": unit, "comps": comps, "start": rng.choice([0, 0, 1, rng.randint(0, top), rng.randint(0, top // 2), top * 3 if rng.random() < 0.3 else 0])}
    cwd, cmds, nw = [], [], 0
    hist, user = Hist(), {}

    def put(c):
        cmds.append(c)
        if c[0] != "bang":
            record(hist, c, s["tb"], list(cwd))
    if rng.random() < 0.05:
        for _ in range(rng.randint(150, 260)):
            put([rng.choice(["time", "pwd"])])

    def here():
        if not cwd:
            return None
        c = next(c for c in comps if c["name"] == cwd[0])
        vec = c["part"] if len(cwd) > 1 and cwd[1].endswith(":part") else c["vec"]
        if cwd[-1] == "v":
            return [str(k) for k in range(vec)], vec
        return list(INTS) + ["f", "d", "b", "s"], vec
    for _ in range(rng.choice([6, 15, 30, 60])):
        h = here()
        op = rng.choice(["cd", "cd", "run", "run", "runall", "print", "print", "print", "set", "set", "set", "watch", "watch", "trace", "time", "pwd", "ls", "unwatch", "handler", "ptrace", "junk", "bang", "bang", "history", "define", "call", "call"]) if h else rng.choice(["cd", "cd", "cd", "run", "time", "pwd", "ls", "junk", "bang", "history"]) if rng.random() < 0.4 else "cd"
        if op == "cd":
            if cwd and rng.random() < (0.5 if len(cwd) > 1 else 0.25):
                put(["cd", ".."])
                cwd.pop()
            elif not cwd:
                c = rng.choice(comps)["name"]
                put(["cd", c + rng.choice(["", "", "/"])])
                cwd.append(c)
            else:
                c = next(c for c in comps if c["name"] == cwd[0])
                to = rng.choice(["v", "part", "bad"])
                if to == "part" and len(cwd) == 1 and c["part"] is not None:
                    cwd.append(cwd[0] + ":part")
                    put(["cd", cwd[-1]])
                elif to == "v" and cwd[-1] != "v" and h[1]:
                    cwd.append("v")
                    put(["cd", "v"])
                elif to == "bad":
                    put(["badcd", rng.choice(["nosuch", "u8" if cwd[-1] != "v" else "0", "c0"])])
        elif op == "run":
            put(["run", rng.choice([1, 1, 2, 3, 5, 10, top])])
        elif op == "runall":
            put(["run", None])
        elif op in ("print", "set"):
            names, vec = h
            x = rng.choice(names)
            typ = x if cwd[-1] != "v" else "v0"
            shown = x
            if cwd[-1] != "v" and vec and rng.random() < 0.3:
                x = "v"
                shown, typ = "v[%d]" % rng.randrange(vec), "v0"
                if rng.random() < 0.1:
                    shown = "v[%d]" % (vec + rng.randint(0, 3))
            if op == "print":
                put(["print", shown, rng.choice([None, None, None, "hex", "oct", "dec"]), rng.random() < 0.15])
            else:
                if typ in INTS or typ == "v0":
                    lo, hi = rangeof(typ)
                    v = str(intval(rng, typ)) if rng.random() < 0.8 else rng.choice([str(hi + 1), str(lo - 1), str(hi * 3 + 5), "abc", "12abc", "1.5", "10 20", "99999999999999999999999", "-"])
                elif typ in "fd":
                    v = repr(float(dbl(rng))) if rng.random() < 0.85 else rng.choice(["abc", "1.5x", "2 3"])
                elif typ == "b":
                    v = rng.choice(["true", "false", "1", "0"]) if rng.random() < 0.9 else rng.choice(["maybe", "2"])
                else:
                    v = text(rng)
                put(["set", shown, v])
        elif op in ("watch", "trace"):
            names, vec = h
            c = next(c for c in comps if c["name"] == cwd[0])
            pre = "part." if len(cwd) > 1 and cwd[1] != "v" else ""
            busy = [x for x in (o.split()[1] for t, ops in c["acts"] + [[0, c["tick"]]] for o in ops) if x.startswith(pre) and (pre or not x.startswith("part."))]
            busy = [x for x in (x[len(pre):] for x in busy) if x in names]
            cs = [comparison(rng, names, busy) if cwd[-1] != "v" else [rng.choice(names), "changed"]]
            while rng.random() < 0.3:
                cs += [rng.choice(["&&", "||"]), comparison(rng, names, busy) if cwd[-1] != "v" else [rng.choice(names), "changed"]]
            act = None
            if op == "trace":
                typ = rng.choice([x for x in names if x != "s"]) if cwd[-1] != "v" else rng.choice(names)
                v = str(min(intval(rng, typ if cwd[-1] != "v" else "v0"), 2 ** 63 - 1)) if typ in INTS or cwd[-1] == "v" else repr(float(dbl(rng))) if typ in "fd" else rng.choice(["true", "false"])
                act = {"buf": rng.randint(1, 6), "pd": rng.choice([0, 0, 0, 1, 2, 5]), "vars": [rng.choice(names) for _ in range(rng.randint(1, 3))], "do": rng.choice([["set", typ, v], ["set", typ, v], ["printTrace"], ["printTrace"], ["interactive"]])}
            put(["watch", cs, act])
            nw += 1
        elif op == "handler" and nw:
            put(["handler", rng.randrange(nw), rng.sample(["bc", "ac", "be", "ae"], rng.randint(1, 3))])
        elif op == "ptrace" and nw:
            put(["ptrace", rng.randrange(nw)])
        elif op == "unwatch":
            if nw and rng.random() < 0.5:
                put(["unwatch", rng.randrange(nw)])
            else:
                put(["unwatch", None])
                nw = 0
        elif op in ("time", "pwd", "ls"):
            put([op])
        elif op == "history":
            put(["history", rng.choice([0, 0, 1, 2, 5, 300])])
        elif op == "define":
            k = rng.randrange(4)
            insts = []
            names, vec = h
            for _ in range(rng.randint(1, 4)):
                x = rng.choice(names)
                typ = x if cwd[-1] != "v" else "v0"
                good = str(intval(rng, typ)) if typ in INTS or typ == "v0" else repr(float(dbl(rng))) if typ in "fd" else rng.choice(["true", "false"]) if typ == "b" else text(rng)
                below = [u for u in user if u < "u%d" % k and user[u] == cwd]
                insts.append(rng.choice([["time"], ["pwd"], ["print", x, rng.choice([None, None, "dec"]), False], ["print", x, None, False], ["set", x, good], ["set", x, good], ["run", rng.choice([1, 2, 5])], ["call", rng.choice(below)] if below else ["time"]]))
            put(["define", "u%d" % k, insts])
            user["u%d" % k] = list(cwd)
            if rng.random() < 0.2:
                put(["doc", "u%d" % k, [rng.choice(["some help", "print u8", "time"]) for _ in range(rng.randrange(3))]])
        elif op == "call":
            u = [u for u in user if user[u] == cwd]
            if u:
                put(["call", rng.choice(u)])
        elif op == "bang":
            it = rng.choice(hist.items[-12:])
            tok = rng.choice(it[1].split() or ["x"])
            first = it[1].split()[0] if it[1].split() else "x"
            b = rng.choice(["!!", "!%d" % it[0], "!-%d" % (hist.items[-1][0] - it[0] + 1), "!" + first[:rng.randint(1, len(first))], "!?" + tok[rng.randrange(len(tok)):][:8], "!-%d" % rng.choice([0, 201, 5000]), "!zzzz", "!?zzzz"])
            if not re.fullmatch(r"!(!|-?\d{1,6}|[a-z]+|\?[!-~]*[!-9;-~])", b):
                continue
            it, echo = hist.find(b)
            if it is None:
                put(["bang", b])
                continue
            if rng.random() < 0.25:
                put(["bang", b + ":p"])
                hist.append(*it[1:])
                continue
            c = it[2]
            if c[0] not in AGAIN or it[3] != cwd or (c[0] == "call" and user[c[1]] != cwd):
                continue
            put(["bang", b])
            record(hist, c, s["tb"], list(cwd))
        elif op == "junk":
            put(["junk", rng.choice(["nonsense", "print", "print nosuch", "set", "set u8", "set nosuch 3", "cd", "watch", "watch u8", "watch u8 <", "watch u8 ?? 3", "watch nosuch == 1", "run 5parsecs", "unwatch 99", "unwatch x", "setHandler 99 ac", "# comment", "   ",
                                             "print nosuch[3]", "print -f", "print -v", "print -r", "set u8[2] 3", "watch u8 < 3 &&", "watch u8 < 3 xx u8 > 1", "print -v x u8", "!"] + PARSEERR)])
    s["cmds"] = cmds
    return s


def record(hist, c, tb, cwd):
    """the entry of a command in the history"""
    if c[0] == "junk" and (c[1] in BLANK or c[1] in PARSEERR):
        return
    hist.append(lines(c, tb)[0], c, cwd)


def lines(c, tb):
    if c[0] == "define":
        return ["define " + c[1]] + [line(x, tb) for x in c[2]] + ["end"]
    if c[0] == "doc":
        return ["document " + c[1]] + c[2] + ["end"]
    return [line(c, tb)]


def line(c, tb):
    if c[0] == "history":
        return "history" + (" %d" % c[1] if c[1] else "")
    if c[0] in ("call", "bang"):
        return c[1]
    if c[0] == "badcd":
        return "cd " + c[1]
    if c[0] == "run":
        if c[1] is None:
            return "run"
        m = re.fullmatch(r"(\d+)(\w+)", tb)
        return "run %d%s" % (c[1] * int(m[1]), m[2])
    if c[0] == "print":
        return "print " + ("-v 1 " if c[3] else "") + ("-f %s " % c[2] if c[2] else "") + c[1]
    if c[0] == "set":
        return "set %s %s" % (c[1], c[2])
    if c[0] == "watch":
        w = " ".join(x if isinstance(x, str) else " ".join(x) for x in c[1])
        a = c[2]
        return "watch " + w if a is None else "trace %s : %d %d : %s : %s" % (w, a["buf"], a["pd"], " ".join(a["vars"]), " ".join(a["do"]))
    if c[0] == "ptrace":
        return "printTrace %d" % c[1]
    if c[0] == "handler":
        return "setHandler %d %s" % (c[1], " ".join(c[2]))
    if c[0] == "unwatch":
        return "unwatch" + ("" if c[1] is None else " %d" % c[1])
    if c[0] == "junk":
        return c[1]
    return " ".join(c)


def fresh(vec):
    x = {k: 0 for k in INTS}
    x.update(f=0.0, d=0.0, b=False, s="")
    for i in range(vec):
        x["v%d" % i] = 0
    return x


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def apply(st, ci, o):
    op, n, v = o.split(" ", 2)
    x = st["c%d" % ci]
    if n.startswith("part."):
        x, n = st["c%d:part" % ci], n[5:]
    a = op == "+"
    if n in INTS or n[0] == "v":
        x[n] = wrap(n, (x[n] if a else 0) + int(v))
    elif n == "f":
        x[n] = f32((x[n] if a else 0) + float(v))
    elif n == "d":
        x[n] = (x[n] if a else 0) + float(v)
    elif n == "b":
        x[n] = not x[n] if a else v == "true"
    else:
        x[n] = (x[n] if a else "") + v


class Bad(Exception):
    pass


def parse_value(key, v, old):
    """value that `set` must store, or Bad"""
    if key in INTS or key[0] == "v":
        lo, hi = rangeof(key)
        if not re.fullmatch(r"-?\d+", v) or not lo <= int(v) <= hi:
            raise Bad
        return int(v)
    if key in "fd":
        try:
            x = float(v)
        except ValueError:
            raise Bad
        return f32(x) if key == "f" else x
    if key == "b":
        if v not in ("true", "false", "1", "0"):
            raise Bad
        return v in ("true", "1")
    return v


def show_val(key, v, fmt):
    if key in INTS or key[0] == "v":
        return str(v) if fmt in (None, "dec") or v == 0 else hex(v) if fmt == "hex" else "0" + oct(v)[2:]
    if key in "fd":
        return "%.12f" % v
    if key == "b":
        return "true" if v else "false"
    return '"%s"' % v


ANY, SOME, CALL = "any", "some", "call"


class Model:
    def __init__(self, s, replay=""):
        self.s = s
        self.hist, self.user, self.todo = Hist(replay), {}, []
        self.out, self.logs = [], {c["name"]: [] for c in s["comps"]}
        self.st = {}
        self.cwd, self.watch = [], []
        self.stats = {"enter": [], "values": 0, "bad": 0, "watchhit": 0, "acthit": 0, "calls": 0, "bangs": 0}
        for ci, c in enumerate(s["comps"]):
            self.st[c["name"]] = fresh(c["vec"])
            if c["part"] is not None:
                self.st[c["name"] + ":part"] = fresh(c["part"])
            for o in c["init"]:
                apply(self.st, ci, o)

    def log(self, how, t, ci):
        c = self.s["comps"][ci]
        self.logs[c["name"]].append([how, t, dict(self.st[c["name"]]), dict(self.st[c["name"] + ":part"]) if c["part"] is not None else None])

    def key(self, name):
        """-> (object, key) of a name in the current directory"""
        obj = self.cwd[1] if len(self.cwd) > 1 and self.cwd[1] != "v" else self.cwd[0]
        m = re.fullmatch(r"v\[(\d+)\]", name)
        if m:
            return obj, "v" + m[1]
        if self.cwd[-1] == "v":
            return obj, "v" + name
        return obj, name

    def value(self, x):
        """operand of a comparison"""
        if isinstance(x, (int, float)):
            return x
        v = self.st[x[0]][x[1]]
        return int(v) if isinstance(v, bool) else v

    def evaluate(self, w):
        res = None
        for lop, (a, op, b, base) in zip([None] + w["lops"], w["cs"]):
            if op == "changed":
                v = self.value(a)
                r = v != base[0]
                base[0] = v
            else:
                p, q = self.value(a), self.value(b)
                r = {"<": p < q, "<=": p <= q, ">": p > q, ">=": p >= q, "==": p == q, "!=": p != q}[op]
            res = r if lop is None else res and r if lop == "&&" else res or r
        return res

    def named(self, w, vals):
        return "".join("%s = %s " % (key if key[0] != "v" else key[1:], show_val(key, v, None)) for (_, key), v in zip(w["vars"], vals))

    def trigger_record(self, w):
        """the last sample that triggered; None when nothing triggered"""
        t = [r for r in w["recs"] if r[3]]
        if not t:
            return []
        r = t[-1]
        if w["recs"].index(r) < len(w["recs"]) - w["buf"]:
            return [("re", r"LastTriggerRecord:@cycle%d: .*" % r[0])]  # overwritten
        return [("re", re.escape("LastTriggerRecord:@cycle%d: SamplesLost=" % r[0]) + (r"\d+" if w["over"] else "0") + re.escape(": " + self.named(w, r[4])))]

    def trace(self, w):
        n = len(w["recs"])
        return ["TriggerCount=%d" % w["count"]] + self.trigger_record(w) + ["buf[%d] %s @%d (%s) %s" % (i % w["buf"], r[1], r[0], r[2], self.named(w, r[4])) for i, r in enumerate(w["recs"]) if i >= n - w["buf"]]

    def clear(self, w):
        w.update(recs=[], state="-", post=0, over=False)

    def handler(self, ci, which):
        """watchpoints around a handler of component ci"""
        for k, w in enumerate(self.watch):
            if not w or w["comp"] != ci or which not in w["how"]:
                continue
            trig = self.evaluate(w)
            if "buf" not in w:
                if trig:
                    self.hit = (k, which.upper())
                continue
            # a capture that invoked its action starts again, unless the console is about to be entered
            if w["reset"] and not self.hit:
                self.clear(w)
                w["count"], w["reset"] = 0, False
            w["count"] += bool(trig)
            if w["state"] == "-":
                w["state"] = "!" if trig else "-"
            else:
                w["state"] = "+"
            if not (w["state"] == "+" and w["post"] >= w["pd"]):
                w["recs"].append((self.now, which.upper(), w["state"], trig, [self.st[o][key] for o, key in w["vars"]]))
                if len(w["recs"]) > w["buf"] and w["recs"][-w["buf"] - 1][2] == "!":
                    w["over"] = True
            if w["state"] == "+":
                w["post"] += 1
            if w["state"] == "-" or w["post"] < w["pd"]:
                continue
            w["reset"] = True
            self.stats["acthit"] += 1
            if w["act"][0] == "interactive":
                self.hit = (k, which.upper())
                continue
            if w["act"][0] == "set":
                (obj, key), v, txt = w["act"][1:]
                self.st[obj][key] = v
                self.out.append(("text", self.trigger_record(w) + [txt]))
            else:
                self.out.append(("text", self.trace(w)))
            self.clear(w)

    def command(self, c):
        """-> expected output lines of a command, or None when it leaves the console"""
        op = c[0]
        if op == "cd":
            if c[1] == "..":
                if self.cwd:
                    self.cwd.pop()
                return []
            self.cwd.append(c[1].rstrip("/"))
            return []
        if op in ("badcd", "junk"):
            self.stats["bad"] += 1
            return ANY
        if op == "run":
            if c[1] is not None:
                self.pending.append((self.now + c[1], "Ran clock for %d sim cycles" % c[1]))
            return None
        if op == "time":
            return ["current time = %d" % self.now]
        if op == "pwd":
            return ["/" + "/".join(self.cwd)]
        if op == "ls":
            return ANY
        if op == "history":
            return [l for n, x, _, _ in self.hist.items[-(c[1] or 200):] for l in ("%d %s" % (n, x)).split("\n")]
        if op == "call":
            if c[1] not in self.user:
                raise Invalid
            self.todo = self.user[c[1]] + self.todo
            self.stats["calls"] += 1
            return CALL
        if op == "print":
            obj, key = self.key(c[1])
            if key not in self.st[obj]:
                return SOME
            v = self.st[obj][key]
            if c[2] in ("hex", "oct") and not isinstance(v, str) and v < 0:
                return ANY
            if c[2] in ("hex", "oct") and isinstance(v, float):
                return ANY
            self.stats["values"] += 1
            txt = "%s = %s" % (key if key[0] != "v" else key[1:], show_val(key, v, c[2]))
            return ("prefix", txt + " (") if c[3] else [txt]
        if op == "set":
            obj, key = self.key(c[1])
            if key not in self.st[obj]:
                return SOME
            try:
                self.st[obj][key] = parse_value(key, c[2], self.st[obj][key])
            except Bad:
                self.stats["bad"] += 1
                return SOME
            self.stats["values"] += 1
            return []
        if op == "watch":
            cs, lops = [], []
            for x in c[1]:
                if isinstance(x, str):
                    lops.append(x)
                else:
                    o = [self.key(y) if not re.fullmatch(r"-?\d[\d.]*", y) or self.cwd[-1] == "v" else float(y) if "." in y else int(y) for y in (x[0], x[-1])]
                    cs.append((o[0], x[1], o[1], [self.value(o[0])] if x[1] == "changed" else None))
            ci = int(self.cwd[0][1:])
            w = {"cs": cs, "lops": lops, "comp": ci, "how": ["bc", "ac", "be", "ae"]}
            if c[2]:
                a = c[2]
                do = a["do"]
                act = [do[0]]
                if do[0] == "set":
                    k = self.key(do[1])
                    act += [k, parse_value(k[1], do[2], None), "set %s %s" % ("/".join(self.cwd + [do[1]]), do[2])]
                w.update(buf=a["buf"], pd=a["pd"], vars=[self.key(x) for x in a["vars"]], act=act, recs=[], state="-", post=0, over=False, count=0, reset=False)
            self.watch.append(w)
            return ["Added watchpoint #%d" % (len(self.watch) - 1)]
        if op == "handler":
            if c[1] < len(self.watch) and self.watch[c[1]]:
                self.watch[c[1]]["how"] = c[2]
            return ANY
        if op == "ptrace":
            w = self.watch[c[1]] if c[1] < len(self.watch) else None
            return ANY if w is None or "buf" not in w or not w["recs"] else self.trace(w)
        if op == "unwatch":
            if c[1] is None:
                self.watch = []
            elif c[1] < len(self.watch):
                self.watch[c[1]] = None
            return ANY

    def define(self, c):
        self.out.append(("echo", "> " + lines(c, self.s["tb"])[0]))
        if c[0] == "doc":
            if c[1] not in self.user:
                raise Invalid
            self.out.append(("echo", 'Enter documentation for "%s" terminated by "end"' % c[1]))
            done = "Committing documentation for " + c[1] if c[2] else None
        else:
            if c[1] in self.user:
                self.out.append(("echo", 'Re-defining user command "%s"' % c[1]))
            self.out.append(("echo", 'Enter commands for "%s" terminated by "end"' % c[1]))
            done = 'Committing re-defined command "%s"' % c[1] if c[1] in self.user else "Committing definition for " + c[1]
            if not c[2]:
                raise Invalid
            self.user[c[1]] = c[2]
        for l in lines(c, self.s["tb"])[1:-1]:
            self.out.append(("echo", "> " + l))
        self.out.append(("echo", "> end"))
        self.out.append(("echo", done) if done else ("any",))
        self.out.append(("echo", "[ returning to normal line entry mode ]"))

    def run(self, script):
        """fills self.out: (text of a command, expected output)"""
        s = self.s
        acts = []
        for ci, c in enumerate(s["comps"]):
            acts += [(t, 50, ci, "E", ops) for t, ops in c["acts"]] + [(c["period"] * k, 40, ci, "C", c["tick"]) for k in range(1, c["ticks"] + 1)]
        acts.sort(key=lambda a: a[:2])
        end = acts[-1][0]
        self.pending = [(s["start"], "Interactive start at %d" % s["start"])]
        pos = 0

        def console(msg):
            nonlocal pos
            self.out.append(("enter", self.now, msg))
            self.stats["enter"].append(self.now)
            while pos < len(script):
                if self.todo:  # instructions of a user command
                    c = self.todo.pop(0)
                    r = self.command(c)
                    if r is None:
                        return
                    if r in (ANY, SOME):
                        raise Invalid
                    if r is not CALL:
                        self.out.append(("text", r))
                    continue
                c = script[pos]
                pos += 1
                if c[0] in ("define", "doc"):
                    record(self.hist, c, s["tb"], list(self.cwd))
                    self.define(c)
                    continue
                kind = "cmd"
                if c[0] == "bang":
                    it, echo = self.hist.find(c[1])
                    if it is None:
                        self.out.append(("cmd", c[1], SOME))
                        continue
                    self.out.append(("echo", "> " + c[1]))
                    self.stats["bangs"] += 1
                    if echo:
                        self.hist.append(*it[1:])
                        self.out.append(("echo", it[1].rstrip("\n")))
                        if "\n" in it[1]:
                            self.out.append(("echo", ""))
                        continue
                    c, kind = it[2], "text of bang"
                    if c[0] not in AGAIN or it[3] != self.cwd:
                        raise Invalid
                where = list(self.cwd)
                if c[0] == "call":
                    record(self.hist, c, s["tb"], where)
                r = self.command(c)
                if c[0] != "call":
                    record(self.hist, c, s["tb"], list(self.cwd))
                self.out.append((kind, line(c, s["tb"]), None if r is CALL else r))
                if r is None:
                    return
            raise RuntimeError("script too short")
        i = 0
        while True:
            nxt = (acts[i][0], acts[i][1]) if i < len(acts) else (end + 1, 99)
            if self.pending:
                p = min(range(len(self.pending)), key=lambda k: (self.pending[k][0], k))
                if (self.pending[p][0], 0) < nxt:
                    t, msg = self.pending.pop(p)
                    self.now = t
                    console(msg)
                    continue
            if i == len(acts):
                break
            t, _, ci, how, ops = acts[i]
            i += 1
            self.now, self.hit = t, None
            self.handler(ci, "bc" if how == "C" else "be")
            for o in ops:
                apply(self.st, ci, o)
            self.log(how, t, ci)
            self.handler(ci, "ac" if how == "C" else "ae")
            if self.hit:
                self.stats["watchhit"] += 1
                console("  Last Trigger: WP%d: %s :" % self.hit)
        for ci in range(len(s["comps"])):
            self.log("F", end, ci)
        return end


def log_text(x):
    t = " ".join(str(x[k]) for k in INTS) + " " + float(x["f"]).hex() + " " + float(x["d"]).hex() + " %d" % x["b"]
    i = 0
    while "v%d" % i in x:
        t += " %d" % x["v%d" % i]
        i += 1
    return t + " '%s'" % x["s"]


def norm_hex(l):
    return re.sub(r"-?0x[0-9a-f.]+p[-+]\d+", lambda m: float.fromhex(m[0]).hex(), l)


def match(got, want):
    return len(got) == len(want) and all(re.fullmatch(w[1], g) if isinstance(w, tuple) else g == w for g, w in zip(got, want))


def run_case(s):
    o = Out()
    o.n = 1
    # leave: remove the watchpoints and run to the end
    runs = sum(1 if c[0] == "run" else 100 if c[0] in ("call", "bang") else 0 for c in s["cmds"]) + 3
    script = s["cmds"] + [["unwatch", None]] + [["run", None]] * runs
    d = sstrun.scratch("c21")
    try:
        m = Model(s, d + "/script.txt")
        try:
            end = m.run(script)
        except Invalid:
            return o
        j = {"timebase": s["tb"], "comps": []}
        for c in s["comps"]:
            q = lambda l: json.dumps(l, ensure_ascii=False)
            p = {"tb": s["tb"], "vec": c["vec"], "init": q(c["init"]), "acts": q(["%d %s" % (t, ";".join(ops)) for t, ops in c["acts"]]), "tick": q(c["tick"]), "ticks": c["ticks"]}
            mm = re.fullmatch(r"(\d+)(\w+)", s["tb"])
            p["period"] = "%d%s" % (c["period"] * int(mm[1]), mm[2])
            j["comps"].append({"name": c["name"], "part": c["part"], "params": p})
        json.dump(j, open(d + "/sc.json", "w"))
        with open(d + "/script.txt", "w") as f:
            f.write("confirm false\n" + "".join(l + "\n" for c in script for l in lines(c, s["tb"])))
        os.makedirs(d + "/log")
        u = re.fullmatch(r"(\d+)(\w+)", s["tb"])
        cmd = [build.INST + "/bin/sst", "--add-lib-path=" + build.HLIB, "--interactive-start=%d%s" % (s["start"] * int(u[1]), u[2]), "--replay-file=" + d + "/script.txt", build.VERIF + "/vlib/concfg.py", "--model-options=" + d + "/sc.json"]
        r = sstrun.execute(["sh", "-c", 'exec "$@" >stdout.txt 2>stderr.txt </dev/null', "sh"] + cmd, d, 60, extra_env={"VERIF_OUT": d + "/log"})
        out = open(d + "/stdout.txt", errors="replace").read().split("\n")
        err = open(d + "/stderr.txt", errors="replace").read()
        o.cls("comps%d" % len(s["comps"]))
        if r.timeout or r.rc != 0:
            o.fail(s, "crash", "rc %s %s: %s | %s" % (r.rc, "timeout" if r.timeout else "", "\n".join(out[-6:]), err[-1200:]))
            return o
        # transcript
        i, first, prev = 0, True, ""

        def fail(kind, msg):
            o.fail(s, kind, "line %d after %r: %s" % (i, prev, msg))
        for x in m.out:
            if x[0] == "enter":
                want = "---- Rank0:Thread0: Entering interactive mode at time %d" % x[1]
                if i >= len(out) or out[i] != want:
                    fail("enter", "%r instead of %r" % (out[i:i + 1], want))
                    return o
                if not out[i + 1].startswith(x[2]) or (not x[2].startswith("  Last") and out[i + 1] != x[2]):
                    fail("enter-message", "%r instead of %r" % (out[i + 1], x[2]))
                    return o
                i += 2
                if first:
                    # the replay command and "confirm false"
                    while i < len(out) and out[i] != "> confirm false":
                        i += 1
                    i += 1
                    first = False
                prev = want
                continue
            if x[0] == "text":
                got = out[i:i + len(x[1])]
                if not match(got, x[1]):
                    fail("action", "%r instead of %r" % (got, x[1]))
                    return o
                i += len(x[1])
                continue
            if x[0] in ("echo", "any"):
                if i >= len(out) or (x[0] == "echo" and out[i] != x[1]):
                    fail("entry", "%r where %r was expected" % (out[i:i + 3], x[1]))
                    return o
                i += 1
                prev = x[-1]
                continue
            kind, cmd, want = x
            if i >= len(out) or out[i] != ("> " if kind == "cmd" else "") + cmd:
                fail("extra", "%r where the echo %r was expected" % (out[i:i + 3], cmd))
                return o
            i += 1
            prev = cmd
            if want is None:
                continue
            a = i
            while i < len(out) and not out[i].startswith("> "):
                i += 1
            got = out[a:i]
            ok = True if want is ANY else len(got) > 0 if want is SOME else len(got) == 1 and got[0].startswith(want[1]) if isinstance(want, tuple) else match(got, want)
            if not ok:
                fail(cmd.split()[0] if cmd.split() else "empty", "printed %r instead of %r" % (got[:4], want))
                return o
        rest = [l for l in out[i:] if l and not l.startswith("Simulation is complete, simulated time:")]
        if rest:
            fail("after", "more output: %r" % rest[:5])
            return o
        # logs
        for c in s["comps"]:
            f = d + "/log/%s.log" % c["name"]
            got = [norm_hex(l) for l in open(f).read().split("\n")[:-1]] if os.path.exists(f) else []
            want = ["%s %d %s%s" % (h, t, log_text(a), "" if b is None else " | " + log_text(b)) for h, t, a, b in m.logs[c["name"]]]
            if got != want:
                k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
                o.fail(s, "state", "%s's handler %d had %r instead of %r (%d of %d)" % (c["name"], k, got[k:k + 1], want[k:k + 1], len(got), len(want)))
                return o
        st = m.stats
        if len(set(st["enter"])) >= 2 and st["values"] >= 3:
            o.nontrivial.append((len(st["enter"]), st["values"], st["watchhit"], st["acthit"], st["bad"], end))
        if st["watchhit"]:
            o.cls("watch")
        if st["acthit"]:
            o.cls("action")
        if st["calls"]:
            o.cls("user command")
        if st["bangs"]:
            o.cls("history")
        o.sample = {"entered": st["enter"][:20], "values": st["values"], "watch": st["watchhit"], "actions": st["acthit"], "user commands": st["calls"], "repeated": st["bangs"], "refused": st["bad"], "end": end}
    finally:
        sstrun.rmtree(d)
    return o


def shrink(s):
    # commands: cd pairs would change what follows, so only those that do not navigate
    idx = [k for k, c in enumerate(s["cmds"]) if c[0] not in ("cd",)]
    for k in (12, 4, 1):
        for a in range(0, len(idx), k):
            n = copy.deepcopy(s)
            for q in reversed(idx[a:a + k]):
                del n["cmds"][q]
            yield n
    for k in range(len(s["cmds"]) - 1):
        if s["cmds"][k][0] == "cd" and s["cmds"][k + 1] == ["cd", ".."] and s["cmds"][k][1] != "..":
            n = copy.deepcopy(s)
            del n["cmds"][k:k + 2]
            yield n
    if s["cmds"] and s["cmds"][-1][0] == "cd":
        n = copy.deepcopy(s)
        n["cmds"].pop()
        yield n
    for ci, c in enumerate(s["comps"]):
        for key in ("init", "acts", "tick"):
            for a in range(len(c[key])):
                if key == "acts" and len(c[key]) == 1:
                    continue
                n = copy.deepcopy(s)
                del n["comps"][ci][key][a]
                yield n
        for a, (t, ops) in enumerate(c["acts"]):
            for b in range(len(ops)):
                n = copy.deepcopy(s)
                del n["comps"][ci]["acts"][a][1][b]
                yield n
