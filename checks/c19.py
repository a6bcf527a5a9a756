"""C19: Output objects write every accepted message once, completely and in order to their destination, with the prefix as documented."""
import copy, glob, json, os, re
from vlib import build, sstrun
from vlib.check import Out

PID = "C19"
LIBS = ["vuout"]
RULE = ("random scripts of operations (creation in every form, copies, assignment, destruction, changes of prefix, level, mask and destination, messages of every kind) on up to 6 Output objects in 1-4 components, run serially, "
        "in threads, in ranks and resumed from a checkpoint; every file, stdout, stderr and what the objects report is compared to a model. Non-trivial: at least 5 messages were written, to at least two destinations, and one was suppressed.")
N = {"quick": 500, "thorough": 6000}
TIME = {"quick": 120, "thorough": 2400}
SHAPES = [(1, 1), (1, 1), (1, 1), (1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1)]
NONE, STDOUT, STDERR, FILE = range(4)
FIN = 1000000
U32 = 2 ** 32 - 1
PIECES = ["@f", "@l", "@p", "@r", "@R", "@i", "@I", "@x", "@X", "@t", "@", "@@", "@q", "@ ", "%", "%d", "%%", "%s", "%n", " ", ": ", "abc", "[", "]", "\\", "Zz", "\"", "-", "ö", "x" * 300]


def pfx(rng):
    return "".join(rng.choice(PIECES) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8])))


def text(rng):
    return "".join(rng.choice(["m", "%", "%d", "@t", "@x", " ", "word", "ü", "100%", "\\n", "'", "y" * rng.choice([5, 50, 700])]) for _ in range(rng.choice([0, 1, 2, 4])))


FILES = ["a.cc", "/p/q r/b%d.h", "x@l.cc", ""]
FUNCS = ["main", "operator%", "void f(int) [with T = %s]", "", "g" * 400]


def gen(rng, i, tier):
    n = rng.choice([1, 1, 2, 3, 4])
    R, T = rng.choice(SHAPES) if n > 1 else (1, 1)
    if R * T > n:
        R, T = (2, 1) if R > 1 else (1, 2)
    s = {"type": "vuout.comp", "opts": {}, "lat": "%d ns" % rng.randint(5, 30), "shape": [R, T], "comps": [], "debug": rng.choice(["", "", "dbg.txt", "d e.log"]),
         "restart": rng.choice([[1, 1], [R, T]]) if rng.random() < 0.3 else None, "pick": rng.random()}
    serial = R * T == 1
    s["period"] = rng.randint(5, 40)
    fatal = serial and rng.random() < 0.08
    if fatal:
        s["restart"] = None
    k = 0
    for ci in range(n):
        place = [ci % R, ci // R % T]
        # stdout and stderr of several ranks are mixed by mpirun
        locs = [NONE, STDOUT, STDERR, FILE, FILE, FILE] if place[0] == 0 else [NONE, FILE, FILE]
        top = rng.choice([3, 30, 90])
        ts = sorted(rng.choice([-3, -2, -1] + [rng.randint(1, top)] * 6 + ([FIN] if serial and not s["restart"] else [])) for _ in range(rng.choice([3, 8, 20, 40])))
        have, init, acts = {}, {}, []
        sync = bool(s["restart"])

        def spec():
            nonlocal k
            k += 1
            w = rng.choice(locs)
            return [pfx(rng), rng.choice([0, 1, 2, 5, U32]), rng.choice([0, 1, 3, 6, 0x80000001, U32]), w, "" if rng.random() < 0.6 else "c%d_%d.txt" % (ci, k)]
        for t in ts:
            o = rng.randrange(6)
            op = rng.choice(["out", "out", "outp", "outp", "outp", "verb", "verb", "vpre", "dbg", "level", "mask", "pfx", "loc", "get", "new", "copy", "assign", "tmp", "del", "flush", "sim"])
            if op == "sim" and place[0] == 0:
                acts.append([t, "sim", 0, rng.choice(["w", "@x %d"])])
                continue
            if op == "copy" and have and not sync:
                j = rng.choice(sorted(have))
                if j != o:
                    acts.append([t, "copy", o, j])
                    have[o] = 1
                continue
            if op == "new" or o not in have or op in ("sim", "copy"):
                if rng.random() < 0.2:
                    acts.append([t, "def", o])
                else:
                    acts.append([t, "new", o] + spec())
                have[o] = 1
                continue
            if op == "out":
                acts.append([t, op, o, rng.randrange(3), text(rng)])
            elif op == "outp":
                acts.append([t, op, o, rng.choice([0, 7, 123456]), rng.choice(FILES), rng.choice(FUNCS), rng.randrange(3), text(rng)])
            elif op in ("verb", "dbg"):
                acts.append([t, op, o, rng.choice([0, 1, 2, 3, 5, U32]), rng.choice([0, 1, 2, 3, 4, 0x80000000]), rng.randint(0, 999), rng.choice(FILES), rng.choice(FUNCS), text(rng)])
            elif op == "vpre":
                acts.append([t, op, o, pfx(rng), rng.choice([0, 1, 2, 3]), rng.choice([0, 1, 2, 3]), rng.randint(0, 999), rng.choice(FILES), rng.choice(FUNCS), text(rng)])
            elif op == "level":
                acts.append([t, op, o, rng.choice([0, 1, 2, 5, U32])])
            elif op == "mask":
                acts.append([t, op, o, rng.choice([0, 1, 2, 3, 6, U32])])
            elif op == "pfx":
                acts.append([t, op, o, pfx(rng)])
            elif op == "loc":
                acts.append([t, op, o, rng.choice(locs)])
            elif op in ("get", "flush"):
                acts.append([t, op, o])
            elif op == "del":
                acts.append([t, op, o])
                del have[o]
            elif op == "assign" and not sync:
                acts.append([t, op, o, rng.choice(sorted(have))])
            elif op == "tmp":
                acts.append([t, op, o] + spec())
            elif rng.random() < 0.5:
                acts.append([t, "init", o] + spec())
        if fatal and ci == n - 1:
            t = max([a[0] for c in s["comps"] for a in c["acts"] if a[0] < FIN] + [a[0] for a in acts if a[0] < FIN] + [1]) + 1
            o = min(have, default=0)
            if o not in have:
                acts.append([t - 1, "def", o])
            for c in s["comps"]:
                c["acts"] = [a for a in c["acts"] if a[0] < FIN]
                c["acts"].append([t + 5, "none", 0])
            acts = [a for a in acts if a[0] < FIN] + [[t, "fatal", o, 77, rng.choice(FILES), rng.choice(FUNCS), text(rng), rng.choice([1, 5, 42])]]
        s["comps"].append({"name": "c%d" % ci, "rank": place, "acts": acts})
    return s


class Obj:
    def __init__(self):
        self.ok, self.p, self.lev, self.mask, self.loc, self.name = False, "", 0, 0, NONE, ""

    def init(self, p, lev, mask, loc, name):
        if not self.ok:
            self.ok, self.p, self.lev, self.mask, self.loc, self.name = True, p, lev, mask, loc, name


def end_of(s):
    return max([a[0] for c in s["comps"] for a in c["acts"] if a[0] < FIN] + [0])


def expand(p, line, file, func, R, T, rank, thread, t):
    out, i = "", 0
    while i < len(p):
        c = p[i + 1] if p[i] == "@" and i + 1 < len(p) else ""
        v = {"f": file, "l": str(line), "p": func, "r": str(rank) if R > 1 else "", "R": str(rank), "i": str(thread) if T > 1 else "", "I": str(thread),
             "x": "[%d:%d]" % (rank, thread) if R * T > 1 else "", "X": "[%d:%d]" % (rank, thread), "t": str(t)}.get(c) if c else None
        if v is None:
            out += p[i]
            i += 1
        else:
            out += v
            i += 2
    return out


STYLE2 = " -17|10000000000| 3.14|%|z"


def model(s, R, T, places, since):
    """destination -> component -> messages; the values that objects report; number of suppressed messages.  Only what happens after time `since` (None: all)."""
    files, gets, sup, how = {}, {}, 0, None
    end = end_of(s)
    for ci, c in enumerate(s["comps"]):
        obj = {}
        rank, thread = places[ci]
        seq = 0
        for a in sorted(c["acts"], key=lambda a: a[0]):
            t, op, k = a[:3]
            x = a[3:]
            live = since is None or t >= since
            o = obj.get(k)
            seq += 1
            now = end if t == FIN else max(t, 0)
            tag = "<%d.%d>" % (ci, seq)

            def put(dest, txt):
                if live:
                    files.setdefault(dest, {}).setdefault(ci, []).append(txt)

            def emit(o, txt):
                nonlocal sup
                if not o.ok or o.loc == NONE:
                    sup += 1
                elif o.loc == FILE:
                    nm = o.name or s["debug"] or "sst_output"
                    put(nm + (str(rank) if R > 1 else ""), txt)
                else:
                    put({STDOUT: 1, STDERR: 2}[o.loc], txt)
            if op == "none" or o is None and op not in ("sim", "new", "def", "copy") or op in ("copy", "assign") and x[0] not in obj:
                continue
            if op == "sim":
                put(1, tag + x[0])
            elif op in ("new", "tmp"):
                obj[k] = Obj()
                obj[k].init(*x)
            elif op == "def":
                obj[k] = Obj()
            elif op == "init":
                o.init(*x)
            elif op in ("copy", "assign"):
                obj[k] = copy.copy(obj[x[0]])
            elif op == "del":
                del obj[k]
            elif op == "out":
                emit(o, tag + x[1] + (STYLE2 if x[0] == 2 else ""))
            elif op == "outp":
                emit(o, expand(o.p, x[0], x[1], x[2], R, T, rank, thread, now) + tag + x[4] + (STYLE2 if x[3] == 2 else ""))
            elif op == "verb":
                if x[0] <= o.lev and not (x[1] & ~o.mask):
                    emit(o, expand(o.p, x[2], x[3], x[4], R, T, rank, thread, now) + tag + x[5])
                else:
                    sup += 1
            elif op == "vpre":
                if x[1] <= o.lev and not (x[2] & ~o.mask):
                    emit(o, expand(x[0], x[3], x[4], x[5], R, T, rank, thread, now) + tag + x[6])
                else:
                    sup += 1
            elif op == "level":
                o.lev = x[0]
            elif op == "mask":
                o.mask = x[0]
            elif op == "pfx":
                o.p = x[0]
            elif op == "loc":
                o.loc = x[0]
            elif op == "get" and live:
                gets.setdefault(ci, []).append("%d %d %d %d %s" % (t, o.lev, o.mask, o.loc, o.p))
            elif op == "fatal":
                txt = "FATAL: " + expand(o.p, x[0], x[1], x[2], R, T, rank, thread, now) + tag + x[3]
                put(2, txt)
                if o.ok and o.loc == FILE:
                    emit(o, txt)
                how = x[4]
    return files, gets, sup, how


def hx(x):
    return "x" + x.encode().hex()


def script(s, ci):
    """strings in hexadecimal, messages with their tag"""
    out = []
    for seq, a in enumerate(sorted(s["comps"][ci]["acts"], key=lambda a: a[0]), 1):
        a = list(a)
        tag = "<%d.%d>" % (ci, seq)
        op = a[1]
        at = {"sim": 3, "out": 4, "outp": 7, "verb": 8, "dbg": 8, "vpre": 9, "fatal": 6}.get(op)
        if at:
            a[at] = tag + a[at]
            if op in ("out", "outp") and a[at - 1] == 1:
                a[at] = a[at].replace("%", "%%")
        out.append(" ".join([str(a[0]), a[1], str(a[2])] + [hx(v) if isinstance(v, str) else str(v) for v in a[3:]]))
    return ";".join(out)


def start(d, args, R, T, timeout=60):
    cmd = (["mpirun", "-np", str(R)] if R > 1 else []) + [build.INST + "/bin/sst", "--add-lib-path=" + build.HLIB] + (["-n", str(T)] if T > 1 else []) + args
    for _ in range(3):
        r = sstrun.execute(["sh", "-c", 'exec "$@" >stdout.txt 2>stderr.txt', "sh"] + cmd, d, timeout, extra_env={"VERIF_OUT": d})
        e = open(d + "/stderr.txt", errors="replace").read()
        if r.rc == 0 or r.timeout or not ("orte_init" in e or "ORTE_ERROR_LOG" in e):
            break
    return r


def compare(s, o, what, d, files, gets, n):
    for dest in sorted(files, key=str):
        nm = {1: "stdout.txt", 2: "stderr.txt"}.get(dest, dest)
        if not os.path.exists(d + "/" + nm):
            o.fail(s, "file", "%s: no file %s, which should hold %s" % (what, nm, str(files[dest])[:300]))
            return False
    for f in sorted(os.listdir(d)):
        if re.fullmatch(r"c\d\.log", f) or f.startswith(".") or os.path.isdir(d + "/" + f):
            continue
        dest = {"stdout.txt": 1, "stderr.txt": 2}.get(f, f)
        got = {}
        raw = open(d + "/" + f, encoding="utf-8", errors="surrogateescape", newline="\n").read()
        for line in raw.split("\n"):
            m = re.findall(r"<(\d+)\.\d+>", line)
            if len(m) == 1:
                got.setdefault(int(m[0]), []).append(line)
            elif line and (dest not in (1, 2) or m):
                o.fail(s, "garbled", "%s: %s holds the line %r" % (what, f, line[:600]))
                return False
        want = files.get(dest, {})
        if dest not in (1, 2) and not want:
            o.fail(s, "extra-file", "%s: file %s was not expected, it holds %r" % (what, f, raw[:300]))
            return False
        for ci in range(n):
            a, b = got.get(ci, []), want.get(ci, [])
            if a != b:
                i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                o.fail(s, "messages", "%s: %s: message %d of c%d is %r instead of %r (%d of %d)" % (what, f, i, ci, a[i:i + 1], b[i:i + 1], len(a), len(b)))
                return False
    for ci in range(n):
        f = d + "/c%d.log" % ci
        a = open(f, encoding="utf-8", newline="\n").read().split("\n")[:-1] if os.path.exists(f) else []
        if a != gets.get(ci, []):
            o.fail(s, "get", "%s: c%d's objects report %s instead of %s" % (what, ci, a[:8], gets.get(ci, [])[:8]))
            return False
    return True


def run_case(s):
    o = Out()
    o.n = 1
    R, T = s["shape"]
    n = len(s["comps"])
    places = [c["rank"] for c in s["comps"]]
    files, gets, sup, how = model(s, R, T, places, None)
    d = sstrun.scratch("c19")
    try:
        j = {"type": s["type"], "opts": dict(s["opts"], timebase="1ns"), "lat": s["lat"], "comps": [{"name": c["name"], "rank": c["rank"] if R * T > 1 else None, "params": {"acts": script(s, ci)}} for ci, c in enumerate(s["comps"])]}
        w = d + "/run"
        os.makedirs(w)
        json.dump(j, open(d + "/sc.json", "w"))
        args = ["--partitioner=sst.self"] if R * T > 1 else []
        dbg = ["--debug-file=" + s["debug"]] if s["debug"] else []
        if s["restart"]:
            args += ["--checkpoint-sim-period=%dns" % s["period"], "--output-directory=" + d + "/cp"]
        r = start(w, args + dbg + [build.VERIF + "/vlib/outcfg.py", "--model-options=" + d + "/sc.json"], R, T)
        o.cls("%dx%d" % (R, T))
        err = open(w + "/stderr.txt", errors="replace").read()
        if r.timeout or (r.rc != how if how is not None else r.rc != 0):
            o.fail(s, "crash", "rc %s %s: %s" % (r.rc, "timeout" if r.timeout else "", err[-1500:]))
            return o
        if how is not None:
            o.cls("fatal")
        if not compare(s, o, "run", w, files, gets, n):
            return o
        if s["restart"]:
            cps = sorted((int(os.path.basename(os.path.dirname(f)).split("_")[2]), f) for f in glob.glob(d + "/cp/checkpoint/*/*.sstcpt"))
            cps = [x for x in cps if x[0] < end_of(s)]
            if cps:
                t0, f = cps[int(s["pick"] * len(cps))]
                R2, T2 = s["restart"]
                # a checkpoint precedes the events of its time
                R2, T2 = s["restart"]
                w = d + "/run2"
                os.makedirs(w)
                r = start(w, dbg + [f], R2, T2)
                err = open(w + "/stderr.txt", errors="replace").read()
                if r.timeout or r.rc != 0:
                    o.fail(s, "restart-crash", "restart at %d of %s on %s: rc %s %s: %s" % (t0, s["shape"], s["restart"], r.rc, "timeout" if r.timeout else "", err[-1500:]))
                    return o
                f2, g2, _, _ = model(s, R2, T2, places if R2 * T2 > 1 else [[0, 0]] * n, t0)
                if not compare(s, o, "restart at %d" % t0, w, f2, g2, n):
                    return o
                o.cls("restart")
        wrote = sum(len(m) for v in files.values() for m in v.values())
        if wrote >= 5 and len(files) >= 2 and sup:
            o.nontrivial.append((R, T, wrote, sup, len(files)))
        o.sample = {"shape": s["shape"], "destinations": {str(k): sum(len(x) for x in v.values()) for k, v in files.items()}, "suppressed": sup, "restart": s["restart"]}
    finally:
        sstrun.rmtree(d)
    return o


def shrink(s):
    if s["restart"]:
        n = copy.deepcopy(s)
        n["restart"] = None
        yield n
    elif s["shape"] != [1, 1]:
        n = copy.deepcopy(s)
        n["shape"] = [1, 1]
        for c in n["comps"]:
            c["rank"] = [0, 0]
        yield n
    for ci in range(len(s["comps"])):
        if len(s["comps"]) > 1 and s["shape"] == [1, 1]:
            n = copy.deepcopy(s)
            del n["comps"][ci]
            yield n
        for k in (8, 3, 1):
            for ai in range(0, len(s["comps"][ci]["acts"]), k):
                n = copy.deepcopy(s)
                del n["comps"][ci]["acts"][ai:ai + k]
                yield n
    for ci in range(len(s["comps"])):
        for ai, a in enumerate(s["comps"][ci]["acts"]):
            for k in range(3, len(a)):
                if isinstance(a[k], str) and a[k] and not a[k].endswith(".txt"):
                    n = copy.deepcopy(s)
                    n["comps"][ci]["acts"][ai][k] = ""
                    yield n
