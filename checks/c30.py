"""C30: observing a run (profile tools, timing information, heartbeats, verbose output, configuration output, checkpoints) does not change it, and what the
profile tools report is exact.  Components count their own receives, sends, clock ticks and code segments; logs are compared to an unobserved serial run."""
import copy, glob, json, os, re
from vlib import build, sstrun
from vlib.check import Out

PID = "C30"
LIBS = ["vuprof"]
RULE = ("random networks of components with (nested, anonymous) subcomponents, handler, polled and self links and clocks that stop and start again, run with 1-5 random profile tools (counts and times of event handlers, clocks, code segments and "
        "syncs at every level), random observation options, job shape and output form; the logs of the components are compared to those of a plain serial run, the reported counts to the components' own. "
        "Non-trivial: at least 20 events and 10 clock ticks counted by a tool.")
N = {"quick": 350, "thorough": 2500}
TIME = {"quick": 150, "thorough": 2400}
SHAPES = [(1, 1), (1, 1), (1, 2), (1, 3), (2, 1), (2, 2)]


def gen(rng, i, tier):
    n = rng.randint(1, 5)
    s = {"els": [], "links": [], "shape": list(rng.choice(SHAPES)) if n > 1 else [1, 1], "stop": rng.choice([60, 200, 700])}
    ends, lab = [], 0

    def element(name, kind, parent):
        nonlocal lab
        e = {"label": "l%d" % lab, "name": name, "kind": kind, "parent": parent, "salt": rng.randint(1, 10 ** 6), "ports": [], "clocks": []}
        lab += 1
        for _ in range(rng.choice([0, 1, 1, 2])):
            p = rng.choice([1, 2, 3, 5, 7, 10, 40]) * rng.choice([1, 1, 3])
            stop = rng.choice([0, 0, 1, 3, 10])
            # started again with registerClock() ("=") or reregisterClock(); only components do
            again = ""
            if stop and kind in "CD" and rng.random() < 0.6:
                again = rng.choice(["", "="]) + "%d ps" % p
            e["clocks"].append("%d ps/%d/%s" % (p, stop, again))
        s["els"].append(e)
        return e
    for ci in range(n):
        c = element("c%d" % ci, rng.choice("CCD"), None)
        c["rank"] = [ci % s["shape"][0], ci // s["shape"][0] % s["shape"][1]] if ci < s["shape"][0] * s["shape"][1] else [rng.randrange(s["shape"][0]), rng.randrange(s["shape"][1])]
        mine = [c]
        ns = rng.choice([0, 0, 1, 2])
        for k in range(ns):
            nm = "%s:sub" % c["name"] + ("[%d]" % k if ns > 1 else "")
            x = element(nm, "S", [c["name"], k])
            mine.append(x)
            if rng.random() < 0.3:
                mine.append(element(nm + ":sub", "S", [nm, 0]))
        if rng.random() < 0.25:
            mine.append(element(c["name"], "A", [c["name"], 0]))
        free = ["p%d" % k for k in range(9)]
        for e in mine:
            names = free if e["kind"] in "CDA" else ["p%d" % k for k in range(9)]
            for _ in range(rng.choice([0, 1, 2, 2])):
                p = rng.choice(names)
                names.remove(p)
                ends.append((e, p))
            if rng.random() < 0.3:
                e["ports"].append("2self" + ("a" if e["kind"] == "A" else ""))
    if len(ends) % 2:
        e = s["els"][0]
        q = next("p%d" % k for k in range(10, 20))
        ends.append((e, q))
    rng.shuffle(ends)
    lats = rng.choice([[1, 2], [3, 10], [20], [50, 7]])
    for k in range(0, len(ends), 2):
        (a, p), (b, q) = ends[k], ends[k + 1]
        poll = rng.random() < 0.15
        a["ports"].append(("1" if poll else "0") + p)
        b["ports"].append("0" + q)
        s["links"].append([owner(s, a), p, owner(s, b), q, rng.choice(lats)])
    # observation
    tools = []
    for k in range(rng.choice([1, 2, 2, 3, 5])):
        t = rng.choice(["event", "event", "clock", "segment", "sync"])
        ty = rng.choice(["count", "count", "time.steady", "time.high_resolution"])
        x = {"name": "t%d" % k, "t": t, "ty": ty, "level": rng.choice(["global", "type", "component", "subcomponent", None]), "o": {}}
        if t == "event":
            for q in ("track_ports", "profile_sends", "profile_receives"):
                if rng.random() < 0.5:
                    x["o"][q] = rng.choice(["true", "false", "1", "0"])
        if t == "segment":
            x["points"] = rng.sample(["vuprof.C.work", "vuprof.C.other", "vuprof.D.work", "vuprof.D.other", "vuprof.S.work", "vuprof.S.other"], rng.randint(1, 6))
            if rng.random() < 0.5:
                x["o"]["track_points"] = rng.choice(["true", "false"])
        tools.append(x)
    s["tools"] = tools
    s["out"] = rng.choice(["stdout", "prof.json", "prof.json", "prof.txt", "stdout,prof.json", "prof.txt,stdout", "o/x/prof.txt", "o/prof.json"])
    s["sp"] = rng.random() < 0.3
    ob = []
    for o, p in (("--verbose=%d" % rng.randint(1, 4), .15), ("--print-timing-info=%d" % rng.randint(1, 5), .2), ("--heartbeat-sim-period=%d ps" % rng.choice([3, 11, 100]), .25), ("--heartbeat-wall-period=1", .1),
                 ("--output-json=x.json", .15), ("--output-config=x.py", .15), ("--output-dot=x.dot", .15), ("--output-partition=x.part", .15), ("--checkpoint-wall-period=1", .05), ("--output-undeleted-events=u.txt", .05),
                 ("--sigalrm=sst.rt.heartbeat(interval=1s)", .1), ("--exit-after=600s", .1), ("--output-directory=od", .1), ("--interthread-links", .1), ("--cache-align-mempools", .1)):
        if rng.random() < p:
            ob.append(o)
    s["ob"] = ob
    s["ckpt"] = rng.choice([7, 25, 90]) if rng.random() < 0.3 else 0
    s["plain"] = rng.random() < 0.1    # observed by options alone
    return s


def owner(s, e):
    return e["name"]


def py(s):
    L = ["import sst", "E={}"]
    for e in s["els"]:
        if e["kind"] == "A":
            continue
        if e["parent"] is None:
            L.append("E[%r]=sst.Component(%r,'vuprof.%s')" % (e["name"], e["name"], e["kind"]))
            L.append("E[%r].setRank(%d,%d)" % (e["name"], e["rank"][0], e["rank"][1]))
        else:
            L.append("E[%r]=E[%r].setSubComponent('sub','vuprof.S',%d)" % (e["name"], e["parent"][0], e["parent"][1]))
        p = {"salt": e["salt"], "label": e["label"], "ports": json.dumps(e["ports"]), "clocks": json.dumps(e["clocks"])}
        L.append("E[%r].addParams(%r)" % (e["name"], p))
    for e in s["els"]:
        if e["kind"] == "A":
            p = {"anonymous.salt": e["salt"], "anonymous.label": e["label"], "anonymous.ports": json.dumps(e["ports"]), "anonymous.clocks": json.dumps(e["clocks"]), "anon": "1"}
            L.append("E[%r].addParams(%r)" % (e["name"], p))
    for k, (a, p, b, q, lat) in enumerate(s["links"]):
        L.append("sst.Link('k%d').connect((E[%r],%r,'%dps'),(E[%r],%r,'%dps'))" % (k, a, p, lat, b, q, lat))
    return "\n".join(L) + "\n"


def spec(s):
    r = []
    sp = " " if s["sp"] else ""
    for t in s["tools"]:
        o = dict(t["o"])
        if t["level"] and t["t"] != "sync":
            o["level"] = t["level"]
        ty = {"event": "sst.profile.handler.event.", "clock": "sst.profile.handler.clock.", "segment": "sst.profile.component.codesegment.", "sync": "sst.profile.sync."}[t["t"]] + t["ty"]
        ps = "(%s)" % (("," + sp).join("%s=%s" % kv for kv in o.items())) if o else ""
        r.append("%s:%s%s%s%s[%s]" % (t["name"], sp, ty, sp, ps, ("," + sp).join(t.get("points", [t["t"]]))))
    return (";" + sp).join(r)


def flag(t, k, d=True):
    return {"true": True, "1": True, "false": False, "0": False}[t["o"].get(k, "true" if d else "false")]


def expected(s, logs):
    """{tool: {(rank, thread): {key: {field: count}}}}"""
    els = {e["label"]: e for e in s["els"]}
    where = {e["name"]: e["rank"] for e in s["els"] if e["parent"] is None}
    R, T = s["shape"]
    res = {}
    for t in s["tools"]:
        if t["t"] == "sync":
            continue
        level = t["level"] or "type"
        x = res.setdefault(t["name"], {})
        for lab, g in logs.items():
            e = els[lab]
            top = g["name"].split(":")[0]
            rk = tuple(where[top]) if R * T > 1 else (0, 0)
            key = {"global": "global", "type": g["type"], "component": top, "subcomponent": g["name"]}[level]
            y = x.setdefault(rk, {})
            if t["t"] == "clock":
                if g["clocks"]:
                    c = y.setdefault(key, {"count": 0})
                    c["count"] += sum(g["clocks"])
            elif t["t"] == "segment":
                for pt, f in (("work", "work"), ("other", "other")):
                    if "%s.%s" % (g["type"], pt) in t["points"]:
                        k = key + "/" + pt if flag(t, "track_points") else key
                        c = y.setdefault(k, {"count": 0})
                        c["count"] += g[f]
            else:
                snd, rcv = flag(t, "profile_sends", D_SEND), flag(t, "profile_receives", D_RECV)
                for p, (kind, r_, s_) in g["ports"].items():
                    if kind == 1 or not (snd or rcv):
                        continue
                    k = key + ":" + p if flag(t, "track_ports", D_TRACK) else key
                    c = y.setdefault(k, {})
                    if rcv:
                        c["recv_count"] = c.get("recv_count", 0) + r_
                    if snd:
                        c["send_count"] = c.get("send_count", 0) + s_
    return res


D_SEND, D_RECV, D_TRACK = False, True, False


def parse_text(t, names):
    """the records of the tools: {tool: (tree as nested list of [name, {k: v}, children]) or list rows}"""
    res, cur = {}, None
    lines = t.splitlines()
    i = 0
    while i < len(lines):
        l = lines[i]
        m = re.fullmatch(r"(t\d+):?", l.strip()) if not l.startswith(" ") else None
        if m and m.group(1) in names:
            if not l.endswith(":"):
                # list: header, then one row per rank
                head = [x.strip() for x in lines[i + 1].split(",")]
                rows = {}
                i += 2
                while i < len(lines) and re.match(r"rank\d+(,|$)", lines[i]):
                    v = [x.strip() for x in lines[i].split(",")]
                    rows.setdefault(v[0], []).append(dict(zip(head[1:], v[1:])) if len(v) == len(head) else None)
                    i += 1
                res[m.group(1)] = rows
                continue
            cur = [m.group(1), {}, []]
            res[m.group(1)] = cur
            stack = [cur]
            i += 1
            while i < len(lines) and lines[i].startswith("  "):
                l = lines[i]
                d = (len(l) - len(l.lstrip())) // 2
                x = l.strip()
                if x.endswith(":"):
                    node = [x[:-1], {}, []]
                    del stack[d:]
                    stack[-1][2].append(node)
                    stack.append(node)
                else:
                    k, v = x.split(":", 1) if not re.search(r":\S*: ", x) else x.rsplit(": ", 1)
                    stack[-1][1][k.rstrip(":").strip()] = v.strip()
                i += 1
            continue
        i += 1
    return res


class Pairs(list):
    pass


def tree(name, v):
    """a JSON object with its duplicate keys as a tree"""
    n = [name, {}, []]
    for k, x in v:
        if isinstance(x, Pairs):
            n[2].append(tree(k, x))
        else:
            n[1][k] = x
    return n


def leaves(n, path=()):
    for c in n[2]:
        if c[1] or not c[2]:
            yield path, c[0], c[1]
        for x in leaves(c, path + (c[0],)):
            yield x


def compare(s, o, form, rec, want):
    R, T = s["shape"]
    for t in s["tools"]:
        nm = t["name"]
        if nm not in rec:
            if t["t"] == "sync" or any(want[nm].values()):
                o.fail(s, "record-missing", "%s: no record of tool %s (%s %s)" % (form, nm, t["t"], t["ty"]))
                return False
            continue
        if t["t"] == "sync":
            continue
        have = {}
        for path, k, d in leaves(rec[nm]):
            if t["t"] == "clock":
                if re.fullmatch(r"\d+_\d+", k) and not path and not d:
                    continue
                if len(path) != 1:
                    o.fail(s, "nesting", "%s: the record of %s is at %s" % (form, k, path))
                    return False
            elif path:
                o.fail(s, "nesting", "%s: the record of %s is at %s" % (form, k, path))
                return False
            h = have.setdefault((path, k), {})
            for f, v in d.items():
                if f.endswith("count"):
                    h[f] = h.get(f, 0) + int(v)
                elif not re.match(r"^[0-9.e+-]+ ?[munpfa]?s$", v):
                    o.fail(s, "time", "%s: %s of %s is %r" % (form, f, k, v))
                    return False
            if t["ty"] != "count":
                want_fields = {"event": (["recv_time", "avg_recv_time"] if flag(t, "profile_receives", D_RECV) else []), "clock": ["handler_time", "avg_handler_time"], "segment": ["time", "avg_time"]}[t["t"]]
                n0 = int(d.get("recv_count", d.get("count", 0)))
                for f in want_fields:
                    if (f in d) != (n0 > 0 or not f.startswith("avg")):
                        o.fail(s, "time", "%s: %s of %s, counted %d times: %s" % (form, f, k, n0, d))
                        return False
        exp = {}
        for rk, y in want[nm].items():
            for k, d in y.items():
                e = exp.setdefault((("%d_%d" % rk,) if t["t"] == "clock" else (), k), {})
                for f, v in d.items():
                    e[f] = e.get(f, 0) + v
        if have != exp:
            bad = {"%s %s" % k: (exp.get(k), have.get(k)) for k in set(exp) | set(have) if exp.get(k) != have.get(k)}
            key = "count-" + t["t"]
            if form == "json" and T > 1 and t["t"] != "clock":
                # the threads of a rank that report the same key: only one of them is in the file
                single = True
                for k in set(exp) | set(have):
                    if exp.get(k) == have.get(k):
                        continue
                    parts = [[y.get(k[1]) for rk, y in want[nm].items() if rk[0] == r and k[1] in y] for r in range(R)]
                    sums = [{}]
                    for p in parts:
                        if p:
                            sums = [{f: a.get(f, 0) + b.get(f, 0) for f in set(a) | set(b)} for a in sums for b in p]
                    if have.get(k) not in sums or not any(len(p) > 1 for p in parts):
                        single = False
                if single:
                    key = "json-threads-same-key"
            o.fail(s, key, "%s, tool %s (%s, level %s, %s): (expected, reported) %s" % (form, nm, t["ty"], t["level"], t["o"], str(bad)[:900]))
            if key != "json-threads-same-key":
                return False
    return True


FIELDS = {"RankSync Total Syncs": "ranksync_total_count", "ThreadSync Total Syncs": "threadsync_total_count", "RankSync Total Events Exchanged": "ranksync_total_events", "RankSync Total Data Exchanged": "ranksync_total_data"}


def check_sync(s, o, form, rec, logs):
    R, T = s["shape"]
    got = {}
    where = {e["name"]: e["rank"][0] for e in s["els"] if e["parent"] is None}
    rk = lambda n: where[n.split(":")[0]] if R > 1 else 0
    for t in s["tools"]:
        if t["t"] != "sync":
            continue
        x = rec[t["name"]]
        if isinstance(x, list):
            rows = {}
            for path, k, d in leaves(x):
                if path:
                    o.fail(s, "nesting", "%s: sync record %s is at %s" % (form, k, path))
                    return False
                rows.setdefault(k, []).append(d)
        else:
            rows = {k: [None if d is None else {FIELDS.get(f, f): v for f, v in d.items()} for d in L] for k, L in x.items()}
        if sorted(rows) != sorted("rank%d" % r for r in range(R)) or any(len(L) != 1 or L[0] is None or not L[0] for L in rows.values()):
            o.fail(s, "sync-rows", "%s: sync profile has the rows %s for %d ranks" % (form, {k: L for k, L in rows.items()}, R))
            return False
        f = lambda k: [int(rows["rank%d" % r][0][k]) for r in range(R)]
        a, b, c = f("ranksync_total_count"), f("threadsync_total_count"), f("ranksync_total_events")
        if len(set(a)) > 1 or (R == 1 and a != [0]) or (R > 1 and a[0] < 1 and any(rk(l[0]) != rk(l[2]) for l in s["links"])) or (T == 1 and any(b)):
            o.fail(s, "sync-count", "%s: %d ranks with %d threads report %s rank and %s thread syncs" % (form, R, T, a, b))
            return False
        got.setdefault("x", []).append((a, b, c, t["ty"], t["name"]))
        cross = {}
        for l in s["links"]:
            if rk(l[0]) != rk(l[2]):
                cross[(l[0], l[1])] = cross[(l[2], l[3])] = 1
        lo = [0] * R
        hi = [0] * R
        rcv = 0
        for g in logs.values():
            for p, (k, r_, s_) in g["ports"].items():
                if (g["name"], p) in cross:
                    hi[rk(g["name"])] += s_
                    rcv += r_
        if any(x > y for x, y in zip(c, hi)) or sum(c) < rcv:
            o.fail(s, "sync-events", "%s: %s events exchanged by the ranks, %s sent to other ranks, %d received" % (form, c, hi, rcv))
            return False
    L = got.get("x", [])
    if any(x[:3] != L[0][:3] for x in L):
        o.fail(s, "sync-differ", "%s: sync profile tools of one run disagree: %s" % (form, L))
        return False
    return True


def load(d):
    r = {}
    for f in glob.glob(d + "/*"):
        r[os.path.basename(f)] = json.load(open(f))
    return r


def run_case(s):
    o = Out()
    o.n = 1
    R, T = s["shape"]
    d = sstrun.scratch("c30")
    try:
        open(d + "/m.py", "w").write(py(s))
        stop = "--stop-at=%dps" % s["stop"]

        def go(sub, args, R, T, model="m.py"):
            os.makedirs(d + "/" + sub, exist_ok=True)
            part = ["--partitioner=sst.self"] if R * T > 1 and model else []
            r = sstrun.sst(d, args + part + ([model] if model else []), R, T, timeout=100, extra_env={"VERIF_OUT": d + "/" + sub})
            try:
                return r, load(d + "/" + sub)
            except ValueError:
                return r, {}
        r0, base = go("a", [stop, "--timebase=1ps"], 1, 1)
        if r0.timeout or r0.rc != 0 or len(base) != len(s["els"]):
            o.fail(s, "plain", "plain serial run: exit code %s, %d of %d logs: %s" % (r0.rc, len(base), len(s["els"]), r0.out[-600:]))
            return o
        args = [stop, "--timebase=1ps"] + s["ob"]
        if not s["plain"]:
            args += ["--enable-profiling=" + spec(s), "--profiling-output=" + s["out"]]
        if s["ckpt"]:
            args.append("--checkpoint-sim-period=%dps" % s["ckpt"])
        r1, logs = go("b", args, R, T)
        for k in ("serial", "threads", "ranks")[(T > 1) + (R > 1) if R == 1 or T == 1 else 2:][:1]:
            o.cls(k)
        if r1.timeout or r1.rc != 0:
            o.fail(s, "observed-run", "%s: %s: %s" % (args, "no end" if r1.timeout else "exit code %s" % r1.rc, r1.out[-900:]))
            return o
        if not same(s, o, "observed", base, logs, args):
            return o
        e0, e1 = [re.findall(r"simulated time: (.*)", r.out) for r in (r0, r1)]
        if e0 != e1:
            o.fail(s, "end-time", "simulated time %s, %s when observed by %s" % (e0, e1, args))
            return o
        ev = sum(x[1] for g in logs.values() for x in g["ports"].values())
        tk = sum(sum(g["clocks"]) for g in logs.values())
        if not s["plain"]:
            want = expected(s, logs)
            names = {t["name"] for t in s["tools"]}
            forms = []
            od = d + "/od/" if any(x.startswith("--output-directory") for x in s["ob"]) else d + "/"
            for part in s["out"].split(","):
                if part == "stdout":
                    forms.append(("text", parse_text(r1.out, names)))
                    continue
                try:
                    txt = open(od + part).read()
                except OSError as x:
                    o.fail(s, "output-missing", "no profiling output: %s; there is %s" % (x, os.listdir(d)))
                    return o
                if part.endswith(".txt"):
                    forms.append(("text", parse_text(txt, names)))
                else:
                    try:
                        j = json.loads(txt, object_pairs_hook=Pairs)
                    except ValueError as x:
                        o.fail(s, "json-syntax", "%s: %s" % (x, txt[:900]))
                        return o
                    rec = {}
                    for k, v in j:
                        if k in names:
                            rec[k] = tree(k, v)
                    forms.append(("json", rec))
            for form, rec in forms:
                o.cls(form)
                if not compare(s, o, form, rec, want) or not check_sync(s, o, form, rec, logs):
                    return o
            for t in s["tools"]:
                o.cls("tool %s.%s" % (t["t"], t["ty"].split(".")[0]))
        if s["ckpt"]:
            cps = sorted(glob.glob(od_(s, d) + "/checkpoint/*/*.sstcpt"))
            if s["ckpt"] < s["stop"] - 30 and not cps and any(x > s["ckpt"] for x in [s["stop"]]) and ev + tk > 0 and any(g["clocks"] for g in logs.values()):
                pass
            if cps:
                os.rename(od_(s, d) + "/checkpoint", d + "/cp")
                f = cps[len(cps) // 2].replace(od_(s, d) + "/checkpoint", d + "/cp")
                r2, l2 = go("r", ["--load-checkpoint", f], R, T, None)
                if r2.timeout or r2.rc != 0:
                    o.fail(s, "restart-run", "restart of %s from %s: %s: %s" % (args, os.path.basename(f), "no end" if r2.timeout else "exit code %s" % r2.rc, r2.out[-900:]))
                    return o
                o.cls("restart")
                if not same(s, o, "restart", base, l2, args):
                    return o
        if ev >= 20 and tk >= 10:
            o.nontrivial.append(json.dumps(s, sort_keys=True)[:3000])
        o.sample = {"components": len(s["els"]), "shape": s["shape"], "profiling": spec(s)[:300], "options": s["ob"], "events": ev, "ticks": tk}
        return o
    finally:
        sstrun.rmtree(d)


def od_(s, d):
    return d + "/od" if any(x.startswith("--output-directory") for x in s["ob"]) else d


def same(s, o, what, base, logs, args):
    if sorted(base) != sorted(logs):
        o.fail(s, what + "-logs", "%s: logs of %s instead of %s" % (args, sorted(logs), sorted(base)))
        return False
    for k in sorted(base):
        if base[k] != logs[k]:
            o.fail(s, what + "-differs", "%s: log of %s %s instead of %s" % (args, base[k]["name"], {f: logs[k][f] for f in logs[k] if logs[k][f] != base[k][f]}, {f: base[k][f] for f in base[k] if logs[k].get(f) != base[k][f]}))
            return False
    return True


def shrink(s):
    def var(**k):
        c = copy.deepcopy(s)
        c.update(k)
        return c
    for k in range(len(s["ob"])):
        yield var(ob=s["ob"][:k] + s["ob"][k + 1:])
    for k in range(len(s["tools"])):
        if len(s["tools"]) > 1:
            yield var(tools=s["tools"][:k] + s["tools"][k + 1:])
    if s["ckpt"]:
        yield var(ckpt=0)
    if s["sp"]:
        yield var(sp=False)
    if s["out"] != "stdout":
        yield var(out="stdout")
    if s["shape"] != [1, 1]:
        c = var(shape=[1, 1])
        yield c
    names = {e["parent"][0] for e in s["els"] if e["parent"]}
    for e in s["els"]:
        if e["name"] in names or (e["kind"] != "A" and any(x["kind"] == "A" and x["name"] == e["name"] for x in s["els"])):
            continue
        if e["parent"] is None and sum(x["parent"] is None for x in s["els"]) == 1:
            continue
        if "[" in e["name"].split(":")[-1] or e["kind"] == "A":
            continue
        c = copy.deepcopy(s)
        c["els"] = [x for x in c["els"] if x["label"] != e["label"]]
        gone = [l for l in c["links"] if e["name"] in (l[0], l[2])]
        c["links"] = [l for l in c["links"] if l not in gone]
        for l in gone:
            for nm, p in ((l[0], l[1]), (l[2], l[3])):
                for x in c["els"]:
                    if x["name"] == nm:
                        x["ports"] = [q for q in x["ports"] if q[1:] != p or q[0] == "2"]
        yield c
    for k, e in enumerate(s["els"]):
        for j in range(len(e["clocks"])):
            c = copy.deepcopy(s)
            del c["els"][k]["clocks"][j]
            yield c
        for j, q in enumerate(e["ports"]):
            if q[0] == "2":
                c = copy.deepcopy(s)
                del c["els"][k]["ports"][j]
                yield c
    for k, l in enumerate(s["links"]):
        c = copy.deepcopy(s)
        del c["links"][k]
        for nm, p in ((l[0], l[1]), (l[2], l[3])):
            for x in c["els"]:
                if x["name"] == nm:
                    x["ports"] = [q for q in x["ports"] if q[1:] != p or q[0] == "2"]
        yield c
    if s["stop"] > 60:
        yield var(stop=60)
