"""C12: statistics.  Generated statistics (registration, sharing, enabling, rates, start/stop windows, groups, output modules) fed
with generated data; the rows written by the real output modules are compared with a reference model of the documented semantics."""
import csv, gzip, json, math, os, re
from vlib import build, check, sstrun

PID = "C12"
LIBS = ["vstat"]
RULE = "an evaluation is one simulation whose output rows are compared; it is non-trivial if the model expects at least 4 rows from at least 2 statistics and some statistic collected data"
N = {"quick": 1000, "thorough": 12000}
TIME = {"quick": 75, "thorough": 3000}
ASSUMPTIONS = ["values are small dyadic numbers so that every sum is exact in the statistic's type",
               "histogram inputs are integral (the bin grid of the implementation is inclusive: Bin:0-4)"]

ELI = {"C": {"s0": 1, "s1": 1, "s2": 2, "s3": 3, "s4": 5, "s5": 6, "x0": 1, "x1": 4}, "S": {"s0": 1, "s2": 3, "t0": 1, "t1": 4}}
CFG = build.VERIF + "/vlib/statcfg.py"
UNIT = {"ps": 10 ** 12, "ns": 10 ** 9, "us": 10 ** 6}


# ---------------------------------------------------------------- model
def ptime(s, unit):
    """time or frequency string -> cycles of the unit"""
    m = re.fullmatch(r"([\d.]+)\s*([a-zA-Z]+)", s)
    v, u = float(m.group(1)), m.group(2)
    if u.lower().endswith("hz"):
        f = v * {"hz": 1, "khz": 1e3, "mhz": 1e6, "ghz": 1e9}[u.lower()]
        return round(UNIT[unit] / f)
    return round(v * {"ps": 1e-12, "ns": 1e-9, "us": 1e-6, "ms": 1e-3}[u] * UNIT[unit])


class Stat:
    def __init__(self, eng, comp, name, sub, typ, params, unit):
        self.eng, self.comp, self.name, self.sub, self.typ = eng, comp, name, sub, typ
        cls = params.get("type", "sst.AccumulatorStatistic").split(".")[1]
        self.cls = {"AccumulatorStatistic": "Accumulator", "HistogramStatistic": "Histogram", "UniqueCountStatistic": "UniqueCount"}[cls]
        self.clear_out = params.get("resetOnOutput", "false") in (True, "true", "True", "1", 1)
        self.at_end = True
        self.minv, self.width, self.nbins = [float(params.get(k, d)) for k, d in (("minvalue", 0), ("binwidth", 5000), ("numbins", 100))]
        tf = lambda k: str(params.get(k, "true")).lower() in ("true", "1")
        self.dump, self.oob = tf("dumpbinsonoutput"), tf("includeoutofbounds")
        rate = str(params.get("rate", "0ns"))
        self.periodic = "event" not in rate
        self.limit = self.rate = 0
        self.reset_count = False
        if self.periodic:
            self.rate = 0 if rate == "0ns" else ptime(rate, unit)
        else:
            self.limit = int(re.match(r"\d+", rate).group())
            self.reset_count = True
        self.enabled = True
        self.count = self.ocount = 0
        self.start = self.stop = 0
        if params.get("startat", "0ns") != "0ns":
            self.start = ptime(params["startat"], unit)
            self.enabled = False
        if params.get("stopat", "0ns") != "0ns":
            self.stop = ptime(params["stopat"], unit)
        self.group = None
        self.clear0()

    def clear0(self):
        self.sum = self.sq = 0
        self.lo, self.hi = None, None
        self.bins, self.under, self.over, self.binned = {}, 0, 0, 0
        self.set = set()

    def clear(self):
        self.clear0()
        if self.cls != "UniqueCount":
            self.count = self.ocount = 0
            self.check()

    def add(self, n, v):
        if not self.enabled:
            return
        if self.cls == "Histogram":
            if v < self.minv:
                self.under += n
            elif v > self.minv + self.width * self.nbins - 1:
                self.over += n
            else:
                self.sum += n * v
                self.sq += n * v * v
                self.binned += n
                b = int((v - self.minv) // self.width)
                self.bins[b] = self.bins.get(b, 0) + n
        else:
            self.sum += n * v
            self.sq += n * v * v
            self.lo = v if self.lo is None else min(v, self.lo)
            self.hi = v if self.hi is None else max(v, self.hi)
            self.set.add(v)
        self.count += n
        self.ocount += n
        self.check()

    def check(self):
        if not self.periodic and self.limit >= 1 and self.ocount >= self.limit:
            self.eng.output(self)

    def fields(self):
        t = {"i": "i32", "I": "u32", "l": "i64", "L": "u64", "f": "f32", "d": "f64"}[self.typ]
        if self.cls == "UniqueCount":
            return [("UniqueItems.u64", len(self.set))]
        if self.cls == "Accumulator":
            z = self.count == 0
            return [("Sum." + t, self.sum), ("SumSQ." + t, self.sq), ("Count.u64", self.count), ("Min." + t, 0 if z else self.lo), ("Max." + t, 0 if z else self.hi)]
        r = [("BinsMinValue." + t, self.minv), ("BinsMaxValue." + t, self.minv + self.width * self.nbins - 1), ("BinWidth.u32", self.width), ("TotalNumBins.u32", self.nbins),
             ("Sum." + t, self.sum), ("SumSQ." + t, self.sq), ("NumActiveBins.u32", len(self.bins)), ("NumItemsCollected.u64", self.count), ("NumItemsBinned.u64", self.binned)]
        if self.oob:
            r += [("NumOutOfBounds-MinValue.u64", self.under), ("NumOutOfBounds-MaxValue.u64", self.over)]
        if self.dump:
            for b in range(int(self.nbins)):
                lo = self.minv + b * self.width
                r.append(("Bin%d:%d-%d.u64" % (b, lo, lo + self.width - 1), self.bins.get(b, 0)))
        return r


class Group:
    def __init__(self, st):
        self.name, freq, self.out, self.params, self.comps = st[1], st[2], st[3], dict(st[4]), st[5]
        # the group's frequency defaults to the first rate among its statistics
        self.freq = freq or next((p["rate"] for _, p in st[4] if p.get("rate", "0ns") != "0ns"), None)


class Engine:
    """one per partition (rank, thread)"""

    def __init__(self, part, groups, rows):
        self.part, self.started, self.now, self.rows = part, False, 0, rows
        self.stats, self.groups = [], {g.name: (g, []) for g in groups}
        self.group_list = groups

    def register(self, st):
        for g in self.group_list:
            if st.name in g.params and st.comp in g.comps:
                st.group = g.name
                self.groups[g.name][1].append(st)
                return
        self.stats.append(st)

    def row(self, st, outname):
        self.rows.setdefault((outname, self.part[0]), []).append((self.now, st.comp, st.name, st.sub, st.cls, tuple(st.fields())))

    def after(self, st):
        if st.reset_count:
            st.ocount = 0
        if st.clear_out:
            st.clear()

    def output(self, st):
        if not self.started:
            return
        if st.group:
            self.output_group(st.group)
        else:
            self.row(st, None)
            self.after(st)

    def output_group(self, name):
        if not self.started:
            return
        g, l = self.groups[name]
        for st in l:
            self.row(st, name if g.out else None)
            self.after(st)

    def global_output(self):
        for st in self.stats:
            self.output(st)
        for g in self.group_list:
            self.output_group(g.name)

    def final(self):
        for st in self.stats:
            if st.at_end:
                self.row(st, None)
        for g in self.group_list:
            for st in self.groups[g.name][1]:
                self.row(st, g.name if g.out else None)


class Elem:
    def __init__(self, name, kind, parent, share, d):
        self.name, self.kind, self.parent, self.share, self.d = name, kind, parent, share, d
        self.level, self.all, self.all_params, self.explicit = None, False, {}, {}
        self.top = parent or self
        self.subs = []
        self.shown = name if not parent or len(parent.d["subs"]) > 1 else name[:-3]   # a lone sub-component has no index


def elements(case):
    E, order = {}, []
    for c in case["comps"]:
        e = Elem(c["name"], "C", None, 0, c)
        E[e.name] = e
        order.append(e)
        for i, s in enumerate(c["subs"]):
            x = Elem("%s:sub[%d]" % (c["name"], i), "S", e, c["share"], s)
            E[x.name] = x
            e.subs.append(x)
    return E, order


def ins(a, b):
    for k, v in b.items():
        a.setdefault(k, v)


def configure(case):
    E, order = elements(case)
    load = 0
    groups = []
    shared = {}
    nid = [0]

    def typed(t):
        return [x for x in E.values() if t == "sst.any" or "vstat." + x.kind == t]

    def en(e, name, p):
        if name not in e.explicit:
            nid[0] += 1
            e.explicit[name] = [nid[0], {}, None]
        ins(e.explicit[name][1], p)

    def alle(e, p):
        e.all = True
        ins(e.all_params, p)

    def rec(e, r):
        return [e] + (e.subs if r else [])
    for s in case["cfg"]:
        k = s[0]
        if k == "load":
            load = s[1]
        elif k in ("loadC", "loadN"):
            for e in rec(E[s[1]], s[3]):
                e.level = s[2]
        elif k == "loadT":
            for t in typed(s[1]):
                for e in rec(t, s[3]):
                    e.level = s[2]
        elif k == "allAll":
            for e in E.values():
                alle(e, s[1])
        elif k in ("allC", "allN"):
            for e in rec(E[s[1]], s[3]):
                alle(e, s[2])
        elif k == "allT":
            for t in typed(s[1]):
                for e in rec(t, s[3]):
                    alle(e, s[2])
        elif k in ("statC", "statN"):
            for n in s[2]:
                for e in rec(E[s[1]], s[4]):
                    en(e, n, s[3])
        elif k == "stat1":
            en(E[s[1]], s[2], s[3])
        elif k == "statT":
            for t in typed(s[1]):
                for n in s[2]:
                    for e in rec(t, s[4]):
                        en(e, n, s[3])
        elif k == "mk":
            nid[0] += 1
            shared[s[2]] = [nid[0], dict(s[3]), s[2]]
        elif k == "set":
            E[s[1]].explicit[s[2]] = shared[s[3]]
        elif k == "group":
            groups.append(Group(s))
    for g in groups:
        for n in g.comps:
            for st, p in g.params.items():
                en(E[n], st, p)
    for e in E.values():
        e.lv = (load if e.level is None else e.level) if e.all else 0
    return E, order, groups


def resolve(e, name, level, path=0):
    """-> ("x", top, id entry, name) | ("a", elem) | None ; raises if not a valid statistic"""
    if level is None:
        level = ELI[e.kind].get(name)
    if level is None:
        if e.parent and e.share == 2:
            return resolve(e.parent, name, None)
        raise KeyError(name)
    if name in e.explicit:
        return ("x", e.top, e.explicit[name])
    if e.all:
        return ("a", e) if level <= e.lv else None
    if e.parent and e.share == 1:
        return resolve(e.parent, name, level)
    return None


def regs(case):
    """resolve every registration: returns per element list of (key or None, info)"""
    E, order, groups = configure(case)
    out = {}
    for e in E.values():
        l = []
        for r in e.d["regs"]:
            d = r.split(":")
            name, sub, typ = d[0], d[1], d[2]
            p = dict(kv.split("=") for kv in d[3].split(";")) if len(d) > 3 else {}
            x = resolve(e, name, None)
            if x is None:
                l.append((None, None))
            elif x[0] == "x":
                ent = x[2]
                key = ("s", ent[0]) if ent[2] else ("x", ent[0], name, sub)
                q = dict(p)
                ins(q, ent[1])
                l.append(((x[1].name,) + key, (x[1].name, ent[2] or name, "" if ent[2] else sub, typ, q)))
            else:
                q = dict(p)
                ins(q, x[1].all_params)
                l.append(((x[1].name, "a", name, sub), (x[1].shown, name, sub, typ, q)))
        out[e.name] = l
    return E, order, groups, out


def build_order(case):
    """registration order: component constructor order; sub-components before or after their parent's own registrations"""
    for c in case["comps"]:
        subs = ["%s:sub[%d]" % (c["name"], i) for i in range(len(c["subs"]))]
        yield from (subs + [c["name"]] if c.get("early") else [c["name"]] + subs)


def predict(case):
    E, order, groups, R = regs(case)
    unit = case["u"]
    rows, acc = {}, []
    engines = {}
    for c in case["comps"]:
        engines.setdefault(tuple(c["rank"]), Engine(tuple(c["rank"]), groups, rows))
    handles, made = {}, {}
    for n in build_order(case):
        eng = engines[tuple(E[n].top.d["rank"])]
        handles[n] = []
        for key, info in R[n]:
            if key is None:
                handles[n].append(None)
                continue
            if key not in made:
                made[key] = Stat(eng, *info, unit)
                eng.register(made[key])
            handles[n].append(made[key])
    end = case["end"]
    todo = []   # (time, phase, ...) phase 0 = events, 1 = statistics clock priority

    for c in case["comps"]:
        subs = ["%s:sub[%d]" % (c["name"], i) for i in range(len(c["subs"]))]
        for n in subs + [c["name"]]:
            for o in E[n].d["ops"]:
                f = o.split(":")
                t = int(f[0])
                if t == 0:
                    todo.append((0, 0, len(todo), n, f))
                elif t < end:
                    todo.append((t, 0, len(todo), n, f))
    for st in made.values():
        for k, t in (("start", st.start), ("stop", st.stop)):
            if 0 < t < end:
                todo.append((t, 2, len(todo), k, st))
    for eng in engines.values():
        for rate in sorted({s.rate for s in eng.stats if s.rate}):
            for t in range(rate, end, rate):
                todo.append((t, 1, len(todo), "rate", (eng, rate)))
        for g in groups:
            if g.freq:
                f = ptime(g.freq, unit)
                for t in range(f, end, f):
                    todo.append((t, 1, len(todo), "group", (eng, g.name)))
    todo.sort(key=lambda x: x[:3])
    started = False
    for t, ph, _, a, b in todo:
        if t > 0 and not started:
            started = True
            for e in engines.values():
                e.started = True
        for e in engines.values():
            e.now = t
        if ph == 2:
            b.enabled = a == "start"
        elif a == "rate" and ph == 1:
            for s in list(b[0].stats):
                if s.rate == b[1]:
                    b[0].output(s)
        elif a == "group" and ph == 1:
            b[0].output_group(b[1])
        else:
            run_op(E, handles, engines, a, b, acc)
    for e in engines.values():
        e.started = True
        e.now = end
        e.final()
    return rows, acc


def val(st, s):
    v = float(s)
    return v if st.typ in "fd" else int(v)


def run_op(E, handles, engines, n, f, acc):
    t, r, k, v, cnt = int(f[0]), int(f[1]), f[2], f[3], int(f[4])
    eng = engines[tuple(E[n].top.d["rank"])]
    if k == "G":
        eng.global_output()
        return
    if k == "X":
        return
    st = handles[n][r]
    if st is None:
        return
    if k == "a":
        st.add(1, val(st, v))
    elif k == "n":
        st.add(cnt, val(st, v))
    elif k == "o":
        eng.output(st)
    elif k == "c":
        st.clear()
    elif k == "E":
        st.enabled = True
    elif k == "D":
        st.enabled = False
    elif k == "r":
        st.clear_out = bool(cnt)
    elif k == "e":
        st.at_end = bool(cnt)
    elif k == "q" and st.cls == "Accumulator" and st.typ == "d":
        c, s, q = st.count, float(st.sum), float(st.sq)
        mean = s / c if c else 0.0
        var = (q * c - s * s) / (float(c) * c) if c else 0.0
        acc.append((st.comp + "." + st.name + ("." + st.sub if st.sub else ""), t, c, mean, var, math.sqrt(max(var, 0))))


# ---------------------------------------------------------------- reading the real output
def outputs(case):
    """name -> (type, params)"""
    r = {None: ("sst.statoutputcsv", {"filepath": "def.csv"})}
    for s in case["cfg"]:
        if s[0] == "out":
            r[None] = (s[1], s[2])
        if s[0] == "group" and s[3]:
            r[s[1]] = (s[3][0], s[3][1])
    return r


def flag(typ, par, k):
    d = "false" if typ.endswith("console") and k in ("outputsimtime", "outputrank") else "true"
    return str(par.get(k, d)).lower() in ("true", "1")


def num(s):
    return float(s)


def read_rows(d, name, typ, par, rank, ranks, stdout):
    """-> list of (time or None, comp, stat, sub, cls, fields) ; fields: list of (name, value) or list of values"""
    short = typ.split(".")[1].lower()
    tf = lambda k: flag(typ, par, k)
    if short == "statoutputconsole":
        text = stdout
    else:
        fn = par["filepath"]
        if ranks > 1:
            b, e = os.path.splitext(fn)
            fn = "%s_%d%s" % (b, rank, e)
        fn = os.path.join(d, fn)
        if not os.path.exists(fn):
            return "no file %s" % os.path.basename(fn)
        raw = open(fn, "rb").read()
        text = (gzip.decompress(raw) if raw[:2] == b"\x1f\x8b" else raw).decode()
    rows = []
    if "csv" in short:
        sep = par.get("separator", ", ")
        head = None
        lines = text.split("\n")
        if lines[-1] != "":
            return "last line is not terminated: %r" % lines[-1]
        for l in lines[:-1]:
            c = l.split(sep)
            if head is None and tf("outputtopheader"):
                head = c
                exp = ["ComponentName", "StatisticName", "StatisticSubId", "StatisticType"] + ["SimTime"] * tf("outputsimtime") + ["Rank"] * tf("outputrank")
                if c[:len(exp)] != exp or len(set(c)) != len(c):
                    return "bad header %r" % l
                continue
            if head and len(c) != len(head) and not (len(head) > len(c) and head[-1] == ""):
                return "row has %d columns, header %d: %r" % (len(c), len(head), l)
            k = 4
            t = None
            if tf("outputsimtime"):
                t = int(c[k])
                k += 1
            if tf("outputrank"):
                if int(c[k]) != rank:
                    return "rank column %s in the file of rank %d" % (c[k], rank)
                k += 1
            f = {a: num(b) for a, b in zip(head[k:], c[k:]) if a} if head else [num(b) for b in c[k:] if b]
            rows.append((t, c[0], c[1], c[2], c[3], f))
        return rows
    if "json" in short:
        try:
            j = json.loads(text)
        except ValueError as e:
            return "invalid JSON: %s" % e
        if ranks > 1 and j.get("rank") != rank:
            return "rank %r in the file of rank %d" % (j.get("rank"), rank)
        for c in j["components"]:
            for s in c["statistics"]:
                rows.append((c.get("simtime"), c["name"], s["stat"], None, None, [float(x) for x in s["values"]]))
        return rows
    # text / console
    inl = tf("outputinlineheader")
    for l in text.split("\n"):
        l = l.strip()
        m = re.fullmatch(r"(\S+) : (Accumulator|Histogram|UniqueCount) : (.*)", l)
        if not m:
            continue
        parts = [x.strip() for x in m.group(3).split(";") if x.strip()]
        t = None
        vals = []
        i = 0
        if tf("outputsimtime"):
            t = int(parts[0].split("=")[1]) if inl else int(parts[0])
            i += 1
        if tf("outputrank"):
            if int(parts[i].split("=")[1] if inl else parts[i]) != rank:
                return "rank column in %r in the file of rank %d" % (l, rank)
            i += 1
        if inl:
            f = {}
            for x in parts[i:]:
                a, b = x.split(" = ")
                f[a] = num(b)
        else:
            f = [num(x) for x in parts[i:]]
        rows.append((t, m.group(1), None, None, m.group(2), f))
    return rows


def norm_model(row, real_kind, tcol):
    t, comp, name, sub, cls, f = row
    full = comp + "." + name + ("." + sub if sub else "")
    vals = {k: float(v) for k, v in f}
    if real_kind == "csv":
        return (t if tcol else None, comp, name, sub, cls, vals)
    if real_kind == "json":
        return (t if tcol else None, comp, name, None, None, [float(v) for _, v in f])
    return (t if tcol else None, full, None, None, cls, vals)


def canon(row, names):
    """comparable form: drop zero columns (CSV prints 0 in the columns of other statistics)"""
    f = row[5]
    if isinstance(f, dict):
        f = tuple(sorted((k, round(v, 6)) for k, v in f.items() if v != 0))
    else:
        f = tuple(round(v, 6) for v in f)
        if names == "nz":
            f = tuple(sorted(v for v in f if v != 0))
    return row[:5] + (f,)


def compare(case, d, rows, stdout, from_t=None):
    ranks = case["ranks"]
    outs = outputs(case)
    for name, (typ, par) in outs.items():
        for rank in range(ranks):
            exp = rows.get((name, rank), [])
            exp = [r for r in exp if from_t is None or r[0] >= from_t]
            try:
                real = read_rows(d, name, typ, par, rank, ranks, stdout)
            except (ValueError, IndexError, KeyError) as e:
                real = "unparsable: %r" % e
            if isinstance(real, str):
                return "output-file", "%s %s: %s" % (name, typ, real)
            short = typ.split(".")[1].lower()
            kind = "csv" if "csv" in short else "json" if "json" in short else "txt"
            tcol = flag(typ, par, "outputsimtime")
            nz = ""
            m = [norm_model(r, kind, tcol) for r in exp]
            if (kind == "csv" and str(par.get("outputtopheader", "true")).lower() not in ("true", "1")) or \
               (kind == "txt" and str(par.get("outputinlineheader", "true")).lower() not in ("true", "1")):
                nz = "nz"
                m = [r[:5] + (list(r[5].values()),) for r in m]
            a = sorted(canon(r, nz) for r in m) if tcol else sorted((canon(r, nz)[1:] for r in m), key=repr)
            b = sorted((canon(r, nz) for r in real), key=repr) if not tcol else sorted(canon(r, nz) for r in real) if all(r[0] is not None for r in real) else []
            if not tcol:
                b = sorted((canon(r, nz)[1:] for r in real), key=repr)
            if sorted(map(repr, a)) != sorted(map(repr, b)):
                ra, rb = sorted(map(repr, a)), sorted(map(repr, b))
                miss = list(ra)
                extra = []
                for x in rb:
                    if x in miss:
                        miss.remove(x)
                    else:
                        extra.append(x)
                return "rows", "output %s of %s rank %d: %d rows expected, %d written; missing %s; unexpected %s" % (
                    name or "default", typ, rank, len(a), len(b), miss[:4], extra[:4])
            if case["threads"] == 1 and tcol and kind != "json":
                last = -1
                for r in real:
                    if r[0] < last:
                        return "order", "row of time %d after a row of time %d" % (r[0], last)
                    last = r[0]
    return None


def clean_old(d):
    for x in [d + "/" + x for x in os.listdir(d)] + [d + "/o.d/" + x for x in os.listdir(d + "/o.d")]:
        if os.path.isfile(x) and not x.endswith("/case.json"):
            os.unlink(x)


def run_case(case):
    o = check.Out()
    rows, acc = predict(case)
    d = sstrun.scratch("c12")
    try:
        opts = {"timebase": "1" + case["u"]}
        opts["partitioner"] = "sst.self" if case["ranks"] * case["threads"] > 1 else "sst.single"
        # a parallel run without primary components ends at its first synchronization (see C02's findings)
        comps = [dict(c, primary=1) for c in case["comps"]]
        if case.get("stop", True):
            opts["stop-at"] = "%d%s" % (case["end"], case["u"])
        args = []
        if case.get("ck"):
            args.append("--checkpoint-sim-period=%d%s" % (case["ck"], case["u"]))
        os.mkdir(d + "/o.d")
        f = d + "/case.json"
        cfg = case["cfg"]
        json.dump({"opts": opts, "comps": comps, "cfg": cfg if any(s[0] == "out" for s in cfg) else [["out", "sst.statoutputcsv", {"filepath": "def.csv"}]] + cfg}, open(f, "w"))
        r = sstrun.sst(d, args + [CFG, "--model-options=" + f], case["ranks"], case["threads"], timeout=60)
        o.n = 1
        nrows = sum(len(x) for x in rows.values())
        if nrows >= 4 and len({x[1:4] for l in rows.values() for x in l}) >= 2 and any(any(k.startswith(("Sum", "Uni", "Num")) and v for k, v in x[5]) for l in rows.values() for x in l):
            o.nontrivial.append(check.h(case))
        for s in case["cfg"]:
            o.cls(s[0])
        o.cls("rows", nrows)
        if case["ranks"] * case["threads"] > 1:
            o.cls("parallel")
        if r.timeout or r.rc != 0:
            o.fail(case, "run", "%s: rc %s %s" % (r.cmd, r.rc, r.out[-800:]))
            return o
        x = compare(case, d, rows, r.out)
        if x:
            o.fail(case, x[0], x[1])
            return o
        if acc and case["ranks"] * case["threads"] == 1:
            got = []
            for l in r.out.splitlines():
                if l.startswith("ACC "):
                    p = l.split()
                    got.append((p[1], int(p[2]), int(p[3])) + tuple(float.fromhex(y) for y in p[4:7]))
            same = len(got) == len(acc) and all(a[:3] == b[:3] and all(abs(p - q) <= 1e-9 * max(1, abs(p), abs(q)) for p, q in zip(a[3:], b[3:])) for a, b in zip(sorted(got), sorted(acc)))
            o.cls("accessors", len(acc))
            if not same:
                o.fail(case, "accessors", "expected (name, time, count, mean, variance, sd) %s, got %s" % (sorted(acc)[:6], sorted(got)[:6]))
                return o
        if case.get("ck"):
            cks = []
            base = None
            for root, ds, fs in os.walk(d):
                for x in fs:
                    m = re.fullmatch(r"checkpoint_(\d+)_(\d+)\.sstcpt", x)
                    if m:
                        cks.append((int(m.group(2)), os.path.join(root, x)))
            exp = list(range(case["ck"], case["end"], case["ck"]))
            cks.sort()
            if cks:
                t, p = cks[len(cks) // 2]
                clean_old(d)
                r = sstrun.sst(d, ["--load-checkpoint", p], case["ranks"], case["threads"], timeout=60)
                o.n += 1
                o.cls("restart")
                if r.timeout or r.rc != 0:
                    o.fail(case, "restart-run", "%s: rc %s %s" % (r.cmd, r.rc, r.out[-800:]))
                    return o
                x = compare(case, d, rows, r.out, t)
                if x:
                    o.fail(case, "restart-" + x[0], "restart at %d: %s" % (t, x[1]))
        if o.nontrivial:
            o.sample = {"comps": len(case["comps"]), "cfg": [s[:3] for s in case["cfg"]][:6], "rows": nrows}
    finally:
        sstrun.rmtree(d)
    return o


# ---------------------------------------------------------------- generator
def tstr(rng, n, u):
    if u == "ps" and n in (10, 20, 25, 40, 50, 100, 200, 250, 500) and rng.random() < 0.4:
        return "%dGHz" % (1000 // n) if 1000 % n == 0 else "%dps" % n
    if u == "ns" and n in (10, 20, 25, 40, 50, 100, 200) and rng.random() < 0.4:
        return "%dMHz" % (1000 // n)
    if rng.random() < 0.2:
        return {"ps": "%gns", "ns": "%gus", "us": "%gms"}[u] % (n / 1000)
    return "%d%s" % (n, u)


def gparams(rng, u, end, ev=True, typ=True):
    p = {}
    x = rng.random()
    if x < 0.45:
        p["rate"] = tstr(rng, rng.choice([10, 20, 25, 40, 50, 7, 13, 100, 33]), u)
    elif x < 0.7 and ev:
        p["rate"] = "%d event%s" % (rng.choice([1, 2, 3, 4, 5, 8]), rng.choice(["", "s"]))
    if rng.random() < 0.25:
        p["startat"] = tstr(rng, rng.randrange(1, end + 10), u)
    if rng.random() < 0.25:
        p["stopat"] = tstr(rng, rng.randrange(1, end + 10), u)
    if rng.random() < 0.3:
        p["resetOnOutput"] = rng.choice(["true", "false", "1"])
    if typ:
        x = rng.random()
        if x < 0.35:
            p["type"] = "sst.HistogramStatistic"
            p["minvalue"] = str(rng.choice([0, 0, 1, 3, 5, 7, 10]))
            p["binwidth"] = str(rng.choice([1, 2, 3, 5, 10, 100]))
            p["numbins"] = str(rng.choice([1, 2, 3, 5, 10]))
            if rng.random() < 0.2:
                p["dumpbinsonoutput"] = "false"
            if rng.random() < 0.2:
                p["includeoutofbounds"] = "false"
        elif x < 0.5:
            p["type"] = "sst.UniqueCountStatistic"
        elif x < 0.6:
            p["type"] = "sst.AccumulatorStatistic"
    return p


def gout(rng, name, group=False):
    k = rng.choice(["csv"] * 5 + ["csvgz", "txt", "txtgz", "console", "json"])
    if group and k == "console":
        k = "csv"
    p = {}
    ext = {"csv": ".csv", "csvgz": ".csv.gz", "txt": ".txt", "txtgz": ".txt.gz", "json": ".json2", "console": ""}[k]
    typ = {"csv": "sst.statoutputcsv", "csvgz": "sst.statoutputcsv", "txt": "sst.statoutputtxt", "txtgz": "sst.statoutputtxt", "json": "sst.statoutputjson", "console": "sst.statoutputconsole"}[k]
    if k != "console":
        p["filepath"] = rng.choice([""] * 7 + ["./", "o.d/", "./o.d/"]) + name + rng.choice([ext.replace(".gz", "")] * 5 + ["", ".x.y"])
    if k.endswith("gz"):
        p["compressed"] = "1"
    if k.startswith("csv") and rng.random() < 0.3:
        p["separator"] = rng.choice([";", "|", "\t", " , "])
    if rng.random() < 0.2:
        p["outputsimtime"] = rng.choice(["0", "1"])
    if rng.random() < 0.2:
        p["outputrank"] = rng.choice(["0", "1"])
    if rng.random() < 0.15 and k != "json":
        p["outputtopheader"] = rng.choice(["0", "1"])
    if rng.random() < 0.15 and k[:3] in ("txt", "con"):
        p["outputinlineheader"] = rng.choice(["0", "1"])
    return [typ, p]


def gvalue(rng, typ):
    if typ in "IL":
        return str(rng.choice([0, 1, rng.randrange(0, 60), rng.randrange(0, 1000)]))
    if typ in "il":
        return str(rng.choice([0, 1, -1, rng.randrange(-60, 60), rng.randrange(-1000, 1000)]))
    if typ == "f":
        return str(rng.randrange(-64, 64) / 4)
    return str(rng.choice([rng.randrange(-400, 400) / 4, -abs(rng.randrange(1, 40)) / 2]))


def gen(rng, i, tier):
    while True:
        case = gen1(rng)
        if valid(case):
            return case


def gen1(rng):
    u = rng.choice(["ps", "ps", "ns", "us"])
    end = rng.choice([60, 100, 101, 150, 200, 240])
    par = rng.random()
    ranks, threads = (1, 1) if par < 0.7 else (1, 2) if par < 0.85 else (2, 1) if par < 0.95 else (2, 2)
    nc = rng.randrange(1, 4) if ranks * threads == 1 else rng.randrange(ranks * threads, ranks * threads + 3)
    comps = []
    bias = rng.random()   # sign bias so that all-negative data occurs
    for k in range(nc):
        c = {"name": "c%d" % k, "share": rng.choice([0, 1, 1, 2, 3]) % 3, "early": int(rng.random() < 0.3), "rank": [0, 0], "subs": []}
        if k < ranks * threads:
            c["rank"] = [k % ranks, k // ranks]
        else:
            c["rank"] = [rng.randrange(ranks), rng.randrange(threads)]
        for kind in ["C"] + ["S"] * rng.choice([0, 0, 1, 2]):
            e = c if kind == "C" else {}
            pool = list(ELI[kind]) + (["s1", "x0"] if kind == "S" and c["share"] == 2 else [])
            rs = []
            for _ in range(rng.randrange(1, 5) if kind == "C" else rng.randrange(1, 3)):
                name = rng.choice(pool[:4] if rng.random() < 0.6 else pool)
                r = "%s:%s:%s" % (name, rng.choice(["", "", "", "q", "q2"]), rng.choice("iIlLfd"))
                if rng.random() < 0.1:
                    r += ":resetOnOutput=true"
                rs.append(r)
            e["regs"] = rs
            e["ops"] = []
            if kind == "S":
                c["subs"].append(e)
        comps.append(c)
    cfg = []
    if rng.random() < 0.9:
        cfg.append(["load", rng.choice([1, 2, 3, 4, 5, 6, 7, 7])])
    E = []
    for c in comps:
        E.append((c["name"], "C"))
        E += [("%s:sub[%d]" % (c["name"], j), "S") for j in range(len(c["subs"]))]
    tops = [e for e in E if e[1] == "C"]
    if rng.random() < 0.3:
        cfg.append(["loadC", rng.choice(E)[0], rng.randrange(0, 7), rng.randrange(2)])
    if rng.random() < 0.15:
        cfg.append(["loadN", rng.choice(tops)[0], rng.randrange(0, 7), rng.randrange(2)])
    if rng.random() < 0.15:
        cfg.append(["loadT", rng.choice(["vstat.C", "vstat.S"]), rng.randrange(0, 7), rng.randrange(2)])
    used = set()
    x = rng.random()
    if x < 0.3:
        cfg.append(["allAll", gparams(rng, u, end, typ=rng.random() < 0.3)])
    if x > 0.2:
        for _ in range(rng.randrange(0, 3)):
            k = rng.choice(["allC", "allN", "allT"])
            cfg.append([k, rng.choice(E if k == "allC" else tops)[0] if k != "allT" else rng.choice(["vstat.C", "vstat.S"]), gparams(rng, u, end, typ=rng.random() < 0.3), rng.randrange(2)])
    for _ in range(rng.randrange(0, 4)):
        n, kind = rng.choice(E)
        names = rng.sample(sorted(ELI[kind]), rng.randrange(1, 3))
        p = gparams(rng, u, end)
        k = rng.choice(["stat1", "stat1", "statC", "statN", "statT"])
        if k == "stat1":
            cfg.append(["stat1", n, names[0], p])
        elif k == "statC":
            cfg.append(["statC", n, names, p, 0])
        elif k == "statN" and kind == "C":
            cfg.append(["statN", n, names, p, 0])
        elif k == "statT":
            cfg.append(["statT", "vstat." + kind, names, p, 0])
    if rng.random() < 0.25:
        c = rng.choice(comps)
        nm = "sh%d" % rng.randrange(3)
        cfg.append(["mk", c["name"], nm, gparams(rng, u, end)])
        tgt = [(c["name"], "C")] + [("%s:sub[%d]" % (c["name"], j), "S") for j in range(len(c["subs"]))]
        for _ in range(rng.randrange(1, 4)):
            n, kind = rng.choice(tgt)
            cfg.append(["set", n, rng.choice(sorted(ELI[kind])), nm])
    if rng.random() < 0.6:
        cfg.append(["out"] + gout(rng, "def"))
    for g in range(rng.choice([0, 0, 0, 1, 1, 2])):
        cfg.append(["group", "g%d" % g, tstr(rng, rng.choice([10, 20, 30, 35, 50]), u) if rng.random() < 0.7 else None, gout(rng, "g%d" % g, True) if rng.random() < 0.7 else None,
                    [[s, gparams(rng, u, end, ev=False)] for s in rng.sample(["s0", "s1", "s2", "x0"], rng.randrange(1, 3))], sorted(rng.sample([t[0] for t in tops], rng.randrange(1, len(tops) + 1))), rng.randrange(2)])
    case = {"u": u, "end": end, "ranks": ranks, "threads": threads, "comps": comps, "cfg": cfg}
    if rng.random() < 0.25:
        case["ck"] = rng.choice([17, 20, 30, 45])
    # data
    times = list(range(1, end - 1))
    rng.shuffle(times)
    dens = rng.choice([4, 10, 25])
    for c in comps:
        for kind, e in [("C", c)] + [("S", s) for s in c["subs"]]:
            ops = []
            ne = 0
            for _ in range(rng.randrange(1, dens)):
                if not times:
                    break
                t = 0 if rng.random() < 0.05 else times.pop()
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    r = rng.randrange(len(e["regs"]))
                    typ = e["regs"][r].split(":")[2]
                    k = rng.choice("aaaaaaaaaannnnnocEDreqG" if rng.random() < 0.7 else "an")
                    ops.append([t, r, k, gvalue(rng, typ) if rng.random() < 0.8 or typ in "IL" else str(-abs(float(gvalue(rng, typ)))).replace(".0", ""), rng.choice([1, 2, 3, 5]) if k == "n" else rng.randrange(2)])
            ops.sort(key=lambda q: q[0])
            e["ops"] = ["%d:%d:%s:%s:%d" % tuple(q) for q in ops]
    return case


def valid(case):
    """drop what is outside the specified domain; returns False if the case cannot be repaired"""
    try:
        E, order, groups, R = regs(case)
    except KeyError:
        return False
    # a name enabled twice in a sub-component, or both shared and explicit: parameter merging is not specified
    cnt = {}
    for s in case["cfg"]:
        if s[0] in ("stat1", "statC", "statN", "statT", "set"):
            if s[0] == "stat1" or s[0] == "set":
                l = [(s[1], s[2])]
            elif s[0] == "statT":
                l = [(e.name, n) for e in E.values() if "vstat." + e.kind == s[1] for n in s[2]]
            else:
                l = [(s[1], n) for n in s[2]]
            for x in l:
                cnt[x] = cnt.get(x, 0) + 1
    if any(v > 1 for v in cnt.values()):
        return False
    # an explicit or group enabled name on a component of its type only
    gn = [(n, st) for g in groups for n in g.comps for st in g.params]
    if len(set(gn)) != len(gn) or any(x in cnt for x in gn):
        return False
    for e in E.values():
        for n in e.explicit:
            if n not in ELI[e.kind]:
                return False
    # one object per key: same data type, same parameters at every registration (the first wins)
    types = {}
    unit = case["u"]
    hist = {}
    for n in R:
        for j, (key, info) in enumerate(R[n]):
            if key is None:
                continue
            if types.setdefault(key, info[3]) != info[3]:
                return False
            p = info[4]
            grouped = any(info[1] in g.params and info[0] in g.comps for g in groups)
            if grouped and "event" in str(p.get("rate", "")):
                return False
            hist[(n, j)] = (p.get("type", ""), info[3])
    outs = outputs(case)
    js = [k for k, v in outs.items() if "json" in v[0]]
    if any(outs.get(g.name if g.out else None, outs[None])[0].endswith("json") for g in groups):
        return False   # JSON does not accept groups
    if js:
        # the JSON writer groups by component and prints the time once per component: only end-of-run output is in its domain
        if case.get("ck") or case["threads"] > 1:
            return False
        for n in R:
            for key, info in R[n]:
                if key and info[4].get("rate", "0ns") != "0ns":
                    return False
        if any(g.freq for g in groups):
            return False
    for n, e in E.items():
        ops = []
        for o in e.d["ops"]:
            f = o.split(":")
            key, info = R[n][int(f[1])]
            if key is None and f[2] in "ocEDreq":
                continue
            if js and f[2] in "oG":
                continue
            if f[2] in "an":
                p, typ = hist.get((n, int(f[1])), ("", "i"))
                if "Histogram" in p and typ in "fd":
                    f[3] = str(int(float(f[3])))
                if e.d["regs"][int(f[1])].split(":")[2] in "iIlL":
                    f[3] = str(int(float(f[3])))
            if f[2] == "n" and f[4] == "0":
                f[4] = "1"
            if f[2] == "e" and any(info[1] in g.params and info[0] in g.comps for g in groups):
                continue
            ops.append(":".join(f))
        e.d["ops"] = ops
    # parts of one partition only may share objects across threads: guaranteed since a component is on one partition
    if case["ranks"] > 1 and any(v[0].endswith("console") for v in outs.values()):
        return False   # the terminal is shared by the ranks
    parts = {tuple(c["rank"]) for c in case["comps"]}
    if len(parts) != case["ranks"] * case["threads"]:
        return False
    return True


def shrink(case):
    def cp():
        return json.loads(json.dumps(case))
    if case["ranks"] * case["threads"] > 1:
        x = cp()
        x["ranks"] = x["threads"] = 1
        for c in x["comps"]:
            c["rank"] = [0, 0]
        yield x
    for k in range(len(case["cfg"])):
        x = cp()
        del x["cfg"][k]
        if valid(x):
            yield x
    for k in range(len(case["comps"])):
        x = cp()
        nm = x["comps"][k]["name"]
        del x["comps"][k]
        x["cfg"] = [s for s in x["cfg"] if not (s[0] not in ("load", "out", "group") and len(s) > 1 and str(s[1]).startswith(nm))]
        for s in x["cfg"]:
            if s[0] == "group":
                s[5] = [n for n in s[5] if n != nm]
        if x["comps"] and valid(x):
            yield x
    if case.get("ck"):
        x = cp()
        del x["ck"]
        yield x
    for k, c in enumerate(case["comps"]):
        for j in [None] + list(range(len(c["subs"]))):
            e = c if j is None else c["subs"][j]
            n = len(e["ops"])
            for w in (n // 2, n // 4, 1):
                if w:
                    for a in range(0, n, w):
                        x = cp()
                        y = x["comps"][k] if j is None else x["comps"][k]["subs"][j]
                        del y["ops"][a:a + w]
                        yield x
        if c["subs"]:
            x = cp()
            nm = "%s:sub[%d]" % (c["name"], len(c["subs"]) - 1)
            x["comps"][k]["subs"].pop()
            x["cfg"] = [s for s in x["cfg"] if not (len(s) > 1 and s[1] == nm)]
            if valid(x):
                yield x
    for k, s in enumerate(case["cfg"]):
        for i, p in enumerate(s):
            if isinstance(p, dict):
                for q in p:
                    x = cp()
                    del x["cfg"][k][i][q]
                    if valid(x):
                        yield x
