"""C29: whatever the user gives to sst (a configuration script or file, calls of the Python interface, command line options), the run either is made
or is refused with an exit code other than 0 and a message; it never crashes, hangs or ends silently. Defective models are refused, naming the culprit;
sound ones are accepted."""
import copy, json, os, re
from vlib import build, sstrun
from vlib.check import Out

PID = "C29"
LIBS = ["vufz"]
RULE = ("mutations of a sound JSON model (structure, values, raw bytes), sequences of Python interface calls with wrong and right arguments, command lines with wrong and right options, and models with one known defect of 30 kinds in Python and JSON form. "
        "Non-trivial: the input is refused, or accepted although it differs from the sound base.")
N = {"quick": 1200, "thorough": 20000}
TIME = {"quick": 120, "thorough": 2400}
TIMEOUT = 60

BASE = {"program_options": {"verbose": "0", "stop-at": "1us", "timebase": "1ps", "partitioner": "sst.linear"},
        "shared_params": {"g": {"a": "1", "b": "1"}},
        "statistics_options": {"statisticLoadLevel": 3, "statisticOutput": "sst.statOutputCSV", "params": {"filepath": "s.csv"}},
        "components": [
            {"name": "c0", "type": "vufz.C", "params": {"n": "5", "a": "3"}, "params_shared_sets": ["g"],
             "statistics": [{"name": "s1", "params": {"rate": "5ns", "type": "sst.HistogramStatistic"}}], "partition": {"rank": 0, "thread": 0},
             "subcomponents": [{"slot_name": "sub", "slot_number": 0, "type": "vufz.S", "params": {"n": "4"}, "statistics": [], "subcomponents": []}]},
            {"name": "c1", "type": "vufz.C", "params": {"n": "7", "clk": "2ns"}, "partition": {"rank": 0, "thread": 0}}],
        "links": [{"name": "l", "noCut": False, "left": {"component": "c0", "port": "p0", "latency": "1ns"}, "right": {"component": "c1", "port": "p0", "latency": "2ns"}},
                  {"name": "l2", "noCut": False, "left": {"component": "c0:sub", "port": "q0", "latency": "1ns"}, "right": {"component": "c1", "port": "p1", "latency": "2ns"}}],
        "statistics_group": [{"name": "sg", "frequency": "10ns", "output": {"type": "sst.statOutputCSV", "params": {"filepath": "g.csv"}},
                              "statistics": [{"name": "s2", "params": {"type": "sst.AccumulatorStatistic"}}], "components": ["c0"]}]}
JVAL = [None, True, False, 0, -1, 1, 3.5, 1e300, 10 ** 30, -10 ** 19, "", "x", "1", "-1", "1ns", "-1ns", "0ns", "1e400s", "1 parsec", "c0", "c1", "p0", [], {}, [1], [[]],
        {"a": 1}, "vufz.C", "vufz.Nope", "nolib.Nope", "a.b.c", ".", "..", "vufz.", "\u0000", "\u00e9", "x" * 5000, ["c0"], "1Hz", "0Hz", "true", "sst.HistogramStatistic", "sst.self"]

PVAL = ['None', 'True', 'False', '0', '-1', '1', '2', '3.5', '1e300', '10**30', '-10**19', '""', '"x"', '"1"', '"-1"', '"1ns"', '"-1ns"', '"0ns"', '"1 parsec"', '"c0"', '"c1"', '"p0"', '"p1"',
        '[]', '{}', '[1]', '{"a":1}', '{"rate":"1ns"}', '{"a":"b","n":"3"}', '("a","b")', '"vufz.C"', '"vufz.Nope"', '"nolib.X"', '"."', '"a.b.c"', '"vufz."', '"\\0"', '"\\u00e9\\ud7ff"',
        '"\\ud800"', '"x"*5000', 'b"abc"', 'object()', 'len', 'sst', '"sub"', '"s1"', '["s1","s2"]', '["s1",3]', '"sst.AccumulatorStatistic"', '"sst.statOutputCSV"', '"1GHz"', '"1Hz"',
        '"sst.self"', '"1us"', '"sst.nope"', 'sst.UnitAlgebra("1ns")', 'sst.UnitAlgebra("0s")', "'3'", "(c0,'p2','1ns')", "(c1,'p3','1ns')", "(c0,'p2')", "(1,2,3)", "(c1,'p2','1ns')"]
OBJ = ['c0', 'c1', 's0', 'l0', 'l1', 'l2', 'st', 'sg', 'so', 'ua', 'pm']
COMP = ['addParam', 'addParams', 'setRank', 'setWeight', 'addLink', 'addPortModule', 'getFullName', 'getType', 'setStatisticLoadLevel', 'createStatistic', 'enableAllStatistics', 'enableStatistic',
        'enableStatistics', 'setStatistic', 'setSubComponent', 'setCoordinates', 'addSharedParamSet', 'addGlobalParamSet']
LINK = ['connect', 'connectNonLocal', 'setNonLocal', 'setNoCut']
METHODS = {'c0': COMP, 'c1': COMP, 'l0': LINK, 'l1': LINK, 'l2': LINK,
           's0': ['addParam', 'addParams', 'addLink', 'getFullName', 'getType', 'setStatisticLoadLevel', 'enableAllStatistics', 'enableStatistics', 'enableStatistic', 'setStatistic', 'setSubComponent',
                  'addSharedParamSet', 'setCoordinates', 'createStatistic'],
           'pm': ['addParam', 'addParams', 'setStatisticLoadLevel', 'enableAllStatistics', 'enableStatistic', 'enableStatistics', 'addSharedParamSet'],
           'st': ['addParam', 'addParams'], 'sg': ['addStatistic', 'addComponent', 'setOutput', 'setFrequency'], 'so': ['addParam', 'addParams'],
           'ua': ['getRoundedValue', 'getFloatValue', 'isValueZero', 'hasUnits', 'invert', 'bestSI', 'precision', '__add__', '__mul__', '__truediv__', '__lt__', '__eq__', '__neg__', '__int__',
                  '__float__', '__iadd__', '__imul__']}
GLOB = ['setProgramOption', 'setProgramOptions', 'getProgramOptions', 'pushNamePrefix', 'popNamePrefix', 'getMPIRankCount', 'getMyMPIRank', 'getThreadCount', 'setThreadCount', 'setStatisticOutput',
        'setStatisticLoadLevel', 'setStatisticOutputOption', 'setStatisticOutputOptions', 'enableAllStatisticsForAllComponents', 'enableAllStatisticsForComponentName',
        'enableStatisticForComponentName', 'enableStatisticsForComponentName', 'enableAllStatisticsForComponentType', 'enableStatisticForComponentType', 'enableStatisticsForComponentType',
        'setStatisticLoadLevelForComponentName', 'setStatisticLoadLevelForComponentType', 'findComponentByName', 'addGlobalParam', 'addGlobalParams', 'addSharedParam', 'addSharedParams',
        'getElapsedExecutionTime', 'getLocalMemoryUsage', 'setCallPythonFinalize']
GOOD = {'addParam': ['"n","3"', '"zz",4'], 'addParams': ['{"n":3}'], 'setRank': ['0', '0,0'], 'setWeight': ['2.5'], 'addLink': ['l2,"p2","1ns"', 'l2,"p3","2ns"', 'l2,"q1"', 'l0,"p0","1ns"'],
        'setSubComponent': ['"sub","vufz.S"', '"sub","vufz.S",3', '"sub","vufz.C"'], 'createStatistic': ['"s1"', '"s1",{"rate":"1ns"}', '{"type":"sst.AccumulatorStatistic"}', ''],
        'setStatistic': ['"s2",st', '"s1",st'], 'enableStatistics': ['["s1","s2"],{"rate":"1ns"}'], 'enableStatistic': ['"s1",{"type":"sst.HistogramStatistic"}'],
        'enableAllStatistics': ['{"type":"sst.AccumulatorStatistic","rate":"2ns"}'],
        'connect': ['(c0,"p2","1ns"),(c1,"p2","1ns")', '(c0,"p3","1ns"),(s0,"q2","1ns")', '(c0,"p2","1ns"),(c0,"p2","1ns")'], 'connectNonLocal': ['(c0,"p2","1ns"),(0,0)', '(c0,"p2","1ns"),(1,0)'],
        'setNonLocal': ['0,0', '1,0'], 'addPortModule': ['"p0","sst.portmodules.random_drop"', '"p0","sst.portmodules.random_drop",{}'],
        'addStatistic': ['"s1"', '"s1",{"type":"sst.HistogramStatistic"}', 'st'], 'addComponent': ['c0', 'c1', 's0'], 'setOutput': ['so'], 'setFrequency': ['"10ns"'],
        'setProgramOption': ['"stop-at","1us"', '"timebase","1ns"', '"verbose",1'], 'setStatisticOutput': ['"sst.statOutputCSV",{"filepath":"o.csv"}'],
        'enableStatisticForComponentName': ['"c0","s1",{"rate":"1ns"}'], 'findComponentByName': ['"c0"', '"c0:sub"'], 'setStatisticLoadLevelForComponentName': ['"c0",3'],
        'enableAllStatisticsForAllComponents': ['{"rate":"1ns"}'], 'pushNamePrefix': ['"a"'], 'setThreadCount': ['1', '2']}
CTOR = ['sst.Component', 'sst.Link', 'sst.SubComponent', 'sst.StatisticGroup', 'sst.StatisticOutput', 'sst.UnitAlgebra', 'sst.Params']
HEAD = '''import sst
c0=sst.Component("c0","vufz.C"); c1=sst.Component("c1","vufz.C")
c0.addParams({"n":5}); c1.addParams({"n":7,"clk":"2ns"})
s0=c0.setSubComponent("sub","vufz.S",0)
l0=sst.Link("l0"); l0.connect((c0,"p0","1ns"),(c1,"p0","2ns"))
l1=sst.Link("l1"); l1.connect((s0,"q0","1ns"),(c1,"p1","2ns"))
l2=sst.Link("l2"); l2.connect((c0,"p2","1ns"),(c1,"p2","3ns"))
sst.setStatisticLoadLevel(3)
st=c0.createStatistic("s1",{"rate":"3ns"})
sg=sst.StatisticGroup("sg")
so=sst.StatisticOutput("sst.statOutputCSV",{"filepath":"so.csv"})
ua=sst.UnitAlgebra("3GHz")
pm=c1.addPortModule("p0","sst.portmodules.random_drop",{"drop_prob":0.0,"drop_send":1})
OBJS=[]
'''

OPT = ("verbose num-threads sdl-file model-options print-timing-info timing-info stop-at exit-after partitioner heartbeat-period heartbeat-wall-period heartbeat-sim-period output-directory "
       "output-prefix-core output-config output-json parallel-output output-dot dot-verbosity output-partition timebase parallel-load timeVortex interthread-links cache-align-mempools debug-file "
       "lib-path add-lib-path enable-profiling profiling-output run-mode interactive-console interactive-start replay-file output-undeleted-events force-rank-seq-startup print-env no-env-config "
       "disable-signal-handlers sigusr1 sigusr2 sigalrm checkpoint-enable checkpoint-wall-period checkpoint-period checkpoint-sim-period load-checkpoint checkpoint-prefix "
       "checkpoint-name-format help version nope").split()
CVAL = ["", "0", "-1", "1", "2", "3", "x", "1ns", "-1ns", "0ns", "10us", "1 parsec", "true", "false", "TRUE", "yes", "1e400", "99999999999999999999", "4294967296", "a/b", "o.txt", "d/o.txt", "./o",
        "d.d/o", "/nonexistent/x", "/dev/full", ".", "..", "t.py", "t.json", "sst.linear", "sst.single", "sst.self", "sst.simple", "sst.roundrobin", "sst.nope", "nolib.x", ":", "1:2:3", "00:00:10",
        "1h", "10s", "H:M", "init", "run", "both", "sst.rt.status.core", "sst.rt.status.all", "sst.rt.exit.clean", "sst.rt.exit.emergency(a=b)", "sst.rt.checkpoint", "sst.rt.heartbeat", "sst.rt.nope",
        "sst.rt.status.core()(", "sst.rt.interactive", "10s;sst.rt.status.core", "(interval=1s)", "clock:sst.profile.handler.clock.time.steady[clock]",
        "clock:sst.profile.handler.clock.count[clock]", "p:sst.profile.handler.event.count(a=b)[event,clock]", "p:sst.nope[event]", "p[", "[]", "::", "%n", "%r_%t", "%p_%n_%t", "%%", "%", "ckpt",
        "x" * 3000, "SINGLE", "MULTI", "NONE", "sst.timevortex.priority_queue", "sst.timevortex.map.binned", "sst.interactive.simpledebug", "\u00e9", "\\", "'", "a b", "0x10", "1.5"]
SHORT = ["-n", "-v", "-", "--", "-h", "-V", "-z", "-n3", "-n0", "-n-1", "-v9", "--ver", "--stop"]
FILES = ["t.py"] * 7 + ["t.json", "noext", "t.xyz", "nope.py", "nope.json", "empty.py", "empty.json", "d", "d.py", "", "bad.py", "bad.json", "", "exc.py", "t.py t.py", "./t.py"]


# ---------------------------------------------------------------- generators
def paths(o, p=()):
    yield p
    if isinstance(o, dict):
        for k in o:
            yield from paths(o[k], p + (k,))
    elif isinstance(o, list):
        for i in range(len(o)):
            yield from paths(o[i], p + (i,))


def get(o, p):
    for k in p:
        o = o[k]
    return o


def mutate(r, o):
    ps = [p for p in paths(o) if p]
    p = r.choice(ps)
    par, k = get(o, p[:-1]), p[-1]
    op = r.randrange(6)
    if op == 0:
        del par[k]
    elif op in (1, 2):
        par[k] = copy.deepcopy(r.choice(JVAL))
    elif op == 3:
        if isinstance(par, list):
            par.append(copy.deepcopy(par[k]))
        else:
            par[r.choice(["name", "type", "foo", "params", "components", "component", str(k) + "x"])] = copy.deepcopy(par[k])
    elif op == 4:
        q = r.choice(ps)
        par[k] = copy.deepcopy(get(o, q))
    elif isinstance(par, dict):
        par[k + r.choice([" ", "x", ""])] = par.pop(k)
    else:
        r.shuffle(par)


def rawbytes(r, t):
    b = bytearray(t.encode())
    for _ in range(r.randint(1, 3)):
        i = r.randrange(len(b)) if b else 0
        op = r.randrange(4)
        if op == 0:
            del b[i:]
        elif op == 1:
            b[i:i + 1] = bytes([r.randrange(256)])
        elif op == 2:
            del b[i:i + r.randint(1, 20)]
        else:
            b[i:i] = r.choice([b"{", b"}", b"[", b"]", b",", b":", b'"', b"null", b"1e999", b"\\u12", b"\xff", b"//"])
    return bytes(b).decode("latin1")


def pyargs(r, m):
    if m in GOOD and r.random() < .5:
        return r.choice(GOOD[m])
    return ", ".join(r.choice(PVAL + OBJ) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 3, 4])))


def pyline(r):
    k = r.random()
    if k < .6:
        o = r.choice(OBJ)
        m = r.choice(METHODS[o])
        return "%s.%s(%s)" % (o, m, pyargs(r, m))
    if k < .9:
        m = r.choice(GLOB)
        return "sst.%s(%s)" % (m, pyargs(r, m))
    if k < .97:
        return "x=%s(%s); OBJS.append(x); print(x)" % (r.choice(CTOR), pyargs(r, ""))
    return "%s %s %s" % (r.choice(OBJ), r.choice("+ - * / == < **".split()), r.choice(OBJ + PVAL))


def ident(r):
    return "q" + r.choice("ghkqw") + "".join(r.choice("bwvxyzjk") for _ in range(r.randint(3, 9)))


# defects: name -> f(rng, id) -> (python lines or None, JSON edit or None, options, pattern that has to be in the output)
def D_json(path, val):
    def f(o):
        get(o, path[:-1])[path[-1]] = val
    return f


def D_app(path, val):
    def f(o):
        get(o, path).append(val)
    return f


def jl(n, a, pa, b, pb, la="1ns", lb="1ns"):
    return {"name": n, "noCut": False, "left": {"component": a, "port": pa, "latency": la}, "right": {"component": b, "port": pb, "latency": lb}}


DEFECTS = {
    "component type": lambda r, x: (['sst.Component("%s","vufz.%s")' % (ident(r), x)], D_json(("components", 1, "type"), "vufz." + x), [], x),
    "library": lambda r, x: (['sst.Component("q","%s.C")' % x], D_json(("components", 1, "type"), x + ".C"), [], x),
    "type without library": lambda r, x: (['sst.Component("q","%s")' % x], D_json(("components", 1, "type"), x), [], x),
    "slot used twice": lambda r, x: (['c0.setSubComponent("sub","vufz.S",0)'], lambda o: get(o, ("components", 0, "subcomponents")).append(copy.deepcopy(get(o, ("components", 0, "subcomponents", 0)))), [], "sub"),
    "port": lambda r, x: (['sst.Link("lx").connect((c0,"%s","1ns"),(c1,"p3","1ns"))' % x], D_json(("links", 0, "left", "port"), x), [], x),
    "port of a subcomponent": lambda r, x: (['sst.Link("lx").connect((s0,"%s","1ns"),(c1,"p3","1ns"))' % x], D_json(("links", 1, "left", "port"), x), [], x),
    "port used twice": lambda r, x: (['sst.Link("lx").connect((c0,"p0","1ns"),(c1,"p3","1ns"))'], D_app(("links",), jl(x, "c0", "p0", "c1", "p3")), [], "p0"),
    "component name used twice": lambda r, x: (['sst.Component("c0","vufz.C")'], D_json(("components", 1, "name"), "c0"), [], "c0"),
    "dangling link": lambda r, x: (['c0.addLink(sst.Link("%s"),"p3","1ns")' % x], None, [], x),
    "dangling link of a subcomponent": lambda r, x: (['s0.addLink(sst.Link("%s"),"q1","1ns")' % x], None, [], x),
    "unused link": lambda r, x: (['sst.Link("%s")' % x], None, [], x),
    "link used three times": lambda r, x: (['l=sst.Link("%s")' % x, 'l.connect((c0,"p3","1ns"),(c1,"p3","1ns"))', 's0.addLink(l,"q1","1ns")'], None, [], x),
    "link to an unknown component": lambda r, x: (None, D_json(("links", 0, "left", "component"), x), [], x),
    "group of an unknown component": lambda r, x: (None, D_json(("statistics_group", 0, "components"), [x]), [], x),
    "statistics of an unknown component": lambda r, x: (['sst.enableStatisticForComponentName("%s","s1",{})' % x], None, [], x),
    "statistic type": lambda r, x: (['c0.enableStatistics(["s1"],{"type":"sst.%s"})' % x], D_json(("components", 0, "statistics", 0, "params", "type"), "sst." + x), [], x),
    "statistic output": lambda r, x: (['sst.setStatisticOutput("sst.%s")' % x], D_json(("statistics_options", "statisticOutput"), "sst." + x), [], x),
    "statistic rate": lambda r, x: (['c0.enableStatistics(["s1"],{"rate":"1 %s"})' % x], D_json(("components", 0, "statistics", 0, "params", "rate"), "1 " + x), [], x),
    "port module": lambda r, x: (['c0.addPortModule("p0","sst.%s",{})' % x], None, [], x),
    "latency unit": lambda r, x: (['sst.Link("lx").connect((c0,"p3","1 %s"),(c1,"p3","1ns"))' % x], D_json(("links", 0, "left", "latency"), "1 " + x), [], x),
    "latency in other units": lambda r, x: (['sst.Link("%s").connect((c0,"p3","%s"),(c1,"p3","1ns"))' % (x, r.choice(["1m", "3", "2 s^2", "1 b"]))], D_json(("links", 0, "left", "latency"), "7B"), [], ""),
    "option": lambda r, x: (['sst.setProgramOption("%s","1")' % x], D_json(("program_options", x), "1"), [], x),
    "command line option": lambda r, x: ([], lambda o: None, ["--" + x], x),
    "stop-at": lambda r, x: ([], lambda o: o["program_options"].pop("stop-at"), ["--stop-at=1 " + x], x),
    "timebase": lambda r, x: ([], lambda o: o["program_options"].pop("timebase"), ["--timebase=1 " + x], x),
    "timebase in other units": lambda r, x: ([], lambda o: o["program_options"].pop("timebase"), ["--timebase=" + r.choice(["3B", "1", "2 s^2", "0s", "-1ns"])], ""),
    "partitioner": lambda r, x: ([], lambda o: o["program_options"].pop("partitioner"), ["--partitioner=sst.%s" % x, "-n2"], x),
    "time vortex": lambda r, x: ([], lambda o: None, ["--timeVortex=sst.%s" % x], x),
    "threads": lambda r, x: ([], lambda o: None, ["--num-threads=" + r.choice(["0", "-1", "-3", x])], ""),
    "run mode": lambda r, x: ([], lambda o: None, ["--run-mode=" + x], x),
    "model file": lambda r, x: (None, None, [x + r.choice([".py", ".json", ".xyz", ""])], x),
    "exception": lambda r, x: (['raise ValueError("%s")' % x], None, [], x),
    "name error": lambda r, x: (["print(%s)" % x], None, [], x),
    "syntax error": lambda r, x: (["(%s" % x], None, [], x),
    "parameter of the wrong type": lambda r, x: (['c0.addParam("n","%s")' % x], D_json(("components", 0, "params", "n"), x), [], ""),
    "clock": lambda r, x: (['c0.addParam("clk","1 %s")' % x], D_json(("components", 0, "params", "clk"), "1 " + x), [], x),
    "rank": lambda r, x: (["c0.setRank(%d)" % r.randint(1, 9)], D_json(("components", 0, "partition", "rank"), r.randint(1, 9)), ["--partitioner=sst.self", "-n2"], ""),
    "thread": lambda r, x: (["c0.setRank(0,%d)" % r.randint(2, 9)], D_json(("components", 0, "partition", "thread"), r.randint(2, 9)), ["--partitioner=sst.self", "-n2"], ""),
    "truncated JSON": lambda r, x: (None, "trunc", [], ""),
}
SOUND = [
    (['c0.addParam("%s", "1")'], D_json(("components", 0, "params", "zz"), "1")),
    (['%s=sst.Component("%s","vufz.C")'], lambda o: o["components"].append({"name": "zz", "type": "vufz.C"})),
    (['c0.setSubComponent("sub","vufz.S",%d)'], D_app(("components", 0, "subcomponents"), {"slot_name": "sub", "slot_number": 5, "type": "vufz.S"})),
    (['sst.Link("%s").connect((c0,"p3","3 ns"),(c1,"p3","0.5ns"))'], D_app(("links",), jl("zz", "c0", "p3", "c1", "p3", "3 ns", "0.5ns"))),
    (['sst.Link("%s","3 ns").connect((c0,"p3"),(s0,"q1"))'], D_app(("links",), jl("zz", "c0", "p3", "c0:sub", "q1", "3 ns", "10ps"))),
    (['sst.Link("%s").connect((c0,"p3","1GHz"),(c0,"p3","1GHz"))'], D_app(("links",), jl("zz", "c0", "p3", "c0", "p3", "1GHz", "1GHz"))),
    (['c1.enableStatistics(["s1","s2"],{"rate":"1 MHz"})'], D_json(("components", 1, "statistics"), [{"name": "s1"}])),
    (['c1.enableAllStatistics()'], lambda o: None),
    (['sst.enableAllStatisticsForComponentType("vufz.C",{"type":"sst.HistogramStatistic"})'], lambda o: None),
    (['sst.setProgramOption("stop-at","100 ns")'], D_json(("program_options", "stop-at"), "100 ns")),
    (['sst.setProgramOption("timebase","100 fs")'], D_json(("program_options", "timebase"), "1 THz")),
    (['sst.setThreadCount(2)'], D_json(("program_options", "num-threads"), "2")),
    (['c0.setWeight(2.5)', 'c0.setCoordinates(1,2,3)'], lambda o: None),
    (['sg.addComponent(c1)', 'sg.addStatistic("s3",{})', 'sg.setFrequency("3ns")', 'sg.setOutput(so)'], lambda o: None),
    (['c1.setStatistic("s1", c1.createStatistic("s2"))'], lambda o: None),
]
SOUNDOPT = ["--verbose=1", "--num-threads=2", "-n2", "--print-timing-info", "--stop-at=1us", "--stop-at=50 ns", "--exit-after=1h", "--exit-after=00:10:00", "--heartbeat-sim-period=10 ns", "--heartbeat-wall-period=1s",
            "--output-json=o.json", "--output-config=./o.py", "--output-dot=o.dot", "--output-partition=o.txt", "--timeVortex=sst.timevortex.map.binned", "--output-undeleted-events=STDOUT",
            "--sigusr1=sst.rt.status.all", "--sigalrm=sst.rt.heartbeat(interval=1s)", "--checkpoint-sim-period=10ns", "--checkpoint-prefix=ck", "--checkpoint-enable", "--run-mode=both", "--run-mode=init",
            "--debug-file=dbg", "--enable-profiling=c:sst.profile.handler.clock.count[clock]", "--cache-align-mempools", "--interthread-links", "--partitioner=sst.simple", "--partitioner=roundrobin",
            "--output-directory=od", "--model-options=a b", "--disable-signal-handlers"]


def gen(r, i, tier):
    k = r.random()
    c = {"opts": [], "ranks": 1}
    if k < .22:
        c["kind"] = "json"
        o = copy.deepcopy(BASE)
        if r.random() < .85:
            for _ in range(r.randint(1, 3)):
                mutate(r, o)
                if not o:
                    break
            c["text"] = json.dumps(o)
        else:
            c["text"] = rawbytes(r, json.dumps(o))
    elif k < .55:
        c["kind"] = "py"
        c["lines"] = [pyline(r) for _ in range(r.randint(1, 6))]
        c["strict"] = r.random() < .3
    elif k < .72:
        c["kind"] = "cli"
        for _ in range(r.randint(1, 3)):
            o, q = r.choice(OPT), r.random()
            if q < .85:
                c["opts"].append("--%s=%s" % (o, r.choice(CVAL)))
            elif q < .93:
                c["opts"].append("--" + o)
            elif q < .97:
                c["opts"] += ["--" + o, r.choice(CVAL)]
            else:
                c["opts"].append(r.choice(SHORT))
        c["opts"] += r.choice(FILES).split()
    elif k < .9:
        c["kind"] = "defect"
        x = ident(r)
        c["defect"] = r.choice(sorted(DEFECTS))
        lines, edit, opts, pat = DEFECTS[c["defect"]](r, x)
        c["pat"], c["opts"] = pat, opts
        if lines is None and edit is None:
            c["form"] = "none"
        elif edit is None or (lines is not None and r.random() < .6):
            c["form"] = "py"
            c["lines"] = [pysound(r) for _ in range(r.choice([0, 0, 1, 2]))] + lines
        else:
            c["form"] = "json"
            o = copy.deepcopy(BASE)
            if edit == "trunc":
                t = json.dumps(o, indent=r.choice([None, 2]))
                c["text"] = t[:r.randrange(1, len(t) - 1)]
            else:
                edit(o)
                c["text"] = json.dumps(o)
    else:
        c["kind"] = "sound"
        c["opts"] = r.sample(SOUNDOPT, r.choice([0, 1, 1, 2, 3]))
        k = r.sample(range(len(SOUND)), r.choice([0, 1, 2, 3]))
        k = [q for j, q in enumerate(k) if not (3 <= q <= 5 and any(3 <= p <= 5 for p in k[:j]))]
        if r.random() < .6:
            c["form"] = "py"
            c["lines"] = [l % tuple([r.randint(1, 9)] if "%d" in l else [ident(r)] * l.count("%s")) for q in k for l in SOUND[q][0]]
        else:
            c["form"] = "json"
            o = copy.deepcopy(BASE)
            for q in k:
                SOUND[q][1](o)
            c["text"] = json.dumps(o)
    q = r.random()
    if c["kind"] != "cli":
        if q < .08 and not any("-n" in x or "num-threads" in x or "partitioner" in x for x in c["opts"]):
            c["opts"].append("-n2")
        elif q < .12 and c["kind"] != "sound" and "partitioner" not in "".join(c["opts"]) and c.get("defect") != "threads":
            c["ranks"] = 2
    return c


def pysound(r):
    return r.choice(['c0.addParam("zz","1")', 'sst.Component("other%d","vufz.C")' % r.randrange(10 ** 9), 'c1.addParam("n",3)', 'c0.setWeight(3)'])


# ---------------------------------------------------------------- execution
def run_case(c):
    o = Out()
    o.n = 1
    kind = c["kind"]
    d = sstrun.scratch("c29")
    try:
        args = list(c["opts"])
        if kind == "cli":
            for n, t in (("t.py", HEAD), ("bad.py", "import sst\nx=("), ("exc.py", "import sst\nraise KeyError('k')\n"), ("empty.py", ""), ("empty.json", ""), ("bad.json", "{"), ("noext", HEAD), ("t.xyz", HEAD),
                         ("t.json", json.dumps(BASE)), ("libjunk.so", "not a library")):
                open(d + "/" + n, "w").write(t)
            os.mkdir(d + "/d")
            os.mkdir(d + "/d.py")
        elif "lines" in c:
            t = HEAD
            for l in c["lines"]:
                t += l + "\n" if kind != "py" or c["strict"] else "try:\n    %s\nexcept Exception as e: print('EXC',type(e),str(e)[:100])\n" % l
            open(d + "/m.py", "w", encoding="utf8", errors="surrogatepass").write(t)
            args.append("m.py")
        elif "text" in c:
            open(d + "/m.json", "w", encoding="latin1" if kind == "json" else "utf8").write(c["text"])
            args.append("m.json")
        if "run-mode=init" in "".join(args) and kind == "sound":
            args = [a for a in args if "heartbeat" not in a]
        r = sstrun.sst(d, args, c["ranks"], 1, timeout=TIMEOUT)
    finally:
        sstrun.rmtree(d)
    out = "\n".join(l for l in r.out.splitlines() if not re.search("Broken pipe|PMIX|prte|mpirun", l))
    tail = out[-1500:]
    what = c.get("defect", kind)
    o.cls(kind + "/" + ("refused" if r.rc else "accepted"))
    if kind == "defect":
        o.cls("defect: " + what)
    if r.timeout:
        o.fail(c, "hang", "no end within %d s: %s" % (TIMEOUT, tail))
        return o
    sig = r.rc < 0 or 128 <= r.rc < 255 or re.search("terminate called|Segmentation fault|Caught signal|exited on signal|stack smashing|double free|corrupted|AddressSanitizer", out)
    if sig and not (c["ranks"] > 1 and r.rc > 0 and "MPI_ABORT was invoked" in out and not re.search("terminate called|Segmentation fault|exited on signal (6|11|8|4|7)\\b", out)):
        m = re.findall(r"what\(\):.*|Assertion.*|_ZNK?3SST\w+", out)
        o.fail(c, "crash", "exit code %s: %s %s" % (r.rc, " ".join(m[:3]), tail))
        return o
    if r.rc and not out.strip():
        o.fail(c, "silent", "exit code %s without any message" % r.rc)
        return o
    if kind == "defect":
        if r.rc == 0:
            o.fail(c, "accepted: " + what, "a model with a wrong %s was run: %s" % (what, tail))
            return o
        if c["pat"] not in r.out and c["ranks"] == 1:
            o.fail(c, "unnamed: " + what, "the message for a wrong %s does not name %r: %s" % (what, c["pat"], tail))
            return o
    if kind == "sound":
        if r.rc:
            o.fail(c, "refused", "a sound model was refused (exit code %s): %s" % (r.rc, tail))
            return o
        if "Simulation is complete" not in r.out and not any("init" in a for a in c["opts"]):
            o.fail(c, "not-run", "a sound model was not run: %s" % tail)
            return o
    if r.rc or c["opts"] or c.get("lines") or c.get("text", "") != json.dumps(BASE):
        o.nontrivial.append((kind, c.get("text"), tuple(c.get("lines", ())), tuple(c["opts"])))
    o.sample = {k: (v if len(str(v)) < 600 else str(v)[:600]) for k, v in c.items()}
    o.sample["exit"] = r.rc
    return o


def shrink(c):
    for k in ("lines", "opts"):
        for i in range(len(c.get(k, ()))):
            if k == "lines" and c["kind"] in ("defect",) and i == len(c[k]) - 1:
                continue
            if k == "opts" and c["kind"] == "defect":
                continue
            q = copy.deepcopy(c)
            del q[k][i]
            yield q
    if c.get("ranks", 1) > 1:
        yield dict(c, ranks=1)
    if c["kind"] == "json":
        try:
            o = json.loads(c["text"])
        except ValueError:
            for n in (200, 50, 10, 3, 1):
                for i in range(0, len(c["text"]), n):
                    yield dict(c, text=c["text"][:i] + c["text"][i + n:])
                    if i > 40 * n:
                        break
            return
        for p in sorted(paths(o), key=len):
            if not p:
                continue
            q = json.loads(c["text"])
            del get(q, p[:-1])[p[-1]]
            yield dict(c, text=json.dumps(q))
