"""C22: sst-register, sst-config and the configuration files form a faithful registry."""
import copy, json, os, re, sys
from vlib import build, sstrun
from vlib.check import Out

PID = "C22"
LIBS = ["vureg"]
RULE = ("random histories of sst-register (one or several settings, overwritten settings, unregistering by name, by number and of the invalid ones, listing, malformed calls) over hand-written and generated configuration files "
        "in the install prefix, the home directory and SST_CONFIG_FILE_PATH, with sst-config lookups, dumps and library searches in between. Non-trivial: at least 3 changes and 3 lookups.")
N = {"quick": 1000, "thorough": 6000}
TIME = {"quick": 60, "thorough": 1200}
NAMES = ["DRAMSim", "my-elem", "a.b", "zeta", "Alpha", "vt", "x y", "SSTCore", "default", "Z9", "alpha"]
KEYS = ["CPPFLAGS", "LDFLAGS", "LIBDIR", "vt_ELEMENT_LIBDIR", "CXX", "A", "a", "my_key", "ELEMENT_LIBDIR", "LIBDIRS", "X_EXT_LIBDIR"]
PLAIN = ["", "-O2 -g", "1", "a=b", "#x", "x#y", "-DX[2]", "[q]", "ü ö", "'q' \"r\"", "a\tb", "trailing ", " leading", "==", "$HOME", "%s%n", "\\n", "x" * 300, "y" * 4095, "z" * 4096, "w" * 20000]
RUN = "import ctypes,sys\na=[x.encode() for x in sys.argv[2:]]\nctypes.CDLL(%r).run_tool(int(sys.argv[1]),len(a),(ctypes.c_char_p*(len(a)+1))(*a,None))"


def kind(g):
    """every setting of a model names a directory that exists, one that does not, or none"""
    return ("valid", "invalid", "none")[sum(map(ord, g)) % 3]


def value(rng, g, d="@"):
    v = rng.choice(PLAIN) if rng.random() < 0.5 else ""
    k = kind(g)
    return v + ("" if k == "none" else d + "/%s%d" % (k, rng.randrange(3)))


def settings(rng, g, n=None):
    ks = rng.sample(KEYS, n or rng.choice([1, 1, 2, 3, 5]))
    return [[k, value(rng, g)] for k in ks]


def conf(rng, crlf=True):
    """text of a hand-written file as lines"""
    L = ["# comment", ""] if rng.random() < 0.5 else []
    if rng.random() < 0.2:
        L += ["%s=%s" % (k, v) for k, v in settings(rng, "default")]
    for g in rng.sample(NAMES, rng.choice([0, 1, 2, 4])):
        L.append("[%s]" % g)
        for k, v in settings(rng, g):
            L.append("%s=%s" % (k, v))
            if rng.random() < 0.15:
                L.append(rng.choice(["", "# [comment]", "#A=9"]))
        if rng.random() < 0.5:
            L.append("")
    return ("\n" if not crlf or rng.random() < 0.8 else "\r\n").join(L) + ("\n" if rng.random() < 0.8 else "")


def gen(rng, i, tier):
    ops = []
    for _ in range(rng.choice([6, 12, 25])):
        op = rng.choice(["reg", "reg", "reg", "unreg", "get", "get", "get1", "dump", "list", "auto", "multi", "bad", "home", "env", "search"])
        g = rng.choice(NAMES)
        if op == "reg":
            ops.append(["reg", g, settings(rng, g, rng.choice([1, 1, 2, 4]))])
        elif op == "unreg":
            ops.append(["unreg", rng.choice([g, g, "nosuch", "DRAM"])])
        elif op == "get":
            ops.append(["get", rng.choice([g, g, g, "nosuch"]), rng.choice(KEYS + ["nosuch"])])
        elif op == "get1":
            ops.append(["get1", rng.choice(KEYS)])
        elif op == "multi":
            ops.append(["multi", [rng.choice([1, 1, 2, 3, 4, 0 if rng.random() < 0.2 else 1, 99 if rng.random() < 0.2 else 2]) for _ in range(rng.choice([0, 1, 2, 3]))]])
        elif op == "bad":
            ops.append(["bad", rng.choice([[], ["-u"], [g], [g, "FOO"], [g, "A=1", "FOO"], [g, ""]])])
        elif op == "home":
            ops.append(["home", conf(rng) if rng.random() < 0.8 else None])
        elif op == "env":
            ops.append(["env", [conf(rng) for _ in range(rng.choice([0, 1, 1, 2]))], rng.random() < 0.1])
        elif op == "search" and rng.random() < 0.6:
            continue
        else:
            ops.append([op])
    return {"prefix": conf(rng, False), "ops": ops}


def sections(text):
    """independent reader: [[group, [[key, value], ...]], ...] in file order"""
    S = [["default", []]]
    for l in re.split("[\n\r]", text):
        if l == "" or l[0] == "#":
            continue
        if l[0] == "[":
            S.append([l[1:-1], []])
        else:
            k, v = l.split("=", 1)
            S[-1][1].append([k, v])
    return S


def merge(*ss):
    D = {}
    for s in ss:
        for g, kv in s:
            for k, v in kv:
                D.setdefault(g, {})[k] = v
    return D


def clean(D):
    return {g: kv for g, kv in D.items() if kv}


def run_case(s):
    o = Out()
    o.n = 1
    d = sstrun.scratch("c22")
    try:
        for k in range(3):
            os.mkdir(d + "/valid%d" % k)
        os.makedirs(d + "/etc/sst")
        os.makedirs(d + "/home/.sst")
        P, H = d + "/etc/sst/sstsimulator.conf", d + "/home/.sst/sstsimulator.conf"
        at = lambda t: t.replace("@", d)

        def put(f, text):
            with open(f, "w", newline="") as h:
                h.write(text)

        def read(f):
            with open(f, newline="") as h:
                return h.read()
        put(P, at(s["prefix"]))
        home, env, missing = None, [], False
        so = build.HLIB + "/libvureg.so"

        def call(which, args, stdin=None):
            e = {"HOME": d + "/home"}
            if env or missing:
                e["SST_CONFIG_FILE_PATH"] = ":".join([d + "/env%d" % k for k in range(len(env))] + ([d + "/missing"] if missing else []))
            return sstrun.execute([sys.executable, "-S", "-E", "-c", RUN % so, str(which), "tool"] + args, d, 30, stdin=stdin, extra_env=e)
        file = sections(at(s["prefix"]))     # what the prefix file holds, in order
        changes = looks = 0

        def listed(file):
            return [(g, kind(g).upper()) for g, kv in file if g not in ("SSTCore", "default") and kv and kind(g) != "none"]
        for n, op in enumerate(s["ops"]):
            def fail(key, msg):
                o.fail(s, key, ("operation %d %s: " % (n, json.dumps(op)[:200])) + msg)
            name, r = op[0], None
            o.cls(name)
            if name == "home":
                home = None if op[1] is None else sections(at(op[1]))
                if os.path.exists(H):
                    os.unlink(H)
                if op[1] is not None:
                    put(H, at(op[1]))
                continue
            if name == "env":
                env, missing = [sections(at(t)) for t in op[1]], op[2]
                for k, t in enumerate(op[1]):
                    put(d + "/env%d" % k, at(t))
                continue
            before = read(P)
            merged = merge(file, home or [], *env)
            want_rc = 0
            if name == "reg":
                r = call(0, [op[1]] + ["%s=%s" % (k, at(v)) for k, v in op[2]])
                D = merge(file, [[op[1], [[k, at(v)] for k, v in op[2]]]])
                file = [[g, [[k, D[g][k]] for k in sorted(D[g])]] for g in sorted(D, key=lambda x: x.encode())]
                changes += 1
            elif name == "unreg":
                r = call(0, ["-u", op[1]])
                file = [x for x in file if x[0] != op[1] or x[0] == "default" and x is file[0]]
                changes += 1
            elif name == "auto":
                r = call(0, ["-au"])
                gone = [g for g, k in listed(file) if k == "INVALID"]
                file = [x for x in file if x[0] not in gone]
                changes += bool(gone)
            elif name == "multi":
                L = listed(file)
                r = call(0, ["-m"], stdin=" ".join(map(str, op[1])) + "\n")
                if any(not 1 <= k <= len(L) for k in op[1]) and L:
                    want_rc = None
                elif L:
                    gone = [L[k - 1][0] for k in op[1]]
                    file = [x for x in file if x[0] not in gone]
                    changes += bool(gone)
            elif name == "list":
                r = call(0, ["-l"])
                got = [l for l in r.out.split("\n") if re.match(r"\d+\. ", l)]
                want = ["%d. %s%s" % (k + 1, g.ljust(25), v) for k, (g, v) in enumerate(listed(file))]
                if got != want:
                    fail("list", "listed %r instead of %r" % (got, want))
                    return o
                looks += 1
            elif name == "bad":
                r = call(0, op[1])
                want_rc = None
            elif name in ("get", "get1", "dump"):
                r = call(1, [op[1], op[2]] if name == "get" else ["--" + op[1]] if name == "get1" else [])
                looks += 1
                if missing:
                    want_rc = None
                elif name == "dump":
                    D, cur = {}, None
                    for l in r.out.split("\n"):
                        m = re.fullmatch(r"# Group: (.*?) -+", l)
                        if m:
                            cur = D.setdefault(m[1], {})
                        elif l:
                            k, v = l.split("=", 1)
                            cur[k] = v
                    if clean(D) != clean(merged):
                        fail("dump", "the dump differs from the files: %s" % diff(D, merged))
                        return o
                else:
                    g, k = (op[1], op[2]) if name == "get" else ("SSTCore", op[1])
                    v = merged.get(g, {}).get(k)
                    if v is None:
                        want_rc = 1
                    if r.out != ("" if v is None else v + "\n"):
                        fail("get", "%s of %s: %r instead of %r" % (k, g, r.out[:200], v and v[:200]))
                        return o
            elif name == "search":
                # the directories sst looks for element libraries in
                t = [sections(read(build.INST + "/etc/sst/sstsimulator.conf")), file]
                e = {"HOME": d + "/nohome", "SST_CONFIG_FILE_PATH": P}
                q = sstrun.execute([build.INST + "/bin/sst-info", "nosuchlibrary"], d, 60, extra_env=e)
                m = re.search(r"FOUND IN DIRECTORY\(s\) (.*)", q.out)
                D = merge(*t)
                want = ":".join(D[g][k] for g in sorted(D, key=lambda x: x.encode()) for k in sorted(D[g]) if k.endswith("LIBDIR") and "_EXT_" not in k and D[g][k])
                if not m or m[1].rstrip("\n") != want:
                    fail("search", "libraries are looked for in %r instead of %r (exit code %d)" % (m and m[1][:300], want[:300], q.rc))
                    return o
                looks += 1
                continue
            if r.timeout or r.rc < 0 or 128 <= r.rc < 255 or "terminate called" in r.out:
                fail("crash", "exit code %s %s" % (r.rc, r.out[-300:]))
                return o
            if (r.rc == 0) if want_rc is None else (r.rc != want_rc):
                fail("exit", "exit code %d: %s" % (r.rc, r.out[-300:]))
                return o
            after = read(P)
            if (name in ("list", "get", "get1", "dump", "bad") or (name == "multi" and want_rc is None)) and after != before:
                fail("changed", "the file was changed")
                return o
            try:
                got = merge(sections(after))
            except ValueError:
                got = {"unreadable": {}}
            if clean(got) != clean(merge(file)):
                fail("file", "the file does not hold what was registered: %s" % diff(got, merge(file)))
                return o
            extra = [f for f in os.listdir(d) if f not in ("etc", "home", "valid0", "valid1", "valid2", "env0", "env1", "nohome")]
            if extra:
                fail("litter", "left behind: %r" % extra)
                return o
        if changes >= 3 and looks >= 3:
            o.nontrivial.append((changes, looks, len(json.dumps(s))))
        o.sample = {"changes": changes, "lookups": looks, "final": {g: sorted(kv) for g, kv in clean(merge(file)).items()}}
    finally:
        sstrun.rmtree(d)
    return o


def diff(a, b):
    fl = lambda D: {(g, k): v for g, kv in D.items() for k, v in kv.items()}
    a, b = fl(a), fl(b)
    return "; ".join("%s: %r instead of %r" % (k, (a.get(k) or "")[:80] if k in a else None, (b.get(k) or "")[:80] if k in b else None) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k))[:500]


def shrink(s):
    for k in (8, 3, 1):
        for a in range(0, len(s["ops"]), k):
            n = copy.deepcopy(s)
            del n["ops"][a:a + k]
            yield n
    if s["prefix"]:
        n = copy.deepcopy(s)
        n["prefix"] = ""
        yield n
    for a, op in enumerate(s["ops"]):
        if op[0] == "reg" and len(op[2]) > 1:
            for b in range(len(op[2])):
                n = copy.deepcopy(s)
                del n["ops"][a][2][b]
                yield n
