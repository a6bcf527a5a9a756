"""C04: serialization round trips (generated values of 169 types and generated object graphs)."""
import random
from vlib import unit
from vlib.check import Out

PID = "C04"
LIBS = ["vuser"]
RULE = ("a case counts when the serialized session holds at least two values or one value of more than 16 bytes, "
        "or when a generated object graph has at least four objects; distinct by the generated bytes")
N = {"quick": 250, "thorough": 2400}
TIME = {"quick": 60, "thorough": 1500}
NTYPES = 169
PER = 120


def rb(rng, n):
    # mixes of small and full-range bytes
    m = rng.random()
    if m < 0.15:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(4)))
    return bytes(rng.randrange(256) if rng.random() < 0.7 else rng.randrange(4) for _ in range(n))


def gen(rng, i, tier):
    case = []
    for j in range(PER):
        if rng.random() < 0.45:
            case.append(["graph", rb(rng, rng.choice([10, 30, 60, 120, 200])).hex() or "-", rng.randrange(4)])
        else:
            k = rng.choice([1, 1, 1, 2, 3, 5])
            c = ["ser", int(rng.random() < 0.5), rng.randrange(1 << 30), rb(rng, 40).hex() if rng.random() < 0.5 else "-"]
            for _ in range(k):
                # every type is visited by stepping through the list
                t = (i * PER + j) % NTYPES if not c[4:] else rng.randrange(1000)
                c += [t, rb(rng, rng.choice([8, 40, 120])).hex() or "-"]
            case.append(c)
    return {"lines": case}


def run_case(case):
    o = Out()
    lines = [" ".join(str(x) if x != "" else "-" for x in l) for l in case["lines"]]
    res = unit.run("vuser", lines)
    for l, r in zip(case["lines"], res):
        one = {"lines": [l]}
        if r is None:
            continue
        o.n += 1
        if isinstance(r, str):
            o.fail(one, l[0] + "-crash", r)
            continue
        for x in r:
            if x.startswith("F "):
                _, k, m = x.split(" ", 2)
                o.fail(one, k, m)
            elif x.startswith("R "):
                f = x.split()
                if l[0] == "graph":
                    if int(f[2]) >= 4:
                        o.nontrivial.append(l[1])
                        o.cls("graph")
                        if int(f[3]):
                            o.cls("graph-cyclic")
                elif len(l) > 6 or int(f[1]) > 16:
                    o.nontrivial.append(str(l[1:]))
                    o.cls("session" if len(l) > 6 else "value")
            elif x.startswith("! "):
                o.fail(one, l[0] + "-exception", x)
    if o.n:
        o.sample = {"line": lines[0][:300], "result": res[0] if not isinstance(res[0], str) else res[0][:200]}
    return o


def shrink(case):
    if len(case["lines"]) > 1:
        for l in case["lines"]:
            yield {"lines": [l]}
        return
    l = list(case["lines"][0])

    def bs(i):
        h = "" if l[i] == "-" else l[i]
        n = len(h) // 2
        for a in (n // 2, n * 3 // 4, n - 4, n - 1):
            if 0 <= a < n:
                yield h[:2 * a] or "-"
        for j in range(0, min(n, 40)):
            if h[2 * j:2 * j + 2] != "00":
                yield h[:2 * j] + "00" + h[2 * j + 2:]
                yield (h[:2 * j] + h[2 * j + 2:]) or "-"
    if l[0] == "graph":
        for b in bs(1):
            yield {"lines": [[l[0], b, l[2]]]}
        return
    for i in range(4, len(l), 2):
        if len(l) > 6:
            yield {"lines": [l[:i] + l[i + 2:]]}
    if l[3] != "-":
        yield {"lines": [l[:3] + ["-"] + l[4:]]}
    yield {"lines": [l[:1] + [0, 0] + l[3:]]}
    for i in range(5, len(l), 2):
        for b in bs(i):
            yield {"lines": [l[:i] + [b] + l[i + 1:]]}
