# Runs the UnitAlgebra programs through the Python interface; same result lines as the C++ executor.
import sst, sys
a = sys.argv[1:]


def un(h):
    return bytes.fromhex(h).decode("latin-1") if h != "-" else ""


def exn(e):
    return "X " + type(e).__name__


out = open(a[3], "w")
for i, line in enumerate(open(a[1])):
    out.write("B %d\n" % i)
    r = [sst.UnitAlgebra("0") for _ in range(8)]
    for tok in line.split()[1:]:
        f = tok.split(":")
        op = f[0]
        n = [int(x) if x.lstrip("-").isdigit() else 0 for x in f[1:]] + [0, 0]
        try:
            res = None
            if op == "P":
                r[n[0]] = sst.UnitAlgebra(un(f[2])); res = str(r[n[0]])
            elif op == "+":
                r[n[0]] = r[n[1]] + r[n[2]]; res = str(r[n[0]])
            elif op == "-":
                r[n[0]] = r[n[1]] - r[n[2]]; res = str(r[n[0]])
            elif op == "*":
                r[n[0]] = r[n[1]] * r[n[2]]; res = str(r[n[0]])
            elif op == "/":
                r[n[0]] = r[n[1]] / r[n[2]]; res = str(r[n[0]])
            elif op == "s":
                r[n[0]] = r[n[1]] * sst.UnitAlgebra(f[3]); res = str(r[n[0]])
            elif op == "v":
                r[n[0]] = r[n[1]] / sst.UnitAlgebra(f[3]); res = str(r[n[0]])
            elif op == "i":
                r[n[0]] = r[n[1]].invert(); res = str(r[n[0]])
            elif op == "n":
                r[n[0]] = -r[n[1]]; res = str(r[n[0]])
            elif op == "c":
                x, y = r[n[0]], r[n[1]]
                res = "01"[bool(x == y)] + "01"[bool(x != y)]
                try:
                    res += "01"[bool(x < y)] + "01"[bool(x <= y)] + "01"[bool(x >= y)] + "01"[bool(x > y)]
                except Exception as e:
                    res += " " + exn(e)
            elif op == "t":
                res = r[n[0]].precision(n[1])
            elif op == "b":
                res = r[n[0]].bestSI(n[1])
            elif op == "l":
                res = str(int(r[n[0]]))
                assert int(r[n[0]]) == r[n[0]].getRoundedValue()
            elif op == "d":
                res = float(r[n[0]]).hex()
            elif op == "h":
                res = "01"[bool(r[n[0]].hasUnits(un(f[2])))]
            elif op == "z":
                res = "01"[bool(r[n[0]].isValueZero())]
                assert bool(r[n[0]]) != r[n[0]].isValueZero()
            elif op == "r":
                r[n[0]] = sst.UnitAlgebra(str(r[n[1]])); res = str(r[n[0]])
        except Exception as e:
            res = exn(e)
        out.write((res if res is not None else "-") + "\n")
    out.write("E %d\n" % i)
    out.flush()
out.close()
c = sst.Component("x", a[0] + ".Exec")
c.addParams({"in": a[1], "out": a[2]})
