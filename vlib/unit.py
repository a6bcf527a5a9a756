"""Batch execution of unit-level harness suites inside an sst process."""
import os
from . import build, sstrun


def hx(s):
    if isinstance(s, str):
        s = s.encode("latin-1")
    return s.hex() or "-"


def unhx(s):
    return "" if s == "-" else bytes.fromhex(s).decode("latin-1")


def parse(path):
    res, cur, idx = {}, None, None
    if os.path.exists(path):
        for l in open(path, errors="replace").read().split("\n"):
            if l.startswith("B ") and l[2:].isdigit():
                cur = []
                idx = int(l[2:])
            elif l.startswith("E ") and l[2:].isdigit():
                res[idx] = cur
                cur = None
            elif cur is not None and l:
                cur.append(l)
    return res


def _run(lib, lines, timeout, args, extra_env, at=0):
    d = sstrun.scratch("vu")
    try:
        open(d + "/in", "w").write("".join(l + "\n" for l in lines))
        r = sstrun.sst(d, ["--model-options=%s %s/in %s/out%s" % (lib, d, d, " %d" % at if at else "")] + list(args) + [build.VERIF + "/vlib/vucfg.py"], timeout=timeout,
                       extra_env=extra_env)
        res = parse(d + "/out")
        return r, res
    finally:
        sstrun.rmtree(d)


def run(lib, lines, timeout=60, args=(), extra_env=None, at=0):
    """Returns a list with one entry per line: list of output lines, or a string describing a crash."""
    r, res = _run(lib, lines, timeout, args, extra_env, at)
    out = []
    broken = None
    for i in range(len(lines)):
        if i in res:
            out.append(res[i])
        else:
            broken = i
            break
    if broken is None:
        if r.rc != 0 or r.timeout:
            out[-1] = "crash after the last case: rc=%s timeout=%s %s" % (r.rc, r.timeout, r.out[-1500:])
        return out
    if broken >= len(lines) - 1 or len(lines) == 1 or r.timeout:
        out.append("crash: rc=%s timeout=%s %s" % (r.rc, r.timeout, r.out[-1500:]))
        while len(out) < len(lines):
            out.append(None)
        return out
    out.append("crash: rc=%s timeout=%s %s" % (r.rc, r.timeout, r.out[-1500:]))
    return out + run(lib, lines[broken + 1:], timeout, args, extra_env, at)
