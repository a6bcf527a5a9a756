"""Run the mirrored sst build on generated inputs, inside scratch directories."""
import json, os, resource, shutil, subprocess, tempfile, signal
from . import build

SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")


def scratch(prefix="vt"):
    return tempfile.mkdtemp(prefix="verif_" + prefix + "_", dir=SCRATCH)


def rmtree(d):
    assert os.path.basename(d).startswith("verif_"), d
    shutil.rmtree(d, ignore_errors=True)


def env(home):
    e = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": home, "LC_ALL": "C.UTF-8",
         "TERM": "xterm", "PYTHONDONTWRITEBYTECODE": "1", "OMPI_ALLOW_RUN_AS_ROOT": "1",
         "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_rmaps_base_oversubscribe": "1",
         "OMPI_MCA_btl": "self,vader", "OMPI_MCA_hwloc_base_binding_policy": "none",
         "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_mpi_yield_when_idle": "1",
         "OMPI_MCA_plm_rsh_agent": "/bin/false"}
    return e


class Res:
    __slots__ = ("rc", "out", "timeout", "cmd")

    def __init__(self, rc, out, timeout, cmd):
        self.rc, self.out, self.timeout, self.cmd = rc, out, timeout, cmd


def descendants(pid):
    kids = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                st = open("/proc/%s/stat" % d).read()
                kids.setdefault(int(st[st.rindex(")") + 2:].split()[1]), []).append(int(d))
            except (OSError, ValueError):
                pass
    out, todo = [], [pid]
    while todo:
        for k in kids.get(todo.pop(), []):
            out.append(k)
            todo.append(k)
    return out


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def execute(cmd, cwd, timeout=120, stdin=None, extra_env=None):
    e = env(cwd)
    if extra_env:
        e.update(extra_env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, start_new_session=True, preexec_fn=limits)
    try:
        out, _ = p.communicate(stdin.encode() if isinstance(stdin, str) else stdin, timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        to = True
        # MPI ranks live in process groups of their own
        for k in [p.pid] + descendants(p.pid):
            try:
                os.kill(k, signal.SIGKILL)
            except ProcessLookupError:
                pass
        out, _ = p.communicate()
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    return Res(p.returncode, out.decode("utf-8", "replace"), to, cmd)


def sst(cwd, args, ranks=1, threads=1, timeout=120, stdin=None, libs=True, extra_env=None, binary="sst"):
    cmd = []
    if ranks > 1:
        cmd += ["mpirun", "-np", str(ranks)]
    cmd += [build.INST + "/bin/" + binary]
    if libs:
        cmd += ["--add-lib-path=" + build.HLIB]
    if threads > 1:
        cmd += ["-n", str(threads)]
    for _ in range(3):
        r = execute(cmd + list(args), cwd, timeout, stdin, extra_env)
        # the MPI runtime itself failed to start (before SST ran anything)
        if r.rc == 0 or r.timeout or not ("orte_init" in r.out or "ORTE_ERROR_LOG" in r.out or "ompi_mpi_init: " in r.out):
            break
    return r


def run_scenario(sc, cwd, args=(), ranks=1, threads=1, timeout=120, cfg=None, extra_env=None):
    """Write the scenario, run it, return (Res, {logname: [lines]})."""
    d = os.path.join(cwd, "logs")
    os.makedirs(d, exist_ok=True)
    for c in sc["comps"]:
        c.setdefault("params", {})["outdir"] = d
        for s in c.get("subs", []):
            s.setdefault("params", {})["outdir"] = d
    f = os.path.join(cwd, "sc.json")
    json.dump(sc, open(f, "w"))
    cfg = cfg or [build.VERIF + "/vlib/simcfg.py", "--model-options=" + f]
    r = sst(cwd, list(args) + cfg, ranks, threads, timeout, extra_env=extra_env)
    return r, read_logs(d)


def read_logs(d):
    logs = {}
    for n in os.listdir(d):
        if n.endswith(".log"):
            logs[n[:-4]] = open(os.path.join(d, n)).read().splitlines()
    return logs
