"""Build sst-core from /repo's current working tree into /verif/build (never into /repo).

/repo is mirrored by content into build/m/src (so only files whose content changed get a
new mtime), configured once out of tree and then built incrementally with ccache.  The
harness element library (harness/*.cc) is compiled against the mirrored headers.
"""
import fcntl, os, subprocess, sys, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(VERIF, "build")
M = os.path.join(B, "m")
SRC, OBJ, INST = M + "/src", M + "/b", M + "/inst"
HLIB = B + "/hlib"
GENERATED = ["configure", "configure~", "aclocal.m4", "autom4te.cache", "Makefile.in", "compile",
             "config.guess", "config.sub", "depcomp", "install-sh", "libtool.m4", "ltmain.sh",
             "ltoptions.m4", "ltsugar.m4", "ltversion.m4", "lt~obsolete.m4", "missing",
             "sst_config.h.in", "sst_config.h.in~", "py-compile"]


def log(*a):
    print("[build]", *a, file=sys.stderr, flush=True)


def benv():
    e = dict(os.environ)
    e.update(LC_ALL="C.UTF-8", CCACHE_DIR=B + "/ccache", CCACHE_MAXSIZE="3G",
             OMPI_CXX="ccache g++", OMPI_CC="ccache gcc", PYTHONDONTWRITEBYTECODE="1")
    e.setdefault("HOME", "/root")
    return e


class BuildError(Exception):
    pass


def run(cmd, cwd=None, what=""):
    p = subprocess.run(cmd, cwd=cwd, env=benv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(f"{what or cmd}: exit {p.returncode}\n" + p.stdout[-6000:])
    return p.stdout


def sync():
    os.makedirs(M, exist_ok=True)
    ex = ["--exclude=/.git", "--exclude=/_build", "--exclude=/_install"]
    if not os.path.exists(M + "/.synced"):
        run(["rsync", "-a", "--delete"] + ex + [REPO + "/", SRC + "/"], what="rsync")
        if not os.path.exists(SRC + "/configure") or not os.path.exists(SRC + "/src/sst/core/Makefile.in"):
            run(["./autogen.sh"], cwd=SRC, what="autogen")
        open(M + "/.synced", "w").close()
        return
    for g in GENERATED:
        ex.append("--exclude=" + g)
    # -c without -t: only files whose content differs are rewritten, with a fresh mtime
    run(["rsync", "-rlpc", "--delete"] + ex + [REPO + "/", SRC + "/"], what="rsync")


def build_core():
    sync()
    os.makedirs(OBJ, exist_ok=True)
    if not os.path.exists(OBJ + "/.configured"):
        log("configure")
        run(["../src/configure", "--prefix=" + INST, "CC=gcc", "CXX=g++", "CXXFLAGS=-O0 -g0 -w",
             "CFLAGS=-O0 -g0 -w", "LDFLAGS=-Wl,--no-as-needed", "--disable-static"], cwd=OBJ, what="configure")
        open(OBJ + "/.configured", "w").close()
    run(["make", "-j%d" % (os.cpu_count() or 4)], cwd=OBJ, what="make")
    stamp = INST + "/.stamp"
    bins = [OBJ + "/src/sst/core/" + f for f in ("sstsim.x", "sstinfo.x", "sst", "sst-info", "sst-config", "sst-register")]
    newest = max(os.path.getmtime(f) for f in bins)
    # headers are read from the mirror; reinstall when a binary or an installed script changed
    for d in ("src/sst/core/testingframework",):
        for f in glob.glob(SRC + "/" + d + "/*"):
            newest = max(newest, os.path.getmtime(f))
    if not os.path.exists(stamp) or os.path.getmtime(stamp) < newest:
        run(["make", "install"], cwd=OBJ, what="make install")
        open(stamp, "w").close()


def build_harness(libs):
    """harness/NAME.cc -> build/hlib/libNAME.so (an SST element library named NAME)."""
    os.makedirs(HLIB, exist_ok=True)
    odir = B + "/hobj"
    os.makedirs(odir, exist_ok=True)
    pyinc = subprocess.run(["python3-config", "--includes"], stdout=subprocess.PIPE, text=True).stdout.split()
    flags = ["-std=c++17", "-O0", "-g0", "-w", "-fPIC", "-DHAVE_CONFIG_H", "-I" + OBJ + "/src", "-I" + SRC + "/src",
             "-I" + OBJ + "/src/sst/core", "-I" + VERIF + "/harness", "-I" + SRC + "/external"] + pyinc
    procs = []
    for n in libs:
        f, o = VERIF + "/harness/" + n + ".cc", odir + "/" + n + ".o"
        procs.append((n, f, o, subprocess.Popen(["mpic++"] + flags + ["-c", f, "-o", o], env=benv(),
                                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for n, f, o, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            raise BuildError("harness compile failed: " + f + "\n" + out[-6000:])
        so = HLIB + "/lib" + n + ".so"
        run(["mpic++", "-shared", "-o", so + ".tmp", o], what="link harness")
        os.replace(so + ".tmp", so)


ALL_LIBS = sorted(os.path.basename(f)[:-3] for f in glob.glob(VERIF + "/harness/*.cc"))


def ensure(libs=None):
    os.makedirs(B, exist_ok=True)
    t = time.time()
    with open(B + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            build_core()
        except BuildError as e:
            # a stale or damaged build tree must not decide anything: rebuild from scratch once
            log("incremental build failed, rebuilding from scratch:", str(e)[-1500:])
            run(["rm", "-rf", M])
            build_core()
        build_harness(ALL_LIBS if libs is None else libs)
    log("ready in %.1fs" % (time.time() - t))


if __name__ == "__main__":
    ensure()
