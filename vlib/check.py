"""Driver shared by all checks: generation from VERIF_SEED, parallel execution, shrinking,
confirmation, replay files, known findings, evidence.

A check module defines
  PID, RULE, LIBS            id, non-triviality rule, harness libraries it needs
  N = {"quick": n, "thorough": n}         number of generated cases (work items)
  gen(rng, i, tier) -> case                JSON-able; every random choice comes from rng
  run_case(case) -> Out                    executes the real code and the oracle
  shrink(case) -> iterable of cases        smaller variants (optional)
and optionally ASSUMPTIONS, TIME = {...} (stop generating after that many seconds), CONFIRM.
"""
import hashlib, importlib, json, multiprocessing as mp, os, random, sys, time, traceback
from . import build

VERIF = build.VERIF
LEVEL = "exploration"


class Out:
    """Outcome of one work item."""

    def __init__(self):
        self.n = 0            # evaluations (generated inputs / executions compared)
        self.nontrivial = []  # one hashable description per non-trivial evaluation
        self.fails = []       # (case, key, message)
        self.classes = {}
        self.sample = None

    def fail(self, case, key, msg):
        self.fails.append((case, key, str(msg)[:4000]))

    def cls(self, k, n=1):
        self.classes[k] = self.classes.get(k, 0) + n


def h(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


_mod = None


def _init(modname, path):
    global _mod
    if path not in sys.path:
        sys.path.insert(0, path)
    _mod = importlib.import_module(modname)


def _work(a):
    seed, tier, i = a
    rng = random.Random("%s:%d:%d" % (_mod.PID, seed, i))
    try:
        case = _mod.gen(rng, i, tier)
        o = _mod.run_case(case)
        return i, case, o, None
    except Exception:
        return i, None, None, traceback.format_exc()


def _one(case):
    try:
        return _mod.run_case(case)
    except Exception:
        o = Out()
        o.err = traceback.format_exc()
        return o


def size(case):
    return len(json.dumps(case, sort_keys=True))


def shrink(mod, case, key, budget_s, pool):
    """Greedy, parallel: try candidates in batches, keep the first smaller case with the same key."""
    t0 = time.time()
    if not hasattr(mod, "shrink"):
        return case
    tried = set()
    improved = True
    while improved and time.time() - t0 < budget_s:
        improved = False
        cands = []
        for c in mod.shrink(case):
            k = h(json.dumps(c, sort_keys=True))
            if k not in tried and size(c) < size(case):
                tried.add(k)
                cands.append(c)
        for j in range(0, len(cands), 16):
            if time.time() - t0 > budget_s:
                break
            outs = pool.map(_one, cands[j:j + 16], chunksize=1)
            hit = None
            for c, o in zip(cands[j:j + 16], outs):
                for (fc, fk, fm) in o.fails:
                    if fk == key:
                        hit = fc
                        break
                if hit is not None:
                    break
            if hit is not None and size(hit) < size(case):
                case = hit
                improved = True
                break
    return case


def known_findings(pid):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [e for e in json.load(open(f))["findings"] if e["property"] == pid]


def main(modname):
    path = os.path.join(VERIF, "checks")
    sys.path.insert(0, path)
    mod = importlib.import_module(modname)
    pid = mod.PID
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    try:
        build.ensure(mod.LIBS)
    except build.BuildError as e:
        print("BUILD FAILED:", e)
        return 2
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay(mod, sys.argv[2])
    t1 = time.time()
    n = mod.N[tier]
    limit = getattr(mod, "TIME", {}).get(tier, 240 if tier == "quick" else 3000)
    jobs = getattr(mod, "JOBS", 8)
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    ctx = mp.get_context("fork")
    ev, nt, classes, samples, errors = 0, set(), {}, [], []
    fails = []
    done = 0
    known_keys = {e["key"]: e for e in known_findings(pid)}
    known_hit = {}
    with ctx.Pool(jobs, _init, (modname, path)) as pool:
        # regression tier: saved minimal inputs of earlier findings and hand-picked corner cases
        fixed = list(getattr(mod, "FIXED", lambda: [])()) if callable(getattr(mod, "FIXED", None)) else list(getattr(mod, "FIXED", []))
        todo = [("fixed", c) for c in fixed]
        for o, (_, c) in zip(pool.imap(_one, [c for _, c in todo]), todo):
            if getattr(o, "err", None):
                errors.append(o.err)
                continue
            ev += o.n
            nt.update(h(x) for x in o.nontrivial)
            for k, v in o.classes.items():
                classes[k] = classes.get(k, 0) + v
            for f in o.fails:
                fails.append(f)
        it = pool.imap_unordered(_work, ((seed, tier, i) for i in range(n)), chunksize=1)
        for i, case, o, err in it:
            done += 1
            if err:
                errors.append(err)
            else:
                ev += o.n
                nt.update(h(x) for x in o.nontrivial)
                for k, v in o.classes.items():
                    classes[k] = classes.get(k, 0) + v
                if len(samples) < 4 and o.sample is not None:
                    samples.append(o.sample)
                fails.extend(o.fails)
            new = [f for f in fails if f[1] not in known_keys]
            if len(new) >= 3 or len(errors) > 3:
                break
            if time.time() - t1 > limit:
                break
        pool.terminate()
    viol = []
    uniq = {}
    for c, k, m in fails:
        if k in known_keys:
            known_hit[k] = m
            continue
        if k not in uniq or size(c) < size(uniq[k][0]):
            uniq[k] = (c, m)
    if uniq:
        with ctx.Pool(jobs, _init, (modname, path)) as pool:
            for k, (c, m) in list(uniq.items())[:3]:
                if viol and tier == "quick" and time.time() - t0 > 400:
                    break
                # confirm on a fresh process before reporting
                need, tries = getattr(mod, "CONFIRM", (3, 3))
                got = 0
                slow = False
                for t in range(tries):
                    tc = time.time()
                    o = pool.apply(_one, (c,))
                    if time.time() - tc > 15:
                        # runs into a time limit: one repetition confirms it, and it is not shrunk
                        slow = True
                        need = min(need, 2)
                    if any(fk == k for _, fk, _ in o.fails):
                        got += 1
                    if got >= need:
                        break
                if got < need:
                    classes["unconfirmed"] = classes.get("unconfirmed", 0) + 1
                    d = os.path.join(build.B, "unconfirmed")
                    os.makedirs(d, exist_ok=True)
                    json.dump({"property": pid, "check": modname, "key": k, "message": m, "case": c},
                              open(os.path.join(d, "%s_%s.json" % (pid, h((k, json.dumps(c, sort_keys=True))))), "w"), indent=1)
                    print("NOTE: not reproducible (%d of %d), not reported: %s %s" % (got, tries, k, m[:300]))
                    continue
                budget = 60 if tier == "quick" else 300
                if slow or tier == "quick" and time.time() - t0 > 500:
                    budget = 0
                c2 = shrink(mod, c, k, budget, pool)
                o = pool.apply(_one, (c2,))
                mm = next((x[2] for x in o.fails if x[1] == k), None)
                if mm is None:
                    c2, mm = c, m
                d = os.path.join(build.B, "replay")
                os.makedirs(d, exist_ok=True)
                rp = os.path.join(d, "%s_%s.json" % (pid, h((k, json.dumps(c2, sort_keys=True)))))
                json.dump({"property": pid, "check": modname, "key": k, "message": mm, "case": c2}, open(rp, "w"), indent=1)
                viol.append((rp, k, mm))
            pool.terminate()
    for k, m in known_hit.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, known_keys[k]["what"]))
    wall = time.time() - t0
    evid = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL,
            "coverage": {"evaluations": ev, "distinct_nontrivial": len(nt), "rule": mod.RULE,
                         "samples": samples, "work_items": done, "classes": classes},
            "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(evid, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s tier=%s seed=%d items=%d/%d evaluations=%d nontrivial=%d wall=%.1fs classes=%s" %
          (pid, tier, seed, done, n, ev, len(nt), wall, json.dumps(classes, sort_keys=True)))
    for rp, k, m in viol:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  key=%s: %s" % (k, m[:1500]))
    if viol:
        return 1
    if errors:
        print("CHECK ERROR (%d):" % len(errors), errors[0])
        return 2
    if ev == 0:
        print("CHECK ERROR: nothing was evaluated")
        return 2
    return 0


def replay(mod, path):
    d = json.load(open(path))
    o = mod.run_case(d["case"])
    for c, k, m in o.fails:
        print("VIOLATION property=%s replay=%s" % (mod.PID, path))
        print("  key=%s: %s" % (k, m))
    if not o.fails:
        print("replay passes")
    return 1 if o.fails else 0
