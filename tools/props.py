#!/usr/bin/env python3
"""Table of properties; regenerates properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/sst/core/"
P = []


def p(id, title, statement, over, text, why, files, mech, check=None, technique="", note="", reason="not built yet", observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, check, technique, note, reason))


SIM_TRUST = ("Random exploration with a fixed generator; trusts the Python reference simulator / oracle in /verif/vlib and the vtest element library "
             "(public element API only). sst is rebuilt from /repo with -O0 -g0 before every run.")

p("C01", "Timed event delivery is exact, ordered and complete",
  "Every event a component sends on a link (with any send delay in any time base, link latency, extra send/receive latency, self link or null event) is delivered "
  "exactly once, unchanged, at exactly send time + delay + latencies, to the handler or poll queue bound to the other end of that link. Activities at one component are handled in time order, and those "
  "at the same time in the documented order: priority first, then port configuration order, then order of sending. No event is lost, duplicated, delivered early or late for any topology, component hierarchy or traffic.",
  ["programs", "inputs", "histories"], "all topologies, port kinds, latencies, time bases, delays, hierarchies of components and subcomponents, and reaction programs",
  "The tests run a few fixed demo topologies and compare final printouts; order and exact time of single deliveries under other topologies, time bases, delays and ties are never examined.",
  ["link.cc", "link.h", "simulation.cc", "impl/timevortex/timeVortexPQ.cc", "impl/timevortex/timeVortexBinnedMap.cc", "baseComponent.cc", "pollingLinkQueue.cc", "timeLord.cc", "activity.h"],
  [("Link::send_impl computes the delivery time", "link.cc"), ("TimeVortex orders by (time, priority, order tag, queue order)", "impl/timevortex/timeVortexPQ.cc"), ("main loop", "simulation.cc")],
  "c01", "property-based testing: random simulation programs against a reference simulator", SIM_TRUST, observe=["event handler invocations"])

p("C02", "Partitioning over ranks and threads is invisible to the simulation",
  "For every model whose partitions are connected by links, any number of MPI ranks and threads, any partitioner or placement, any event queue and interthread-link setting gives every "
  "component the same sequence of events, clock ticks, untimed data, times and random state as the serial run, up to the end of the simulation. The run terminates, without deadlock or crash, at the same simulated end time.",
  ["schedules", "configurations", "programs"], "all models x rank/thread counts x placements x queue implementations x OS schedules",
  "The tests compare a few demo models at one or two rank/thread counts; correctness depends on placement, link latency structure, sync timing and scheduling that they never vary.",
  ["sync/syncManager.cc", "sync/rankSyncSerialSkip.cc", "sync/rankSyncParallelSkip.cc", "sync/threadSyncSimpleSkip.cc", "sync/threadSyncDirectSkip.cc", "sync/threadSyncQueue.h", "sync/rankSyncQueue.cc", "exit.cc", "simulation.cc", "main.cc"],
  [("conservative sync windows", "sync/syncManager.cc"), ("cross rank queues", "sync/rankSyncQueue.cc"), ("thread sync queues", "sync/threadSyncQueue.h"), ("end detection", "exit.cc")],
  "c02", "property-based testing: random programs x execution configurations, differential against a serial reference simulator",
  SIM_TRUST + " OS schedules are sampled, not enumerated (real threads and MPI ranks under load).", observe=["per component log of everything observed"])

import glob
exec(open(os.path.join(V, "tools", "props2.py")).read())
for f in sorted(glob.glob(os.path.join(V, "tools", "props.d", "*.py"))):
    exec(open(f).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 -m vlib.build", "checks": [], "not_applicable": []}
for d, c, t, n, r in P:
    if c:
        assert os.path.exists(os.path.join(V, "checks", c + ".py")), c
        m["checks"].append({"property": d["id"], "quick_cmd": "./check " + c, "thorough_cmd": "VERIF_TIER=thorough ./check " + c, "technique": t,
                            "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": d["id"], "reason": r})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(m["checks"]), "checks")
