p("C14", "Shared arrays, maps and sets hold every published write, everywhere",
  "Every SharedArray, SharedMap and SharedSet of one name is one object across all threads and ranks: what an element writes in construction or in an init phase is seen by every element on every rank from the next init phase on, and from setup onwards "
  "(also after a restart on any job shape) size, entries, iteration, lookup and bounds show exactly the written data, with unwritten array entries at their initial value and the array at its largest requested length. "
  "isFullyPublished() is true exactly when all instances had published by the last exchange, and always after init. Conflicting writes, writes after publish() or after init, mismatched types, verify modes or initial values, and repeated or late initialize() calls end the run with an error on any job shape.",
  ["inputs", "schedules"], "all scripts of operations, job shapes and restarts",
  "The tests write regular patterns from equal components; partial overlap, late instances, growth, misuse detection across ranks and restarts are not sampled.",
  ["shared/sharedObject.h", "shared/sharedObject.cc", "shared/sharedArray.h", "shared/sharedMap.h", "shared/sharedSet.h", "simulation.cc", "model/configGraph.cc"],
  [("exchange between ranks", "shared/sharedObject.cc"), ("change sets and verification", "shared/sharedArray.h"), ("publishing state", "shared/sharedObject.h")],
  "c14", "stateful property-based testing: random operation scripts over components and phases against a reference model, with misuse injection", SIM_TRUST)
