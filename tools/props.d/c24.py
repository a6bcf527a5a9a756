p("C24", "Port modules see and change exactly the events of their port",
  "The port modules of a port see, in the order they were added, every timed event sent (send side) or about to be handled (receive side) on it, exactly once and at its time: changes and replacements reach the next module and the handler unchanged in time and order, "
  "a dropped event is seen by nobody after, untimed data is not intercepted. This holds for ports of components and of subcomponents sharing them, for any job shape, and after a restart, with module state, keys and statistics carried over. "
  "sst.portmodules.random_drop drops exactly the events its seeded generator selects and counts observed and dropped events.",
  ["inputs", "schedules"], "all module chains, event histories, job shapes and checkpoints",
  "Tests put one module on one port of a chain; chains, both sides, shared ports, stateful modules and restarts are not sampled.",
  ["portModule.cc", "portModule.h", "baseComponent.cc", "link.cc", "ssthandler.h", "impl/portmodules/randomDrop.cc", "model/python/pymodel_portmodule.cc"],
  [("send side", "link.cc"), ("receive side", "ssthandler.h"), ("installation", "baseComponent.cc"), ("random_drop", "impl/portmodules/randomDrop.cc")],
  "c24", "model-based property testing: random chains of port modules and event histories against a reference simulator", SIM_TRUST)
