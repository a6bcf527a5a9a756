
p("C29", "Bad input is refused with a message, never a crash, hang or silent end",
  "Whatever configuration (Python script, JSON file), Python interface calls or command line options a user gives, sst either runs the model or ends with a non-zero exit code and a message: it is not killed by a signal, does not abort on an uncaught "
  "exception, hang, or end silently. A defective model (unknown element, library, port, slot, statistic, output, partitioner or option, name, slot or port used twice, dangling or unused link, malformed or wrongly dimensioned latency, rate, clock or timebase, "
  "unavailable rank or thread, script error, truncated file) is refused, naming the culprit, on any rank and thread count; sound variations of a model are accepted and run.",
  ["inputs"], "all configuration files, scripts, option lists; serial and parallel",
  "The tests give sst models that are correct, and two or three of the many possible errors; the space of wrong inputs is explored by none of them.",
  ["main.cc", "config.cc", "model/configGraph.cc", "model/configComponent.cc", "model/python/pymodel.cc", "model/python/pymodel_comp.cc", "model/json/jsonmodel.cc", "factory.cc"],
  [("main", "main.cc"), ("ConfigGraph::checkForStructuralErrors", "model/configGraph.cc"), ("ConfigComponent", "model/configComponent.cc"), ("SSTJSONModelDefinition", "model/json/jsonmodel.cc"), ("pymodel_comp", "model/python/pymodel_comp.cc")],
  "c29", "fuzzing: mutated models, interface calls and command lines; injected defects of known kinds against an accept/refuse oracle", SIM_TRUST)
