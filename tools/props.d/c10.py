p("C10", "Configurations are built as written and written configurations rebuild them",
  "A simulation built from a Python or JSON configuration has exactly the elements, types, parameters (any string), shared parameter sets, coordinates, subcomponent slots, links, ports, latencies, port modules, statistics, statistic groups, "
  "weights and program options that the configuration states, whichever form of the API states them. The files written by --output-json and --output-config, when run, build the same simulation again "
  "(the JSON format has no coordinates and weights), and what those runs write out is the same configuration.",
  ["inputs", "programs"], "all configurations expressible in Python or JSON",
  "The tests round-trip a few well-behaved configurations with simple names and values; escaping, name collisions, shared statistics, port modules, enable-all parameters and precise latencies are never sampled.",
  ["model/configComponent.cc", "model/configLink.cc", "model/configStatistic.cc", "model/python/pymodel_comp.cc", "model/python/pymodel_portmodule.cc", "model/python/pymodel_stat.cc", "model/python/pymodel_link.cc", "model/python/pymodel.cc", "model/json/jsonmodel.cc", "model/cfgoutput/jsonConfigOutput.cc", "model/cfgoutput/pythonConfigOutput.cc", "params.cc"],
  [("JSON reader", "model/json/jsonmodel.cc"), ("JSON writer", "model/cfgoutput/jsonConfigOutput.cc"), ("Python writer", "model/cfgoutput/pythonConfigOutput.cc"), ("Python objects", "model/python/pymodel_comp.cc")],
  "c10", "property-based testing: random configurations, model comparison and round-trip through both written formats", SIM_TRUST)
