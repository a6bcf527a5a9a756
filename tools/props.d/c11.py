p("C11", "Partitioning is valid, keeps no-cut groups together and changes nothing",
  "Whichever partitioner a run uses, every component is placed on an existing rank and thread, together with its subcomponents; components connected by no-cut links share a place; sst.self keeps the ranks "
  "given in the configuration, sst.single uses one place, sst.linear and sst.roundrobin spread the (joined) components so that no two places differ by more than one, and sst.simple leaves no place empty when there are enough components. "
  "The elements built, their ports, and every delivery are the same under any placement. A configuration written with its partition reproduces that placement and the same simulation when it is loaded again, whole or one file per rank.",
  ["inputs"], "all configurations, partitioners, rank and thread counts",
  "The tests partition a few regular graphs; no-cut groups, subcomponent links, ranks without components and re-loading of a written partition by several ranks are not sampled.",
  ["impl/partitioners/linpart.cc", "impl/partitioners/simplepart.cc", "impl/partitioners/rrobin.cc", "impl/partitioners/singlepart.cc", "model/configGraph.cc", "model/configLink.cc", "main.cc", "model/json/jsonmodel.cc", "model/cfgoutput/jsonConfigOutput.cc", "model/cfgoutput/pythonConfigOutput.cc"],
  [("partitioners", "impl/partitioners/linpart.cc"), ("no-cut groups", "model/configGraph.cc"), ("graph distribution", "model/configGraph.cc"), ("parallel load", "main.cc")],
  "c11", "property-based testing: random configurations and job shapes, model comparison, round-trip of written partitions", SIM_TRUST)
