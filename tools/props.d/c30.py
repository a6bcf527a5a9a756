
p("C30", "Observing a run does not change it, and profile counts are exact",
  "Running a model with profile tools (event handlers, clocks, syncs, code segments; counts or times), timing information, verbose output, heartbeats, configuration output, checkpoints or real-time actions leaves every event, clock tick and the simulated end time as in the "
  "unobserved run, on any rank and thread count and when resumed from a checkpoint taken while observed. The event, send, clock tick and code segment counts that a profile tool reports for each key of its level (global, type, component, subcomponent; ports, points) equal what "
  "the elements did, in text and JSON; sync counts agree between tools and ranks, and exchanged events with those sent across ranks.",
  ["inputs", "schedules"], "all models, tools, levels, options and job shapes",
  "Four tests compare the output of one tool for one model in a serial run; none combines tools, options, threads, ranks or JSON output, or looks at the effect of observation on the run.",
  ["profile/eventHandlerProfileTool.cc", "profile/clockHandlerProfileTool.cc", "profile/componentProfileTool.cc", "profile/syncProfileTool.cc", "util/perfReporter.cc", "simulation.cc", "baseComponent.cc", "sync/syncManager.cc", "ssthandler.h"],
  [("EventHandlerProfileToolCount", "profile/eventHandlerProfileTool.cc"), ("Simulation::initializeProfileTools", "simulation.cc"), ("PerfReporter::output", "util/perfReporter.cc"), ("SyncManager::execute", "sync/syncManager.cc"), ("BaseComponent::configureLink_impl", "baseComponent.cc")],
  "c30", "metamorphic property-based testing: observed runs against an unobserved serial run, reported counts against counts kept by generated elements", SIM_TRUST)
