p("C16", "Simulations end when and how they were asked to, with the full life cycle",
  "A run ends at the time at which the last primary component that did not allow it says it is OK to end (all its events at that time are still delivered; later do-not-end calls at the same or the next cycle postpone it), at --stop-at, at the point a SIGINT/SIGTERM arrives "
  "(at once serially, by the next synchronization in parallel), or when --exit-after has passed; SIGUSR1/SIGUSR2 only print status. Every component is constructed, then sees every init phase in order, setup, its run events, every complete phase, finish and destruction exactly once, "
  "with complete() and finish() at the end time that is reported; emergencyShutdown() is called exactly after a signal. A fatal error ends the run at once with its code and message and no finish().",
  ["inputs", "schedules", "histories"], "all histories of end-related actions and job shapes",
  "Tests end runs in one fixed way; repeated transitions around one cycle, signals next to the end and all job shapes are not sampled.",
  ["exit.cc", "exit.h", "simulation.cc", "baseComponent.cc", "component.cc", "stopAction.h", "realtime.cc", "realtimeAction.h", "output.cc", "main.cc"],
  [("primary component count", "exit.cc"), ("life cycle phases", "simulation.cc"), ("signal handling", "realtime.cc"), ("fatal errors", "output.cc")],
  "c16", "model-based property testing: random histories of end-related actions against a reference model of the life cycle", SIM_TRUST)
