p("C08", "Clock handlers fire once per active cycle, on time, in registration order",
  "A clock handler is called exactly once, at time cycle*period with that cycle number, in every cycle throughout which it is active, and never while inactive, however handlers are registered, activated, deactivated, unregistered or ended "
  "(by returning true), from event handlers, other clocks' handlers or the handlers of the same clock, including itself; ordered handlers of a component fire in registration order; activate, reregisterClock and getNextClockCycle name the cycle "
  "that will fire next; all of it survives checkpoint/restart and threads.",
  ["histories", "inputs", "schedules"], "all scripts of clock operations over any number of handlers, periods, components and subcomponents",
  "Tests run a fixed clock or two that never change; handler lists, groups, lazily scheduled clocks and cycle bookkeeping only diverge in particular operation sequences.",
  ["clock.cc", "clock.h", "baseComponent.cc", "simulation.cc"], [("Clock::execute / registerHandler / schedule", "clock.cc"), ("Clock::Group", "clock.h"), ("registerClock API", "baseComponent.cc")],
  "c08", "stateful property-based testing: random operation scripts inside real simulations, history checked against the clock contract", SIM_TRUST)
