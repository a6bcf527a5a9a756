p("C03", "Checkpoint and restart do not change the simulation",
  "For every model, checkpoint period and execution configuration, taking checkpoints leaves the simulation unchanged, and a restart from any checkpoint taken before the end of the simulation, serially or in "
  "parallel and with the same or a different number of ranks and threads, continues exactly as the uninterrupted run: every component sees the same events, clock ticks, order, times, state and end time after the checkpoint.",
  ["crash_points", "programs", "configurations"], "all models x checkpoint times x execution configuration of both runs",
  "The tests restart a handful of fixed models at one or two checkpoints in the same configuration; what is in flight at a checkpoint, and how it is redistributed, depends on model, time and partitioning.",
  ["checkpointAction.cc", "checkpointAction.h", "simulation.cc", "link.cc", "componentInfo.cc", "impl/timevortex/timeVortexPQ.cc", "impl/timevortex/timeVortexBinnedMap.cc", "clock.cc", "sync/syncManager.cc", "serialization/objectSerialization.cc", "impl/partitioners/singlepart.cc", "main.cc"],
  [("checkpoint action", "checkpointAction.cc"), ("link and pending event serialization", "link.cc"), ("Simulation::restart", "simulation.cc")],
  "c03", "property-based testing: random programs x checkpoint period x restart configuration, compared to a serial reference simulator",
  SIM_TRUST + " Restarts in interactive mode and real time checkpoint triggers are not generated.", observe=["per component log after the restart time"])

UNIT_TRUST = ("Random exploration with a fixed generator; the oracle is written in Python from the documentation, independently of the code. The real code runs inside an sst process "
              "rebuilt from /repo with -O0.")

p("C05", "UnitAlgebra arithmetic, comparison, parsing and printing are exact",
  "Every UnitAlgebra quantity parses from any documented spelling (SI and binary prefixes, compound units, numerator/denominator, powers, exponents) to the exact decimal value and the reduced unit, malformed strings and unknown units are "
  "refused; +, -, *, /, inverse, comparison, rounding and conversion to other number types agree with exact arithmetic on units; mismatched units are refused; printing (plain, best SI, precision) parses back to the same quantity. The C++ and the Python configuration classes agree.",
  ["inputs", "programs"], "all quantity strings and all sequences of operations on quantities",
  "The tests print a fixed list of expressions; prefixes, unit combinations, negative values, signs and magnitudes outside that list are never seen.",
  ["unitAlgebra.cc", "unitAlgebra.h", "decimal_fixedpoint.h", "model/python/pymodel_unitalgebra.cc"],
  [("Units parse, reduce", "unitAlgebra.cc"), ("best SI printing", "unitAlgebra.cc"), ("Python binding", "model/python/pymodel_unitalgebra.cc")],
  "c05", "property-based testing: random expressions over random quantities against an exact rational model", UNIT_TRUST)

p("C06", "decimal_fixedpoint arithmetic is exact to its precision",
  "For every whole and fraction word count, decimal_fixedpoint construction from strings, integers and doubles, +, -, *, /, inverse, negate, comparison, rounding, precision printing and conversion to integer and floating point types agree with exact "
  "decimal arithmetic truncated or rounded to the declared number of digits, over the whole representable range and for both signs; strings out of range or malformed are refused.",
  ["inputs", "programs"], "all operands and operation sequences for several word counts",
  "The tests use a few dozen literals; carries, borrows, signs, word boundaries and rounding cases are not sampled.",
  ["decimal_fixedpoint.h"], [("add, subtract, multiply, divide on words", "decimal_fixedpoint.h"), ("toString, convert_to", "decimal_fixedpoint.h")],
  "c06", "property-based testing: random operation sequences against exact rational arithmetic", UNIT_TRUST)

p("C07", "Time bases convert to and from core cycles exactly",
  "For every core time base and every time or frequency string, the TimeLord and TimeConverter give the number of core cycles that exact arithmetic gives; times that are not representable are refused. Conversion of any cycle count to and "
  "from core time, the period and frequency strings, and the current simulated time in every unit (ns, us, ms, any time base), agree with exact arithmetic at any simulated time.",
  ["inputs", "configurations"], "all core time bases x time base strings x cycle counts x simulated times",
  "The tests use the default 1ps time base and round numbers; other time bases, periods that do not divide, frequencies and large counts are not tried.",
  ["timeLord.cc", "timeLord.h", "timeConverter.cc", "timeConverter.h", "baseComponent.cc", "simulation.cc"], [("TimeLord::getTimeConverter, getSimCycles", "timeLord.cc"), ("TimeConverter", "timeConverter.h")],
  "c07", "property-based testing: random time bases and quantities against exact rational arithmetic", UNIT_TRUST)
