
p("C12", "Statistics report exactly the data given to them, when and where asked",
  "For every set of statistics (accumulator, histogram, unique count over all numeric types), every way of enabling them (explicitly, by name or type, enable-all with load levels, statistics shared between or inserted by sub-components, statistic groups) and every history of additions, "
  "the rows written by every output module (CSV, text, console, JSON, compressed) are exactly the documented ones: sums, minima, maxima, counts, bins and unique counts of the data added while the statistic was enabled; "
  "one row per multiple of a periodic rate, per reached event count, per explicit request and at the end of the run unless switched off; collection limited to startat..stopat; data reset on output iff requested; every row carries the right component, statistic, time and rank; "
  "and a run restarted from a checkpoint writes exactly the rows the original run wrote from the checkpoint time on. This holds for serial, threaded and MPI runs.",
  ["inputs", "histories", "schedules", "crash_points"], "statistics configurations x data histories x parallelism x checkpoint times",
  "The suite compares a few fixed configurations with golden files; wrong values need particular data (negative floats, a bin origin off the grid, counted additions), particular times (checkpoint at a start time) or thread timing on restart.",
  ["statapi/statengine.cc", "statapi/statbase.cc", "statapi/stataccumulator.h", "statapi/stathistogram.h", "statapi/statuniquecount.h", "statapi/statgroup.cc", "statapi/statoutputcsv.cc", "statapi/statoutputtxt.cc", "statapi/statoutputjson.cc", "statapi/statoutput.cc", "baseComponent.cc", "baseComponent.h", "model/configComponent.cc"],
  [("StatisticProcessingEngine output scheduling and start/stop", "statapi/statengine.cc"), ("registration and enabling", "baseComponent.h"), ("collection", "statapi/stathistogram.h"), ("CSV rows", "statapi/statoutputcsv.cc")],
  "c12", "model-based property testing: generated configurations and data histories run through real simulations, every written row compared with a reference model", SIM_TRUST)
