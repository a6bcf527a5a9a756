p("C19", "Output objects write each accepted message once, whole and in place",
  "Every message given to an Output object is written exactly once, complete, unmixed with others and in the order given, to the object's destination (stdout, stderr, the debug file, a file of its own; with the rank appended to file names in multi-rank runs) "
  "iff the object is initialized, its destination is not NONE, and, for verbose and prefixed verbose messages, the output level is at most the object's level and all output bits are in its mask. "
  "It carries the object's (or the temporary) prefix with every escape code expanded as documented and every other character, like a percent sign, unchanged; output() without call information has no prefix. This holds for every history of creating, initializing once, copying, assigning, "
  "destroying, flushing and changing objects (prefix, level, mask, destination; queries return what was set), for objects that share a file, on any rank and thread count, after a restart, and for what was written before a fatal error, whose message goes to stderr and to the object's file.",
  ["inputs", "histories", "schedules"], "all operation histories, prefixes, messages, job shapes and checkpoints",
  "The test prints a fixed list of messages with one object per destination; copies, reopened files, percent signs, shared files, threads and restarts are not sampled.",
  ["output.cc", "output.h", "main.cc"],
  [("prefix", "output.cc"), ("files", "output.cc"), ("filters", "output.h")],
  "c19", "model-based property testing: random operation histories on Output objects against a reference model of every file", SIM_TRUST)
