p("C21", "The interactive console stops on time and shows and sets the live state exactly",
  "In a serial run driven through the interactive debug console, the console is entered exactly where told: at the start time, after `run <time>` at exactly that much later and before the activities of that time, and right after the first activity in which a watchpoint's condition "
  "(comparisons by mathematical value of variables and constants of any kind, `changed`, joined left to right by && and ||) held before or after one of the selected handlers of its component. There, `time`, `pwd`, `cd` and `print` (any base) report the true time, place and value of any variable of any component, subcomponent or vector; "
  "`set` stores exactly the given value, or, if the variable cannot hold it or does not exist, says so and changes nothing; trace watchpoints record the values around each handler, keep the last N samples, invoke their action after the given number of samples past the trigger, and report the trigger's record; `changed` means changed since the condition was last checked. "
  "User-defined commands run exactly their instructions, as if typed, and the history lists and repeats (`!!`, `!n`, `!-n`, `!text`, `!?text`) exactly the commands that were entered. "
  "Nothing else changes: the simulation goes on from the changed state exactly as the model predicts, and malformed commands are refused without effect or crash.",
  ["inputs", "histories"], "all serial simulations with state of every serializable kind and all console scripts",
  "The tests replay a few fixed scripts against reference output of one model; value ranges, mixed-sign comparisons, wrapped trace buffers, subcomponents and bad input are not sampled.",
  ["impl/interactive/debugConsole.cc", "impl/interactive/ObjTreeHelpers.h", "impl/interactive/NumericHandle.h", "serialization/ObjTreeLeaves.h", "watchPoint.cc", "interactiveAction.h"],
  [("consoleExecute", "impl/interactive/debugConsole.cc"), ("setFromString", "serialization/ObjTreeLeaves.h"), ("check()", "watchPoint.cc")],
  "c21", "model-based property testing: random simulations and console scripts against a reference model of the transcript and of every state", SIM_TRUST)
