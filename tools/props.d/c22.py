p("C22", "sst-register and sst-config keep the configuration registry faithfully",
  "Whatever the history of sst-register calls over whatever configuration files (any line length, comments, blank lines, last line without newline), the registry holds exactly the settings that were registered last and not unregistered: "
  "registering stores all given settings of the model and keeps every other one unchanged; unregistering (by name with -u, by number with -m, or with -au those whose directory does not exist) removes all settings of those models and nothing else; "
  "-l lists exactly the registered models whose (first) setting names a directory, with the verdict whether it exists, in the numbering -m uses. sst-config prints exactly the value of a key (exit code 0), or nothing (exit code 1), or all of them, "
  "with the files merged in the documented precedence (install prefix, home directory, then the files of SST_CONFIG_FILE_PATH in order), and SST searches for element libraries exactly in the directories registered under keys ending in LIBDIR. "
  "Malformed calls and missing files are refused with a non-zero exit code, without a crash and without changing the registry.",
  ["inputs", "histories"], "all histories of calls by one process at a time, and all configuration files of the documented form",
  "The tests never call sst-register or sst-config; a lost or misfiled setting shows only later, as a library that is not found.",
  ["sstregistertool.cc", "sstconfigtool.cc", "env/envquery.cc", "env/envconfig.cc", "configShared.cc"],
  [("populateEnvironmentConfig", "env/envquery.cc"), ("setValue", "env/envconfig.cc"), ("sstUnregister", "sstregistertool.cc")],
  "c22", "stateful model-based property testing: random histories of tool calls against a dictionary model", SIM_TRUST)
