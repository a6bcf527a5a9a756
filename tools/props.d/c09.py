p("C09", "Parameters reach elements exactly and are found by documented precedence",
  "Every parameter set from the configuration (any Python value, local or in shared sets, serial or on several ranks) reaches the element as its string. Params lookups take the local value first, then shared sets in the order they were added; "
  "find, find_array, find_set, find_map, scoped params, contains, getKeys, size, copies, insertion, clearing and both serialization forms agree with that for every operation sequence; conversions give the exact value or are refused.",
  ["inputs", "programs", "configurations"], "all parameter maps, shared sets and sequences of Params operations",
  "The tests read a fixed list of parameters; precedence, scopes, quoting, container syntax, copies and defaults are sampled once or never.",
  ["params.cc", "params.h", "from_string.h", "model/python/pymodel.cc", "model/python/pymodel_comp.cc", "model/configComponent.cc"],
  [("getString lookup order", "params.cc"), ("getDelimitedTokens, cleanToken", "params.cc"), ("find_array, find_set, find_map", "params.h"), ("serialize_order", "params.cc")],
  "c09", "property-based testing: random configurations and operation programs against a reference model of Params", UNIT_TRUST)
