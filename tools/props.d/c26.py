
p("C26", "String conversion, tokenizing and trimming helpers are exact",
  "from_string converts every well formed decimal, hexadecimal, octal, boolean, floating point or enum string of any arithmetic type to exactly its value and refuses out of range and malformed strings; to_string output converts back to the same value; "
  "the tokenizers (plain, character set, escaped list with quotes), trim and case helpers split and join every string as documented, losing or inventing no characters.",
  ["inputs"], "all strings and target types",
  "The tests never call these helpers directly; they sit under every parameter and command line option, where only plain values appear.",
  ["from_string.h", "stringize.h"], [("from_string", "from_string.h"), ("Tokenizer, tokenize, trim", "stringize.h")],
  "c26", "property-based testing: random strings against Python reference functions", UNIT_TRUST)
