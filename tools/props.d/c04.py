p("C04", "Serialization reproduces every value and object graph exactly",
  "For every value of every supported type (arithmetic, enum, string, all standard containers, adapters, tuples, variants, optionals, bitsets, arrays, dynamic arrays, smart and raw pointers, aggregates, user and polymorphic classes, and nestings of them) and every sequence of them: sizing, packing and unpacking use the same number of bytes; "
  "unpacking replaces whatever the target held by an equal value; packing leaves the source unchanged; a buffer that is too short is reported and never overrun. With pointer tracking, the unpacked object graph is isomorphic to the packed one: shared objects stay shared (also through shared, weak and unique pointers, pointers to containers and objects tracked by address), cycles are preserved, dynamic types are preserved.",
  ["inputs", "histories"], "all values, value sequences and object graphs, with and without pointer tracking",
  "The tests round-trip a few hand-written values per type with fixed sizes and one small pointer structure; empty/large/odd sizes, targets with previous content, mixed sequences and cyclic graphs are not sampled.",
  ["serialization/serialize.h", "serialization/serializer.h", "serialization/serializer.cc", "serialization/serializable.h", "serialization/serializable.cc", "serialization/impl/serialize_insertable.h", "serialization/impl/serialize_array.h", "serialization/impl/serialize_shared_ptr.h", "serialization/impl/serialize_unique_ptr.h", "serialization/impl/serialize_variant.h", "serialization/impl/packer.h", "serialization/impl/unpacker.h", "serialization/impl/sizer.h"],
  [("serialize", "serialization/serialize.h"), ("containers", "serialization/impl/serialize_insertable.h"), ("smart pointers", "serialization/impl/serialize_shared_ptr.h")],
  "c04", "property-based testing: generated values and object graphs through size/pack/unpack with round-trip, size and isomorphism oracles", UNIT_TRUST)
