P = dict(id="C03", title="Value construction and conversion never silently change a value",
 statement="A value built from any integer, double, boolean, type or pointer reads back exactly, with the right type and size, and zero is not empty. Converting a value to int, int64, uint64, bool, double, type or id yields the exact (or truncated-toward-zero) value and success exactly when it is representable in the target, and zero (or the invalid id) with failure otherwise; strings, blobs and raw pointers never convert.",
 over=["inputs"], qtext="all payloads of all value types, all target types, success reporting requested or not; string lengths up to 2^32-1",
 why="Tests convert a few small samples; the boundary values at which representability changes are not all sampled.",
 files=["src/common/cali_variant.c", "src/common/Variant.cpp", "include/caliper/common/cali_variant.h", "include/caliper/common/Variant.h"],
 mechanism=[("conversions with range checks", "src/common/cali_variant.c: cali_variant_to_*"), ("constructors", "include/caliper/common/cali_variant.h: cali_make_variant*")],
 observe=["cali_variant_to_*, Variant::to_*, accessors"],
 note="Proof for all scalar payloads; C-string constructor bounded to 7 bytes.")
