P = dict(id="C04", title="Min, max, sum and mean on values are exact and order-independent",
 statement="For numeric values of one type, min and max return the smaller and larger operand, addition returns the sum, and the running min/max/sum update folds each new value in exactly, with an empty accumulator adopting the first value. Min and max are commutative and associative, integer sums are too, so partial results merge in any order; the mean divides by the count (integers truncate toward zero), and non-numeric values have none.",
 over=["inputs", "histories"], qtext="all int64, uint64 and non-NaN double operands, all accumulator states, all nonzero 32-bit counts",
 why="Tests add up a few small numbers; merge-order independence quantifies over all triples and accumulator states.",
 files=["src/common/Variant.cpp", "include/caliper/common/Variant.h"],
 mechanism=[("arithmetic on values", "src/common/Variant.cpp: operator+=, min, max, div, update_minmaxsum")],
 observe=["Variant::operator+=, min, max, div, update_minmaxsum"],
 note="Proof for all operands. Double + and / are uninterpreted (commutative +), which covers IEEE arithmetic; integer sums wrap modulo 2^64.")
