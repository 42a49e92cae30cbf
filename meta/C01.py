P = dict(id="C01", title="Binary encodings of integers and values decode to what was encoded",
 statement="Encoding any 64-bit integer, or any value of any type, into the compact binary form and decoding it yields exactly the original (type, size and payload) and consumes exactly the bytes written. Encoding writes at most 10 bytes per integer and 20 per value and touches nothing behind its output; decoding arbitrary bytes never reads past those limits and reports failure (and an empty value) exactly for invalid type tags.",
 over=["inputs"], qtext="all 2^64 integers; all values with any valid type tag, any size field and any payload; all byte strings given to the decoder; any two adjacent encodings",
 why="The tests round-trip a handful of sample values; the guarantee is over all 2^64 integers and all byte strings a reader may meet.",
 files=["src/common/util/vlenc.h", "src/common/cali_variant.c", "src/common/Variant.cpp", "include/caliper/common/Variant.h"],
 mechanism=[("7-bit variable-length integer encoding", "src/common/util/vlenc.h: vlenc_u64, vldec_u64"), ("value packing", "src/common/cali_variant.c: cali_variant_pack, cali_variant_unpack")],
 observe=["return values and output buffers of the encode/decode functions"],
 note="Proof for all inputs, loops unrolled to completion. Assumes clang's front end, the IR-to-C translation and cbmc are correct.")
