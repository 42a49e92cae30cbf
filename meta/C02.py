P = dict(id="C02", title="Value comparison is a total order consistent with equality",
 statement="Comparing values of any types is antisymmetric, transitive and total (NaN excepted), orders numbers of one type by their numeric value and strings and blobs bytewise, and never depends on pointer identity of equal contents. Equality holds exactly when type and contents agree and is an equivalence consistent with comparison returning zero; no comparison overflows or truncates.",
 over=["inputs"], qtext="all pairs and triples of values of every type, strings and blobs of any length and content",
 why="Tests compare a few pairs; order laws quantify over all pairs and triples, including extreme integers and strings sharing prefixes.",
 files=["src/common/cali_variant.c", "include/caliper/common/cali_variant.h", "include/caliper/common/Variant.h"],
 mechanism=[("three-way comparison", "src/common/cali_variant.c: cali_variant_compare"), ("equality", "cali_variant_eq, _cali_variant_value_eq")],
 observe=["cali_variant_compare, cali_variant_eq, Variant operators"],
 note="Proof for all values; string/blob contents of any length through an unbounded first-difference contract of memcmp/strncmp (trusted libc contract).")
