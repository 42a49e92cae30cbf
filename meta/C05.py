P = dict(id="C05", title="Type and property names parse back to what they print",
 statement="Every attribute type has a unique name that parses back to it and any other text parses as the invalid type. A property name is recognised in a text exactly where it stands as a whole word. Printing any combination of attribute properties and parsing the text yields the same combination, and printing never writes outside the caller's buffer: it returns the terminated length, or -1 if it does not fit.",
 over=["inputs"], qtext="all types including out-of-range ones, all combinations of property flags, scopes and levels, all property words and buffer lengths",
 why="Tests print one or two property sets into a large buffer; neither the 8192 combinations nor short buffers are covered.",
 files=["src/common/cali_types.c", "include/caliper/common/cali_types.h"],
 state=[("typemap/propmap", "name tables", "src/common/cali_types.c")],
 mechanism=[("table driven printing and parsing", "src/common/cali_types.c: cali_type2string, cali_string2type, cali_prop2string, cali_string2prop")],
 observe=["return values and buffers of the four functions"],
 note="Proof except: property round trip proved for all flag sets at one level per scope (and all scopes x levels without flags), full product executed natively; unknown type names up to 11 bytes.")
