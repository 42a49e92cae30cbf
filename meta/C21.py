P = dict(id="C21", title="JSON output is well-formed and shows every selected value of every record",
 statement="For any records, names, values, selection, aliases and options, the output of `json` (in the `split` layout after adding the outer brackets) and `json-split` is one well-formed JSON document without duplicate members (RFC 8259; bytes over 0x7f are passed on, control characters except newline are dropped). json: one object per record with a selected value, in order, whose members are exactly the selected attributes under their aliases; regions (nested attributes) combine to `path` unless separate-nested; the values of an attribute on a path appear outermost first joined by '/'. Finite INT, UINT, DOUBLE values are JSON numbers unless quote-all. object: also the globals and each selected attribute's description. json-split: one row per record; value columns show the record's value or null; reference columns show null or the index of a node whose chain of labels is exactly the record's path, whose nodes belong to that column, parents before children. SELECT path selects the nested attributes. (Attributes are distinct under their aliases; nested ones are not stored as value.)",
 over=["inputs"], qtext="random attributes of all types with arbitrary bytes in names and values, infinities and NaN, random trees, selections, aliases, layouts and options; output parsed with a strict independent JSON parser; escaping proved for strings of any length",
 why="Tests look for substrings in few outputs; Hatchet, Thicket and every JSON consumer need parseable, complete output for any name or value.",
 files=["src/reader/JsonFormatter.cpp", "src/reader/JsonSplitFormatter.cpp", "src/common/util/format_util.h"],
 state=[("records written", "separators between records depend on the number written", "src/reader/JsonFormatter.cpp"), ("hierarchy nodes", "shared path nodes of json-split", "src/reader/JsonSplitFormatter.cpp")],
 mechanism=[("records", "JsonFormatterImpl::print"), ("object layout", "write_globals, write_attributes"), ("json-split", "Hierarchy::get_id, write_hierarchy_entry, write_immediate_entry"), ("escaping", "write_json_esc_string")],
 observe=["text written by FormatProcessor for json and json-split"],
 note="write_json_esc_string is proved for strings of any length (loop contract: what each iteration writes decodes to the character at its position). The formatters run natively on random records; their output is read by a strict parser and compared with the records.")
