P = dict(id="C22", title="Text reports show every record's values in the requested order",
 statement="table: a header and one row for each record with a value for a shown (or ORDER BY) attribute; columns are the selected attributes in SELECT order (aliases as titles), or all visible attributes that occur; each cell is the record's first entry of the attribute (path values outermost first, joined by '/'). tree: one line per distinct region path (or path over the given attributes), indented below its parent's line, showing its record's values, plus one line per record if there are several. Texts are shown in full up to the column width (table 60, tree 48, or column-width, at least 4), else shortened in the middle. ORDER BY: rows, sibling nodes (by the minimum, for DESC maximum, in their subtree) and a node's records appear in the order of the last key, ties by the one before it, as far as they have the keys. print-globals: first one line per global. expand: one line per record with the name=value of each selected entry. format: the title, then one line per record with the format string's texts and values padded to their widths.",
 over=["inputs"], qtext="random records over attributes of all types with deep and shared paths, selections, aliases, one or two sort keys with missing values, width limits, globals and format strings; output parsed back and compared with the records",
 why="Tests check few report lines; users read profiles from these reports, so a lost, misplaced or wrongly sorted line misleads them.",
 files=["src/reader/TableFormatter.cpp", "src/reader/TreeFormatter.cpp", "src/reader/SnapshotTree.cpp", "src/reader/Expand.cpp", "src/reader/UserFormatter.cpp", "src/reader/SnapshotTableFormatter.cpp", "src/common/util/format_util.cpp"],
 state=[("snapshot tree", "one node per path, with the records that end there", "src/reader/SnapshotTree.cpp"), ("table rows", "cells per column", "src/reader/TableFormatter.cpp")],
 mechanism=[("tree building", "SnapshotTree::add_snapshot"), ("sorting", "SnapshotTreeNode::min_val, max_val, sort; TableImpl::flush"), ("layout", "pad_left, pad_right, clamp_string")],
 observe=["text written by FormatProcessor for table, tree, expand and format"],
 note="The four formatters run natively on random records; their output is parsed back (columns by the header's offsets, tree lines by backtracking over sibling orders) and compared with the records under sanitizers.")
