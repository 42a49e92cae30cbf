from common import *
PROP = dict(id="C22", level="other", native_secs=8, units=[
 dict(file="c22_report.cpp", sources=[], native_sources=CM+RD, contracts=[dict(entry=e, kind="native", functions=f) for e, f in (
  ("table_rows", ["TableFormatter::process_record","TableFormatter::flush","format_record_as_table"]), ("tree_lines", ["TreeFormatter::process_record","TreeFormatter::flush","SnapshotTree::add_snapshot","SnapshotTreeNode::min_val","SnapshotTreeNode::max_val"]), ("expand_lines", ["Expand::process_record"]), ("format_lines", ["UserFormatter::process_record"]))]),
 ])
