from common import *
PROP = dict(id="C18", level="other", native_secs=12, units=[
 dict(file="c18_filter.cpp", sources=[], native_sources=CM+RD, contracts=[dict(entry="filter_records", kind="native", functions=["RecordSelector::pass","CalQLParser::parse_where","QueryProcessor::process_record"])]),
 dict(file="c18_select.cpp", optional=True, native=False, sources=V[:4], contracts=[dict(entry="select_"+e, unwind=5, timeout=200, kind="bounded", bound="one condition; records with a path of two nodes and one immediate value in either order, values below 256 (the comparison itself is under contract in C02)", functions=["RecordSelector::pass"]) for e in ("exist","notexist","eq","ne","lt","gt","le","ge","exist_swap","eq_swap","ne_swap","lt_swap")]),
 ])
