from common import *
PROP = dict(id="C17", level="other", native_secs=10, units=[
 dict(file="c17_robust.cpp", sources=[], native_sources=CM+RD, contracts=[dict(entry=e, kind="native", functions=["CaliReader::read","CaliperMetadataDB","QueryProcessor","CalQLParser"]) for e in ("malformed_lines","any_text","any_query","any_format")]),
 dict(file="c17_scan.cpp", optional=True, native=False, sources=[], contracts=[
  dict(entry="scan_number", unwind=4, bmc_unwind=6, bmc_entry="scan_number_small", timeout=120, cuts={"_ZN12_GLOBAL__N_119read_uint64_elementERNS_18fast_istringstreamE":[dict(loop=0,inv="vf_inv_num",havoc="vf_havoc_num",phis=[])]}, functions=["read_uint64_element"]),
  dict(entry="scan_key", unwind=16, timeout=120, functions=["fast_istringstream::matches","fast_istringstream::good"])]),
 ])
