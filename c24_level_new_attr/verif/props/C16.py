from common import *
PROP = dict(id="C16", level="other", native_secs=6, units=[
 dict(file="c16_history.cpp", sources=[], native_sources=CM+RD, contracts=[dict(entry=e, kind="native", functions=["CaliWriter","CaliReader","CaliperMetadataDB"]) for e in ("roundtrip_small","roundtrip_many","roundtrip_globals","merge_streams","double_values")]),
 dict(file="c16_text.cpp", optional=True, native=False, sources=[], contracts=[
  dict(entry="cali_escape", unwind=4, bmc_unwind=5, bmc_entry="cali_escape_one", timeout=120, cuts={"_ZN4cali4util21write_cali_esc_stringERSoPKcm":[dict(loop=0,inv="vf_inv_esc",havoc="vf_havoc_esc",phis=[("i","i64")])]}, functions=["write_cali_esc_string"]),
  dict(entry="read_word", unwind=4, bmc_unwind=4, bmc_entry="read_word_few", timeout=120, cuts={"_ZN12_GLOBAL__N_117read_escaped_wordB5cxx11ERNS_18fast_istringstreamE":[dict(loop=0,inv="vf_inv_word",havoc="vf_havoc_word",phis=[("escape","i8")])]}, functions=["read_escaped_word"]),
  dict(entry="uint_roundtrip", unwind=22, timeout=200, kind="bounded", bound="numbers below 100000", functions=["write_uint64","read_uint64_element"])]),
 ])
