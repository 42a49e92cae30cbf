from common import *
PROP = dict(id="C21", level="other", native_secs=10, units=[
 dict(file="c21_json.cpp", sources=[], native_sources=CM+RD, contracts=[
  dict(entry="json_records", kind="native", functions=["JsonFormatter::process_record","JsonFormatter::flush"]),
  dict(entry="json_split", kind="native", functions=["JsonSplitFormatter::process_record","JsonSplitFormatter::flush"])]),
  dict(file="c16_text.cpp", optional=True, native=False, sources=[], contracts=[
  dict(entry="json_escape", unwind=4, bmc_unwind=5, bmc_entry="json_escape_one", timeout=120, cuts={"_ZN4cali4util21write_json_esc_stringERSoPKcm":[dict(loop=0,inv="vf_inv_esc",havoc="vf_havoc_esc",phis=[("i","i64")])]}, functions=["write_json_esc_string"])]),
 ])
