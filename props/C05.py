PROP = dict(id="C05", level="proof", units=[
 dict(file="c05_types.cpp", sources=["src/common/cali_types.c"], contracts=[
  dict(entry="type_roundtrip", unwind=14, functions=["cali_type2string","cali_string2type"]),
  dict(entry="type_out_of_range", unwind=14, functions=["cali_type2string","cali_string2type"]),
  dict(entry="type_unknown_string", unwind=14, functions=["cali_string2type"], kind="bounded", bound="strings of up to 11 bytes"),
  dict(entry="prop_buffer", unwind=24, functions=["cali_prop2string"]),
  dict(entry="prop_levels", unwind=129, functions=["cali_prop2string","cali_string2prop"],cbmc=["--sat-solver","cadical"])]+[
  dict(entry="prop_rt_"+k, unwind=129, cost=9, kind="bounded", bound="one level per scope, all 256 flag combinations; the full product of flags, scopes and levels runs natively", functions=["cali_prop2string","cali_string2prop"],cbmc=["--sat-solver","cadical"]) for k in ("none","process","thread","task")]+[
  dict(entry="prop_words_%d"%k, unwind=30, unwindset=["M_ctype_b_loc.0:400"], cbmc=["--sat-solver","cadical"], kind="bounded", bound="text of one name and its two neighbouring characters", functions=["cali_string2prop"]) for k in (1,2,3)]
 )])
