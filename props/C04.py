PROP = dict(id="C04", level="proof", units=[
 dict(file="c04_arith.cpp", sources=["src/common/cali_variant.c","src/common/Variant.cpp"], native_sources=["src/common/cali_variant.c","src/common/Variant.cpp","src/common/StringConverter.cpp","src/common/cali_types.c","src/common/util/parse_util.cpp","src/common/util/format_util.cpp"], contracts=[
  dict(entry=k+"_"+t, unwind=9, ufp=(["fadd","fdiv"] if t=="DOUBLE" else []), functions=["Variant::min","Variant::max","Variant::operator+=","Variant::update_minmaxsum"]) for t in ["INT","UINT","DOUBLE"] for k in ("arith","running","merge")]+[
  dict(entry="divide_"+t, unwind=9, functions=["Variant::div"], cbmc=(["--z3"] if t!="DOUBLE" else []), ufp=["fdiv"]) for t in ["INT","UINT","DOUBLE"]])])
