F=["cali_variant_to_int","cali_variant_to_int64","cali_variant_to_uint","cali_variant_to_bool","cali_variant_to_double","cali_variant_to_type","Variant::to_id"]
G=["cali_make_variant","cali_make_variant_from_*","cali_variant_get_data","cali_variant_get_size","cali_variant_get_type","cali_variant_get_ptr","cali_variant_is_empty"]
PROP = dict(id="C03", level="proof", units=[
 dict(file="c03_convert.cpp", sources=["src/common/cali_variant.c","src/common/Variant.cpp"], native_sources=["src/common/cali_variant.c","src/common/Variant.cpp","src/common/StringConverter.cpp","src/common/cali_types.c","src/common/util/parse_util.cpp","src/common/util/format_util.cpp"], contracts=[
  dict(entry="convert_"+t, unwind=10, functions=F) for t in ["INV","INT","UINT","ADDR","DOUBLE","BOOL","TYPE","nonnumeric"]]+[
  dict(entry=e, unwind=10, functions=G) for e in ("construct_scalars","construct_blob")]+[dict(entry="construct_cstring", unwind=10, functions=G, kind="bounded", bound="C strings of up to 7 bytes")])])
