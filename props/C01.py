PROP = dict(id="C01", level="proof", units=[
 dict(file="c01_encoding.cpp", sources=["src/common/cali_variant.c"], contracts=[
  dict(entry="vlenc_roundtrip", unwind=13, functions=["vlenc_u64","vldec_u64"]),
  dict(entry="vlenc_sequence", unwind=13, functions=["vlenc_u64","vldec_u64"]),
  dict(entry="vldec_any_input", unwind=13, functions=["vldec_u64"]),
  dict(entry="variant_roundtrip", unwind=24, functions=["cali_variant_pack","cali_variant_unpack","Variant::pack","Variant::unpack"]),
  dict(entry="variant_unpack_bad_type", unwind=24, functions=["cali_variant_unpack","Variant::unpack"]),
 ])])
