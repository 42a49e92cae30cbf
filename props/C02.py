F=["cali_variant_compare","_cali_variant_value_eq","cali_variant_eq","operator==","operator!=","operator<","operator>","cali_make_variant"]
T=["INV","INT","UINT","ADDR","DOUBLE","BOOL","TYPE"]
PROP = dict(id="C02", level="proof", units=[
 dict(file="c02_order.cpp", sources=["src/common/cali_variant.c"], ub=["signed-integer-overflow"], contracts=[
  dict(entry=e, unwind=10, functions=F) for e in ["order_laws_"+t for t in T]+["order_value_"+t for t in T]+["order_types","order_ptr"]+["order_%s_%s"%(k,b) for k in ("antisym","trans","equal") for b in ("string","blob")]])])
