from common import *
PROP = dict(id="C12", level="proof", native_secs=6, units=[
 dict(file="c12_handlers.cpp", optional=True, native=False, sources=V[:4]+["src/common/cali_types.c"], contracts=[dict(entry=e+"_"+k, unwind=6, kind="bounded", bound="blackboard paths of up to 3 nodes", functions=f) for e,f in (("begin",["handle_begin"]),("set",["handle_set"]),("end",["handle_end","load_current_entry"])) for k in ("region","unaligned","value")]),
 dict(file="c12_history.cpp", sources=[], native_sources=RT+SV, cflags=[], contracts=[dict(entry=e, kind="native", functions=["Caliper::begin","Caliper::end","Caliper::end_with_value_check","Caliper::set","Caliper::get","Caliper::pull_context","Caliper::create_attribute"]) for e in ("history_good","history_errors")]),
 ])
