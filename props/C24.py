from common import *
F=["EventTrigger::pre_begin_cb","EventTrigger::pre_set_cb","EventTrigger::pre_end_cb"]
PROP = dict(id="C24", level="proof", native_secs=6, units=[
 dict(file="c24_events.cpp", sources=[], native_sources=RT+SV+["src/caliper/RegionFilter.cpp","src/services/event/EventTrigger.cpp"], cflags=["-DVF_SERVICES(X)=X(event)"], contracts=[dict(entry=e, kind="native", functions=f) for e, f in (
  ("filter_pass", ["RegionFilter::pass","RegionFilter::match","RegionFilter::parse_filter_config"]), ("filter_errors", ["RegionFilter::from_config"]), ("event_history", F+["EventTrigger::check_attribute","Caliper::push_snapshot_replace"]))]),
 dict(file="c24_pass.cpp", optional=True, native=False, sources=V, contracts=[dict(entry="exclude_first", unwind=4, unwindset=["M_memset.0:100"], timeout=120, functions=["RegionFilter::pass","RegionFilter::has_filters"])]),
 dict(file="c24_filter.cpp", optional=True, native=False, sources=V, contracts=[dict(entry="filter_lists", unwind=5, unwindset=["M_memset.0:100"], timeout=240, nomem=True, cbmc=["--sat-solver","cadical"], kind="bounded", bound="up to 3 prefix and 3 match entries; regular expressions of any length", functions=["RegionFilter::match"])]),
 dict(file="c24_trigger.cpp", optional=True, native=False, sources=V, contracts=[dict(entry=e, unwind=4, unwindset=["M_memset.0:100","F__ZN4cali23FixedSizeSnapshotRecordILm120EEC2Ev.0:122"], timeout=300, nomem=True, cbmc=["--sat-solver","cadical","--max-field-sensitivity-array-size","256"], kind="bounded", bound="current region at most two levels deep, one more context entry, at most two children per attribute", functions=[f,"EventTrigger::is_in_branch","EventTrigger::find_marker","RegionFilter::pass"]) for e, f in zip(("begin_selects","set_selects","end_selects"), F)]),
 ])
