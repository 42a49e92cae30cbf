from common import *
A=["src/services/aggregate/AggregationDB.cpp","src/services/aggregate/Aggregate.cpp"]
PROP = dict(id="C14", level="other", native_secs=8, units=[
 dict(file="c14_db.cpp", optional=True, native=False, sources=V[:4], contracts=[dict(entry=e, unwind=7, timeout=240, kind="bounded", bound="three lookups of keys of one or two entries", functions=["AggregationDB::find_or_create_entry"]) for e in ("lookup_alloc","lookup_signal","lookup_signal_two")]),
 dict(file="c14_history.cpp", sources=[], native_sources=RT+SV+A, cflags=["-DVF_SERVICES(X)=X(aggregate)"], contracts=[dict(entry=e, kind="native", functions=["AggregationDB","Aggregate service"]) for e in ("aggregate_few","aggregate_many","aggregate_signal")]),
 ])
