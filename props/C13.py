from common import *
T=["src/services/trace/TraceBufferChunk.cpp","src/services/trace/Trace.cpp"]
PROP = dict(id="C13", level="proof", native_secs=6, units=[
 dict(file="c13_chunk.cpp", optional=True, native=False, sources=V[:4]+T[:1], contracts=[dict(entry="save_fits", nomem=True, unwind=4, bmc_unwind=6, bmc_entry="save_fits_few", timeout=120, cuts={"_ZN5trace16TraceBufferChunk13save_snapshotEN4cali12SnapshotViewE":[dict(loop=0,inv="vf_inv_save",havoc="vf_havoc_save",phis=[("__begin1","ptr")])]}, functions=["TraceBufferChunk::fits","TraceBufferChunk::save_snapshot"])]),
 dict(file="c13_history.cpp", sources=[], native_sources=RT+SV+T, cflags=["-DVF_SERVICES(X)=X(trace)"], contracts=[dict(entry=e, kind="native", functions=["TraceBufferChunk","Trace service"]) for e in ("chunk_history","trace_small","trace_grow","trace_flush","trace_stop","trace_zero")]),
 ])
