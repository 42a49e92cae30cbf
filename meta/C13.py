P = dict(id="C13", title="Trace buffers return every recorded snapshot exactly once",
 statement="Every snapshot recorded by the trace service is returned by each flush exactly once, with all its entries unchanged and in order within its chunk, whatever mix of threads (also finished ones) recorded it, until the buffers are cleared; clearing removes all. When a buffer is full the grow policy adds a chunk, the flush policy writes everything out exactly once and goes on in an empty buffer, and the stop policy drops new snapshots until the next flush or clear but keeps the stored ones. A snapshot is never stored past the end of its buffer: if it does not fit it is dropped. Usage statistics add up over the chunks.",
 over=["inputs", "histories", "faults"], qtext="any chunk size and fill level and records of up to 120 entries (the runtime's maximum) with any encoded lengths; natively random records, threads, flushes and clears past several buffer overflows for each policy",
 why="Tests record a few snapshots that fit in the first chunk; overflow of each policy is never reached.",
 files=["src/services/trace/Trace.cpp", "src/services/trace/TraceBufferChunk.cpp"],
 state=[("trace buffer", "per-thread list of chunks with packed records", "src/services/trace/TraceBufferChunk.h")],
 mechanism=[("store", "TraceBufferChunk::fits/save_snapshot"), ("overflow policies", "Trace::handle_overflow"), ("flush/clear", "TraceBufferChunk::flush/reset, Trace::flush_cb/clear_cb")],
 observe=["records passed to the flush function"],
 note="Unbounded proof of fits/save_snapshot with a loop contract against the codec contracts (C01, C06); whole-runtime native random histories with the trace service against a multiset model.")
