P = dict(id="C14", title="On-line aggregation groups every snapshot exactly once",
 statement="The aggregate service keeps, per thread, one record for each distinct key - the snapshot's context-tree entries in order plus the configured immediate key attributes (up to 16 key entries). The record's count is the number of snapshots with that key, and min, max, sum and avg of each aggregatable attribute (known when the key was first seen) are over exactly that key's snapshots that have the attribute; other attributes don't matter. Each flush outputs every key's record once and changes nothing; records of finished threads are included; clearing removes everything. In a signal handler nothing is allocated: snapshots that don't fit are counted in one record marked SKIPPED, also after clearing, so no snapshot goes uncounted.",
 over=["inputs", "histories", "faults"], qtext="natively random histories of thousands of snapshots with random keys, values, threads, flushes and clears, and more keys than fit without allocation; any three lookups of small keys with any hashes and fill level",
 why="Tests aggregate a handful of keys on one thread; hash collisions, thousands of keys, clears and exhaustion are not reached.",
 files=["src/services/aggregate/AggregationDB.cpp", "src/services/aggregate/Aggregate.cpp"],
 state=[("aggregation database", "hash table of keys with aggregation kernels", "src/services/aggregate/AggregationDB.h")],
 mechanism=[("lookup", "AggregationDB::find_or_create_entry"), ("update", "AggregationDB::process_snapshot"), ("output", "AggregationDB::flush/clear, Aggregate::flush_cb/clear_cb")],
 observe=["records passed to the flush function"],
 note="Bounded contract of find_or_create_entry (with the growth of the vectors as a contract that forbids allocation in a signal handler); whole-runtime native random histories with the aggregate service against a reference model.")
