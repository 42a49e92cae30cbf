P = dict(id="C09", title="The blackboard is an exact map whose snapshots list the visible entries",
 statement="After any sequence of set, exchange and delete operations, looking up a key yields the value last stored for it, or nothing if it was deleted or never set; exchange returns the previous value. A snapshot holds every entry stored as visible, and only those, exactly once, whatever collisions and deletions moved entries around. Entries are refused, and counted as skipped, only when the table is at its fill limit; every modification changes the update count.",
 over=["inputs", "histories"], qtext="any table state with entries in any position and probe order, any key and operation; natively long random histories on the full-size table with colliding keys",
 why="Tests store a handful of attributes without collisions; deletions inside probe chains and full tables are not reached.",
 files=["src/caliper/Blackboard.h", "src/caliper/Blackboard.cpp"],
 state=[("table", "open-addressing hash table with linear probing", "src/caliper/Blackboard.h"), ("toc", "bitfield of entries listed in snapshots", "src/caliper/Blackboard.h")],
 mechanism=[("probing", "find_existing_entry, find_free_slot"), ("backward-shift deletion", "Blackboard::del"), ("visibility bits", "Blackboard::add, snapshot")],
 observe=["get, exchange, snapshot, count, num_skipped_entries"],
 note="Inductive step contracts (arbitrary invariant-satisfying state, one operation) discharged with the table size substituted to 8 (bounded); full-size table by native random histories.")
