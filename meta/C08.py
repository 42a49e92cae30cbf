P = dict(id="C08", title="Snapshot records keep what fits in order, count the rest, and find values",
 statement="Adding entries to a snapshot record of any capacity and fill level stores exactly those that fit, in order, counts every other one as skipped, never writes behind the record's storage and leaves earlier entries alone; removing an entry takes out one match and keeps the order of the rest. Looking up an attribute in an entry, path or record yields the innermost (first) match or nothing, and packing an entry and unpacking it yields the same entry within the documented size.",
 over=["inputs", "histories"], qtext="any builder state with capacity up to 4 and blocks of up to 3 entries, any entries; paths of up to 3 nodes with any ids and values; any entry for packing",
 why="Tests fill records with a few fixed entries; full records at every fill level and every path shape are not sampled.",
 files=["include/caliper/SnapshotRecord.h", "include/caliper/common/Entry.h", "src/common/Entry.cpp"],
 state=[("record", "entries, length, capacity, skipped count", "include/caliper/SnapshotRecord.h")],
 mechanism=[("append/remove", "SnapshotBuilder"), ("lookup", "SnapshotView::get, Entry::get, Entry::value, Entry::count"), ("serialization", "Entry::pack, Entry::unpack")],
 observe=["record views, skipped count, lookup results, packed bytes"],
 note="Entry pack/unpack and immediate lookup proved for all inputs; record operations and path lookups over an arbitrary state of bounded capacity/depth (bounded).")
