P = dict(id="C06", title="Compressed snapshot records store every entry exactly or count it as skipped",
 statement="Appending any sequence of context-tree references and immediate entries to a compressed record leaves it decoding to exactly the entries that were accepted, in order, with the counts it reports, and accounts for every other entry as skipped. The record never writes outside its buffer, entries are refused only when their block does not fit, a refused block leaves the record unchanged, and parsing a record consumes exactly its size.",
 over=["inputs", "histories"], qtext="any record state, any block of up to 4 nodes or entries, any buffer up to 512 bytes, any ids and values; any interleaving of appends",
 why="Tests append two or three entries into a large buffer; records that fill up, several node blocks and other interleavings are not reached.",
 files=["src/common/CompressedSnapshotRecord.h", "src/common/CompressedSnapshotRecord.cpp"],
 state=[("record", "node section, immediate section, counts and positions in one byte buffer", "src/common/CompressedSnapshotRecord.h")],
 mechanism=[("blockwise append with size check", "CompressedSnapshotRecord::append"), ("decoding views", "CompressedSnapshotRecordView::unpack_nodes, unpack_immediate")],
 observe=["record bytes, counts, num_skipped, decoded entries"],
 note="Proof of size/position/skip bookkeeping for any state with encoder and byte moves replaced by their contracts; content correctness bounded (11 nodes, 9 entries, one-byte codec) plus native runs up to 150 entries each.")
