P = dict(id="C07", title="Node and snapshot transfer buffers deliver every node and record unchanged",
 statement="A buffer of context-tree nodes or of compressed records, filled by any sequence of appends and possibly moved byte by byte to another process with its size and count, delivers every node (id, attribute, parent or its absence, typed value) and every record exactly once, in order and unchanged. Growing the buffer keeps its contents, and no append or import writes outside the reserved storage.",
 over=["inputs", "histories"], qtext="any buffer fill state and reserved size, any ids, any value size below 2^30; contents over any values of the transferable types",
 why="Tests send a handful of small nodes through one default buffer; growth at every fill level and large values are not reached.",
 files=["src/common/NodeBuffer.cpp", "src/common/SnapshotBuffer.cpp"],
 state=[("buffer", "bytes, position, count, reserved length", "src/common/NodeBuffer.h, src/common/SnapshotBuffer.h")],
 mechanism=[("growing storage", "NodeBuffer::reserve, SnapshotBuffer::reserve"), ("encoding", "pack_node, unpack_node, CompressedSnapshotRecordView")],
 observe=["for_each callbacks, count(), size(), data()"],
 note="Capacity/growth/position arithmetic proved for any fill state with encoder and memcpy replaced by range contracts; one-node content per type bounded; multi-node and record contents natively executed only.")
