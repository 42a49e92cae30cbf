S=["src/common/cali_variant.c","src/common/Variant.cpp","src/common/Entry.cpp","src/common/Attribute.cpp","src/common/CaliperMetadataAccessInterface.cpp","src/common/StringConverter.cpp","src/common/cali_types.c","src/common/util/parse_util.cpp","src/common/util/format_util.cpp"]
R=["src/common/CompressedSnapshotRecord.cpp","src/common/NodeBuffer.cpp","src/common/SnapshotBuffer.cpp"]
N=["NodeBuffer::append","NodeBuffer::for_each","NodeBuffer::import","NodeBuffer::reserve","pack_node","unpack_node"]; B=["SnapshotBuffer::append","SnapshotBuffer::for_each","SnapshotBuffer::import","SnapshotBuffer::reserve"]
PROP = dict(id="C07", level="proof", units=[
 dict(file="c07_sizes.cpp", sources=S[:4]+R, native=False, contracts=[dict(entry=e, unwind=12, functions=f) for e,f in (("node_capacity",N),("snapshot_capacity",B),("import_capacity",N+B))]),
 dict(file="c07_buffers.cpp", sources=S[:4]+R, native_sources=S+R, contracts=[
  dict(entry=e, kind="native", functions=N) for e in ("nodes_scalar","nodes_scalar2","nodes_blob","nodes_mixed","nodes_many")]+[
  dict(entry=e, kind="native", functions=B) for e in ("snapshots_grow","snapshots_fit")]+[
  dict(entry=e, unwind=65, unwindset=["M_memset.0:520"], nomem=True, cost=5, cbmc=["--max-field-sensitivity-array-size","8192"], kind="bounded", bound="one node of a fixed type, up to 7 value bytes, one-byte codec (natively the real codec)", functions=N) for e in ("one_int","one_uint","one_double","one_bool","one_string","one_usr")]),
 ])
