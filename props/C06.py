S=["src/common/cali_variant.c","src/common/Variant.cpp","src/common/Entry.cpp","src/common/Attribute.cpp","src/common/CaliperMetadataAccessInterface.cpp","src/common/StringConverter.cpp","src/common/cali_types.c","src/common/util/parse_util.cpp","src/common/util/format_util.cpp"]
M="_ZN12_GLOBAL__N_112save_memmoveEPvS0_m"
R="src/common/CompressedSnapshotRecord.cpp"
A=["CompressedSnapshotRecord::append(nodes)"]; I=["CompressedSnapshotRecord::append(immediate)"]
PROP = dict(id="C06", level="proof", units=[
 dict(file="c06_sizes.cpp", sources=S[:4]+[R], native_sources=S+[R], contracts=[
  dict(entry="%s_step_%d"%(n,k), unwind=12, functions=f) for k in (1,2,3,4) for n,f in (("nodes",A),("imm",I))]),
 dict(file="c06_codec.cpp", sources=S[:4]+[R], native_sources=S+[R], contracts=[
  dict(entry="mix_"+k, unwind=65, unwindset=["M_memset.0:520"], kind="bounded", bound="up to 11 nodes and 9 immediate entries, one-byte codec", functions=A+I+["CompressedSnapshotRecordView","unpack_nodes","unpack_immediate"]) for k in ("0000","5262","1511","9090","0440")]),
 dict(file="c06_snapshot.cpp", sources=S[:4]+[R], native_sources=S+[R], contracts=[
  dict(entry=e, functions=f, kind="native") for e, f in (("append_nodes_1",A),("append_nodes_2",A),("append_imm_1",I),("append_imm_2",I),("roundtrip",A+I))]),
 dict(file="c06_memmove.cpp", optional=True, sources=S[:4], native_sources=S, contracts=[
  dict(entry="memmove_up", functions=["save_memmove"], kind="native")]),
 ])
