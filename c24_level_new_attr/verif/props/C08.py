S=["src/common/cali_variant.c","src/common/Variant.cpp","src/common/Entry.cpp","src/common/Attribute.cpp","src/common/CaliperMetadataAccessInterface.cpp","src/common/StringConverter.cpp","src/common/cali_types.c","src/common/util/parse_util.cpp","src/common/util/format_util.cpp"]
B=["SnapshotBuilder::append","SnapshotBuilder::view"]
PROP = dict(id="C08", level="proof", units=[
 dict(file="c08_records.cpp", memtypes=["class.cali::Entry"], sources=S[:4], native_sources=S, contracts=[
  dict(entry=e, unwind=8, kind="bounded", bound="record capacity up to 4, blocks of up to 3 entries", functions=f) for e,f in (("append_entry",B),("append_block_0",B),("append_block_2",B),("append_block_3",B),("append_view",B),("remove_entry",["SnapshotBuilder::remove"]),("fixed_record",["FixedSizeSnapshotRecord"]))]+[
  dict(entry=e, unwind=12, kind=k, bound="paths of up to 3 nodes, views of 2 entries", functions=f) for e,f,k in (("lookup_reference",["Entry::get","Entry::value","Entry::count"],"bounded"),("lookup_immediate",["Entry::get","Entry::value","Entry::count"],"proof"),("view_lookup",["SnapshotView::get","SnapshotView::get_immediate_entry"],"bounded"))]+[
  dict(entry=e, unwind=12, functions=["Entry::pack","Entry::unpack"]) for e in ("packed_immediate","packed_reference")]),
 ])
