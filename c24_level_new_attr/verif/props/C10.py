S=["src/common/cali_variant.c","src/common/Variant.cpp","src/common/Entry.cpp","src/common/Attribute.cpp","src/common/CaliperMetadataAccessInterface.cpp","src/common/StringConverter.cpp","src/common/cali_types.c","src/common/util/parse_util.cpp","src/common/util/format_util.cpp"]
T="src/caliper/MetadataTree.cpp"
R=["src/caliper/MemoryPool.cpp","src/common/RuntimeConfig.cpp","src/common/util/unitfmt.c","src/common/Log.cpp","src/common/OutputStream.cpp","src/common/SnapshotTextFormatter.cpp","src/common/util/file_util.cpp"]
TS=S[:4]+["src/common/cali_types.c",T]
def B(es,f): return [dict(entry=e, unwind=9, kind="bounded", bound="trees of three nodes plus new ones, node blocks of 8 nodes, up to 2 (9 for one contract) new values", functions=f) for e in es]
SH=("flat","mixed","tail","deep")
PROP = dict(id="C10", level="proof", units=[
 dict(file="c10_tree.cpp", optional=True, native=False, sources=TS, contracts=B(["child_lookup_"+s for s in SH],["MetadataTree::get_child","MetadataTree::create_child"])+B(["new_node"],["MetadataTree::create_child","MetadataTree::have_free_nodeblock","MetadataTree::node"])+B(["create_path_fits","create_path_next_block","create_path_long","create_path_too_long","create_path_no_block","create_path_no_memory"],["MetadataTree::create_path","MetadataTree::have_free_nodeblock"])),
 dict(file="c10_path.cpp", optional=True, native=False, sources=TS, contracts=B(["path_lookup_"+s for s in SH],["MetadataTree::get_path"])),
 dict(file="c10_ops.cpp", optional=True, native=False, sources=TS, contracts=B([o+s for o in ("remove_first_","replace_first_","replace_all_") for s in ("deep","mixed")]+["node_list"],["MetadataTree::remove_first_in_path","MetadataTree::replace_first_in_path","MetadataTree::replace_all_in_path","MetadataTree::copy_path_without_attribute","MetadataTree::get_path(nodelist)"])),
 dict(file="c10_history.cpp", sources=S[:4], native_sources=S+[T]+R, contracts=[dict(entry=e, kind="native", functions=["MetadataTree (public interface)"]) for e in ("history_small","history_large","memory_exhausted")]),
 ])
