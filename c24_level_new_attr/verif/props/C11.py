S=["src/common/cali_variant.c","src/common/Variant.cpp","src/common/Entry.cpp","src/common/Attribute.cpp","src/common/CaliperMetadataAccessInterface.cpp","src/common/StringConverter.cpp","src/common/cali_types.c","src/common/util/parse_util.cpp","src/common/util/format_util.cpp"]
R=["src/caliper/MemoryPool.cpp","src/common/RuntimeConfig.cpp","src/common/util/unitfmt.c","src/common/Log.cpp","src/common/OutputStream.cpp","src/common/SnapshotTextFormatter.cpp","src/common/util/file_util.cpp"]
PROP = dict(id="C11", level="proof", native_secs=5, units=[
 dict(file="c11_pool.cpp", optional=True, native=False, sources=[], contracts=[dict(entry=e, functions=["MemoryPool::allocate"]) for e in ("pool_allocate_bytes","pool_allocate_aligned")]),
 dict(file="c11_history.cpp", sources=[], native_sources=S+R, contracts=[dict(entry=e, kind="native", functions=["MemoryPool"]) for e in ("history_expand","history_fixed")]),
 ])
