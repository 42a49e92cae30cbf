V=["src/common/cali_variant.c","src/common/Variant.cpp","src/common/Entry.cpp","src/common/Attribute.cpp","src/common/CaliperMetadataAccessInterface.cpp","src/common/StringConverter.cpp","src/common/cali_types.c","src/common/util/parse_util.cpp","src/common/util/format_util.cpp"]
# common library
CM=V+["src/common/RuntimeConfig.cpp","src/common/util/unitfmt.c","src/common/util/vlenc.c","src/common/Log.cpp","src/common/OutputStream.cpp","src/common/SnapshotTextFormatter.cpp","src/common/util/file_util.cpp"]
# runtime core
RT=CM+["src/caliper/"+x+".cpp" for x in ("Caliper","Blackboard","MetadataTree","MemoryPool","api")]
# runtime with channels and services (services listed by VF_SERVICES)
SV=["src/services/Services.cpp"]
# reader library
RD=["src/reader/"+x+".cpp" for x in ("Aggregator","CalQLParser","CaliReader","CaliWriter","CaliperMetadataDB","Expand","FlatExclusiveRegionProfile","FlatInclusiveRegionProfile","FormatProcessor","JsonFormatter","JsonSplitFormatter","NestedExclusiveRegionProfile","NestedInclusiveRegionProfile","Preprocessor","QueryProcessor","QuerySpec","RecordSelector","SnapshotTableFormatter","SnapshotTree","TableFormatter","TreeFormatter","UserFormatter")]
