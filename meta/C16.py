P = dict(id="C16", title="Records written in .cali format are read back unchanged",
 statement="Reading what CaliWriter wrote gives, without an error, the same records in order: every reference entry with its full path of attributes and values, every immediate entry with its attribute and value, and the globals; attributes keep name, type, properties and metadata. This holds for values of type int, uint, bool, addr, type, double (to at least five significant digits) and strings of any characters, where only control characters other than newline are dropped. Each node is written before it is used, one line per record. Several streams with overlapping node ids can be read into one database: each stream's records keep their meaning, and equal paths become the same node. Records merged from another database (merge_snapshot) are the same too. Hidden attributes, USR and PTR values and records without entries are not part of this.",
 over=["inputs", "histories"], qtext="any string of any length and character for the escape writer (one iteration per character, by loop contract); any number below 100000; natively random metadata trees, records, globals and several merged streams",
 why="Tests read a few files of simple names; separators, escapes, non-ASCII characters, empty values, deep metadata and id clashes between streams are hardly sampled.",
 files=["src/reader/CaliWriter.cpp", "src/reader/CaliReader.cpp", "src/reader/CaliperMetadataDB.cpp", "src/common/Variant.cpp", "src/common/util/format_util.h"],
 state=[("metadata database", "nodes, attributes, strings and globals read", "src/reader/CaliperMetadataDB.cpp"), ("id map", "node ids of a stream to nodes of the database", "include/caliper/reader/CaliperMetadataDB.h")],
 mechanism=[("text", "Variant::write_cali, write_cali_esc_string, write_uint64"), ("writer", "CaliWriter::write_snapshot/write_globals"), ("reader", "CaliReader::read, CaliperMetadataDB::merge_node/merge_entry/merge_global/merge_snapshot")],
 observe=["text written", "records passed to the reader's callbacks", "CaliperMetadataDB::get_globals"],
 note="Loop contract proves that every character's written form decodes to that character for strings of any length; bounded contract for number round trip; native random histories of metadata, records and merged streams through the real writer and reader.")
