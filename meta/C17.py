P = dict(id="C17", title="Malformed .cali input and any query text are handled without crashing",
 statement="Reading any bytes as a .cali stream, parsing any text as a CalQL query, and running the parsed query on what was read never crashes, throws, or accesses memory outside its data. Every malformed line is reported through CaliReader::error() with a message: an unknown record kind; a node without id or attribute, with an unknown attribute or parent, or with a value its attribute's type cannot represent; a record whose attribute and value lists differ in length; a record naming an unknown node or attribute. Empty lines are not errors. The well-formed lines around malformed ones give the same records in the same order as without them, records passed on contain no empty entries. A query that cannot be parsed is reported with a message; invalid numeric arguments and format widths are tolerated.",
 over=["inputs"], qtext="lines of any length and bytes for the scanner under the reader (loop contract); natively random malformed lines in random streams, mutated streams, random and mutated queries with every aggregation, LET operator and formatter",
 why="Tests read well-formed files only; trace files get truncated, concatenated and edited in practice, and queries are typed by users.",
 files=["src/reader/CaliReader.cpp", "src/reader/CaliperMetadataDB.cpp", "src/reader/CalQLParser.cpp", "src/reader/Aggregator.cpp", "src/reader/Preprocessor.cpp", "src/reader/FormatProcessor.cpp", "src/reader/UserFormatter.cpp", "src/common/util/parse_util.cpp", "src/common/SnapshotTextFormatter.cpp"],
 state=[("reader state", "error flag and message, id map", "src/reader/CaliReader.cpp"), ("query specification", "what was parsed", "include/caliper/reader/QuerySpec.h")],
 mechanism=[("scanner", "fast_istringstream, read_uint64_element, read_escaped_word"), ("records", "CaliReader::read_node/read_snapshot/read_globals, CaliperMetadataDB::merge_*"), ("queries", "CalQLParser, QueryProcessor")],
 observe=["CaliReader::error/error_msg", "records passed to the callback", "CalQLParser::error"],
 note="Loop contract proves the number scanner and key matching stay in the line for lines of any length and bytes; random malformed and mutated streams and queries run natively under sanitizers.")
