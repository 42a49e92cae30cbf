P = dict(id="C23", title="A CalQL query means what its text says",
 statement="Parsing a CalQL query gives exactly the documented meaning of its text: its LET terms (with IF conditions), SELECT list (aliases, units, aggregations, path), AGGREGATE, GROUP BY, WHERE (label, =, <, > and their NOT forms), ORDER BY (ASC/DESC) and FORMAT clauses, in any order of clauses, any case of keywords, any white space; names and values may be plain, in double quotes, or with backslash escapes, and are taken literally, including commas, parentheses, operators and keywords inside them. SELECT with * anywhere selects all attributes and keeps the other items' aliases and aggregations. A query printed by Caliper (QuerySpec output, as recorded in cali-query.query) parses back to the same query, aliases next to * aside. A text outside the grammar (unknown clause, function or formatter, wrong number of arguments, missing parenthesis, missing name) is reported as an error, never accepted as another query.",
 over=["inputs"], qtext="random queries with every clause, operator, function and formatter, spelled with random case, white space, quoting and escapes; and invalid texts made from them",
 why="Every report is chosen by a query; one that silently means something else gives a wrong profile, and tests sample few texts.",
 files=["src/reader/CalQLParser.cpp", "src/reader/QuerySpec.cpp", "src/common/util/parse_util.cpp", "src/reader/QueryProcessor.cpp"],
 state=[("query specification", "clauses with selections, operators, arguments", "include/caliper/reader/QuerySpec.h")],
 mechanism=[("parsing", "CalQLParser::CalQLParserImpl::parse_clause, parse_let, parse_select, parse_filter_clause"), ("words", "util::read_word, read_char"), ("printing", "operator<<(std::ostream&, const QuerySpec&)")],
 observe=["CalQLParser::spec, error, error_msg", "printed QuerySpec text"],
 note="Random specifications are rendered as text in random spellings and parsed by the real parser; the result is compared clause by clause with what was rendered, and again after printing and reparsing.")
