P = dict(id="C18", title="WHERE selects exactly the records that meet all conditions",
 statement="A record passes a filter exactly if it meets every condition of the WHERE list. `a` is met if the record has attribute a, `a=v` / `a<v` / `a>v` if some occurrence of a, on any level of the record's region paths or as an immediate value, compares so with v read in a's type. `not a` and `not a=v` are met exactly if no occurrence does so; they hold for records without a and for unknown attributes. `not a<v` / `not a>v` are met if some occurrence is >= v / <= v. (Statement restricted to values readable in a's type.) The query processor passes selected records on unchanged, in order, once each; the same holds for RecordSelector built from a single condition.",
 over=["inputs"], qtext="any records over any attributes of all types, any list of conditions and values; bounded symbolic records for the selection core, random metadata, records and condition lists end to end",
 why="Tests filter a few records of one example trace with a few conditions; filters silently select what analysis results are computed from.",
 files=["src/reader/RecordSelector.cpp", "src/reader/QueryProcessor.cpp", "src/reader/CalQLParser.cpp"],
 state=[("filter list", "conditions combined with AND", "src/reader/RecordSelector.cpp")],
 mechanism=[("selection", "RecordSelectorImpl::pass / have_match"), ("parsing", "CalQLParser::parse_filter_clause")],
 observe=["RecordSelector::pass", "query output"],
 note="Symbolic contract on RecordSelector::pass for each operator (bounded: a two-node path and an immediate value, any attributes; value parsing and comparison through their contracts, C03/C02); random filters end to end from CalQL text to .cali output against an independent evaluation, under sanitizers.")
