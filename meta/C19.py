P = dict(id="C19", title="Aggregation puts out one correct record per distinct key; partial results merge",
 statement="Aggregating any records gives exactly one output record per distinct key: the immediate key values (in any order), the plain key values and the region path (each outermost first) of the GROUP BY attributes, with `path` meaning all nested attributes and no GROUP BY meaning all reference attributes. Records have only key attributes and results. count, sum, min, max, avg, scale, scale_count, ratio, percent_total, any and variance are that function of the immediate values in the group's records, integer sums/min/max exactly; inclusive_* operators use the records of the group and all groups below its path, creating records for parents as needed. A result appears exactly if the group has values for it. Aggregating parts separately and then their outputs, directly or through .cali into a fresh database, gives the same non-inclusive results as aggregating everything at once.",
 over=["inputs", "histories"], qtext="random records (repeated values, several paths per record, immediate and reference keys, ints/uints/doubles), random GROUP BY and operator lists, random splits into parts; values below the integer limits; ratios with a nonzero denominator sum",
 why="Tests aggregate a few fixed traces and compare a few rows; merged results across processes are only tested with MPI.",
 files=["src/reader/Aggregator.cpp", "src/reader/QueryProcessor.cpp"],
 state=[("aggregation entries", "key, kernels and hash chains", "src/reader/Aggregator.cpp")],
 mechanism=[("grouping", "AggregatorImpl::process / get_aggregation_entry"), ("operators", "AggregateKernel implementations")],
 observe=["records pushed by Aggregator::flush"],
 note="Random queries run on random records and all output records are compared with an independent group-by evaluation, at once and merged from parts, under sanitizers.")
