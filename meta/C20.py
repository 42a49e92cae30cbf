P = dict(id="C20", title="LET operators add exactly the documented values to records",
 statement="For each LET term `t=f(..) [IF cond]`, in order, a record gets exactly one more immediate entry for attribute t if its condition holds and all needed operands occur in the record, and none otherwise; its own entries stay as they are. ratio(a,b,S) = S*a/b (none if b is zero); scale(a,S) = S*a; truncate(a,S) = a - mod(a,S), exact for integers of any size and integral S; first(..) the first operand present; sum(..) the sum of those present (integers modulo 2^64); leaf() / leaf(r) the innermost value of the region path / of r. The innermost occurrence of an operand counts. Results of earlier terms can be used by later ones. t has the type of the result, is stored as value and is not nested. (Operands of one first()/sum() have the same type.)",
 over=["inputs"], qtext="random LET lists over random numeric operands of one type including values near the integer limits, region paths, missing operands and conditions; several records per preprocessor",
 why="Tests check few values of each operator; every subsequent aggregation and report uses the added values.",
 files=["src/reader/Preprocessor.cpp", "src/reader/RecordSelector.cpp"],
 state=[("kernels", "one operator and condition per LET term", "src/reader/Preprocessor.cpp")],
 mechanism=[("operators", "ScaledRatioKernel, ScaleKernel, TruncateKernel, FirstKernel, SumKernel, LeafKernel"), ("conditions", "PreprocessorImpl::process")],
 observe=["Preprocessor::process result"],
 note="Random LET lists from CalQL text run on random records and are compared with an independent evaluation of each operator, under sanitizers (the operators' integer arithmetic is checked for overflow).")
