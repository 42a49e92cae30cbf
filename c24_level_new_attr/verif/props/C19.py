from common import *
K=[("sum_merge","SumKernel"),("sum_step","SumKernel"),("min_merge","MinKernel"),("min_step","MinKernel"),("max_merge","MaxKernel"),("max_step","MaxKernel"),("avg_merge","AvgKernel"),("avg_step","AvgKernel"),("count_merge","CountKernel"),("count_step","CountKernel"),("pct_merge","PercentTotalKernel"),("pct_step","PercentTotalKernel"),("pct_parent","PercentTotalKernel"),("ratio_merge","ScaledRatioKernel"),("any_merge","AnyKernel"),("var_merge","VarianceKernel")]+[("var_step_"+k,"VarianceKernel") for k in ("value","sum","sqsum","count","other")]
PROP = dict(id="C19", level="proof", native_secs=12, units=[
 dict(file="c19_aggregate.cpp", sources=[], native_sources=CM+RD, contracts=[dict(entry=e, kind="native", functions=["Aggregator::add","Aggregator::flush"]) for e in ("aggregate_groups","aggregate_merge")]),
 dict(file="c19_kernels.cpp", optional=True, native=False, sources=V, contracts=[dict(entry=e, unwind=6, timeout=120, nomem=True, cbmc=["--sat-solver","cadical"], ufp=["fadd","fmul","fdiv","fsub"] if e.startswith("var") else [], kind="proof" if e.endswith("_merge") else "bounded", **({} if e.endswith("_merge") else dict(bound="records of up to two entries (any kernel state before)")), functions=[k+"::aggregate"]+([k+"::append_result"] if e.endswith("_merge") else [])) for e,k in K]),
 ])
