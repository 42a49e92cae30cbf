from common import *
PROP = dict(id="C20", level="other", native_secs=12, units=[
 dict(file="c20_let.cpp", sources=[], native_sources=CM+RD, contracts=[dict(entry="let_operators", kind="native", functions=["Preprocessor::process","ScaledRatioKernel","ScaleKernel","TruncateKernel","FirstKernel","SumKernel","LeafKernel"])]),
 ])
