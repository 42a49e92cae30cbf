from common import *
from text_units import TEXT
PROP = dict(id="C23", level="proof", native_secs=6, units=[
 dict(file="c23_calql.cpp", sources=[], native_sources=CM+RD, contracts=[dict(entry=e, kind="native", functions=f) for e, f in (
  ("parse_query", ["CalQLParser::CalQLParser","read_word","read_char"]), ("print_query", ["operator<<(ostream, QuerySpec)"]), ("reject_query", ["CalQLParser::error"]))]),
 ]+TEXT)
