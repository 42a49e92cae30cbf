from common import *
from text_units import TEXT
PROP = dict(id="C25", level="proof", native_secs=6, units=[
 dict(file="c25_config.cpp", sources=[], native_sources=CM, contracts=[dict(entry=e, kind="native", functions=f) for e, f in (
  ("precedence", ["RuntimeConfig::init","RuntimeConfig::set","RuntimeConfig::preset","RuntimeConfig::import","RuntimeConfigImpl::read_config_profiles","ConfigSetImpl::init"]), ("convert", ["StringConverter::to_bool","StringConverter::to_int","StringConverter::to_int64","StringConverter::to_uint","StringConverter::to_double","StringConverter::to_stringlist"]), ("nested", ["StringConverter::rec_list","StringConverter::rec_dict","read_nested_text"]))]),
 ]+TEXT)
