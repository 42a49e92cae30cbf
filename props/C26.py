from common import *
from text_units import TEXT
PROP = dict(id="C26", level="proof", native_secs=8, units=[
 dict(file="c26_manager.cpp", sources=[], native_sources=RT+SV+["src/caliper/ConfigManager.cpp","src/caliper/ChannelController.cpp"], contracts=[dict(entry=e, kind="native", functions=f) for e, f in (
  ("config_string", ["ConfigManager::add","ConfigManager::check","ConfigManager::parse","ConfigManager::Options","ConfigManager::add_config_spec","ConfigManager::add_option_spec","ChannelController::start"]),)]),
 ]+TEXT)
