P = dict(id="C24", title="The event service measures exactly the selected region events",
 statement="With the event trigger service active, a snapshot is taken for exactly those begin, set and end operations that the channel's configuration selects, and for no others, on every thread: the attribute is in the trigger list or (with no list) is a nested region attribute; region filters decide by region name, with exact match, prefix (startswith) and regular expression lists (entries may be quoted); exclusion wins over inclusion, an empty include list includes everything; include_branches selects everything inside an open matching region of the same thread (or of the process, for process-scope regions) and nothing after it has closed; a region-level restriction selects by level. The begin snapshot is taken before and the end snapshot before the change takes effect, each names its event and attribute in event.begin#/event.set#/event.end# when trigger information is on, and end events carry region.count=1. Invalid filter lists are reported and do not filter.",
 over=["inputs", "histories"], qtext="random event-service configurations and random histories of begin, set and end operations of many attributes, on several threads",
 why="Counts and times of every event-based profile are wrong if an event is missed, doubled or taken for the wrong region; tests use a few fixed region names.",
 files=["src/caliper/RegionFilter.cpp", "src/services/event/EventTrigger.cpp", "src/caliper/Caliper.cpp"],
 state=[("region filter", "include and exclude lists of names, prefixes, regular expressions", "src/caliper/RegionFilter.h"), ("trigger", "trigger attributes, open matching branches per thread", "src/services/event/EventTrigger.cpp")],
 mechanism=[("filter decision", "RegionFilter::pass, RegionFilter::match"), ("filter parsing", "RegionFilter::from_config"), ("event callbacks", "EventTrigger::pre_begin_cb, pre_set_cb, pre_end_cb, handle_*")],
 observe=["snapshots seen by process_snapshot callbacks", "error messages"],
 note="RegionFilter's decision is under contract; whole configurations and histories run on the real library against a reference that decides each event from the configuration's documented meaning.")
