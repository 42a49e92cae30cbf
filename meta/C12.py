P = dict(id="C12", title="Begin, set and end keep exactly the open regions and set values",
 statement="begin pushes a value on its attribute's stack (region, unaligned, or its own slot for as-value attributes; thread or process scope), set replaces the attribute's innermost value, end takes off exactly the innermost value; other attributes and other threads' thread-scope state are unaffected. get returns the innermost value. A context snapshot holds exactly the open regions in nesting order plus the set values that are not hidden. Active channels see each update once with its value: begin before and after, set and end before it takes effect; attributes that skip events and inactive channels see none. Ending what is not open, not on top of the region stack, or (with value check) not the current value is an error that changes nothing and stops tracking on that thread only. An attribute is created once and keeps its name, type and properties.",
 over=["inputs", "histories"], qtext="any blackboard paths of up to three nodes with any values, all attribute kinds; natively random histories of begin/set/end/end-with-check over 16 attributes of all kinds on several threads",
 why="Tests run a few well-nested programs; mixed attribute kinds, mismatched ends and their after-effects over long histories are not sampled.",
 files=["src/caliper/Caliper.cpp", "include/caliper/Caliper.h"],
 state=[("thread/process blackboards", "current region stacks and values", "src/caliper/Caliper.cpp Caliper::ThreadData, GlobalData")],
 mechanism=[("region updates", "Caliper::begin/end/set/end_with_value_check, handle_begin/handle_end/handle_set/load_current_entry"), ("snapshot", "Caliper::pull_context"), ("attributes", "Caliper::create_attribute")],
 observe=["Caliper::get", "pull_context", "events callbacks"],
 note="Bounded modular contracts of the update handlers against the contracts of the blackboard (C09) and context tree (C10); whole-runtime native random histories against a reference model.")
