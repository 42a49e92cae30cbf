S=["src/common/cali_variant.c","src/common/Variant.cpp","src/common/Entry.cpp","src/common/Attribute.cpp","src/common/CaliperMetadataAccessInterface.cpp","src/common/StringConverter.cpp","src/common/cali_types.c","src/common/util/parse_util.cpp","src/common/util/format_util.cpp"]
B="src/caliper/Blackboard.cpp"
F={"set_entry":["Blackboard::set","Blackboard::add","Blackboard::get"],"exchange_entry":["Blackboard::exchange","Blackboard::add","Blackboard::get"],"del_entry":["Blackboard::del"],"snapshot_entries":["Blackboard::snapshot"],"full_table":["Blackboard::set","Blackboard::add"]}
PROP = dict(id="C09", level="proof", units=[
 dict(file="c09_blackboard.cpp", optional=True, sources=S[:4]+[B], native_sources=S+[B], memtypes=["class.cali::Entry"], subst={"src/caliper/Blackboard.h": [(r"Nmax\s*=\s*1021", "Nmax = 8")], B: [(r"Nmax / 10 \+ 10", "Nmax / 8 + 1")]}, contracts=[
  dict(entry=e, unwind=8, unwindset=["F__ZN4cali10BlackboardC2Ev.0:10","F_vf_model__ffs.0:34","M_memset.0:300"], kind="bounded", bound="table size 8 with room for 6 instead of 1021 with room for 909 (constants substituted in the text; natively the real size), up to 3 entries in any positions and probe order", functions=f) for e,f in F.items()]),
 dict(file="c09_history.cpp", sources=S[:4]+[B], native_sources=S+[B], contracts=[dict(entry=e, kind="native", functions=[x for l in F.values() for x in l]) for e in ("history_colliding","history_mixed")]),
 ])
