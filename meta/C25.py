P = dict(id="C25", title="Configuration values take their documented meaning and precedence",
 statement="The value of a configuration option is that of the most specific definition: set by the program, else the environment variable (unless the configuration set does not allow it), else the selected profiles (a later one wins), else the default profile, else a preset, else the option's built-in default. Configuration files are read in order and a later definition of an option in a profile wins; comments, blank lines and quoting are handled as documented and an entry never alters or drops another one. Values convert to bool, int, uint, double, list (with quoting, nesting and escapes) and dictionary exactly as written, or are reported as not convertible; a conversion never yields another value.",
 over=["inputs", "histories"], qtext="random files, profiles, environments and program settings, in random order; random option texts",
 why="Every run is controlled by configuration; a value taken from the wrong place or read wrongly silently changes what is measured, and tests set a few options one way.",
 files=["src/common/RuntimeConfig.cpp", "src/common/StringConverter.cpp", "src/common/util/parse_util.cpp"],
 state=[("configuration profiles", "option to value maps by profile name, from files and from the program", "src/common/RuntimeConfig.cpp")],
 mechanism=[("lookup", "ConfigSetImpl::init, RuntimeConfigImpl::init"), ("files", "read_config_files, ConfigFileParser"), ("conversion", "StringConverter::to_bool, to_int, to_uint, to_double, rec_list, rec_dict")],
 observe=["RuntimeConfig::init(...).get(...)", "StringConverter results"],
 note="The text readers that split values are under contract; whole configurations run on the real library against a reference lookup.")
