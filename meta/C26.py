P = dict(id="C26", title="A configuration string sets up exactly what it names",
 statement="ConfigManager turns a configuration string into exactly the named channels with exactly their options: every named configuration gives one controller, with the services, configuration variables ({} replaced by the option's value), query terms and metadata of its specification and of its enabled options (directly or inherited), and nothing of options that are not enabled. An option's value is the most specific one: argument of that configuration, else configured default for it, else argument at string level or default parameter, else its specification's default. Extra key=value pairs are returned to the caller or rejected, as requested. Invalid strings (unknown configuration or option, malformed text, wrong option type) are rejected with an error and set up nothing more; check() accepts exactly the strings add() accepts and changes nothing. start and stop act on exactly the manager's channels.",
 over=["inputs", "histories"], qtext="random specifications, options with categories and inheritance, random configuration strings (and invalid ones), defaults and parameters",
 why="Users control measurements with these strings; an option that is ignored or applied to another channel gives a wrong profile, and tests use few strings and specifications.",
 files=["src/caliper/ConfigManager.cpp", "src/caliper/ChannelController.cpp", "src/common/util/parse_util.cpp"],
 state=[("specifications", "configurations and options with services, variables, query terms", "src/caliper/ConfigManager.cpp"), ("arguments", "option values by configuration", "src/caliper/ConfigManager.cpp")],
 mechanism=[("parsing", "ConfigManagerImpl::parse_configstring, parse_config"), ("merging", "ConfigManagerImpl::merge_parsed_args, add_global_parameters"), ("options", "OptionSpec, Options::OptionsImpl"), ("variables", "expand_variables")],
 observe=["ConfigManager::get_all_channels, error_msg, check", "channel configuration seen by services"],
 note="The text readers that split configuration strings are under contract; whole strings and specifications run on the real ConfigManager against a reference built from the generated specification.")
