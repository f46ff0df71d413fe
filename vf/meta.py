"""Writes properties.jsonl and MANIFEST.json (python3 -m vf.meta from /verif)."""
import json
import os

CPE = "src/configparserenhanced/ConfigParserEnhanced.py"
EXC = "src/configparserenhanced/ExceptionControl.py"
TYP = "src/configparserenhanced/TypedProperty.py"
HPF = "src/configparserenhanced/HandlerParameters.py"
DBG = "src/configparserenhanced/Debuggable.py"
SE = "wip/setenvironment/src/setenvironment/SetEnvironment.py"
MH = "wip/setenvironment/src/setenvironment/ModuleHelper.py"
KP = "wip/keywordparser/keywordparser/KeywordParser.py"
FM = "wip/keywordparser/keywordparser/FormattedMsg.py"
DS = "wip/determinesystem/determinesystem/DetermineSystem.py"
CK = "wip/genconfig/src/config_keyword_parser.py"
EK = "wip/loadenv/loadenv/EnvKeywordParser.py"
LE = "wip/loadenv/load_env.py"
LS = "wip/loadenv/load-env.sh"
GC = "wip/genconfig/gen_config.py"
GS = "wip/genconfig/gen-config.sh"

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms [(name, where)], technique, level, note
P = []


def p(*a):
    P.append(a)


p("C01", "Reading a section yields its fully expanded options",
  "Reading a section of a loaded configuration yields exactly the options of that section after replacing every "
  "'use OTHER' option, at its position and recursively, by the options of section OTHER, where a later occurrence of a key "
  "overrides the value of an earlier one and the options of the default section, if there is one, come first. Values are "
  "what the standard .ini reader returns, without surrounding white space and double quotes, and several files behave as if "
  "they were read one after the other. The result does not depend on which accessor is used or in what order sections are read.",
  ["inputs", "configurations"], "all .ini files whose option keys tokenise under shell quoting, all file lists, delimiters and default-section names, all accessors and read orders",
  "The tests read a handful of fixed files with a few links each; the guarantee ranges over every use graph, quoting, file split and access order.",
  [CPE], [("recursive section expansion", CPE + ": _parse_section_r, handler 'use', handler 'generic'"), ("lazy section view", CPE + ": ConfigParserEnhancedData")])

p("C02", "Cyclic use links terminate, are reported and lose nothing",
  "Parsing a section terminates for every graph of use links, including links from or to the default section. A link to a section "
  "that is being expanded at that moment is not followed: it is reported by one warning each time it is met, or by a ValueError at the strictest "
  "exception level, and all other options are still collected. A section reached over several paths without a cycle is expanded every time, without warning.",
  ["inputs", "configurations"], "all use graphs (self loops, rings, overlapping cycles, loops through the default section, diamonds) and exception levels 0 to 5",
  "The tests hold one small cycle; termination and exact reporting are claims about every graph.",
  [CPE], [("stack of sections being expanded", CPE + ": _handler_use / loop detection")])

p("C03", "Handlers run exactly once per operation, in file order, with the right data",
  "While a section is parsed, the handler of every operation option runs exactly once per occurrence, in the order in which the expanded options "
  "stand in the file, between one initialize and one finalize call, which carry no option. It gets the name of the section the option stands in, the root section, the operation name, the "
  "parameters in order, the cleaned value and the raw option; all calls of one parse share one data dictionary, which the parse returns, and different parses share nothing.",
  ["inputs", "histories"], "all configurations over operations with public and private handlers, repeated parses on one object",
  "The tests look at a few calls; order, exactly-once and data isolation must hold for every expansion and every sequence of parses.",
  [CPE, HPF], [("handler lookup and dispatch", CPE + ": _locate_handler_method, _parse_section_r"), ("parameter record", HPF)])

p("C04", "Every option is either handled or kept, and validation says which",
  "Every option of an expanded section is either given to the handler of its operation (the first word with '-' read as '_') or kept as plain "
  "key/value data, never both and never neither. Validation of a section or file reports success exactly when no option is left unhandled; otherwise it names the "
  "unhandled options and raises ValueError, or returns a non-zero value when the exception level suppresses it. The listed known operations are exactly those with a handler.",
  ["inputs", "programs"], "all configurations, sets of handlers and exception levels",
  "The tests use one class and a few keys; completeness of the partition is a claim about all keys and all handler sets.",
  [CPE], [("operation or generic option", CPE + ": _parse_section_r"), ("validation", CPE + ": assert_section_all_options_handled, assert_file_all_sections_handled")])

p("C05", "The lazy view answers every access history like the eager expansion",
  "For every history of accesses, each accessor of the section view (indexing, get, items, options, keys, sections, has_section, has_option, length, "
  "iteration) gives the answer that expanding the whole configuration first would give, including KeyError for unknown sections and options. "
  "A section is parsed at most once unless a re-parse is requested, and values set or added by the user are returned by later reads.",
  ["histories", "inputs"], "all sequences of accessor calls, edits and re-parses on one object over all configurations",
  "The tests call each accessor once or twice in a fixed order; caching errors only show for particular orders.",
  [CPE], [("parse on first access", CPE + ": ConfigParserEnhancedData.__getitem__, get, items"), ("set of parsed sections", CPE + ": ConfigParserEnhancedData._sections_checked")])

p("C06", "A changed configuration takes effect completely",
  "After the list of files, the set of delimiters or the default section name of a parser is changed (or the list is assigned again after a file was rewritten), every later read "
  "reflects only the new configuration: sections, options and environment actions of the previous one are never served again. A rejected assignment leaves the configuration in force unchanged.",
  ["histories", "configurations"], "all histories of reconfigurations interleaved with reads",
  "The tests reconfigure at most once and read little before; stale state needs a particular history.",
  [CPE, SE], [("invalidation on assignment", CPE + ": inifilepath and configparser_delimiters setters")])

p("C07", "A file that cannot be loaded is never treated as loaded",
  "If any file in the list is missing, unreadable or malformed, every access that needs the configuration raises an error: no section of the other "
  "files is served, on the first access or on any later one. After the cause is removed, the same parser object reads the complete configuration.",
  ["fault_sequences", "histories"], "every fault kind at every position of the file list, every accessor sequence, with later repair",
  "The tests cover one missing file and one access; silent partial loads appear on the second access or for a fault in a later file.",
  [CPE], [("load of all files before publication", CPE + ": configparserdata")], "fault")

p("C08", "A failed section parse leaves nothing behind",
  "If parsing a section fails (missing target of a use link, a failing handler, a cycle at the strictest level, an ambiguous handler, an interrupt), "
  "the failure is raised on that access and again on every later access while the cause remains; the options collected before the failure are never served as that section. "
  "Once the cause is removed the section reads as if it had never failed, and other sections are not affected.",
  ["fault_sequences", "histories"], "every failure kind at every point of a parse, every accessor history",
  "The tests stop at the first exception; the damage is in what later accesses return.",
  [CPE], [("parsed-section bookkeeping", CPE + ": ConfigParserEnhancedData.__getitem__, parse_section")], "fault")

p("C09", "The unrolled text reads back as the same expanded configuration",
  "Writing a configuration (or one section) in unrolled form produces text in which every use link has been replaced by what it refers to, and which, read with "
  "the same delimiters, has the same sections in the same order with the same keys and values, also for multi-line values and percent signs; unhandled "
  "operations stay in place. Unrolling is repeatable, changes no setting or data of the parser (also when it fails), and an unknown section raises KeyError.",
  ["inputs", "configurations"], "all configurations, both spacings, whole file or one section, any prior reads",
  "The tests compare a few golden texts; round-trip is a claim about every value, delimiter and use graph.",
  [CPE], [("unrolling", CPE + ": unroll_to_str, write")])

p("C10", "Conditional exceptions follow the documented severity table",
  "An event of severity WARNING or SILENT, MINOR, SERIOUS, CRITICAL or CATASTROPHIC raises exactly the given exception with the given message if the exception level is at least 5, 4, 3, 2 "
  "or 0 respectively, and otherwise returns without raising. A suppressed event prints a warning naming severity, exception type and message, unless the level is 0, the severity is "
  "SILENT or warnings are silenced; compact warnings take one line. The level is clamped to 0..5 and settings of one object never affect another.",
  ["inputs", "histories"], "all severities, levels, flags, exception types, messages, and histories of changes on several objects",
  "The tests sample the table; it must hold for the full product and after any history of settings.",
  [EXC], [("threshold table", EXC + ": exception_control_event")])

p("C11", "Handler return codes and ambiguous handlers follow one policy",
  "A handler return value of 0 continues the parse, any other value up to 10 continues with a reported warning (RuntimeError at the strictest exception level), a value above 10 ends the parse with RuntimeError "
  "at every level, and a value that is not an integer ends it with TypeError. An operation with both a public and a private handler raises AmbiguousHandlerError at levels 3 and above; below, it is reported and the "
  "public handler is used. Where the parse goes on, the remaining options are all processed.",
  ["inputs", "fault_sequences"], "all return values and doubly defined handlers at any position, at every exception level",
  "The tests try a few codes at one level; the policy is a claim about every code, position and level.",
  [CPE], [("return code check", CPE + ": _check_handler_rval"), ("handler lookup", CPE + ": _locate_handler_method")])

p("C12", "Typed properties never hold or expose an invalid value",
  "A typed property accepts exactly the values that are of (or, where configured, convert to) its type and pass its validator, and raises TypeError or ValueError otherwise, leaving the previous "
  "value in place. Reads return the transformed value last accepted or a fresh copy of the default, never one shared between instances, and raise UnboundLocalError where assignment is required first. "
  "The parameter record given to handlers follows the same rules.",
  ["histories", "inputs"], "all property specifications and histories of reads, assignments, deletions and in-place edits on several instances",
  "The tests take each feature alone; violations show in combinations and in sharing between instances.",
  [TYP, HPF], [("accessor factory", TYP + ": typed_property"), ("parameter record", HPF)])

p("C13", "Debug output never changes results",
  "A debug message is printed exactly when the debug level is at least the level of the message, with the requested prefix and line end. Parsing, unrolling, applying and generating "
  "give the same results, handler calls and exceptions at every debug level.",
  ["configurations", "inputs"], "all debug levels and messages; all configurations at pairs of debug levels",
  "The tests run at one level; a side effect inside a debug branch shows only at another.",
  [DBG, CPE, SE], [("threshold test", DBG + ": debug_message")])

p("C14", "Environment actions are the file's operations in order, minus removals",
  "The list of actions of an environment section holds one action per environment or module operation of the expanded section, in order, with its variable or module and its value, "
  "except that a removal drops all earlier actions for that variable or module, and only those. The list is the same every time it is requested, whatever other sections were read before.",
  ["inputs", "histories"], "all sections over all operations with removals, use links and default sections; all read histories",
  "The tests check fixed files; removal is an order-dependent fold and accumulation shows only over histories.",
  [SE], [("action list", SE + ": handler methods, actions property")])

p("C15", "Applying an environment changes exactly what its operations say",
  "Applying an environment section performs its actions in order on the process environment: set, set if empty, append and prepend with ':', unset, removal of a substring or a path entry, "
  "search of an executable in the path, assertion that a variable is not empty. Values may refer to variables as $NAME or ${NAME} and may hold any characters; no other variable changes, and a failed assertion "
  "stops the application with an error.",
  ["inputs", "histories"], "all action lists, hostile values and starting environments, applied one or more times",
  "The tests use tame values from a clean environment; quoting and expansion errors need hostile values and repeated application.",
  [SE], [("execution of actions", SE + ": apply, _exec_helper and the envvar helpers")])

p("C16", "The generated Python script does what apply does",
  "Running the generated Python script, from the string or from the written file, with or without shebang, in a process with the same starting environment leaves the same environment variables as "
  "applying the section directly, and stops with an error exactly when applying does.",
  ["inputs", "configurations"], "all action lists, values and starting environments",
  "The tests compare script text with golden files and never execute it on other values.",
  [SE], [("script generation", SE + ": generate_actions_script, write_actions_to_file")])

p("C17", "The generated bash script does what apply does",
  "Sourcing the generated bash script (whole, or header and body separately) in a shell with the same starting environment leaves the same exported variables as applying the section "
  "directly, ends with an error exactly when applying does, and issues the same module commands in the same order.",
  ["inputs", "configurations"], "all action lists and starting environments; values refer only to variables that are set and hold no command substitution",
  "The tests compare script text with golden files and never run it.",
  [SE], [("script generation", SE + ": generate_actions_script, bash header helpers")])

p("C18", "Script generation is pure, composable and refuses unknown requests",
  "A generated script is the shebang, the header and the body that were asked for, each the same text as when generated alone, for bash and Python; the file that is written holds that text and nothing else. "
  "Generating a script changes neither the process environment nor the actions nor later results, and an unknown interpreter or section raises an error without writing a script.",
  ["histories", "configurations"], "all sections, flag combinations, interpreters and call histories",
  "The tests generate each variant once in a fresh object.",
  [SE], [("script generation", SE + ": generate_actions_script, write_actions_to_file")])

p("C19", "A failed module command is never reported as success",
  "Applying an environment issues its module commands in order with the given names and versions. If a module command fails (exit status, signal, error output, false status, exception, or with "
  "Lmod an unsuccessful load or unload), applying the environment raises an error or, where the exception level suppresses it, returns a non-zero value; it reports success only if all commands succeeded.",
  ["fault_sequences", "inputs"], "every failure kind at every position of every operation list, at every exception level",
  "The tests simulate a few failures at one level; the guarantee is about each failure mode at each point.",
  [SE, MH], [("module commands", MH + ": module, get_environment_modules_python"), ("status handling", SE + ": apply")], "fault")

p("C20", "Keyword lists are read exactly and invalid lists are refused",
  "The values of a key in a keyword file are its lines without comments (from '#' to the end of the line) and surrounding white space, empty ones dropped, in order. A list with a duplicate, with a value "
  "that contains white space or '_' (other than the two flag-type words), or with a value that equals a key of its section ends the program with a message naming the offending values. Looking up the key of a value returns a "
  "key that lists it (the last one if several do) and ends the program if none does.",
  ["inputs", "histories"], "all keyword files (layout, comments, use links) and query histories",
  "The tests use a few files; comment stripping and validation are claims about every layout.",
  [KP], [("value list", KP + ": get_values_for_section_key")])

p("C21", "The system is determined from hostname and build name without guessing",
  "The system is the one named as a whole '_'-separated component of the build name (case-insensitively), else the first listed system with a pattern found in the hostname. If no system is found, several are named, "
  "or the named one is not the hostname's and force is off, the program ends with a message, on every query. A settled system does not change, and silent mode prints nothing.",
  ["inputs", "histories"], "all system files, hostnames, build names and flags; repeated queries",
  "The tests use a few hosts; precedence and refusal must hold for every combination, also on the second query.",
  [DS], [("determination", DS + ": determine_system, get_sys_name_from_hostname, get_sys_name_from_build_name")])

p("C22", "Configuration flags are selected exactly once per flag, in file order",
  "For every flag of the flag file exactly the options named as whole '_'-separated components of the build name are selected, or the first option if none is; several are allowed only for SELECT_MANY flags and are sorted. The option string joins the selections in "
  "file order with '_'. A conflict in a SELECT_ONE flag or a flag without type raises ValueError and an option shared by two flags ends the program; after a change of the build name nothing of the old one remains.",
  ["inputs", "histories"], "all flag files, build names and histories of build-name changes and queries",
  "The tests use fixed files; stale selections and missed conflicts need particular histories and names.",
  [CK], [("selection", CK + ": parse_selected_options, build_name setter")])

p("C23", "The longest matching environment name or alias wins",
  "The environment chosen for a system is the longest environment name that is a '_'-delimited part of the build name (the first listed among equally long ones), else the environment of the longest alias that is; names match literally, never as "
  "patterns or inside longer words. If nothing matches, or the aliases of the system are invalid or repeated, the program ends with a message; the no-match message lists all environments and aliases of the system.",
  ["inputs"], "all environment files, systems and build names",
  "The tests use a few names; overlapping names, dots and delimiters produce cases they do not reach.",
  [EK], [("matching", EK + ": qualified_env_name"), ("alias validation", EK + ": get_aliases")])

p("C24", "LoadEnv resolves files, system and environment consistently",
  "LoadEnv uses each of its three configuration files from the command line if given, else from its top-level file, where relative paths refer to the directory of that file; a missing section, key or value raises ValueError. The system, "
  "the environment and the build name stripped of system, environment and alias components always belong to the current build name, also after it was changed or an earlier query failed. Listing environments shows all of them and exits with success.",
  ["configurations", "histories"], "all placements of the files, build names and histories of changes and queries",
  "Its tests are not part of the runnable suite and cover single queries.",
  [LE], [("file resolution", LE + ": parse_top_level_config_file, args"), ("cached names", LE + ": build_name setter")])

p("C25", "GenConfig names, validates and generates one configuration",
  "The complete configuration is the environment chosen for the build name followed by its selected options. Flags are generated for exactly that name, and only if every section of the configuration file that is not all upper case is written in its "
  "own complete form; otherwise ValueError (or program end) results and nothing is generated. Validation does not change the outcome for the user's own build name, and a top-level file with a missing section, key, value or file raises ValueError.",
  ["configurations", "histories"], "all five-file configurations, build names and histories of queries",
  "Its tests are not part of the runnable suite; validation resets shared state, which shows only in histories.",
  [GC], [("complete configuration", GC + ": complete_config"), ("validation", GC + ": validate_config_specs_ini")])

p("C26", "Formatted messages keep every line in its box",
  "A formatted message holds the kind and every line of the message and of the extra text or list items, in order, each on a line of its own that starts with '|', between two rules, and no line ends in white space.",
  ["inputs"], "all messages, kinds, item lists and extra texts",
  "The tests compare a few golden messages.",
  [FM], [("formatting", FM + ": get_formatted_msg, get_msg_for_list")])

p("C27", "The script LoadEnv writes reproduces the environment it applied",
  "After a successful run, the script in the account's temporary directory and the one at the requested output path are identical, replace any previous content, and when sourced give the variables that applying the environment gave plus the name of the "
  "loaded environment. A specification file with an unknown operation or a use cycle raises ValueError before anything is applied or written, also when it is tried again; a missing or failing environment is an error, and a failed run writes no script. Listing the environments exits with success and applies and writes nothing.",
  ["inputs", "configurations"], "all environment specifications, targets and output paths",
  "Its tests are not part of the runnable suite and stub the environment.",
  [LE, SE], [("script", LE + ": write_load_matching_env"), ("validation", LE + ": load_set_environment, apply_env")])

p("C28", "GenConfig never overwrites a file without consent",
  "An existing fragment file is replaced only after an answer starting with 'y' or with the --yes option; any other answer is asked again, an answer starting with 'n' exits with a failure status, and end of input or an interrupt ends the run, all of them with the file "
  "untouched. A failed configuration leaves the file untouched. What is written is the generated fragment, or the saved arguments, of the requested configuration and nothing else.",
  ["histories", "fault_sequences"], "all targets (absent, existing, nested, linked), answer sequences and configurations",
  "Its tests are not part of the runnable suite; the safety claim is about every answer sequence.",
  [GC], [("prompt", GC + ": write_cmake_fragment"), ("entry point", GC + ": main")])

p("C29", "The sourced shell tools load what was asked or report failure",
  "Sourcing load-env.sh or gen-config.sh with a valid request returns 0 and puts the requested environment (and its name) into the shell in CI mode, else into one interactive subshell, where no second environment can be loaded and after which the shell is as before. It writes the requested files and, "
  "for gen-config.sh with a source directory, runs cmake in that environment with exactly the generated arguments and that directory. An invalid request returns a non-zero status, leaves the environment variables of the shell unchanged, opens no subshell and does not run cmake; in no case are files left in the working directory or others removed, and runs of one user at the same time do not affect each other.",
  ["configurations", "inputs", "schedules"], "all systems, environments, flags and ways to fail, with a new or existing account directory, and all ways in which two runs of a user interleave",
  "No runnable test executes the shell scripts.",
  [LS, GS, LE, GC], [("status handling", LS + ", " + GS + ": cleanup functions")])

p("C30", "Printed listings show the actions and variables asked for, nothing else",
  "Printing the actions of an environment section lists every action that applying it would perform, once and in order, with its operation, variable or module and value, without performing any. Printing the environment variables shows name and value of "
  "exactly those whose name contains one of the filter strings (all of them without a filter); of the others it shows the name only, or nothing if only matching ones are asked for. Neither changes the environment, the actions or the filter.",
  ["inputs", "configurations"], "all environment sections, process environments, filters and modes",
  "The tests print one section and one filter and do not compare the text.",
  [SE], [("listing of actions", SE + ": pretty_print_actions"), ("listing of variables", SE + ": pretty_print_envvars")])

p("C31", "The environment functions change one variable or nothing",
  "Called directly, envvar_op, envvar_set and envvar_set_if_empty change exactly the named variable as the operation says and return 0, or raise and change nothing: TypeError for arguments of a wrong type, ValueError for an unknown operation, a failed assertion, or, "
  "when empty values are not allowed, an empty argument or an assignment that would leave the variable empty. envvar_find_in_path returns the first matching file of the search path or raises FileNotFoundError.",
  ["inputs", "histories"], "all operations, values (also referring to variables), previous values and call histories",
  "The tests call each function once or twice with plain values.",
  [SE], [("functions", SE + ": envvar_op, envvar_set, envvar_set_if_empty, envvar_find_in_path")])

p("C32", "The module function runs the given command and reports its outcome",
  "Called directly, module() runs exactly one module command with the given words, whether the command is a word or a list and whether the arguments are separate or one string. Exactly what modulecmd tells it to set is changed in the environment, and nothing if the command "
  "ended with a status, a signal or an error message; such a failure gives a non-zero return value, code that raises raises, success gives 0. With Lmod (its Python interface is in $MODULESHOME/init), 0 means that the module is loaded (or unloaded, swapped, or the path exists); if there is no module command (modulecmd neither on the path nor behind a shell function, LMOD_CMD unset or empty) FileNotFoundError results.",
  ["fault_sequences", "inputs"], "every call form, outcome and call history, for modulecmd and for Lmod",
  "The tests mock one failure each; the argument forms and failure kinds combine freely.",
  [MH], [("classic", MH + ": module (modulecmd)"), ("Lmod", MH + ": module (env_modules_python)")], "fault")

p("C33", "Invalid arguments and incomplete operations are refused, changing nothing",
  "A file list, delimiter set, default section, exception or debug level, section, parse option, hook or handler argument, output, filter, interpreter or flag of a warning or script of the "
  "wrong type (or an empty section, or an unknown parse option) given to the parser, its section view or the environment tool raises TypeError or ValueError (KeyError for a look-up) at every exception level and "
  "changes nothing: settings, data, actions, environment and files stay as they were. An environment operation without its variable, or an environment or module "
  "operation without the module or value it needs, makes applying its section and generating its script fail with an error at every level: neither it nor a later operation is performed and no script is written.",
  ["inputs", "histories", "configurations"], "all invalid values at every exception level and point of a read history; all incomplete operations at every position of a section",
  "The tests try one wrong type per call at the default exception level, look only at the exception and hold hardly any incomplete operation.",
  [CPE, SE], [("argument validation", CPE + ": _validate_parameter, setters, section view"), ("action checks", SE + ": handlers, _gen_actioncmd_envvar, _gen_actioncmd_module, _quote_arg")])

p("C34", "Separate objects never influence each other",
  "Whatever other objects (parsers, section views, environment tools, keyword, environment-name and flag parsers, system finders, LoadEnv and GenConfig objects, typed "
  "properties, exception and debug settings), of the same class or on the same files, do before, between and inside the operations of an object, or meanwhile in other threads, every result, "
  "exception, setting and message of the object is the one it gives when it is alone in a fresh process. GenConfig, which redirects the standard output, and environment tools that "
  "share variables are excepted in threads. Only applied sections change the process-wide environment, and only the variables they name.",
  ["schedules", "histories", "inputs"], "all sets of objects, interleavings of their operations, nestings in handlers and thread switches between source lines",
  "The tests use one object at a time and no thread; state shared by a class or a module shows only when a second object with other files or settings is in use.",
  [CPE, TYP, EXC, SE, KP, EK, CK, DS, LE, GC], [("lazy attributes", "hasattr/setattr caches in every class"), ("defaults", TYP + ": prop"), ("exec", SE + ": _exec_helper")])

NOTE = ("Held on the executions of this run (counted in the evidence), decided by comparing every observation with an "
        "independent reference; trusts the standard library's .ini reader, the reference model in /verif/vf and the interpreter.")


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for a in P:
            cid, title, st, over, q, why, files, mech = a[:8]
            assert len(title) <= 80, title
            f.write(json.dumps(dict(
                id=cid, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)),
                ensure_ascii=False) + "\n")
    checks = []
    for a in P:
        fault = len(a) > 8
        checks.append(dict(
            property=a[0], quick_cmd=f"./check {a[0]} quick", thorough_cmd=f"./check {a[0]} thorough",
            technique=("runtime monitoring under fault injection, reference-model oracle on every observed access"
                       if fault else "runtime monitoring of random hostile workloads, reference-model oracle"),
            level="fault_enumeration" if fault else "exploration", level_note=NOTE))
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
                       notes="No hooks in /repo: all instrumentation is attached from outside (sys.monitoring, subclasses, "
                             "stand-ins)."), f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
