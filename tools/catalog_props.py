AI = "abstract interpretation of the sources (flow-, path- and context-sensitive, inlining, fixpoints)"

prop("C01", "What is cached does not depend on how the trace was viewed",
     "What opening a trace stores on disk for later openings does not depend on the window, "
     "the absolute window, time normalisation or the trace's name that were asked for. "
     "Opening the same trace again with other values of these gives the same events as if "
     "nothing had been cached before.",
     "inputs configurations histories",
     "every trace, every value of window, abs_window, normalize_time and name, every sequence of openings",
     "tests open a trace with one or two windows and compare a few frames; they cannot try every "
     "window, every event class or every order of openings",
     [FT, BA],
     [("the trace is parsed and cached without a window; windows and normalisation are applied after",
       "GenericFTrace._do_parse, _apply_user_parameters"),
      ("metadata holds the unnormalised base and end times", "GenericFTrace._get_metadata_to_cache")],
     "information-flow analysis of everything written to files (" + AI + ")",
     "Sound for the modelled language and libraries: all values and control conditions that reach a "
     "file operation are tracked. Event classes are represented by two of them (one with only inherited "
     "methods, one that overrides them).",
     observe=["files in the hidden cache directory next to the trace"])

prop("C02", "Cached data is only used for the trace it was made from",
     "Events and metadata from an earlier opening are used only if the digest of the whole current "
     "content of the trace file equals the one stored with them. Otherwise the trace is parsed as if "
     "there were no cached data, and cached events of different contents are never kept together.",
     "inputs histories fault_sequences",
     "every history of changes to the trace file and its cache between openings",
     "tests modify a trace in a few ways (e.g. touch, overwrite); they cannot cover every edit, partial "
     "digests or stale files that survive an invalidation",
     [FT],
     [("the digest is compared before anything is loaded", "GenericFTrace._is_cache_valid, _load_cache"),
      ("the cache directory is emptied before other data is stored", "GenericFTrace._prepare_cache_dir"),
      ("the digest is stored with the data", "GenericFTrace._get_metadata_to_cache")],
     "path-condition analysis: cached data at an exit requires the digest equality (" + AI + ")",
     "Every path through the constructor, exceptional ones included, on which cached data survives is "
     "shown to be under an equality of a whole-file digest with the stored one. Assumes the trace isn't "
     "modified during opening and that digests don't collide.",
     observe=["FTrace/SysTrace event frames and basetime/endtime after opening"])

prop("C03", "A damaged or unwritable cache never prevents opening a trace",
     "Whatever the state of the cache (missing, unreadable, truncated, malformed, with entries of the "
     "wrong type, or in a directory that cannot be written), opening the trace raises no error because of "
     "it. Events that cannot be taken from the cache are parsed from the trace file.",
     "fault_sequences inputs crash_points",
     "every content of the cache files and every failure of an operation on them",
     "tests corrupt one or two files in one or two ways; the failures of each single operation and "
     "their combinations are not enumerable by samples",
     [FT, BA],
     [("loading and validation are guarded", "GenericFTrace._load_cache"),
      ("failures to write are warnings", "GenericFTrace._update_cache"),
      ("classes that were not loaded are parsed", "GenericFTrace._do_parse")],
     "exception-flow analysis with a fault at every cache operation (" + AI + ")",
     "Every operation on a cache file or on data loaded from its metadata is given all the exceptions it "
     "may raise and none escapes; every exit has each class loaded or the trace parsed. Assumes that a CSV "
     "file the reader accepts has the shape that was written.",
     observe=["exceptions raised by FTrace()/SysTrace()"])

prop("C04", "A crash while caching never leaves a file that is loaded half-written",
     "The files that later openings load are either missing or complete, at whatever point a process "
     "that is storing them dies. Content is written under other names and gets its final name by an "
     "atomic rename after it has been closed.",
     "crash_points",
     "every point at which the process may die while opening a trace",
     "tests never kill a process while it writes its cache",
     [FT, BA],
     [("write to a temporary name, close, rename", "GenericFTrace._write_cache_file")],
     "typestate analysis of cache files over symbolic path names (" + AI + ")",
     "For all writes reachable from opening a trace: their path differs from every path that loading reads; "
     "those only appear as targets of renames of closed files. Assumes rename is atomic; durability of data "
     "after a power failure (fsync) isn't claimed.",
     observe=["files in the cache directory"])

prop("C05", "Opening a trace only changes its own cache, or nothing if that is disabled",
     "Opening a trace changes no file or directory except temporary files of its own and those in the cache "
     "directory named after the trace; in particular never the trace itself. With caching disabled, the cache "
     "directory is neither read nor written.",
     "inputs configurations histories",
     "every path, kind of trace and cache setting",
     "tests check that a cache directory exists or not in a couple of settings; they do not see accesses to "
     "other files",
     [FT, "trappy/systrace.py"],
     [("the cache is only touched if enabled", "GenericFTrace._do_parse"),
      ("the cache path is derived from the trace's", "GenericFTrace._trace_cache_path"),
      ("only a generated text trace is removed", "FTrace._parsing_teardown")],
     "effect analysis of file system operations with symbolic paths (" + AI + ")",
     "All file system operations reachable from opening a trace, with the cache enabled and disabled, for "
     "file and directory arguments and for .dat and .txt traces.",
     observe=["file system operations of FTrace()/SysTrace()"])

prop("C06", "Temporary and open files are released however opening a trace ends",
     "When opening a trace returns or raises, the text version generated from a binary trace has been "
     "removed and every file that was opened has been closed. This holds whether trace-cmd fails or is "
     "missing, the trace cannot be read or decoded, or a line cannot be parsed.",
     "fault_sequences inputs",
     "every operation of opening a trace that may fail, and every line that may not parse",
     "tests only check the directory after a successful opening",
     [FT],
     [("removal in a finally block that covers generation and parsing", "GenericFTrace._do_parse, FTrace._parsing_teardown"),
      ("files are opened in with blocks", "FTrace.__get_trace_metadata, GenericFTrace.__parse_trace_file")],
     "resource typestate analysis over normal and exceptional exits (" + AI + ")",
     "All the exits of the constructor with failures injected at each read, write, subprocess and "
     "conversion. Assumes that removing the temporary file doesn't itself fail and the process isn't killed.",
     observe=["the temporary directory and the open files after FTrace()"])

prop("C07", "Windows and normalisation apply once to every event, cached or parsed",
     "However the events of a trace were obtained (parsed, all from the cache, or some from each), each event's "
     "frame is limited to the window that was asked for and loses no other rows, and its times are shifted by the base "
     "time exactly once if normalize_time is set and not at all otherwise.",
     "inputs configurations histories",
     "every window, every mix of cached and parsed events, every kind of trace",
     "tests compare a few frames for a few windows; each mix of cached and parsed classes, and each event, needs the "
     "same treatment",
     [FT, BA, BT],
     [("user parameters are applied on both ways of loading", "GenericFTrace._do_parse, _apply_user_parameters"),
      ("rows are limited", "GenericFTrace._windowify_class"),
      ("times are shifted", "BareTrace._normalize_time, Base.normalize_time")],
     "history (typestate) analysis of the event frames (" + AI + ")",
     "All paths of the constructor; the operations on each frame from where it's made to the exit are compared with "
     "those allowed. Assumes that frames that are windowed aren't empty and that the base time isn't 0.",
     observe=["trace.<event>.data_frame after opening", "trace.normalized_time"])

prop("C08", "The window of a trace is the intersection of window and abs_window",
     "The events kept are those whose absolute time t satisfies basetime + window[0] <= t <= basetime + window[1] "
     "and abs_window[0] <= t <= abs_window[1], where an end that is None doesn't limit (0 does), both when "
     "parsing and when loading from the cache.",
     "inputs configurations",
     "every value of window and abs_window, every base time, loading from cache or parsing",
     "tests use a few windows on one trace, and mostly one of the two parameters at a time",
     [FT],
     [("intersection of the windows", "GenericFTrace._calc_max_window"),
      ("computed once the base time is known", "GenericFTrace.__populate_data, _load_cache"),
      ("slicing", "GenericFTrace._windowify_class")],
     "symbolic interval analysis: bounds as maxima/minima of linear forms (" + AI + ")",
     "The bounds of every slice are brought to a canonical form and compared with the specification, on all paths. "
     "Assumes a non-zero base time and that a lower bound of 0 excludes nothing.",
     observe=["rows of trace.<event>.data_frame after opening"])

prop("C09", "A trace has exactly the events of its scope and those named by events",
     "Opening a trace gives it one attribute per event: those registered in the scope that was asked for "
     "('all': thermal, sched and dynamic; 'thermal' or 'sched': these and dynamic; 'custom': none) and those "
     "that 'events' names, and no others. A name in 'events' that is a registered event's name or unique word "
     "(with or without its colon) uses that event's parser, even if it's not in the scope; any other name gets "
     "a generic parser for exactly that event. Nothing else that was registered is affected.",
     "inputs configurations",
     "every scope, every list (or single name) of events, every set of registered events",
     "tests use a few event names with each scope; the combinations of names, scopes and registered "
     "events are endless",
     [FT, "trappy/dynamic.py", BT],
     [("the classes of the scope", "GenericFTrace.__init__"),
      ("events named by the user", "GenericFTrace.__add_events"),
      ("an instance per class", "BareTrace, GenericFTrace.__init__")],
     "abstract interpretation of the constructor with the registries evaluated exactly",
     "Every scope is combined with lists of event names that cover the ways a name can relate to registered "
     "ones; the registries are those of the repository, three classes of each kept.",
     observe=["trace.class_definitions, trace.trace_classes, trace.<event>"])

prop("P01", "Times strictly increase in the order of the lines and are the recorded ones",
     "The time of every event is greater than those of all events on earlier lines, of whatever type. It's "
     "the time recorded in its line, in seconds (one without a fraction is in nanoseconds), or, where "
     "that isn't later than the time given to the line before, the next representable number after the latter.",
     "inputs", "every sequence of recorded times: equal, out of order, in either unit, arbitrarily many",
     "tests have a few lines with two equal times; chains of equal times, times that go back and "
     "mixed events need an inductive argument",
     [FT, BA],
     [("times are made unique and increasing", "GenericFTrace.__populate_data"),
      ("units", "SPECIAL_FIELDS_RE, GenericFTrace.__populate_data")],
     "induction over the loop that parses lines: order facts from path conditions (" + AI + ")",
     "An inductive invariant (the last time given is held in a variable that never decreases, and every event "
     "gets a greater one) checked on every path of the loop. Assumes finite positive times.",
     observe=["index of trace.<event>.data_frame with normalize_time=False"])

prop("P02", "The start, the end and the times of a trace do not depend on which events are parsed",
     "basetime is the time of the first line of the trace and endtime that of the last, "
     "whether or not these lines are of events that are parsed. Neither they nor the time and the line number of an "
     "event depend on scope, events, window, abs_window, name or normalize_time, or on the "
     "parsers that are registered.",
     "inputs configurations", "every trace, every selection of events, every window",
     "tests compare basetime for one trace and a few selections; lines that are skipped because of "
     "the selection can be anywhere",
     [FT],
     [("basetime and endtime", "GenericFTrace.__populate_data"),
      ("choice of the parser of a line", "GenericFTrace.__get_trace_class")],
     "information-flow analysis (what is selected must not reach these values) and induction over the loop (" + AI + ")",
     "Explicit and implicit flows of the parsers' unique words and of the constructor's parameters are tracked. "
     "Assumes that the first time isn't 0.",
     observe=["trace.basetime, trace.endtime, index and __line of event frames"])

prop("P03", "Each row has the task, PID, CPU, line and time of its own line",
     "The row of an event has __comm, __pid (an integer), __cpu (an integer) and __line, and these, the data and "
     "the time in the index come from one and the same line; each line that was parsed for an event gives one row.",
     "inputs", "every trace, however events of different types, tasks and CPUs are interleaved",
     "tests check a few columns of a few rows of one trace; a shift of one list against the others "
     "needs particular lines",
     [FT, BA],
     [("fields of a line", "SPECIAL_FIELDS_RE, GenericFTrace.__populate_data"),
      ("lists of an event", "Base.append_data"),
      ("rows", "Base.generate_parsed_data, Base.create_dataframe")],
     "def-use chains from the groups of the regular expression to the rows, lockstep of lists (" + AI + ")",
     "All paths of the parsing loop and of the generator of rows. Assumes no data field is named like a special column.",
     observe=["columns of trace.<event>.data_frame"])

prop("P04", "Each line goes to the right parser, once",
     "A line becomes an event only of a type whose unique word it has; a fallback parser takes it only if no other "
     "registered parser's word is in it, whatever the order of registration; a line with the form of an "
     "event that has some parser's word isn't dropped; and a line never becomes more than one event.",
     "inputs configurations", "every line, every set of parsers and order of their registration",
     "tests have one trace with a fallback and one registration order",
     [FT, "trappy/fallback.py"],
     [("choice of the parser", "GenericFTrace.__get_trace_class"),
      ("lines become events", "GenericFTrace.__populate_data")],
     "path conditions at each append and at the end of each iteration (" + AI + ")",
     "All paths of the parsing loop, for representative parsers in four registration orders.",
     observe=["rows of trace.<event>.data_frame"])

prop("P05", "Line numbers count every line of the trace exactly once",
     "The __line of an event is the number of lines of the trace before it, starting from the first line "
     "that has the form of an event: every later line counts exactly once, whether or not it can be parsed or is of "
     "an event that's selected.",
     "inputs", "every trace, every selection of events",
     "tests check line numbers in traces in which all lines are of the same form",
     [FT, BA],
     [("line counter", "GenericFTrace.__populate_data")],
     "induction over the loop that parses lines (" + AI + ")",
     "All paths of the body of the loop.",
     observe=["__line column of trace.<event>.data_frame"])

prop("R01", "Registering a parser adds it, and only it, until it is unregistered",
     "Every event class the library defines is available under its name and no line belongs to two of them. "
     "Registering a class or a generic parser in a scope makes exactly that event available in exactly that scope "
     "(in all traces opened from then on, whatever their type), with the unique word, the kind of output and "
     "the pivot that were asked for, in place of a previous parser of the same name. "
     "Unregistering a class removes it from all scopes and names, and nothing else.",
     "inputs histories configurations", "every sequence of registrations, every scope",
     "tests register a parser or two in one scope and unregister them",
     [FT, "trappy/dynamic.py", "trappy/__init__.py"],
     [("registries", "GenericFTrace.register_parser, unregister_parser"),
      ("generic parsers", "register_dynamic_ftrace, DynamicTypeFactory, default_init")],
     "effects on the registries of each operation, from the state after loading all modules (" + AI + ")",
     "Exact: the evaluation of the modules' top level and of the registration functions has no unknowns but "
     "for the words, for which representatives are used.",
     observe=["trace.class_definitions", "rows of trace.<event>.data_frame"],
     state=[("registries", "event name -> class per scope", "GenericFTrace.{thermal,sched,dynamic}_classes")])

prop("R02", "Using the library doesn't change the process or the library's own state",
     "Opening a trace, plotting, computing statistics or querying never changes anything that outlives the objects it "
     "returns: no module's or class's attribute, registry, default or shared object, no environment variable, working "
     "directory, random state, warning filter or option of pandas and matplotlib. Only "
     "registering and unregistering parsers and forwarded arguments does.",
     "histories", "every sequence of uses of the library in one process",
     "tests only look at the results of a call, hardly ever at later uses of the library",
     ["trappy"],
     [("registries", "GenericFTrace.__init__, __add_events"),
      ("configuration", "trappy.plotter.AttrConf, trappy.stats.StatConf"),
      ("style of plots", "StaticPlot.view")],
     "interprocedural mutation (effect) analysis with alias tracking over all public entry points (" + AI + ")",
     "Every public class, method and function of the package with arguments of the documented kinds; "
     "installing the resources of plots in IPython's directory is no state of the process.",
     observe=["class_definitions of later traces", "matplotlib.rcParams", "os.getcwd()"])

prop("R03", "Arguments are never modified",
     "No public function, method or class of the library modifies an object it's given (lists of traces, columns, "
     "events, lanes or clusters, dictionaries of filters, labels, colours or data, data frames and series), "
     "at once or by keeping it and modifying it in a later call, and no default value of a parameter.",
     "inputs histories", "every call with every kind of argument, and later calls of the objects' methods",
     "tests hardly ever look at the arguments after a call",
     ["trappy"],
     [("plots", "trappy.plotter"), ("statistics", "trappy.stats"), ("traces", FT)],
     "interprocedural mutation (effect) analysis with alias tracking over all public entry points (" + AI + ")",
     "Every public class, method and function of the package with arguments of the documented kinds.",
     observe=["arguments after the call"])

prop("R04", "Reading, plotting and analysing a trace don't change its data",
     "Once a trace is opened, no plot, statistic, query or method that computes something from it changes the "
     "data frames of its events (rows, values, columns, index), their attributes or those of the trace.",
     "inputs histories", "every use of an open trace, in every order",
     "tests compare the results of single calls; a changed frame is only seen by a later, different use",
     ["trappy"],
     [("loads and frequencies", "trappy/cpu_power.py, GenericFTrace.get_all_freqs_data"),
      ("plots", "Constraint._apply, ILinePlot._fix_indexes"), ("queries", "trappy.stats")],
     "interprocedural mutation (effect) analysis with alias tracking over all public entry points (" + AI + ")",
     "Every public class, method and function of the package with arguments of the documented kinds; which "
     "in-place methods of pandas modify which views is assumed from its documentation.",
     observe=["trace.<event>.data_frame after any call"])

prop("T01", "A binary trace is converted whole, with full times, and raw where a parser needs it",
     "Opening a trace.dat runs trace-cmd report on exactly that file (its path is one argument, no shell), with -t "
     "and with -r for each parsed event whose parser needs raw output and no other; everything it prints, and nothing "
     "of a run that failed, is what is parsed.",
     "inputs faults", "every path, set of registered parsers and outcome of trace-cmd",
     "tests convert one small trace with the standard parsers",
     ["trappy/ftrace.py", "trappy/dynamic.py"],
     [("conversion", "FTrace.__generate_trace_txt"), ("raw events", "FTrace.__get_raw_event_list")],
     "abstract evaluation of the argument vector and flow of the command's output (" + AI + ")",
     "trace-cmd's own interface is assumed; the standard parsers are represented by six of them (the thorough "
     "check has all) and six generic ones.",
     observe=["arguments of trace-cmd", "rows of the trace"])

prop("E01", "No path of the library fails by a mistake of its own",
     "No path through the library, however rarely taken (error handling, unusual options, fallbacks for missing "
     "data), ends in a NameError, UnboundLocalError, ImportError, AttributeError or TypeError of the library's own "
     "making: each name it uses is defined, each local is assigned on every path before it's used, each attribute of "
     "a module, class or object of the library or of the installed libraries exists, each call fits its callee's "
     "signature, instantiated classes define their abstract methods, and format strings get the values they name.",
     "inputs configurations", "every path through every function of the package and its scripts",
     "tests execute part of the paths, and a wrong name on a rarely taken branch does nothing until it's reached",
     ["trappy", "scripts"],
     [("all functions", "trappy"), ("indexers and aggregators", "trappy/stats"),
      ("error handling of the cache", FT)],
     "name resolution, definite assignment, member and signature checks over the syntax trees, with the members and "
     "signatures of the installed libraries; class hierarchies are resolved as a whole program",
     "Attributes of objects whose class isn't evident are checked against the attributes any class of the library or "
     "any library used has; calls of methods by their name where only the library's classes have it.",
     observe=["exceptions"])

prop("D01", "Results don't depend on the order of sets, directories or hashes",
     "The same trace and arguments give the same results, plots, output and registered parsers in every process: "
     "nothing that's returned, displayed, written or done for each of several elements depends on the order in which "
     "a set or a directory lists them, on hashes of strings or on addresses.",
     "inputs configurations", "every PYTHONHASHSEED, file system and process",
     "a test sees one order of each set, mostly of small integers, and one order of the directory",
     ["trappy"],
     [("pivots of plots", "ConstraintManager.generate_pivots, StaticPlot._resolve"),
      ("nodes of a topology", "trappy/stats/Topology.py"), ("loading of the parsers", "trappy/__init__.py"),
      ("events in a plot", "trappy/plotter/EventPlot.py")],
     "interprocedural taint analysis of iteration orders over the syntax trees (variables, attributes, containers, "
     "parameters and results; sorting removes the taint)",
     "Dictionaries are ordered; sums and the like are taken to be the same in any order. Sets kept inside "
     "other containers are followed as arbitrary values.",
     observe=["results of public functions in processes with different PYTHONHASHSEED"],
     )

prop("Q01", "A query uses exactly the rows that its window, filters and events ask for",
     "What an expression of the statistics grammar is computed from, and what inspecting an accessor reports, is the "
     "rows of the named event whose time is within the window (both ends included, a missing end meaning the end "
     "of the trace) and whose columns have one of the values of each filter (a filter of a column the event doesn't "
     "have is ignored), for each of the pivot's values, and no other rows; when indexes are unified, the method, "
     "limit and fill that were asked for are used.",
     "inputs configurations", "every trace, window, filter, pivot and expression",
     "tests use a few filters and windows on small frames; dropped rows at a boundary, a filter value of 0 or an "
     "ignored second filter need particular data",
     ["trappy/stats/grammar.py"],
     [("rows of an event", "Parser._get_data_frame"), ("pivoting and reindexing", "Parser._pivot"),
      ("inspection", "Parser._parse_for_info")],
     "symbolic data-flow terms of the frames' operations, normalised to conjunctions of row predicates and compared "
     "with the required ones (" + AI + ")",
     "Filters of each documented kind and windows with and without ends; loops over unknown elements are taken for "
     "two elements. Operations that aren't understood give a note and no alarm.",
     observe=["trappy.stats.grammar.Parser.solve/inspect"])

prop("Q02", "A trigger fires exactly at the events that its filters and pivot value select",
     "Generating a trigger for a pivot value gives one value for each event of its template whose pivot column has that "
     "value and that pass all of its filters, functions as well as values or lists of them: the event's value "
     "of the trigger's column, or the trigger's number, 0 included, and nothing for other events.",
     "inputs configurations", "every trace, set of filters, value and pivot value",
     "tests use one or two filters, mostly one kind at a time, and non-zero values",
     ["trappy/stats/Trigger.py"],
     [("rows and values", "Trigger.generate"), ("value filters", "apply_filter_kv")],
     "symbolic data-flow terms of the frames' operations, normalised to conjunctions of row predicates and compared "
     "with the required ones (" + AI + ")",
     "Combinations of up to three filters of each kind. Operations that aren't understood give a note and no "
     "alarm.",
     observe=["trappy.stats.Trigger.Trigger.generate"])

prop("Q03", "A plot shows exactly the data that its pivot, filters and window select",
     "Each line of a plot is the asked column of the rows of its trace's event (or of its data frame) for one value "
     "of the pivot, with all filters applied, and there is one for each value of the pivot that the filters allow "
     "and that has rows; with a window, the rows are those from the last one before it to the first one after it.",
     "inputs configurations", "every trace or frame, column, pivot, set of filters and window",
     "tests compare a few lines of small frames; the order of the values of a pivot, empty selections, several filters "
     "and windows starting at 0 are not sampled",
     ["trappy/plotter/Constraint.py"],
     [("selection", "Constraint._apply"), ("pivot values", "Constraint.pivot_vals"), ("window", "Constraint.__init__")],
     "symbolic data-flow terms of the frames' operations, normalised to conjunctions of row predicates and compared "
     "with the required ones (" + AI + ")",
     "In-place operators on shared series are followed. Operations that aren't understood give a note and no alarm.",
     observe=["results of the constraints of a ConstraintManager"])

prop("F01", "Gaps are filled in the order of time",
     "Wherever missing values are filled from their neighbours (padding, back-filling, interpolation), when data of "
     "several events, CPUs, pivots or traces is put on a common time axis, the rows are in the order of time, so that a "
     "value is never taken from a later event in place of the last one.",
     "inputs", "every set of series with different indexes",
     "tests join series of equal indexes, or ones that happen to be in order once joined",
     ["trappy/ftrace.py", "trappy/cpu_power.py", "trappy/stats/grammar.py", "trappy/plotter/ILinePlot.py"],
     [("frequencies and loads", "GenericFTrace.get_all_freqs_data, plot_load, pivot_with_labels"),
      ("queries", "Parser._pre_process"), ("interactive plots", "ILinePlot._fix_indexes")],
     "sortedness analysis over the symbolic data-flow terms of all public entry points (" + AI + ")",
     "Each fill site reached from the public API; which pandas operations keep, make or break the order of an index is "
     "modelled for the installed version. Unknown orders are counted and give no alarm.",
     observe=["indexes and values of joined frames"])

prop("G01", "Expressions of the statistics grammar mean what the documented table of operators says",
     "In an expression that is solved by trappy.stats.grammar.Parser, operators bind in the documented order "
     "(exponentiation, unary minus, multiplication and division, addition and subtraction, comparison, logical ones), "
     "operators of a level apply from the left to the right, and each computes what Python's operator of that name does "
     "with its operands in the order they are written; numbers, variables (0 and other falsy values included) and "
     "arguments of functions are taken as they are written.",
     "inputs", "every expression, of any number of operands, and values of its operands",
     "tests solve a dozen expressions, mostly of two operands",
     ["trappy/stats/grammar.py"],
     [("table of operators", "get_parse_expression"), ("evaluation", "eval_binary_op, eval_unary_op, OPERATOR_MAP"),
      ("operands", "Parser._parse_var_id, Parser._parse_func, parse_num")],
     "the table given to the parser generator is extracted by abstract interpretation and compared with the documented "
     "one; the parse actions are evaluated on symbolic operands, and the resulting terms compared with Python's "
     "operators (" + AI + ")",
     "Actions are evaluated on the tokens of one and of each two operators of a level; pyparsing's own behaviour is "
     "assumed as documented. Values that aren't understood give a note and no alarm.",
     observe=["trappy.stats.grammar.Parser.solve"])

prop("V01", "Interactive plots show the data and options they were given",
     "The page of an EventPlot or ILinePlot carries every event (with its lane, in the order of time), lane, column and option "
     "it was made with (domain, colours, stride, summary; xlim, ylim, fill, fill_alpha, scatter, point_size, drawstyle, group, "
     "sync_zoom), values that are 0 or False included; its script finds everything it reads in that data and hands the options "
     "on to the graph; rows of a table start with their time, and so do their labels. An EventPlot without its summary works: "
     "nothing that only the summary makes is used without it.",
     "inputs", "every set of events, lanes and options",
     "tests only check that plots can be made; there are no tests of the JavaScript",
     ["trappy/plotter/EventPlot.py", "trappy/plotter/ILinePlot.py", "trappy/plotter/ILinePlotGen.py",
      "trappy/plotter/js/EventPlot.js", "trappy/plotter/js/ILinePlot.js"],
     [("pages", "EventPlot.__init__, EventPlot.view, ILinePlotGen.add_plot"), ("scripts", "EventPlot.generate, ILinePlot.generate")],
     "the data that is serialized into the page is extracted as a symbolic term (" + AI + "); the scripts' syntax trees are "
     "analysed flow-insensitively for the access paths they read, use and test of it, and both are compared",
     "Scenarios: EventPlots with named and with numbered lanes, two kinds of events and three lanes; ILinePlots with and without "
     "options, pivots and concatenation. d3 and dygraphs aren't part of the sources: that they honour their documented options "
     "is assumed, and what the browser does is N06.",
     observe=["trappy.EventPlot.view and its page", "trappy.ILinePlot.view and its page"])
prop("V02", "Names in the data can't end or change the page of an interactive plot",
     "Text of the data (names of events, tasks, lanes and columns) is part of the page of a plot only as text: it's serialized so "
     "that it ends neither the script nor an element, and the scripts don't make markup of it.",
     "inputs", "every name in a trace", "tests use harmless names",
     ["trappy/plotter/EventPlot.py", "trappy/plotter/ILinePlotGen.py", "trappy/plotter/IPythonConf.py",
      "trappy/plotter/js/EventPlot.js", "trappy/plotter/js/ILinePlot.js"],
     [("serialization", "IPythonConf.json_for_script"), ("markup", "EventPlot.html, EventPlot.js's labels, tooltips and legend")],
     "taint of the data's text to the page's text and to markup sinks of the scripts, with escapes (" + AI + " and a "
     "flow-insensitive analysis of the scripts' syntax trees)",
     "Sinks of markup are the documented ones of the DOM, d3 and jQuery. The captions of ILinePlots are the user's own markup.",
     observe=["trappy.EventPlot.view and its page", "trappy.ILinePlot.view and its page"])
prop("V03", "Interactive plots load what is installed for them",
     "Every file that the page or script of an interactive plot loads is one that viewing the plot installs, under that name; "
     "local ones are part of the sources; every module that's required has a path, and what's taken for its export is what it "
     "defines. Publishing a notebook makes of each path the public URL of that library, without the extension that require.js adds.",
     "inputs configs", "every plot, and every state of the profile's directory",
     "tests don't install or load anything",
     ["trappy/plotter/IPythonConf.py", "trappy/plotter/EventPlot.py", "trappy/plotter/ILinePlotGen.py",
      "trappy/plotter/js/EventPlot.js", "scripts/publish_interactive_plots.py"],
     [("installation", "iplot_install, install_resource, IPLOT_RESOURCES"), ("paths", "add_web_base and the pages' require.config"),
      ("publishing", "change_resource_paths")],
     "destinations of what is installed, the paths of the pages' require.config (parsed) and the replacements of publishing are "
     "extracted and compared (" + AI + ")",
     "For current IPython (4.0 or later). Whether the public URLs exist can't be decided from the sources.",
     observe=["trappy.plotter.IPythonConf.iplot_install", "the pages of trappy.EventPlot and trappy.ILinePlot",
              "scripts/publish_interactive_plots.py change_resource_paths"])
prop("V04", "Exported notebooks have all that their interactive plots need",
     "Of a notebook that is exported by trappy.nbexport, each output with an interactive plot keeps its data and the calls that "
     "draw it, nothing of require.js is left, and nothing is used that was removed; each notebook loads the libraries of its plots, "
     "in the order they need each other, and has their scripts before they are used, whatever was exported before and whichever "
     "other plots it has.",
     "inputs histories", "every notebook and sequence of exported notebooks", "there are no tests of the exporter",
     ["trappy/nbexport/exporter.py", "trappy/plotter/EventPlot.py", "trappy/plotter/ILinePlotGen.py"],
     [("filter", "TrappyPlotterPreprocessor.filter_output, preprocess_cell, preprocess"), ("markers", "TRAPPY_PUBLISH_* in the pages")],
     "the pages' text, extracted with its data left symbolic, is put through an abstract evaluation of the exporter for two "
     "notebooks in turn; the remaining scripts are parsed and compared with the original ones (" + AI + ")",
     "nbconvert is assumed to call preprocess once for each notebook and preprocess_cell for its cells. Pages are those of V01, "
     "and a notebook with both kinds of plots in either order.",
     observe=["trappy.nbexport.HTML"])

prop("V05", "Static plots draw every series once, where its axis, colour and legend say it belongs",
     "A LinePlot or BarPlot draws each series (the values selected for a trace, event, column and pivot value) exactly once: on the "
     "axis of its pivot value (with concat, of its trace and column; with permute, of its trace and pivot value), whose title names "
     "it. Series have the same colour if and only if they belong to the same entry of the legend, which has one labelled entry for "
     "each trace and column (concat: pivot value; permute: column) that is drawn. Limits hold on every axis, no axis is left empty "
     "or removed with data, arguments are forwarded, filled areas belong to their line, and bars neither overlap nor hide others.",
     "inputs configs", "every combination of traces, events, columns, pivot values that only some have, and options",
     "the tests draw plots and look at none of them, or at one axis",
     ["trappy/plotter/StaticPlot.py", "trappy/plotter/LinePlot.py", "trappy/plotter/BarPlot.py", "trappy/plotter/PlotLayout.py",
      "trappy/plotter/Constraint.py", "trappy/plotter/ColorMap.py"],
     [("layout", "StaticPlot._resolve, PlotLayout"), ("drawing", "LinePlot.plot_axis, fill_line; BarPlot.plot_axis"),
      ("legend", "StaticPlot.add_to_legend, make_title"), ("combinations", "ConstraintManager")],
     "the plotters are evaluated abstractly with symbolic series for chosen pivot values; what's drawn, where and how is read off "
     "the calls of matplotlib that are made (" + AI + ")",
     "Two traces, two events, up to four pivot values, in a configuration for each option. That matplotlib draws what it is given is "
     "assumed. For permuted plots of more events than one for several traces nothing is stated.",
     observe=["trappy.LinePlot(...).view(), trappy.BarPlot(...).view(): the axes, lines, bars and legend of the figure"])

prop("N01", "Data read from the cache equals the data parsed from the trace",
     "Opening a trace whose cache is valid gives, for each event, the same rows, columns, types and values as parsing it "
     "again would.",
     "inputs histories", "every trace, and every value in it",
     "tests compare a few events of sample traces",
     [FT, BA], [("cache", "Base.write_csv, Base.read_csv")],
     na="whether a value survives being written as CSV and read back depends on the value itself (numbers that look like "
        "others, empty strings, lists, quoting) and on the code of pandas' reader and writer, which no static argument "
        "over TRAPpy's sources bounds; C01-C05 decide what can be decided about the cache: what's written, for which "
        "trace it's used, and that failures don't matter")
prop("N02", "Callbacks run in the order of the lines of the trace",
     "apply_callbacks calls the function of each event once for each of its rows, in the order of the lines.",
     "inputs", "every trace and map of callbacks", "tests use one small trace",
     [FT], [("merge", "GenericFTrace.apply_callbacks")],
     na="it is a merge of several sequences, the order of which is an invariant of a loop over the rows' line numbers: the "
        "abstract domains used here know no such relation between an unbounded number of values, and a check of the "
        "merge's form would reject correct rewritings of it")
prop("N03", "Statistics, loads, frequencies and correlations are numerically right",
     "Histograms of frequencies, loads, areas under curves, residencies and correlations have the values that their "
     "definitions give.",
     "inputs", "every trace", "tests check the results for a few short series",
     [FT, "trappy/cpu_power.py", "trappy/stats/Correlator.py", "trappy/stats/Aggregator.py"],
     [("statistics", "Correlator, MultiTriggerAggregator, get_all_freqs, plot_load")],
     na="the results are functions of runtime numbers computed by pandas and numpy; a static argument has no oracle for "
        "them other than the formulas themselves. What selects and orders their data is decided by Q01-Q03 and F01")
prop("N04", "A layout of plots gives each plot its own cell of the grid",
     "PlotLayout and ILinePlotGen map the numbers of plots to distinct cells, for every number of plots and columns.",
     "inputs configurations", "every number of plots and plots per line", "tests use a few numbers",
     ["trappy/plotter/PlotLayout.py", "trappy/plotter/ILinePlotGen.py"], [("mapping", "PlotLayout.get_axis")],
     na="it is non-linear integer arithmetic (quotients and remainders of unbounded parameters), out of reach of the "
        "dataflow domains, and deciding it with a solver is a different family of techniques")
prop("N05", "Duplicate times are spread to distinct times before the next one",
     "handle_duplicate_index returns a frame whose times are distinct, in the same order, each group of equal times being "
     "spread between its time and the next one.",
     "inputs", "every index", "tests use two short indexes",
     ["trappy/utils.py"], [("spreading", "handle_duplicate_index")],
     na="the result depends on floating point arithmetic on runtime times and on the number of equal ones")
prop("N06", "Interactive plots can be zoomed and queried in the browser",
     "The events under the cursor, the zoom of a group and the extent shown are the right ones.",
     "inputs schedules", "every sequence of the user's actions", "there are no tests of the JavaScript",
     ["trappy/plotter/js/EventPlot.js", "trappy/plotter/js/ILinePlot.js"], [("scripts", "EventPlot.js, ILinePlot.js")],
     na="the behaviour depends on the browser's DOM, d3 and dygraphs, which aren't part of the sources and aren't installed "
        "here; there's nothing to analyse their effects against")
