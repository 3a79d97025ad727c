PYFILES = [PY + f for f in ("_internal.py", "core.py", "symbol.py", "symbolic_atoms.py", "theory_atoms.py", "control.py", "solving.py", "propagator.py", "backend.py",
                            "statistics.py", "configuration.py", "ast.py", "application.py", "script.py", "theory.py", "util.py")]
CONF_T = "whole-package abstract interpretation of the Python syntax trees (path-sensitive summaries of every operation) compared with a reviewed specification modulo equivalent formulations"
CONF_N = ("Every operation in scope is summarised over all its paths with symbolic values, loops and collections; two summaries are equal only if every feasible pair of paths "
          "has the same engine calls, arguments, results, exceptions and stored state. Values the interpreter cannot name degrade the comparison of that operation to its engine operations; the evidence counts them.")

prop("P01", "Python: no engine failure goes unnoticed",
     "Whenever an engine operation used by a Python API call reports failure, that API call raises an exception (MemoryError for exhausted memory, RuntimeError with the engine's message otherwise) instead of returning a value. No further result of the failed operation is used, and nothing but the documented exceptions is raised on success.",
     ["fault_sequences", "inputs"], "all public operations of the Python package, each engine call in them failing or succeeding in any combination",
     "Most engine calls fail only on resource exhaustion or misuse; the tests trigger a handful of failures and no test fails the others.",
     PYFILES, [("status check of every engine call", PY + "_internal.py:_handle_error, _c_call"), ("engine calls in all modules", PY + "*.py")],
     technique="path-sensitive typestate of engine status results over abstract-interpreter paths; comparison of how each operation can end with its specification",
     note="Every engine call with a status result, on every path of every operation; loops are covered symbolically.")
prop("P02", "Python: exceptions of user callbacks reach the caller",
     "If a user-supplied Python callback (grounding context, propagator, observer, logger, solve event handler, script, application, theory or syntax tree callback) raises, no exception crosses the engine and the engine is told that the callback failed. The API call during which it ran then raises that very exception object instead of a generic error. No callback failure is silently reported as success; only callbacks that have no way to report errors (loggers, option parsers) end the process instead.",
     ["fault_sequences", "inputs"], "all callbacks registered with the engine, any exception, in every API call that may run them",
     "Tests raise exceptions from few callbacks and only through the most common API calls; the guarantee is about every pair of callback and operation that runs it.",
     PYFILES, [("callback error capture", PY + "_internal.py:_cb_error_handler, _cb_error_panic"), ("re-raise", PY + "_internal.py:_handle_error"), ("exported callbacks", "functions decorated with def_extern")],
     technique="escape analysis of exceptions in exported callbacks plus interprocedural check that each failing call which may run a callback consults the stored exception",
     note="All exported callbacks and all call sites of engine operations that may run callbacks.")
prop("P05", "Python: enumerations carry the engine's meaning",
     "Every member of the Python enumerations (message codes, truth values, model types, symbol types, theory term types, propagator modes, heuristic and external types, syntax tree types and operators, ...) denotes the engine constant with the same documented meaning. No engine constant is represented by two members or by the wrong one.",
     ["inputs"], "all enumeration members", "Tests compare a few members, mostly with themselves on both sides.",
     PYFILES + ["libclingo/clingo.h"], [("enumeration classes", PY + "*.py"), ("engine constants", "libclingo/clingo.h")],
     technique="constant evaluation of enumeration classes from the syntax tree against the constants declared in the C header",
     note="All enumeration members.")
prop("P06", "Python: engine resources are acquired and released exactly once",
     "Each control object, solve handle, backend and program builder session, and syntax tree reference obtained from the engine is released exactly once, on normal and exceptional exits alike, and only by the Python object that owns it. Borrowed handles are never released, and objects that outlive a callback hold a reference of their own.",
     ["histories", "fault_sequences"], "all operations that acquire, share or release engine resources, in any order and with exceptions at any point",
     "A leak or double release does not change results; tests see at most a crash in the orders they happen to run.",
     [PY + "control.py", PY + "solving.py", PY + "ast.py", PY + "backend.py", PY + "theory.py", PY + "application.py"],
     [("control ownership", PY + "control.py:Control.__init__, __del__"), ("solve handle", PY + "solving.py:SolveHandle.__exit__"), ("syntax tree references", PY + "ast.py:AST.__init__, __del__")],
     technique=CONF_T, note=CONF_N)
prop("P07", "Python: data and callbacks given to the engine outlive their use",
     "Memory, callback tables and user objects passed to the engine stay alive as long as the engine may still access them: arguments for the duration of the call, registered propagators, observers, loggers and scripts as long as the control object or process, solve callbacks until the search has ended. This holds independently of garbage collection timing and of other calls on the same object.",
     ["histories", "schedules"], "all allocations and callback registrations, any garbage collection and call order",
     "A dangling pointer shows up only if memory is reused at the wrong time; the tests keep references themselves or finish too early.",
     PYFILES, [("callback data kept in the control object", PY + "control.py:Control._mem, solve, register_propagator"), ("buffers", "_ffi.new and _ffi.from_buffer uses in all modules")],
     technique="ownership lint over allocations for the engine (each must be referenced by a live object at every use) plus abstract-interpreter conformance of operations that register callbacks",
     note="Every allocation for and pointer stored in engine structures.")
prop("P08", "Python: pointers, lengths and buffers agree",
     "Every array passed to the engine is passed with exactly the number of elements it holds, built from all elements of the Python value in order. Every string or array read from the engine is read in full: the buffer has the size the engine reported and exactly that many elements are converted.",
     ["inputs"], "all operations with array or string arguments or results, all lengths including zero",
     "Tests use short lists; off-by-one lengths read neighbouring memory that usually looks harmless.",
     PYFILES, [("array conversion", PY + "*.py call sites with (pointer, size) arguments"), ("string results", PY + "_internal.py:_str, _to_str")],
     technique="symbolic matching of pointer and length arguments and of size/fetch pairs at every engine call, plus abstract-interpreter conformance of array-valued operations",
     note="All call sites with pointer/length parameters and all size/fetch pairs; lengths are symbolic.")
prop("P09", "Python: equality, hashing and ordering are consistent",
     "Symbols, syntax tree nodes, symbolic atoms, theory terms, elements and atoms, signatures and sequences compare equal exactly if the engine considers them equal and they are of the same kind; equal objects have equal hashes, and orderings are the engine's total order with all derived comparisons consistent. Comparing with foreign objects neither crashes nor equates them.",
     ["inputs"], "all pairs of values of the comparable types", "Tests compare few pairs; consistency is a statement about all pairs and about sorting and hashing of mixed values.",
     [PY + "symbol.py", PY + "ast.py", PY + "symbolic_atoms.py", PY + "theory_atoms.py", PY + "core.py"],
     [("comparison operators", "__eq__, __lt__, __hash__ methods and total_ordering decorators")],
     technique=CONF_T, note=CONF_N)
prop("P10", "Python: symbols and atoms mirror the engine",
     "Constructing, inspecting, comparing and printing symbols, and iterating, looking up and inspecting symbolic atoms, theory atoms, elements and terms, yields exactly what the engine holds. Signs, arguments, types, literals, guards and conditions are never mixed up, dropped or reordered, and lookups of absent entries report absence.",
     ["inputs", "programs"], "all symbols and all ground programs", "Tests inspect a few atoms of a few programs.",
     [PY + "symbol.py", PY + "symbolic_atoms.py", PY + "theory_atoms.py"], [("symbol constructors and properties", PY + "symbol.py"), ("symbolic atoms", PY + "symbolic_atoms.py"), ("theory atoms", PY + "theory_atoms.py")],
     technique=CONF_T, note=CONF_N)
prop("P11", "Python: control operations do what was asked",
     "Loading, adding, grounding (with parameters and external functions), setting and releasing externals, configuring, interrupting, updating and cleaning up act on the program with exactly the names, parameters, truth values and parts given. External functions are called with the ground arguments in order and all their results are used; queried flags are those of the engine.",
     ["inputs", "histories", "programs"], "all control operations with all arguments in all orders", "Tests call each operation with one or two argument combinations.",
     [PY + "control.py"], [("control object", PY + "control.py:Control"), ("external functions", PY + "control.py:pyclingo_ground_callback")],
     technique=CONF_T, note=CONF_N)
prop("P12", "Python: solving reports exactly the engine's results",
     "Solving passes all assumptions, modes and handlers on; each model, core, statistics update and result event reaches the handler with its own data, a handler's request to stop is honoured, and results, models and cores read from a handle are those of the current search step. Model inspection and extension and solver control translate every flag, literal and clause unchanged.",
     ["inputs", "histories", "schedules"], "all combinations of assumptions, modes, handlers and handle operations", "Tests combine few modes and rarely the asynchronous ones.",
     [PY + "solving.py", PY + "control.py"], [("solve call", PY + "control.py:Control.solve"), ("events", PY + "control.py:pyclingo_solve_event_callback"), ("models and results", PY + "solving.py")],
     technique=CONF_T, note=CONF_N)
prop("P13", "Python: propagators see and control the search faithfully",
     "Propagator callbacks receive exactly the changes, literals, thread and assignment the engine passes, only implemented callbacks are registered, and decisions and stop requests are returned unchanged. Watches, literals, clauses, weight constraints, minimize constraints and assignment or trail queries are forwarded with their exact arguments and results.",
     ["inputs", "histories", "schedules"], "all propagator callbacks and operations, any assignment", "Tests run a few propagators on small problems.",
     [PY + "propagator.py", PY + "control.py"], [("callback adapters", PY + "propagator.py:pyclingo_propagator_*"), ("init, control, assignment, trail", PY + "propagator.py")],
     technique=CONF_T, note=CONF_N)
prop("P14", "Python: observers and backend translate ground statements exactly",
     "Every ground statement (rules, weight rules, minimize, projection, output, externals, assumptions, heuristics, edges, theory data) reported to an observer or added through the backend carries exactly the given atoms, literals, weights, priorities, types and flags in order. Only implemented observer callbacks are registered.",
     ["inputs", "programs"], "all statements with all arguments including empty lists", "Tests replay a few statements of each kind.",
     [PY + "backend.py", PY + "control.py"], [("observer adapters", PY + "backend.py:pyclingo_observer_*"), ("backend", PY + "backend.py:Backend")],
     technique=CONF_T, note=CONF_N)
prop("P15", "Python: configuration and statistics access is exact",
     "Reading, writing and enumerating configuration options and statistics addresses exactly the named or indexed entry, distinguishes arrays, maps and values as the engine does, and reports missing entries as errors instead of touching others. User statistics are stored with exactly the structure and values given, including nested, extended and updated ones.",
     ["inputs", "configurations"], "all keys, indices and nested values", "Tests access a few entries of the default configuration.",
     [PY + "configuration.py", PY + "statistics.py"], [("configuration", PY + "configuration.py:Configuration"), ("statistics", PY + "statistics.py")],
     technique=CONF_T, note=CONF_N)
prop("P16", "Python: syntax trees are read, built and transformed faithfully",
     "Parsing hands each statement of the input to the callback once and in order; reading, writing, constructing, copying, comparing, unpooling and transforming nodes accesses exactly the named attribute with its full value, and sequence operations follow Python's list semantics. Unchanged nodes are not copied by transformers and shared nodes are not modified by copies.",
     ["inputs", "programs"], "all node types, attributes, sequence operations and transformers", "Tests transform a fixed set of statements.",
     [PY + "ast.py"], [("nodes", PY + "ast.py:AST"), ("sequences", PY + "ast.py:ASTSequence, StrSequence"), ("transformer", PY + "ast.py:Transformer"), ("parsing", PY + "ast.py:parse_string, parse_files")],
     technique=CONF_T, note=CONF_N)
prop("P17", "Python: applications, scripts and theories are wired correctly",
     "Custom applications receive their options, flags, files, models and messages as the engine sends them and only the hooks they implement replace the default behaviour; embedded scripts are executed, queried and called with the right names, arguments and contexts. Theories and the remaining helpers forward every call and value unchanged.",
     ["inputs", "configurations"], "all applications, options, scripts and theory calls", "Tests run one application and a few scripts.",
     [PY + "application.py", PY + "script.py", PY + "theory.py", PY + "core.py", PY + "util.py", PY + "__main__.py"],
     [("application callbacks", PY + "application.py:pyclingo_application_*"), ("script execution", PY + "script.py:pyclingo_script_*"), ("theory", PY + "theory.py:Theory")],
     technique=CONF_T, note=CONF_N)
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_cxx.py")).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_lua.py")).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_abi.py")).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_na.py")).read())
