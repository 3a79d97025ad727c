LU = "libluaclingo/luaclingo.cc"
LF = [LU, "libluaclingo/luaclingo.h", "libclingo/clingo.h"]
LT = ("abstract interpretation of the resolved C++ syntax tree (exported with libclang) with a model of the Lua C API: path-sensitive summaries of every function provided to Lua, "
      "to the engine and to embedding programs, compared with a reviewed specification modulo equivalent formulations")
LN = "Every function in scope over all its paths with symbolic arguments of any Lua type, loops and tables; Lua errors may occur in every operation that allocates memory or runs user code."
prop("L01", "Lua: no engine failure goes unnoticed",
     "Whenever an engine operation used by the Lua module reports failure, the module's function raises a Lua error carrying the engine's message, or, within a function called by the engine, the failure is passed on to the engine. No function returns values that depend on results of a failed engine operation, and valid calls raise no errors if all engine operations succeed.",
     ["fault_sequences", "inputs"], "all functions of the Lua module, each engine call in them failing or succeeding in any combination",
     "The tests of the repository contain no Lua tests of failing operations.",
     LF, [("error translation", LU + ": handle_c_error, call_c"), ("engine calls", LU + ": all functions")],
     technique="path-sensitive typestate of engine status results over abstract-interpreter paths of the resolved C++ syntax tree; how each path ends is compared with the specification", note=LN)
prop("L02", "Lua: errors of Lua callbacks are contained and reported",
     "If a Lua function called by the engine (grounding function, propagator, observer, model or finish callback, logger, script) raises an error, or memory runs out, the error does not jump across the engine: it is caught, reported to the engine with its message, and the operation during which it happened fails. C++ exceptions never pass through Lua, nor Lua errors through a function called by the engine.",
     ["fault_sequences", "inputs"], "all functions handed to the engine, with errors raised at any point",
     "Uncontained errors need errors at particular points (also out of memory), and then corrupt the engine or terminate the process.",
     LF, [("protected calls", LU + ": luacall_, handle_lua_error, PROTECT"), ("callbacks", LU + ": Propagator, GroundProgramObserver, SolveHandle, LuaContext, LuaScriptC")],
     technique="escape analysis of Lua errors and C++ exceptions over all paths through every function handed to the engine; conformance of these functions", note=LN)
prop("L03", "Lua: engine resources are released exactly once",
     "Control objects, solve handles, backend sessions and C++ containers owned by Lua objects are released exactly once, by close or by the garbage collector, and not used afterwards. A Lua error never skips the destructor of a C++ object, and objects whose construction fails own nothing.",
     ["histories", "fault_sequences"], "all sequences of creation, closing, collection and failure",
     "Leaks and double releases need collection at particular points or failures and do not change results.",
     LF, [("owners", LU + ": ControlWrap, SolveHandle, AnyWrap, Backend"), ("protected construction", LU + ": PROTECT, protect, AnyWrap::new_")],
     technique="ownership analysis: Lua API operations that may raise errors against objects with destructors alive at the call, on all paths; conformance of owners and finalizers", note=LN)
prop("L04", "Lua: propagators see and control the search faithfully",
     "Each propagator event reaches the matching Lua method once, with its changes, assignment and the state of the right thread; watches, clauses, literals, weight constraints and minimize literals reach the engine with the given literals, types, tags and threads, and the outcome of the engine is returned unchanged. Missing methods are skipped without affecting others.",
     ["programs", "histories", "schedules"], "all propagators, events, literals and threads", "Tests run few Lua propagators, if any.",
     LF, [("callbacks", LU + ": Propagator"), ("initialisation", LU + ": PropagateInit"), ("propagation", LU + ": PropagateControl")], technique=LT, note=LN)
prop("L05", "Lua: observers and backends transfer ground programs unchanged",
     "Every statement added through the Lua backend reaches the engine with its kind, heads, bodies, weights, bounds and priorities in order, and every ground statement reaches the matching observer method the same way, once. Missing observer methods leave the program unaffected.",
     ["programs", "inputs"], "all ground statements and backend operations", "Tests use a few statements, if any.",
     LF, [("backend", LU + ": Backend"), ("observer", LU + ": GroundProgramObserver")], technique=LT, note=LN)
prop("L06", "Lua: symbols and values are converted faithfully",
     "Numbers, strings, tuples and symbols given by Lua code become exactly the corresponding engine symbols, and values that have no counterpart raise errors rather than being altered. Inspecting, constructing and parsing symbols yields exactly what the engine holds.",
     ["inputs"], "all Lua values and all symbols", "Tests convert few values.",
     LF, [("conversion", LU + ": luaToCpp, luaToVal, luaToSymbol, luaToInt"), ("symbols", LU + ": Term")], technique=LT, note=LN)
prop("L07", "Lua: control functions do what was asked",
     "Creating controls, loading, adding, grounding with parameters and external functions, setting externals, interrupting and querying state pass exactly the given names, arguments, parameters and values to the engine and return exactly its answers. External functions receive the ground arguments in order, and all their results are used.",
     ["inputs", "programs", "configurations"], "all control functions and arguments", "Tests cover a few programs.",
     LF, [("control", LU + ": ControlWrap"), ("external functions", LU + ": LuaContext, luaCall")], technique=LT, note=LN)
prop("L08", "Lua: solving reports exactly what the engine finds",
     "Solving forwards assumptions, modes and callbacks unchanged, also contradictory assumptions and atoms that do not occur; models, costs, symbols, cores and results are those of the engine at that moment. Resuming, cancelling, closing and iterating act on the search they belong to and fail with an error once it is closed; the answers of callbacks are returned to the engine.",
     ["programs", "histories", "schedules"], "all searches, modes, callbacks and models", "Tests enumerate a few models in few modes.",
     LF, [("solving", LU + ": ControlWrap::solve, SolveHandle, SolveResult"), ("models", LU + ": Model, SolveControl"), ("literals", LU + ": luaToLits")], technique=LT, note=LN)
prop("L09", "Lua: symbolic and theory atoms mirror the engine",
     "Iterating, counting, looking up and inspecting symbolic atoms, theory atoms, elements and terms yields exactly what the engine holds: no atom, argument, condition, guard or literal is dropped, repeated, reordered or mixed up.",
     ["programs"], "all ground programs", "Tests inspect a few atoms.",
     LF, [("symbolic atoms", LU + ": SymbolicAtom, SymbolicAtoms, SymbolicAtomIter"), ("theory atoms", LU + ": TheoryTerm, TheoryElement, TheoryAtom, TheoryIter")], technique=LT, note=LN)
prop("L10", "Lua: configuration and statistics mirror the engine",
     "Reading, writing, describing and iterating configuration entries acts on exactly the named entry, with nil for entries without value; statistics are converted completely, with maps, arrays and values as in the engine, and are never those of an earlier search.",
     ["configurations", "histories"], "all configuration keys and statistics trees", "Tests read a few entries.",
     LF, [("configuration", LU + ": Configuration"), ("statistics", LU + ": newStatistics, ControlWrap::index")], technique=LT, note=LN)
prop("L11", "Lua: assignments and trails report the engine's state",
     "Queries of assignments and trails return the engine's values for exactly the literal, level or offset asked for; iteration and indexing agree with each other and cover every entry once.",
     ["histories", "inputs"], "all assignments, literals, levels and offsets", "Tests run few Lua propagators, if any.",
     LF, [("assignment", LU + ": Assignment"), ("trail", LU + ": Trail")], technique=LT, note=LN)
prop("L12", "Lua: comparisons and enumerations agree with the engine",
     "Symbols, theory objects and enumeration values compare exactly as the engine or their values do, only with values of the same type, and derived comparisons are consistent. Every member of an enumeration table wraps the engine constant with its meaning, and the module provides all documented types and functions.",
     ["inputs"], "all pairs of values, all enumeration members and tables", "Tests compare few values.",
     LF, [("comparisons", LU + ": cmp, eq, lt, le members"), ("enumerations", LU + ": EnumType registrations"), ("module", LU + ": luaopen_clingo, lua_regMeta")],
     technique=LT + "; abstract execution of the module's initialisation to obtain the contents of all its tables", note=LN)
prop("L13", "Lua: embedding and scripts work as documented",
     "Loading the module from Lua, embedding it into an application and registering it as a script language provide the same module. Scripts execute their code with its location, functions are looked up and called with the given arguments, and the Lua state of the application is used if there is one and left unchanged otherwise.",
     ["configurations", "inputs", "fault_sequences"], "all ways to load the module and all scripts", "Tests cover one way of loading.",
     LF, [("module", LU + ": clingo_init_lua_, luaopen_clingo"), ("scripts", LU + ": clingo_register_lua_, LuaScriptC")], technique=LT, note=LN)
prop("L14", "Lua: stack and message discipline",
     "Every function leaves the Lua stack as it found it except for its results, only touches its own values, reserves stack space for what it pushes also for large inputs, and returns exactly the values it claims. Text from users or the engine never acts as a format string.",
     ["inputs", "histories"], "all functions on all paths, with inputs of any size", "Overflows and imbalances show only for large inputs, after many calls, or in rare paths.",
     LF, [("helpers", LU + ": luacall_, luaToVal, luaToLits, newStatistics"), ("callbacks", LU + ": Propagator, GroundProgramObserver")],
     technique="abstract interpretation of the Lua stack of every function (values, reserved space, symbolic counts of values pushed in loops), literal-format rule", note=LN)
