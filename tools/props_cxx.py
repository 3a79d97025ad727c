HH = "libclingo/clingo.hh"
XF = [HH, "libclingo/clingo.h"]
XT = ("abstract interpretation of the resolved C++ syntax tree (exported with libclang, all templates instantiated): path-sensitive summaries of every public operation and "
      "every function handed to the engine, compared with a reviewed specification modulo equivalent formulations")
XN = ("Every public operation of the header in scope, for the instantiations the interface itself uses, over all its paths with symbolic values, loops and collections. "
      "Operations using constructs outside of the supported subset are counted in the evidence and not decided.")
prop("X01", "C++: no engine failure goes unnoticed",
     "Whenever an engine operation used by the C++ interface reports failure, the interface call throws (std::bad_alloc for exhausted memory, the logic or runtime error with the engine's message otherwise), or, within a function called by the engine, the failure is passed on to the engine. No value is returned that depends on results of a failed engine operation, and nothing is thrown if all engine operations succeed.",
     ["fault_sequences", "inputs"], "all public operations of the C++ interface, each engine call in them failing or succeeding in any combination",
     "Most engine calls fail only on resource exhaustion or misuse; the tests trigger a handful of failures.",
     XF, [("error translation", HH + ": Detail::handle_error, handle_cxx_error"), ("engine calls", HH + ": all operations")],
     technique="path-sensitive typestate of engine status results over abstract-interpreter paths of the resolved C++ syntax tree; how each path ends is compared with the specification",
     note="Every engine call with a status result, on every path of every operation and callback.")
prop("X02", "C++: exceptions of user callbacks reach the caller",
     "If a user-supplied C++ callback or handler (grounding callback, logger, propagator, observer, solve event handler, application, syntax tree callback) throws, no exception crosses the engine and the engine is told that the callback failed. The interface call during which it ran then throws the very same exception; exceptions of loggers are swallowed.",
     ["fault_sequences", "inputs"], "all functions handed to the engine, any exception, in every call that may run them",
     "Tests throw from few callbacks; the guarantee is about every callback and every operation that runs it.",
     XF, [("exception capture", HH + ": GRINGO_CALLBACK-style try/catch in callbacks, Detail::handle_cxx_error"), ("propagator, observer, solve handler and application tables", HH + ": Control::register_propagator, register_observer, solve, clingo_main")],
     technique="escape analysis of exceptions over all paths through every function handed to the engine, and abstract-interpreter conformance of the calls that run them", note=XN)
prop("X03", "C++: the interface is complete and agrees with the C interface",
     "Every operation declared by the C++ interface can be used: it compiles in C++14 and C++17 for all types the interface provides it for, and has a definition. Every enumeration member has the value of the engine constant with its meaning, and types passed to the engine as arrays have the layout of the engine's types.",
     ["inputs", "configurations"], "all declared operations, template instantiations, enumeration members and shared layouts",
     "Templates and inline functions that no test uses are never compiled or linked; enumeration values are compared with themselves.",
     XF, [("declarations", HH), ("enumerations", HH + ": enum definitions")],
     technique="type-level witness: explicit instantiation of the whole interface with static assertions in two language standards, declaration/definition completeness query over the resolved syntax tree, constant evaluation of enumerations",
     note="All declared functions, all enumeration members; explicit instantiation for the types in witness/all.cc.")
prop("X04", "C++: engine resources are acquired and released exactly once",
     "Control objects, solve handles, program builder and backend sessions, and syntax tree references are released exactly once, on normal and exceptional exits alike, and only by the object that owns them. Moved-from objects own nothing, swapping and self assignment keep both values, and copies of syntax tree nodes share or duplicate references as documented.",
     ["histories", "fault_sequences"], "all sequences of construction, copy, move, swap, assignment and destruction of owning objects, with failures at any point",
     "Leaks and double releases do not change results; tests see at most a crash in the orders they happen to run.",
     XF, [("control", HH + ": Control, Control::Impl"), ("solve handle", HH + ": SolveHandle"), ("syntax tree", HH + ": AST::Node, ProgramBuilder")], technique=XT, note=XN)
prop("X05", "C++: equality, order and hashing are consistent",
     "Symbols, signatures, syntax tree nodes, iterators, theory terms, elements and atoms, spans, optional values and their mixtures compare exactly as the engine or their elements do. Derived comparisons are consistent with equality and less-than, and equal objects have equal hashes.",
     ["inputs"], "all pairs of values of the comparable types", "Tests compare few pairs.",
     XF, [("comparison operators and hashes", HH + ": operator==, operator<, std::hash specialisations")], technique=XT, note=XN)
prop("X06", "C++: spans, optional and variant values and iterators behave like standard ones",
     "Spans refer to exactly the elements they were created from and check no more and no less than documented; optional and variant values hold what was last assigned and destroy it once. Random access iterators over engine collections satisfy the laws of their category: dereferencing, arithmetic, distance, order and subscripts agree.",
     ["inputs", "histories"], "all containers and iterators for the instantiations the interface uses, all positions",
     "Tests iterate forward over a few short collections; the iterator laws quantify over all positions, offsets and sequences of operations.",
     XF, [("containers", HH + ": Span, Optional, Variant, ValuePointer"), ("iterators", HH + ": ArrayIterator, IndexIterator, KeyIterator, TheoryIterator, ToIterator")], technique=XT, note=XN)
prop("X07", "C++: symbols and atoms mirror the engine",
     "Constructing, inspecting, parsing, comparing and printing symbols and signatures, and iterating, looking up and inspecting symbolic atoms, theory atoms, elements and terms, yields exactly what the engine holds. Signs, arguments, types, literals, guards and conditions are never mixed up, dropped or reordered.",
     ["inputs", "programs"], "all symbols and all ground programs", "Tests inspect a few atoms of a few programs.",
     XF, [("symbols", HH + ": Symbol, Signature, Function, parse_term"), ("symbolic atoms", HH + ": SymbolicAtoms"), ("theory atoms", HH + ": TheoryAtom, TheoryElement, TheoryTerm")], technique=XT, note=XN)
prop("X08", "C++: control and application operations do what was asked",
     "Creating controls, loading, adding, grounding with parameters and external functions, setting externals, querying state, and running applications pass exactly the given names, arguments, parameters, values and options to the engine and return exactly its answers. External functions receive the ground arguments in order and all their results are used.",
     ["inputs", "programs", "configurations"], "all control operations, applications and their options", "Tests cover a few programs and options.",
     XF, [("control", HH + ": Control"), ("applications", HH + ": Application, ClingoOptions, clingo_main")], technique=XT, note=XN)
prop("X09", "C++: solving reports exactly what the engine finds",
     "Solving forwards assumptions, modes and event handlers unchanged; models, costs, symbols, statistics and results delivered to handlers, iterators and callers are those of the engine at that moment. Stepping, waiting, cancelling and core extraction act on the search they belong to, and each event reaches the handler once with the answer it gives returned to the engine.",
     ["programs", "histories", "schedules"], "all searches, modes, handlers and models", "Tests enumerate a few models in few modes.",
     XF, [("solving", HH + ": Control::solve, SolveHandle, SolveEventHandler"), ("models", HH + ": Model, SolveControl")], technique=XT, note=XN)
prop("X10", "C++: propagators see and control the search faithfully",
     "Each propagator event reaches the matching handler once with its literals, thread and assignment; watches, clauses, weight constraints, minimize literals and propagation requests reach the engine with the given literals, types and threads, and their outcome is reported unchanged. Queries of assignments and trails return the engine's values for exactly the literal, level or offset asked for.",
     ["programs", "histories", "schedules"], "all propagators, literals and threads", "Tests run two small propagators.",
     XF, [("initialisation", HH + ": PropagateInit"), ("propagation", HH + ": PropagateControl"), ("assignment", HH + ": Assignment, Trail")], technique=XT, note=XN)
prop("X11", "C++: observers and backends transfer ground programs unchanged",
     "Every statement added through the backend reaches the engine with its kind, heads, bodies, weights, bounds and priorities in order, and every ground statement reaches the observer's matching member the same way, once. Unimplemented observer members leave the program unaffected.",
     ["programs", "inputs"], "all ground statements and backend operations", "Tests use a few statements of each kind.",
     XF, [("backend", HH + ": Backend"), ("observer", HH + ": GroundProgramObserver, Control::register_observer")], technique=XT, note=XN)
prop("X12", "C++: configuration and statistics are read and written at the right key",
     "Reading, writing, iterating and extending configurations and (user) statistics accesses exactly the entry named by the path of keys and indices. Sizes, types, key names, descriptions and values are the engine's, and adding entries creates them with the requested type under the requested key only.",
     ["inputs", "configurations"], "all keys, indices and nested values", "Tests access a few entries.",
     XF, [("configuration", HH + ": Configuration"), ("statistics", HH + ": StatisticsBase")], technique=XT, note=XN)
prop("X13", "C++: syntax trees are read, built and transformed faithfully",
     "Parsing hands each statement to the callback once and in order; constructing, reading, writing, copying, comparing, visiting, unpooling and transforming nodes accesses exactly the named attribute with its full value. Vectors of nodes and strings follow vector semantics, and transformers copy a node only if something in it changed.",
     ["inputs", "programs"], "all node types, attributes, vector operations and transformers", "Tests transform a fixed set of statements.",
     XF, [("nodes", HH + ": AST::Node, NodeVector, StringVector"), ("parsing", HH + ": AST::parse_string, parse_files, ProgramBuilder"), ("transformers", HH + ": Node::transform_ast, visit_ast, unpool")], technique=XT, note=XN)
