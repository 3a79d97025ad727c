def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech, na=reason)


na("E01", "Grounding preserves the answer sets of the input program",
   "Grounding a program with variables, pools, intervals, aggregates and external functions yields a ground program with exactly the stable models of the input language semantics. Simplifications during grounding never add or remove a stable model.",
   ["programs"], "all logic programs", "Tests compare a fixed list of programs; the semantics quantifies over all programs and instances.",
   ["libgringo/src/ground", "libgringo/src/input", "libgringo/src/output"], [("instantiation", "libgringo/src/ground/statements.cc"), ("safety and rewriting", "libgringo/src/input/program.cc")],
   "Functional equivalence of an input program and its instantiation depends on joins over runtime relations; no static argument over this source decides it, and libgringo is not compiled in this environment (submodules are missing).")
na("E02", "Solving enumerates exactly the stable models",
   "Solving under assumptions, in every enumeration and optimization mode and with any number of threads, reports exactly the stable (optimal, brave, cautious) models, each at most once, and reports unsatisfiability only if there is none.",
   ["programs", "schedules", "configurations"], "all ground programs, configurations and thread schedules", "Tests solve small programs in few configurations.",
   ["clasp", "libclingo/src/clingocontrol.cc"], [("search", "clasp submodule"), ("facade", "libclingo/src/clingocontrol.cc")],
   "The solver is an absent submodule; correctness of conflict-driven search on runtime clause databases is outside static analysis of this repository.")
na("E03", "Multi-shot grounding and solving is incremental",
   "Grounding further parts, changing externals and solving repeatedly gives the same stable models as solving the accumulated program from scratch. Facts and domains derived in earlier steps are neither lost nor derived twice.",
   ["histories", "programs"], "all sequences of multi-shot operations", "Tests run fixed operation sequences.",
   ["libclingo/src/clingocontrol.cc", "libgringo/src/ground"], [("incremental domains", "libgringo/gringo/domain.hh"), ("incremental control", "libclingo/src/incmode.cc")],
   "Equivalence over runtime domains and clause sets; no static abstraction of the code bounds them.")
na("E04", "Ground output formats round-trip",
   "Writing a ground program in aspif, reified or text form and reading it back yields a program with the same stable models and theory atoms.",
   ["programs"], "all ground programs", "Tests compare fixed outputs.", ["libgringo/src/output", "libreify/src"], [("aspif output", "libgringo/src/output/backends.cc"), ("reification", "libreify/src/program.cc")],
   "A property of values flowing through two inverse printers and parsers over unbounded inputs; not decidable by dataflow or typestate, and the code is not built here.")
na("E05", "Printed programs and symbols parse back to equal values",
   "The textual form of every symbol and of every non-ground statement parses back to an equal symbol or statement.",
   ["inputs", "programs"], "all symbols and syntax trees", "Tests print and parse fixed examples.", ["libgringo/src/symbol.cc", "libclingo/src/astv2_str.cc"], [("printing", "libclingo/src/astv2_str.cc"), ("parsing", "libgringo/src/input/nongroundgrammar.yy")],
   "Relates a printer with a generated LALR parser on unbounded strings; beyond the static analyses that terminate on this code, and the code is not built here.")
na("E06", "The parser accepts the documented language and reports errors with locations",
   "Every syntactically valid program is accepted with the documented reading, and every invalid one is rejected with an error at the offending position without crashing.",
   ["inputs"], "all input texts", "Tests parse fixed snippets.", ["libgringo/src/input"], [("grammar", "libgringo/src/input/nongroundgrammar.yy"), ("lexer", "libgringo/src/input/nongroundlexer.xch")],
   "Acceptance of unbounded inputs by generated tables (generators re2c and bison are not available offline); a runtime property.")
na("E07", "Asynchronous solving is free of races and deadlocks",
   "Starting, waiting for, cancelling and interrupting asynchronous and yielding searches from any thread neither races on engine state nor deadlocks, and events are delivered before the handle reports completion.",
   ["schedules"], "all interleavings of handle operations and the search thread", "Tests exercise one schedule per run.", ["libclingo/src/clingocontrol.cc", "clasp"], [("asynchronous handle", "libclingo/src/clingocontrol.cc:ClingoSolveFuture"), ("search thread", "clasp submodule")],
   "Synchronisation is implemented in the absent clasp submodule; there is no lock discipline in this repository's sources to analyse.")
na("E08", "Grounding and solving terminate within resource expectations",
   "Programs with finite instantiations are grounded in finite time and memory, and interrupts stop running searches promptly.",
   ["programs", "schedules"], "all programs and interrupt times", "Tests run small inputs.", ["libgringo/src/ground", "libclingo/src/clingo_app.cc"], [("fixed-point computation", "libgringo/src/ground/instantiation.cc")],
   "Termination depends on runtime domain contents; no static bound exists for it.")
