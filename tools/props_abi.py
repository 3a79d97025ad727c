AN = ("Sound for the listed rules up to the assumptions: the System V x86-64 data model; clang's intermediate representation of the file is what the build compiles. "
      "The specification of the interface (spec/abi.json) is a reviewed record of the interface of the engine.")
prop("A01", "clingo.h describes the binary interface of the engine",
     "Every program compiled against clingo.h agrees with the engine on every function (parameters and results), every structure (order, types and offsets of fields), every type, and the value of every constant. Language bindings and programs that are not recompiled keep working.",
     ["configurations", "inputs"], "all declarations of clingo.h and all programs using them", "Tests use a fraction of the interface, and most mismatches still compile, link and work for common values.",
     ["libclingo/clingo.h"], [("constants", "libclingo/clingo.h: all enumerations"), ("structures", "libclingo/clingo.h: clingo_propagator, clingo_ground_program_observer, clingo_script, clingo_application, ..."),
                              ("functions", "libclingo/clingo.h: CLINGO_VISIBILITY_DEFAULT declarations")],
     technique="canonical types, constant values and record layouts computed from clang's syntax tree of the header, compared with the recorded binary interface", note=AN)
prop("A02", "Python: the compiled module passes everything on faithfully",
     "Every engine function called from Python receives exactly the given arguments in order with the types of clingo.h, runs without the interpreter lock, and is not called if an argument cannot be converted; its result is converted with its type. Constants have their value, structure members their place and type, and callbacks implemented in Python receive their arguments and return their result unchanged.",
     ["inputs", "histories", "fault_sequences"], "all functions, constants, structures, types and callbacks of both copies of the compiled module", "The tests import one of the two copies, do not call every function, and never let conversions fail.",
     ["app/pyclingo/_clingo.c", "libpyclingo/_clingo.c", "libclingo/clingo.h", "libpyclingo/clingo/_internal.py"],
     [("wrappers", "_clingo.c: _cffi_f_*, _cffi_d_*"), ("tables", "_clingo.c: _cffi_globals, _cffi_types, _cffi_fields, _cffi_struct_unions, _cffi_enums, _cffi_typenames"),
      ("callbacks", "_clingo.c: pyclingo_* and _cffi_externpy__*"), ("constants", "_clingo.c: _cffi_const_*")],
     technique="abstract execution of the LLVM IR of every wrapper and callback under success and failure scenarios for each conversion; decoding of the tables in the IR; comparison with canonical types and layouts of clingo.h", note=AN)
prop("A03", "Script languages are registered completely, or programs stop",
     "Programs register exactly the script languages they are built with before they start, under the documented names and with all functions at their place; if registering fails they print the error and exit with a failure. Embedded Python loads the functions that run scripts, finds modules in the working directory, and is finalized exactly once, holding its lock and only if it was initialized.",
     ["configurations", "fault_sequences"], "all combinations of script languages, with registration succeeding or failing", "Tests run one configuration in which registering succeeds.",
     ["libpyclingo/pyclingo.c", "libpyclingo/_clingo.c", "app/clingo/main.cc", "app/luaclingo/main.cc"],
     [("Python", "libpyclingo/pyclingo.c: clingo_register_python_, pyclingo_free_; libpyclingo/_clingo.c: pyclingo_finalize, _CFFI_PYTHON_STARTUP_CODE"),
      ("programs", "app/clingo/main.cc: main; app/luaclingo/main.cc: luaopen_clingo")],
     technique="abstract execution of the LLVM IR of the registration functions and programs, for each configuration and each failing registration; syntax tree of the embedded start-up program", note=AN)
