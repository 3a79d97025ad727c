"""Which rules and operations decide which property."""
from common import Broken
import pyprops as py
import cxprops as cx
import luaprops as lua
import glueprops

ALL = list(py.AREAS)
CONF = ("Every operation in scope is summarised from the syntax tree by an abstract interpreter (all paths, engine calls with arguments, "
        "conditions, results, stored state; loops and collections symbolically) and the summary is compared, path by path and modulo equivalent "
        "formulations, with the reviewed specification spec/py.json.")

XCONF = ("The resolved syntax tree of the header and of a file instantiating all its templates is exported with libclang; every public operation is summarised by an "
         "abstract interpreter (all paths, engine calls with arguments, conditions, results, exceptions, stored state; loops symbolically; callbacks as operations of "
         "their own) and compared, path by path and modulo equivalent formulations, with the reviewed specification spec/cxx.json.")

LCONF = ("The resolved syntax tree of libluaclingo/luaclingo.cc is exported with libclang; every function reachable from Lua, from the engine, and from embedding programs is "
         "summarised by an abstract interpreter with a model of the Lua C API (stack frames, tables, userdata, protected calls, errors as non-local jumps) and compared, path by "
         "path and modulo equivalent formulations, with the reviewed specification spec/lua.json.")

CHECKS = {
    "P01": lambda: py.run("P01", "no path continues after a failed engine call; the failure ends the operation with the documented exception",
                          "Paths on which an engine call reports failure are followed to the end of each operation. " + CONF, rules=[py.r_errors], facet=("errors", ALL), extra=r"^internal:role"),
    "P02": lambda: py.run("P02", "callbacks never let exceptions escape into the engine, store them, and every call that can run a callback re-raises the stored exception",
                          "All functions exported to the engine and all call sites of operations that can run them. " + CONF, rules=[py.r_callbacks], extra=r"^(callback|onerror):|^internal:(role|theory\.Theory|_internal)|^control\.Control\.(ground|solve)$|^propagator\."
                          , facet=("errors", ALL)),
    "P05": lambda: py.run("P05", "every enumeration member has the value of the engine constant with the same meaning",
                          "All enumeration classes evaluated from the syntax tree against the constants of clingo.h.", rules=[py.r_enums]),
    "P06": lambda: py.run("P06", "every handle obtained from the engine is released exactly once and never used by a second owner", CONF,
                          extra=r"^control\.Control\.(__init__|__del__|__enter__|__exit__|solve|backend|clear)|^solving\.SolveHandle|^ast\.(AST\.(__init__|__del__|__copy__|__deepcopy__|__getattr__|__setattr__|keys|items|values|update)|ASTSequence|StrSequence|ProgramBuilder|parse)|^backend\.Backend\.(__enter__|__exit__)|^(callback):pyclingo_ast|^internal:(ast|control|theory\.Theory)|^theory\.Theory\.(__init__|__del__)|^application\.clingo_main"),
    "P07": lambda: py.run("P07", "memory handed to the engine is referenced by a live Python object for as long as the engine may use it",
                          "Every allocation made for the engine is followed to its uses. " + CONF, rules=[py.r_ownership],
                          extra=r"^control\.Control\.(__init__|register_|solve|ground|backend|add|load)|^theory\.Theory\.(__init__|rewrite)|^application\.|^script\.register|^internal:control|^core\.|^backend\.Backend\.__init__"),
    "P08": lambda: py.run("P08", "every pointer is passed with the number of elements it points to; buffers read back have the queried size",
                          "Every engine call with pointer/length arguments. " + CONF, rules=[py.r_buffers],
                          extra=r"^symbol\.|^theory_atoms\.|^statistics\.|^configuration\.|^backend\.|^propagator\.|^ast\.(AST|ASTSequence|StrSequence)\.|^callback:|^internal:_internal|^solving\.(Model|SolveHandle)|^control\.Control\.(__init__|solve|ground|add|assign|release)"),
    "P09": lambda: py.run("P09", "equality, hash and order are delegated consistently to the engine and to the same parts of a value", CONF,
                          extra=r"\.(__eq__|__hash__|__lt__|__ne__|__le__|__gt__|__ge__|match|__contains__)$", classes=ALL),
    "P10": lambda: py.run("P10", "operations on symbols, symbolic atoms and theory atoms conform to their specification", CONF, areas=["symbols"]),
    "P11": lambda: py.run("P11", "control operations conform to their specification", CONF, areas=["control"]),
    "P12": lambda: py.run("P12", "solving operations and callbacks conform to their specification", CONF, areas=["solving"]),
    "P13": lambda: py.run("P13", "propagator operations and callbacks conform to their specification", CONF, areas=["propagators"]),
    "P14": lambda: py.run("P14", "observer and backend operations and callbacks conform to their specification", CONF, areas=["backend"]),
    "P15": lambda: py.run("P15", "configuration and statistics operations conform to their specification", CONF, areas=["stats"]),
    "P16": lambda: py.run("P16", "syntax tree operations and callbacks conform to their specification", CONF, areas=["ast"]),
    "P17": lambda: py.run("P17", "application, script, theory and helper operations conform to their specification", CONF, areas=["app"]),
    "X01": lambda: cx.run("X01", "no path continues after a failed engine call; it ends in an exception (or tells the engine that the callback failed)",
                          "Paths on which an engine call reports failure are followed to the end of each operation and callback. " + XCONF, ".", "errors", [cx.r_failing], 900),
    "X02": lambda: cx.run("X02", "no path through a function called by the engine ends with an exception; captured exceptions are thrown again by the call that ran the function",
                          "All functions handed to the engine, with user code that returns or throws at each call. " + XCONF,
                          r"^Control::(\(ctor\)|ground|solve|register_|load|assign_|release_|backend|with_)|^parse_term|^AST::(parse_|with_builder|Node::unpool)|^clingo_main|^ClingoOptions|^Application|^SolveHandle|^Backend|^Detail|^PropagateInit::|^PropagateControl::",
                          None, [cx.r_contained, cx.r_notified], 40),
    "X03": lambda: cx.run("X03", "the interface compiles for all types it is provided for, every declared function is defined, enumerations and layouts match the C interface",
                          "Explicit instantiation of the interface (witness/all.cc) in C++14 and C++17 with static assertions, declared functions against definitions, enumeration members against reviewed values.",
                          None, None, [cx.r_interface], 0),
    "X04": lambda: cx.run("X04", "handles and references are acquired and released exactly once by construction, destruction, copy, move, swap and failure", XCONF, cx.RAII, None, [], 80),
    "X05": lambda: cx.run("X05", "comparison operators and hashes conform to their specification", XCONF, cx.CMP, None, [], 80),
    "X06": lambda: cx.run("X06", "spans, optional and variant values, and iterators conform to their specification", XCONF, cx.AREAS["containers"], None, [], 300),
    "X07": lambda: cx.run("X07", "operations on symbols, symbolic atoms and theory atoms conform to their specification", XCONF, cx.AREAS["symbols"], None, [], 100),
    "X08": lambda: cx.run("X08", "control and application operations conform to their specification", XCONF, cx.AREAS["control"] + "|" + cx.AREAS["app"], None, [], 30),
    "X09": lambda: cx.run("X09", "solving operations and callbacks conform to their specification", XCONF, cx.AREAS["solving"], None, [], 40),
    "X10": lambda: cx.run("X10", "propagator operations and callbacks conform to their specification", XCONF, cx.AREAS["propagators"], None, [], 50),
    "X11": lambda: cx.run("X11", "observer and backend operations and callbacks conform to their specification", XCONF, cx.AREAS["backend"], None, [], 30),
    "X12": lambda: cx.run("X12", "configuration and statistics operations conform to their specification", XCONF, cx.AREAS["stats"], None, [], 30),
    "X13": lambda: cx.run("X13", "syntax tree operations and callbacks conform to their specification", XCONF, cx.AREAS["ast"], None, [], 90),
    "L01": lambda: lua.run("L01", "no path continues after a failed engine call; it ends in a Lua error (or tells the engine that the callback failed)",
                           "Paths on which an engine call reports failure are followed to the end of each operation and callback. " + LCONF, ".", "errors", [lua.r_failing], 100),
    "L02": lambda: lua.run("L02", "no Lua error and no C++ exception leaves a function called by the engine; errors are reported to the engine",
                           "All functions handed to the engine, with Lua errors possible in every operation that allocates or runs user code. " + LCONF,
                           lua.CALLBACKS, None, [lua.problems("escape", "throw", "handler")], 5),
    "L03": lambda: lua.run("L03", "objects owned by userdata are released exactly once; no error jumps over a destructor",
                           "Every Lua API call that may raise an error against the objects with destructors that are alive at the call; finalizers and owners. " + LCONF,
                           lua.RESOURCES, None, [lua.problems("longjmp")], 10),
    "L04": lambda: lua.run("L04", "propagator functions and callbacks conform to their specification", LCONF, lua.AREAS["propagators"], None, [], 15),
    "L05": lambda: lua.run("L05", "observer and backend functions and callbacks conform to their specification", LCONF, lua.AREAS["backend"], None, [], 10),
    "L06": lambda: lua.run("L06", "functions on symbols and conversions of values conform to their specification", LCONF, lua.AREAS["symbols"], None, [], 8),
    "L07": lambda: lua.run("L07", "control functions conform to their specification", LCONF, lua.AREAS["control"], None, [], 12),
    "L08": lambda: lua.run("L08", "solving functions and callbacks conform to their specification", LCONF, lua.AREAS["solving"], None, [], 12),
    "L09": lambda: lua.run("L09", "functions on symbolic and theory atoms conform to their specification", LCONF, lua.AREAS["atoms"], None, [], 15),
    "L10": lambda: lua.run("L10", "configuration and statistics functions conform to their specification", LCONF, lua.AREAS["stats"], None, [lua.r_statistics_cache], 6),
    "L11": lambda: lua.run("L11", "functions on assignments and trails conform to their specification", LCONF, lua.AREAS["assignment"], None, [], 15),
    "L12": lambda: lua.run("L12", "comparison functions conform to their specification; every member of an enumeration table wraps the engine constant with the same meaning", LCONF, lua.AREAS["compare"], None, [], 30, r"."),
    "L13": lambda: lua.run("L13", "embedding functions and script callbacks conform to their specification", LCONF, lua.AREAS["embedding"], None, [], 3),
    "L14": lambda: lua.run("L14", "every function leaves the Lua stack balanced, accesses only values of its own, reserves the space it uses, and formats messages with literal formats",
                           "Every path of every function of the module. " + LCONF, ".", "errors", [lua.problems("balance", "reserve", "index", "results", "format")], 100),
    "A01": glueprops.interface,
    "A02": glueprops.compiled,
    "A03": glueprops.embedding,
}


def run(pid):
    if pid not in CHECKS:
        raise Broken(f"unknown property {pid}")
    CHECKS[pid]()
