"""Properties of the C++ interface: rules and the operations each of them covers."""
import re
import cxcheck
from common import Check, Broken
from cxeval import NOTIFY

ITER = r"(ArrayIterator|KeyIterator|IndexIterator|IteratorRange|TheoryIterator|ToIterator|ToTheoryIterator|ValuePointer|ModelIterator|SymbolicAtomIterator|TheoryAtomIterator)"
# the class that declares an operation comes first in its name; operators and other free functions are selected by their operands
AREAS = {
    "containers": r"^(Span|Optional|Variant|ArrayIterator|KeyIterator|IndexIterator|IteratorRange|ToIterator|ToTheoryIterator|TheoryIterator|ValuePointer)\b"
                  r"|^(begin|end|equal_range|make_span|swap)\b|^operator[-+<>=!]+(<[^(]*)?\(.*(Span|Iterator|Optional|Variant|Range)\b",
    "symbols": r"^(Symbol|Signature|SymbolicAtom|SymbolicAtoms|SymbolicAtomIterator|SymbolicLiteral|WeightedLiteral|TheoryTerm|TheoryElement|TheoryAtom|TheoryAtoms|TheoryAtomIterator|"
               r"Id|Function|Number|String|Infimum|Supremum|add_string|parse_term|Location|std::hash)\b"
               r"|^operator.*\((?:const )?(std::basic_ostream<char, std::char_traits<char>> &, )?(const )?(Symbol|Signature|SymbolicAtom|SymbolicAtoms|SymbolicLiteral|WeightedLiteral|Theory\w+|Location)\b",
    "control": r"^Control::(?!solve|register)|^(Part|Detail|version|Application|operator.*(ErrorCode|WarningCode))\b|^Control::solve\(LiteralSpan",
    "solving": r"^(Control::(solve|interrupt|is_conflicting|has_const)|SolveHandle|Model|ModelIterator|SolveControl|SolveResult|SolveEventHandler|ShowType|operator.*(Model|SolveResult|ModelType))\b|^operator<<\(.*(Model|SolveResult)",
    "propagators": r"^(PropagateInit|PropagateControl|Assignment|Trail|Propagator|Control::register_propagator|operator.*(Trail|Assignment|ClauseType|TruthValue))\b",
    "backend": r"^(Backend|GroundProgramObserver|Control::(backend|with_backend|register_observer)|Heuristic|operator.*(HeuristicType|ExternalType))\b",
    "stats": r"^(StatisticsBase|Configuration|Control::(statistics|configuration))\b",
    "ast": r"^(AST|operator.*AST)\b",
    "app": r"^(Application|ClingoOptions|clingo_main|version|Detail)\b",
}
CMP = r"(^|::)operator(==|!=|<|<=|>|>=)(<[^(]*)?\(|::hash\(|^std::hash"
RAII = (r"^(Control|SolveHandle|AST::ProgramBuilder|AST::Node|Backend|Optional|Variant|ValuePointer|Model|ModelIterator|AST::NodeVector|AST::StringVector|AST::NodeRef|AST::StringRef)(<.*>)?::"
        r"(\(ctor\)|\(dtor\)|operator=\(|swap|release|close|claim|begin|end|reset|emplace)|^swap\(|^Control::(solve|with_backend|backend)|^AST::with_builder|^AST::(Node|NodeVector|StringVector)::(copy|deep_copy|operator=)"
        r"|^AST::parse_|^Control::register_|^clingo_main")


def run(pid, rule, explanation, rx=None, facet=None, rules=(), minimum=5):
    c = Check(pid, rule)
    M = cxcheck.Model()
    conf = cxcheck.Conformance(c, M)
    if M.error is None:
        if rx:
            conf.run(rx, facet)
        for r in rules:
            r(c, M, conf)
        if rx:
            c.need("operations compared with their specification", minimum)
    c.assumptions = ["libclingo behaves as documented in clingo.h", "the C++ standard library behaves as specified", "user-supplied callables are arbitrary"]
    c.finish(explanation)


def paths(M, conf, rx="."):
    for n in conf.names(rx):
        if n in M.M.entries:
            try:
                s, nested = M.summary(n)
            except Exception:
                continue
            yield n, None, s
            for k, v in nested.items():
                yield n, k, v


def failed(p):
    """Engine calls that fail on a path."""
    for t, v in p[0]:
        if not v and t[0] == "t" and isinstance(t[1], tuple) and t[1][0] == "ret" and str(t[1][1]).startswith("clingo_"):
            yield t[1]


def r_failing(c, M, conf):
    for n, k, s in paths(M, conf):
        for p in s:
            for f in failed(p):
                c.count("failing engine calls followed to the end of the operation")
            for e in p[1]:
                if e and e[0] == "call":
                    c.count("engine calls on paths")
    c.need("failing engine calls followed to the end of the operation", 300)


def r_contained(c, M, conf):
    """Functions handed to the engine end normally, whatever the user code in them does."""
    for n, k, s in paths(M, conf):
        if k is None:
            continue
        guarded = "/" in k  # closures passed to user code, which runs within a function called by the engine
        for p in s:
            c.count("paths through functions called by the engine or by user code")
            if p[2][0] == "raise" and not guarded:
                c.report(M.where(n) + " callback " + k, f"{n}|{k}:escape", f"an exception ({cxcheck.show(p[2][2])[:80]}) can leave a function called by the engine")
    c.need("paths through functions called by the engine or by user code", 100)


def r_notified(c, M, conf):
    """A failure of an engine call that runs registered user code is reported with the exception of the user code."""
    for n in conf.names(r"^(Control|Backend|SolveHandle|ModelIterator)::"):
        if n not in M.M.entries:
            continue
        try:
            s, _ = M.summary(n)
        except Exception:
            continue
        calls = {}
        for p in s:
            # the last call that fails is the one that ends the operation
            fs = [f for f in failed(p) if NOTIFY.match(f[1])]
            if fs and p[2][0] == "raise":
                calls.setdefault(fs[-1][:2], []).append(p[2][1])
        for f, outs in calls.items():
            c.count("calls of operations that run registered user code")
            if "user:rethrown" not in outs:
                c.report(M.where(n), f"{n}:{f[1]}:generic", f"if {f[1]} fails because registered user code threw an exception, this exception is lost")
    c.need("calls of operations that run registered user code", 30)


def r_interface(c, M, conf):
    for u in M.P.undefined:
        if u["file"].endswith("clingo.hh"):
            c.report(f"libclingo/clingo.hh:{u['line']} {u['name']}", f"{u['name']}:undefined", "declared but not defined; every program using it fails to link")
    c.count("functions with definitions", len(M.P.fn))
    c.count("functions of the public interface", len(M.M.entries))
    P17, err = cxcheck.load("c++17")
    if P17 is None:
        e = [l for l in err.splitlines() if "error" in l]
        c.report((e or ["libclingo/clingo.hh"])[0][:200], "witness17", "the public interface does not compile as C++17")
    else:
        c.count("functions with definitions (C++17)", len(P17.fn))
    enums = M.enums()
    for k, v in conf.spec.items():
        if not k.startswith("enum:"):
            continue
        c.count("enumerations")
        new = dict(enums.get(k[5:], ()))
        if not new:
            c.report("libclingo/clingo.hh " + k[5:], f"{k[5:]}:missing", "enumeration does not exist any more")
            continue
        for name, val in v:
            c.count("enumeration members")
            if name not in new:
                c.report("libclingo/clingo.hh " + k[5:], f"{k[5:]}::{name}:missing", "enumeration member does not exist any more")
            elif new[name] != val:
                c.report("libclingo/clingo.hh " + k[5:], f"{k[5:]}::{name}:value", f"{name} is {new[name]} but the engine constant with this meaning is {val}")
    for k in conf.names("."):
        if k not in M.M.entries and not cxcheck.instance(k, M.M.entries):
            c.report("libclingo/clingo.hh " + k, f"{k}:missing", "operation of the public interface does not exist any more")
    c.need("enumeration members", 100)
    c.need("functions of the public interface", 800)
