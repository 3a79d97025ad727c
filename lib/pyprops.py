"""Properties of the Python binding: rules and the operations each of them covers."""
import re, os
import summ, pysum, pyrules
from common import Check, Broken, VERIF
from pycheck import Conformance, SPEC

AREAS = {
    "symbols": r"^(symbol|symbolic_atoms|theory_atoms)\.|^global:symbol\.",
    "control": r"^control\.|^(callback|onerror):pyclingo_ground_callback|^internal:control\._",
    "solving": r"^solving\.|^(callback|onerror):pyclingo_solve_event|^control\.Control\.(solve|interrupt|is_conflicting)|^internal:(solving|control)\._|^util\.",
    "propagators": r"^propagator\.|^(callback|onerror):pyclingo_propagator|^control\.Control\.register_propagator|^internal:propagator|^util\.",
    "backend": r"^backend\.|^(callback|onerror):pyclingo_observer|^control\.Control\.(backend|register_observer)|^internal:backend",
    "stats": r"^(statistics|configuration)\.|^control\.Control\.(statistics|configuration)|^internal:(statistics|configuration)",
    "ast": r"^ast\.|^(callback|onerror):pyclingo_ast|^internal:ast|^global:ast|^util\.",
    "app": r"^(application|script|theory|core|util|__main__)\.|^(callback|onerror):pyclingo_(application|script|logger|execute|call|callable|main)|^global:(script|__init__)|^internal:(role|script|core|util|application|theory|__main__|_internal)",
}
MODS = {"symbols": ("symbol", "symbolic_atoms", "theory_atoms"), "control": ("control",), "solving": ("solving",), "propagators": ("propagator",),
        "backend": ("backend",), "stats": ("statistics", "configuration"), "ast": ("ast",), "app": ("application", "script", "theory", "core", "util")}


def pred(rx):
    r = re.compile(rx)
    return lambda n: bool(r.search(n))


def run(pid, rule, explanation, areas=(), extra=None, rules=(), facet=None, classes=()):
    c = Check(pid, rule)
    M = pysum.PyModel()
    conf = Conformance(c, M)
    spec = conf.spec
    for r in rules:
        r(c, M, spec)
    for a in areas:
        conf.run(conf.names(pred(AREAS[a])))
        conf.classes(MODS[a])
    if extra:
        conf.run(conf.names(pred(extra)))
    for a in classes:
        conf.classes(MODS[a])
    if facet:
        done = set(conf.names(pred(extra))) if extra else set()
        for a in facet[1]:
            conf.run([n for n in conf.names(pred(AREAS[a])) if n not in done], False, facet[0])
    if areas or extra:
        c.need("operations compared with their specification", 3)
    c.count("engine functions declared in clingo.h", len(M.h.funcs))
    c.assumptions = ["libclingo behaves as documented in clingo.h", "cffi passes values unchanged",
                     "methods of user-supplied Python objects are arbitrary"]
    for n, why in sorted(set(map(str, M.it.incomplete)) and set((a, b) for a, b in M.it.incomplete)):
        c.notes.append(f"{n}: {why} not modelled")
    c.finish(explanation)


def r_errors(c, M, spec):
    pyrules.errors(c, M)
    c.need("fallible engine calls on paths", 800)
    c.need("recognised error checkers", 1)


def r_callbacks(c, M, spec):
    pyrules.callbacks(c, M, set(spec["notify"]))
    c.need("callbacks", 35)
    c.need("failing calls that may have run a callback", 30)


def r_enums(c, M, spec):
    pyrules.enums(c, M, spec)
    c.need("enumeration members", 100)


def r_ownership(c, M, spec):
    pyrules.ownership(c, M)
    c.need("allocations for the engine", 60)


def r_buffers(c, M, spec):
    pyrules.buffers(c, M)
    c.need("pointer/length arguments", 80)
