"""Properties of the Lua module: rules and the functions each of them covers."""
import luacheck
from common import Check, Broken
from cxeval import Unsupported

AREAS = {
    "propagators": r"^clingo\.(Control:register_propagator|PropagateInit|PropagateControl|PropagatorCheckMode)\b",
    "backend": r"^clingo\.(Control:(register_observer|backend)|Backend|HeuristicType|ExternalType)\b",
    "symbols": r"^clingo\.(Symbol|SymbolType)\b|^clingo:(Function|Number|String|Tuple|parse_term)$",
    "control": r"^clingo\.(_?Control|MessageCode)\b|^clingo:Control$",
    "solving": r"^clingo\.(Control:solve|_?SolveHandle|SolveControl|SolveResult|Model|ModelType)\b",
    "atoms": r"^clingo\.(SymbolicAtoms?|Theory\w+)\b",
    "stats": r"^clingo\.(Configuration|Control:__index|Control:__newindex)\b",
    "assignment": r"^clingo\.(Assignment|Trail)\b",
    "compare": r":__(eq|lt|le|tostring)$",
    "embedding": r"^clingo_|^report|^raise|^message|^clingo\._Any",
}
CALLBACKS = r"^clingo\.Control:(ground|solve|register_\w+)$|^clingo:(Control|parse_term)$|^clingo_register_lua_$|^report|^message"
RESOURCES = r":(__gc|close|solve|backend|Control|iter|ground|register_\w+|load|add)$|^clingo_register_lua_"


def run(pid, rule, explanation, rx, facet=None, rules=(), minimum=5, tables=None):
    c = Check(pid, rule)
    M = luacheck.Model()
    conf = luacheck.Conformance(c, M)
    conf.run(rx, facet)
    if tables:
        conf.tables(tables)
        c.need("table entries compared with their specification", 10)
    for r in rules:
        r(c, M, conf, rx)
    c.need("functions compared with their specification", minimum)
    c.assumptions = ["libclingo behaves as documented in clingo.h", "Lua behaves as specified in its reference manual (any allocation and any call of a user function may raise an error)", "user-supplied functions and arguments are arbitrary"]
    c.finish(explanation)


def summaries(M, conf, rx):
    for n in conf.names(rx):
        if n in M.M.entries:
            try:
                yield n, M.summary(n)
            except (Unsupported, RecursionError):
                continue


def problems(*kinds):
    def rule(c, M, conf, rx):
        seen = set()
        for n, s in summaries(M, conf, rx):
            for k, v in s.items():
                c.count("abstract paths checked for: " + ", ".join(kinds), len(v))
            for kind, fn, line, msg in ((p + (None,) * 4)[:4] for p in M.M.problems[n]):
                if kind in kinds and (kind, fn, line) not in seen:
                    seen.add((kind, fn, line))
                    c.report(f"{luacheck.SRC}:{line} {fn} (within {n})", f"{kind}:{fn}", msg)
    return rule


def r_failing(c, M, conf, rx):
    """Engine calls that fail on a path."""
    for n, s in summaries(M, conf, rx):
        for k, v in s.items():
            for p in v:
                for t, val in p[0]:
                    if not val and t[0] == "t" and isinstance(t[1], tuple) and t[1][0] == "ret" and str(t[1][1]).startswith("clingo_"):
                        c.count("failing engine calls followed to the end of the operation")
    c.need("failing engine calls followed to the end of the operation", 200)


def r_statistics_cache(c, M, conf, rx):
    """Cached statistics are dropped before each search: they are never those of an earlier search."""
    for n, s in summaries(M, conf, r"^clingo\.Control:solve$"):
        for p in s.get(n, ()):
            ev = p[1]
            at = [i for i, e in enumerate(ev) if e[0] == "call" and e[1] == "clingo_control_solve"]
            if not at:
                continue
            c.count("paths starting a search checked for dropped statistics")
            if not any(e[0] == "store" and e[2] == ("lstr", ("c", "statistics")) and e[3] == ("lnil",) for e in ev[:at[0]]):
                c.report(M.M.where(n) if hasattr(M.M, "where") else luacheck.SRC, "statistics:stale", "a search starts although the statistics of the previous search are still cached")
                return
    c.need("paths starting a search checked for dropped statistics", 2)
