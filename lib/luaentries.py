"""Entries of the Lua binding (libluaclingo/luaclingo.cc) and their summaries."""
import summ
from cxprog import Prog, norm_type
from cxterm import *
from cxeval import State, Unsupported, Jump, Throw, Prune
from luaeval import LuaInterp, LF, C

ANON = "(anonymous namespace)::"


def strings(t):
    """String literals of a syntax tree."""
    if isinstance(t, dict):
        return ({t["v"]} if t.get("k") == "str" and isinstance(t.get("v"), str) else set()).union(*[strings(x) for x in t.values()])
    if isinstance(t, list):
        return set().union(*[strings(x) for x in t])
    return set()


class LuaModel:
    """Functions reachable from Lua, from the engine, and by embedding applications."""

    def __init__(self, prog):
        self.P = prog
        self.problems = {}
        self.entries = {}           # name -> (function id, upvalues)
        self.load()

    def interp(self, L=("lstate",), n=None, ups=None):
        I = LuaInterp(self.P)
        I.known_tables = getattr(self, "tables", None)
        I.st = State()
        I.st.ext[("lua", L)] = (LF("args", n, n or 0, (), (), ups, 20),)
        return I

    def function(self, name):
        return [f["id"] for f in self.P.fn.values() if self.P.decl[f["id"]]["short"].replace(ANON, "") == name]

    def load(self):
        """Runs the initialisation of the module to find the functions it provides."""
        I = self.interp(n=0)
        fid = self.function("clingo_init_lua_")[0]
        fid = [f["id"] for f in self.P.fn.values() if f["name"].endswith("clingo_init_lua_")][0]
        res = I.explore(lambda: I.call_fn(fid, None, [("lstate",)]), I.st)
        res = [(s, o) for s, o in res if o[0] == "val"]
        if not res:
            raise Unsupported("module initialisation")
        s = res[0][0]
        I.st = s
        self.tables, self.modulefuns, self.registry = {}, {}, {}
        metas = [(k[1], v) for k, v in s.ext.items() if k[0] == "metatab"]
        self.metaroots = {v[1]: name for name, v in metas}
        for name, v in metas:
            self.table(I, name[1], v)
        self.init_state = s
        mod = None
        for e, _ in s.events:
            pass
        top = s.ext[("lua", ("lstate",))][-1].pushed
        self.module = top[-1]
        self.table(I, "clingo", self.module)
        self.entries["init"] = (fid, None)
        for f in self.P.fn.values():
            d = self.P.decl[f["id"]]
            if d.get("extern_c"):
                self.entries[f["name"]] = (f["id"], None)
            elif LuaInterp(self.P).special(f["id"]) in ("lraises", "lreports"):
                k = LuaInterp(self.P).special(f["id"])
                self.entries["raise engine error" if k == "lraises" else "report Lua error"] = (f["id"], None)
            elif self.P.decl[f["id"]]["params"] == ["lua_State *"] and norm_type(d["ret"]) == "int" and "traceback" in strings(f.get("body")) and not d.get("record"):
                self.entries.setdefault("message handler", (f["id"], None))
        self.entries.pop("init", None)

    def table(self, I, name, v, prefix=""):
        ws = I.read(I.loc(v[1]))
        out = {}
        for x in segs(ws):
            if x[0] == "e" and x[1][0] == "kv" and x[1][1][0] == "lstr" and x[1][1][1][0] == "c":
                k, val = x[1][1][1][1], x[1][2]
                out[k] = val
        self.tables[name] = {}
        for k, val in out.items():
            if val[0] == "lcf":
                self.entries[f"{name}:{k}"] = (val[1], val[2] or None)
                self.tables[name][k] = "function"
            elif val[0] == "ltab" and val[1] != v[1] and name == "clingo":
                self.table(I, f"{name}.{k}", val)
                self.tables[name][k] = "table"
            elif val == v:
                self.tables[name][k] = "self"
            else:
                self.tables[name][k] = I.reify(val)

    def summarize(self, name):
        """-> {entry or nested entry: summary}"""
        fid, ups = self.entries[name]
        out = {}
        todo = [(name, fid)]
        seen = set()
        problems = []
        while todo:
            key, fid = todo.pop(0)
            s, nested, clos, pr = self.one(fid)
            out[key] = s
            for k, v in nested.items():
                out[f"{key}|{k}"] = summ.make(v)
            for p in pr:
                if p not in problems:
                    problems.append(p)
            i = 0
            for f in clos:
                if f not in seen and self.has_ups(f):
                    seen.add(f)
                    i += 1
                    todo.append((f"{key}>{i}", f))
        self.problems[name] = problems
        return out

    def has_ups(self, fid):
        f = self.P.fn.get(fid)
        if f is None:
            return False
        return fid not in {x for x, _ in self.entries.values()}

    def one(self, fid):
        f, d = self.P.fn[fid], self.P.decl[fid]
        I = self.interp()
        args = []
        for i, p in enumerate(f["params"]):
            t = norm_type(p["type"])
            if t == "lua_State*":
                args.append(("lstate",))
            elif t == "bool":
                args.append(("truth", ("p", i)))
            else:
                args.append(("p", i))
        luafun = norm_type(d["ret"]) == "int" and len(args) == 1
        reports = I.special(fid) == "lreports"

        def run():
            r = I.call_fn(fid, None, args)
            if luafun:
                rs = I.results(("lstate",), r)
                return ("results",) + tuple(I.norm(x) for x in rs)
            if reports:
                f0 = I.cur(("lstate",))
                k = sum(v[1] for n, v in [(x[0], x) for x in f0.ov] if n == "gone") - len(f0.pushed)
                return ("results", r, ("c", k))
            return r
        res = I.explore(run, I.st)
        paths = [I.path_of(s, o) for s, o in res]
        for s, o in res:
            if o[0] == "throw":
                I.problem("throw", "a C++ exception can leave a function called by Lua")
        return summ.make(paths), I.nested, [k for k in I.closures], I.problems
