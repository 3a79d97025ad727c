"""Decides conformance of the Lua module (libluaclingo/luaclingo.cc) to the specification /verif/spec/lua.json."""
import hashlib, os, re, sys
import summ
from common import Broken, VERIF, REPO
from cxprog import Prog
from cxeval import Unsupported
from cxterm import show
import cxentries, luaentries
from cxcheck import renames, apply

SPEC = os.path.join(VERIF, "spec", "lua.json")
SRC = "libluaclingo/luaclingo.cc"
ANON = "(anonymous namespace)::"
LUAINC = ("/usr/include/lua5.4", "/usr/include/lua5.3")
sys.setrecursionlimit(50000)


def sources():
    h = hashlib.sha256()
    fs = [REPO + "/" + SRC, REPO + "/libclingo/clingo.h", VERIF + "/tools/cxdump.cc"]
    d = REPO + "/libluaclingo"
    fs += sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith((".h", ".hh"))) if os.path.isdir(d) else []
    for f in fs:
        if os.path.exists(f):
            h.update(open(f, "rb").read())
        h.update(b"|")
    return h.hexdigest()[:20]


def load():
    b = os.path.join(VERIF, "build")
    os.makedirs(b, exist_ok=True)
    out = os.path.join(b, f"lua-{sources()}.json")
    if not os.path.exists(out):
        for f in os.listdir(b):
            if f.startswith("lua-"):
                os.remove(os.path.join(b, f))
        inc = [i for i in LUAINC if os.path.exists(i + "/lua.h")]
        if not inc:
            raise Broken("headers of Lua missing")
        tmp = f"{out}.{os.getpid()}"
        r = cxentries.export(os.path.join(REPO, SRC), tmp, "c++14", REPO + "/libclingo", REPO + "/libluaclingo", inc[0])
        if r.returncode or not os.path.exists(tmp):
            return None, r.stderr
        os.replace(tmp, out)
    return Prog(out, ANON), ""


class Model:
    def __init__(self):
        P, err = load()
        if P is None:
            raise Broken("luaclingo.cc cannot be analysed: " + err[-200:])
        self.P = P
        try:
            self.M = luaentries.LuaModel(P)
        except (Unsupported, RecursionError, IndexError) as e:
            raise Broken(f"initialisation of the Lua module is outside of the supported subset: {e}")
        self.cache = {}

    def summary(self, n):
        """-> {entry or nested entry: summary}"""
        if n not in self.cache:
            try:
                self.cache[n] = self.M.summarize(n)
            except Exception as e:      # constructs the interpreter does not model
                self.cache[n] = Unsupported(f"{type(e).__name__}: {e}") if not isinstance(e, Unsupported) else e
        if isinstance(self.cache[n], Exception):
            raise self.cache[n]
        return self.cache[n]

    def fields(self):
        return {r["name"]: tuple((f["name"], f["type"]) for f in r["fields"]) for r in self.P.rec.values()
                if r["name"].startswith(ANON) and not r.get("lambda") and "<" not in r["name"] and r["fields"]}

    def where(self, n):
        f = self.P.fn[self.M.entries[n][0]]
        return f"{SRC}:{f['line']} {n}"


def checks(s):
    return {a for p in s for a, _ in p[0] if a[0] == "t" and a[1][0] in ("lcheckstack", "lallocates")}


def reservations(s, other):
    """Drops paths on which a reservation of stack space fails that the other version does not make."""
    x = checks(s) - checks(other)
    return [p for p in s if not any(a in x and not v for a, v in p[0])] if x else s


class Conformance:
    def __init__(self, check, model):
        self.c = check
        if not os.path.exists(SPEC):
            raise Broken("specification missing")
        self.spec = summ.load(SPEC)
        self.M = model
        self.ren, self.recs = renames({k[7:]: v for k, v in self.spec.items() if k.startswith("fields:")}, self.M.fields())

    def names(self, rx):
        r = re.compile(rx)
        return [k[4:] for k in self.spec if k.startswith("fun:") and r.search(k[4:]) and "|" not in k and ">" not in k]

    def run(self, rx, facet=None):
        c = self.c
        names = self.names(rx)
        if not names:
            raise Broken("no operation in scope")
        if all(n not in self.M.M.entries for n in names):
            raise Broken(f"no specified operation found ({names[:3]})")
        for n in names:
            if n not in self.M.M.entries:
                c.report(f"{SRC} {n}", f"{n}:missing", "function is not provided any more")
                continue
            where = self.M.where(n)
            try:
                new = self.M.summary(n)
            except (Unsupported, RecursionError) as e:
                c.count("functions outside of the supported subset")
                c.notes.append(f"{n}: {e}")
                continue
            for k in [n] + [x[4:] for x in self.spec if x.startswith((f"fun:{n}|", f"fun:{n}>"))]:
                ref = self.spec["fun:" + k]
                if k not in new:
                    base = re.sub(r"\d+$", "", k)
                    if k.count(">") == 0 and not any(x.startswith(base) and x not in self.spec for x in new):
                        c.report(where, f"{k}:missing", f"callback {k[len(n) + 1:]} is not provided to the engine any more")
                    continue
                self.one(k, where + (" callback " + k[len(n) + 1:] if k != n else ""), ref, new[k], facet)
            for k in new:
                if "fun:" + k not in self.spec:
                    c.notes.append(f"unspecified callback {k}")

    def one(self, name, where, ref, new, facet):
        c = self.c
        new = apply(new, self.ren, self.recs)
        ref, new = reservations(ref, new), reservations(new, ref)
        try:
            verdict, msg, pairs = ("same", "", len(new)) if tuple(ref) == tuple(new) else summ.compare(ref, new, {}, show, None, facet)
        except RecursionError:
            verdict, msg, pairs = "weak", "recursion limit", 0
        c.count("callbacks compared with their specification" if "|" in name or ">" in name else "functions compared with their specification")
        c.count("path pairs", pairs)
        c.count("abstract paths", len(new))
        if verdict == "different":
            c.report(where, f"{name}:behaviour", msg)
        elif verdict == "weak":
            c.count("functions compared only by their engine operations")
            c.notes.append(f"{name}: {msg}")

    def tables(self, rx, values=True):
        """Contents of the tables (methods, enumeration members, modules) provided to users."""
        c = self.c
        r = re.compile(rx)
        for k, ref in self.spec.items():
            if not k.startswith("table:") or not r.search(k[6:]):
                continue
            n = k[6:]
            new = self.M.M.tables.get(n)
            if new is None:
                c.report(f"{SRC} {n}", f"{n}:table", "table is not provided any more")
                continue
            ref = dict(ref)
            for x in ref:
                c.count("table entries compared with their specification")
                if x not in new:
                    c.report(f"{SRC} {n}.{x}", f"{n}.{x}:missing", f"{n}.{x} is not provided any more")
                elif ref[x] != new[x] and ref[x] not in ("function", "version") or (ref[x] == "function") != (new[x] == "function"):
                    c.report(f"{SRC} {n}.{x}", f"{n}.{x}:value", f"{n}.{x} changed from {show(ref[x]) if isinstance(ref[x], tuple) else ref[x]} to {show(new[x]) if isinstance(new[x], tuple) else new[x]}")
