"""Decides conformance of the C++ interface (libclingo/clingo.hh) to the specification /verif/spec/cxx.json."""
import hashlib, os, re, sys
import summ
from common import Broken, VERIF, REPO
from cxprog import Prog
from cxeval import Unsupported
from cxterm import show
import cxentries

SPEC = os.path.join(VERIF, "spec", "cxx.json")
sys.setrecursionlimit(50000)


def sources():
    h = hashlib.sha256()
    for f in (REPO + "/libclingo/clingo.hh", REPO + "/libclingo/clingo.h", REPO + "/libclingo/clingo/ast-v2.h", VERIF + "/witness/all.cc", VERIF + "/tools/cxdump.cc"):
        if os.path.exists(f):
            h.update(open(f, "rb").read())
        h.update(b"|")
    return h.hexdigest()[:20]


def load(std="c++14"):
    """-> (Prog or None, diagnostics)"""
    b = os.path.join(VERIF, "build")
    os.makedirs(b, exist_ok=True)
    out = os.path.join(b, f"cxx-{std}-{sources()}.json")
    if not os.path.exists(out):
        for f in os.listdir(b):
            if f.startswith(f"cxx-{std}-"):
                os.remove(os.path.join(b, f))
        tmp = f"{out}.{os.getpid()}"
        r = cxentries.export(os.path.join(VERIF, "witness", "all.cc"), tmp, std, REPO + "/libclingo")
        if r.returncode or not os.path.exists(tmp):
            return None, r.stderr
        os.replace(tmp, out)
    return Prog(out), ""


def renames(ref, new):
    """Private fields / helper records that were renamed consistently -> ({new field: old}, {new record: old})"""
    m, recs = {}, {}
    allref = {n for fs in ref.values() for n, _ in fs}
    gone = [r for r in ref if r not in new]
    for r in [r for r in new if r not in ref]:
        c = [g for g in gone if [t for _, t in ref[g]] == [t for _, t in new[r]]]
        if len(c) == 1:
            recs[r] = c[0]
    for r, fs in ref.items():
        nf = new.get(r)
        if nf is None:
            x = [k for k, v in recs.items() if v == r]
            if not x:
                continue
            nf = new[x[0]]
        names, nnames = [n for n, _ in fs], [n for n, _ in nf]
        g = [(n, t) for n, t in fs if n not in nnames]
        a = [(n, t) for n, t in nf if n not in names]
        if g and len(g) == len(a):
            for n, t in g:
                c = [x for x, u in a if u == t]
                if len(c) > 1 and len(g) == len(a):
                    c = [x for (y, _), (x, _) in zip(g, a) if y == n]
                if c and c[0] not in allref:
                    m[c[0]] = n
    return m, recs


def apply(t, m, recs):
    if not m and not recs or not isinstance(t, tuple) or not t:
        return t
    t = tuple(apply(x, m, recs) if isinstance(x, tuple) else x for x in t)
    if t[0] == "fld" and len(t) == 3 and t[2] in m:
        return ("fld", t[1], m[t[2]])
    if t[0] == "store" and len(t) == 4 and t[2] in m:
        return ("store", t[1], m[t[2]], t[3])
    if t[0] == "rec" and len(t) == 3 and isinstance(t[2], tuple):
        return ("rec", recs.get(t[1], t[1]), tuple((m.get(a, a) if isinstance(a, str) else a, b) for a, b in t[2]))
    return t


def norm(t):
    """Representation details that do not matter to users."""
    return t


def shape(n):
    """Name of a template, number of parameters and qualifiers of one of its instances; None if it is no template."""
    out, depth, par, args, m = "", 0, 0, 0, 0
    n = n.replace("operator<<", "operator#").replace("operator->", "operator@").replace("operator<", "operator~").replace("operator>", "operator^").replace("operator()", "operator!")
    for i, ch in enumerate(n):
        if ch == "<":
            m += not par
            depth += 1
        elif ch == ">":
            depth -= 1
        elif not depth:
            par += (ch == "(" and not n[i:].startswith("(ctor)") and not n[i:].startswith("(dtor)")) - (ch == ")" and not n[:i + 1].endswith("(ctor)") and not n[:i + 1].endswith("(dtor)"))
            if par:
                args += ch == ","
            else:
                out += ch
    return (out, args) if m else None


def instance(n, entries):
    """Whether the template n was instantiated from still exists."""
    s = shape(n)
    return s is not None and any(shape(e) == s for e in entries)


class Model:
    def __init__(self):
        P, err = load()
        if P is None:
            self.error = err
            return
        self.error = None
        self.P = P
        self.M = cxentries.CxxModel(P)
        self.cache = {}

    def summary(self, n):
        """-> (summary, {nested: summary})"""
        if n not in self.cache:
            s = self.M.summary(n)
            self.cache[n] = (s, {k: summ.make(v) for k, v in self.M.nested.items()})
        return self.cache[n]

    def fields(self):
        return {r["name"]: tuple((f["name"], f["type"]) for f in r["fields"]) for r in self.P.rec.values()
                if r["name"].startswith("Clingo::") and not r.get("lambda") and "<" not in r["name"] and r["fields"]}

    def enums(self):
        return {e["name"]: tuple((v[0], v[1]) for v in e["values"]) for e in self.P.enums
                if e["name"].startswith("Clingo::") and "Detail::" not in e["name"]}

    def where(self, n):
        f = self.P.fn[self.M.entries[n]]
        return f"libclingo/clingo.hh:{f['line']} {n.replace(' ', '')[:90]}"


class Conformance:
    def __init__(self, check, model=None):
        self.c = check
        if not os.path.exists(SPEC):
            raise Broken("specification missing")
        self.spec = summ.load(SPEC)
        self.M = model or Model()
        if self.M.error is not None:
            e = [l for l in self.M.error.splitlines() if "error" in l]
            check.report((e or ["libclingo/clingo.hh"])[0].replace(REPO + "/", "")[:200], "witness", "the public interface does not compile any more (witness/all.cc, C++14)")
            return
        self.ren, self.recs = renames({k[7:]: v for k, v in self.spec.items() if k.startswith("fields:")}, self.M.fields())
        self.known = {n for k, v in self.spec.items() if k.startswith("fields:") for n, _ in v} | {"", "*"}

    def names(self, rx):
        r = re.compile(rx)
        return [k[4:] for k in self.spec if k.startswith("fun:") and r.search(k[4:])]

    def run(self, rx, facet=None):
        if self.M.error is not None:
            return
        c = self.c
        names = self.names(rx)
        if not names:
            raise Broken("no operation in scope")
        missing = [n for n in names if n not in self.M.M.entries and not instance(n, self.M.M.entries)]
        if len(missing) == len(names):
            raise Broken(f"no specified operation found ({missing[:3]})")
        for n in missing:
            c.report("libclingo/clingo.hh " + n, f"{n}:missing", "operation of the public interface does not exist any more")
        for n in names:
            if n in missing:
                continue
            if n not in self.M.M.entries:
                c.count("instantiations of templates not used any more")
                continue
            where = self.M.where(n)
            try:
                s, nested = self.M.summary(n)
            except (Unsupported, RecursionError) as e:
                c.count("operations outside of the supported subset")
                c.notes.append(f"{n}: {e}")
                continue
            self.one(n, where, self.spec["fun:" + n], s, facet)
            if facet is None and "def:" + n in self.spec:
                c.count("default arguments", len(self.spec["def:" + n]))
                new = dict(self.M.M.defaults(n))
                for i, v in self.spec["def:" + n]:
                    if i not in new:
                        c.report(where, f"{n}:default{i}", f"parameter {i} has no default any more")
                    elif new[i] != v:
                        c.report(where, f"{n}:default{i}", f"default of parameter {i} changed from {show(v)} to {show(new[i])}")
            pre = f"cb:{n}|"
            for k, v in self.spec.items():
                if not k.startswith(pre):
                    continue
                cb = k[len(pre):]
                if cb not in nested:
                    if not any(x.split("/")[0] == cb.split("/")[0] for x in nested) or "/" in cb and not cb.split("/")[1].isdigit():
                        c.report(where, f"{n}:{cb}:missing", f"callback {cb} is not provided to the engine any more")
                    continue
                self.one(f"{n}|{cb}", where + " callback " + cb, v, nested[cb], facet)
            for cb in nested:
                if pre + cb not in self.spec and not cb.split("/")[0] in {k[len(pre):].split("/")[0] for k in self.spec if k.startswith(pre)}:
                    c.notes.append(f"{n}: unspecified callback {cb}")

    def one(self, name, where, ref, new, facet):
        c = self.c
        new = apply(new, self.ren, self.recs)
        try:
            verdict, msg, pairs = summ.compare(ref, new, {}, show, None, facet)
        except RecursionError:
            verdict, msg, pairs = "weak", "recursion limit", 0
        c.count("operations compared with their specification" if "|" not in name else "callbacks compared with their specification")
        c.count("path pairs", pairs)
        c.count("abstract paths", len(new))
        if verdict == "different":
            c.report(where, f"{name}:behaviour", msg)
        elif verdict == "weak":
            c.count("operations compared only by their engine operations")
            c.notes.append(f"{name}: {msg}")
