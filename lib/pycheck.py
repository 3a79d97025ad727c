"""Decides conformance of Python entries to the specification /verif/spec/py.json."""
import os, sys
import summ, pysum, pyeval
from common import Check, Broken, VERIF, run
from pyeval import show

SPEC = os.path.join(VERIF, "spec", "py.json")


def renames(spec_fields, new_fields):
    """Private attributes / classes that were renamed consistently -> {new: old}"""
    m = {}
    for c, ref in spec_fields.items():
        new = new_fields.get(c)
        if new is None:
            continue
        gone = [x for x in ref if x not in new and x.startswith("_")]
        added = [x for x in new if x not in ref and x.startswith("_")]
        if gone and len(gone) == len(added):
            for o, n in zip(gone, added):
                m[n] = o
    gone = [c for c in spec_fields if c not in new_fields and c.split(".")[1].startswith("_")]
    added = [c for c in new_fields if c not in spec_fields and c.split(".")[1].startswith("_")]
    cls = {}
    for o in gone:
        cand = [n for n in added if n.split(".")[0] == o.split(".")[0]]
        if len(cand) == 1:
            cls[cand[0].split(".")[1]] = o.split(".")[1]
    return m, cls


def apply_renames(t, m, cls):
    if not m and not cls:
        return t
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(apply_renames(x, m, cls) for x in t)
    if t[0] == "attr" and len(t) == 3 and t[2] in m:
        return ("attr", t[1], m[t[2]])
    if t[0] == "store" and len(t) == 4 and t[2] in m:
        return ("store", t[1], m[t[2]], t[3])
    if t[0] == "inst" and len(t) == 3:
        return ("inst", cls.get(t[1], t[1]), tuple(sorted((m.get(a, a), b) for a, b in t[2])))
    return t


class Conformance:
    def __init__(self, check, model=None):
        self.c = check
        if not os.path.exists(SPEC):
            raise Broken("specification missing")
        self.spec = summ.load(SPEC)
        self.M = model or pysum.PyModel()
        ref_fields = {k[7:]: v for k, v in self.spec.items() if k.startswith("fields:")}
        self.ren, self.cls = renames(ref_fields, self.M.fields())
        self.known_fields = {x for v in ref_fields.values() for x in v}
        self.sigs = {k[4:]: v for k, v in self.spec.items() if k.startswith("sig:")}

    def names(self, pred):
        return [k[4:] for k in self.spec if k.startswith("fun:") and pred(k[4:])]

    def run(self, names, signatures=True, facet=None):
        c, M = self.c, self.M
        missing = []
        for name in names:
            got = M.find(name)
            if got is None:
                if ":" not in name.split(".")[0] or name.startswith("callback:"):
                    missing.append(name)
                elif name.startswith("onerror:") and M.find("callback:" + name[8:]):
                    cb = M.find("callback:" + name[8:])[0]
                    c.report(f"libpyclingo/clingo/{cb.mod}.py:{cb.node.lineno} {name[8:]}", f"{name}:missing", "callback has no error handler any more")
                continue
            f = got[0]
            where = f"libpyclingo/clingo/{f.mod}.py:{f.node.lineno} {name}"
            try:
                new = apply_renames(M.summary(name), self.ren, self.cls)
                verdict, msg, pairs = summ.compare(self.spec["fun:" + name], new, M.h.enums, show, self.known_fields, facet)
            except RecursionError:
                verdict, msg, pairs = "weak", "recursion limit", 0
            c.count("operations compared with their specification")
            c.count("path pairs", pairs)
            c.count("abstract paths", len(new))
            if verdict == "different":
                c.report(where, f"{name}:behaviour", msg)
            elif verdict == "weak":
                c.count("operations compared only by their engine operations")
                c.notes.append(f"{name}: {msg}")
            if signatures:
                self.sig(name, where)
        if missing:
            if len(missing) == len(names):
                raise Broken(f"no specified operation found ({missing[:3]})")
            for n in missing:
                c.report(n, f"{n}:missing", "operation of the public interface does not exist any more")

    def classes(self, mods):
        """Base classes and decorators that provide inherited operations."""
        new = self.M.shapes()
        for k, v in self.spec.items():
            if not k.startswith("class:") or k[6:].split(".")[0] not in mods:
                continue
            n = k[6:]
            self.c.count("classes")
            if n not in new:
                if self.M.pkg.resolve_class(*n.split(".")) is None:
                    self.c.report(n, f"{n}:missing", "class of the public interface does not exist any more")
                continue
            for what, a, b in (("base class", v[0], new[n][0]), ("decorator", v[1], new[n][1])):
                for x in a:
                    if x not in b:
                        node = self.M.pkg.class_nodes[tuple(n.split("."))]
                        self.c.report(f"libpyclingo/clingo/{n.split('.')[0]}.py:{node.lineno} {n}", f"{n}:{x}", f"{what} {x} was removed")

    def sig(self, name, where):
        ref, new = self.sigs[name], self.M.signature(name)
        self.c.count("signatures")
        if ref[-1] != new[-1]:
            self.c.report(where, f"{name}:kind", f"declared as {new[-1] or 'plain method'} instead of {ref[-1] or 'plain method'}")
        if ref[0] == "arity" or new[0] == "arity":
            return
        rp, np_ = ref[1], new[1]
        for i, (n, d) in enumerate(rp):
            if i >= len(np_) or np_[i][0] != n:
                if i == 0:
                    continue
                if n not in [x for x, _ in np_]:
                    self.c.report(where, f"{name}:parameter:{n}", f"parameter {n} is not accepted any more")
                else:
                    self.c.report(where, f"{name}:parameter:{n}", f"parameter {n} changed its position")
            elif np_[i][1] != d and not summ.is_opaque(d) and not summ.is_opaque(np_[i][1]):
                self.c.report(where, f"{name}:default:{n}", f"default of {n} changed from {show(d)} to {show(np_[i][1])}")
        for n, d in np_[len(rp):]:
            if d == ("none",):
                self.c.report(where, f"{name}:parameter:{n}", f"new mandatory parameter {n}")
