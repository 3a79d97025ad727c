"""Entries of the C++ interface (libclingo/clingo.hh) and their summaries."""
import os, re, subprocess, sys
import summ
from cxprog import Prog, norm_type, strip_targs
from cxterm import *
from cxeval import Interp, Frame, State, Throw, Unsupported
from common import VERIF, Broken, REPO

RES = "/usr/lib/llvm-18/lib/clang/18"


def export(src, out, std, *inc):
    r = subprocess.run(["bash", os.path.join(VERIF, "tools", "build_tools.sh")], capture_output=True, text=True)
    if r.returncode:
        raise Broken("exporter does not build: " + r.stderr[-300:])
    cmd = [os.path.join(VERIF, "build", "cxdump"), REPO + "/", "", out, src, "-std=" + std, "-DNDEBUG"] + ["-I" + i for i in inc] + ["-resource-dir=" + RES]
    return subprocess.run(cmd, capture_output=True, text=True)


def ptypes(d):
    return ", ".join(p.replace("Clingo::", "").replace("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string") for p in d["params"])


class CxxModel:
    def __init__(self, prog):
        self.P = prog
        self.entries = {}
        for fid, f in prog.fn.items():
            d = prog.decl[fid]
            if not self.public(f, d):
                continue
            name = self.key(d)
            self.entries.setdefault(name, []).append(fid)
        self.entries = {(k if len(v) == 1 else f"{k}#{i}"): x for k, v in self.entries.items() for i, x in enumerate(sorted(v, key=lambda i: prog.fn[i]["line"]))}
        self.nested = {}

    def key(self, d):
        n = d["name"].replace("Clingo::", "")
        k = n + "(" + ptypes(d) + ")" + (" const" if d.get("const") else "") + (" &&" if d.get("rvalue") else "")
        return re.sub(r"\(lambda at [^)]*\)", "(lambda)", re.sub(r"lambda#\d+", "lambda", k))

    def public(self, f, d):
        n = d["name"]
        if not n.startswith("Clingo::") and not n.startswith("std::hash"):
            return False
        if d["short"].startswith("Clingo::Detail::AssignOnce::") and d["kind"] not in ("ctor", "dtor", "copyctor", "movector"):
            return d["file"].endswith("clingo.hh") and not d.get("explicit_default") and not d.get("deleted")
        if "Detail::" in d["short"] and not Interp(self.P).special(f["id"]) or "lambda#" in n.split("<")[0]:
            return False
        if d.get("access") in ("private", "protected"):
            return False
        if d.get("record") is not None and self.hidden(d["record"]):
            return False
        if any("Detail::" in p for p in d["params"]) or "Detail::" in n and "Detail::" not in d["short"]:
            return False
        if not d["file"].endswith("clingo.hh"):
            return False
        if d.get("explicit_default") or d.get("deleted") or "lambda#" in n:
            return False
        return True

    def hidden(self, rid):
        """Private nested records."""
        r = self.P.rec.get(rid)
        return bool(r) and r.get("access") in ("private", "protected")

    def summary(self, name):
        return self.summarize(self.entries[name])

    def summarize(self, fid):
        I = Interp(self.P)
        f, d = self.P.fn[fid], self.P.decl[fid]
        base = State()
        I.st = base
        kind = d["kind"]
        this = None
        isctor = kind in ("ctor", "copyctor", "movector")
        if d.get("record") is not None and not d.get("static"):
            if isctor:
                this = I.new_root(I.fresh(d["record"]))
            else:
                this = mkaddr(("this",))
        args = []
        byval = []
        for i, p in enumerate(f["params"]):
            t = norm_type(p["type"])
            if p.get("ref"):
                args.append(mkaddr(("p", i)))
            else:
                v = ("p", i)
                if t == "bool":
                    v = ("truth", v)
                args.append(v)
                if "record" in p and self.P.rec[p["record"]]["name"] == "Clingo::AST::Node":
                    I.st.refs[("p", i)] = 1
        base = I.st

        def run():
            if I.special(fid) == "reports":     # called by exception handlers
                I.handlers.append(Throw(None, ("p", "exception")))
            r = I.call_fn(fid, this, args)
            if isctor:
                return I.read(I.loc(this))
            return self.result(I, r, d)
        res = I.explore(run, base)
        self.nested = I.nested
        paths = [I.path_of(s, o) for s, o in res]
        return summ.make(paths)

    def defaults(self, name):
        """Default arguments: ((position, value), ...)"""
        d = self.P.decl[self.entries[name]]
        out = []
        for i, e in d.get("defaults", []):
            I = Interp(self.P)
            I.frames.append(Frame(None))

            def run():
                return I.full(lambda: I.reify(I.ev(e) if not I.is_glvalue(e) else I.read(I.lval(e))))
            try:
                r = I.explore(run, State())
                out.append((i, r[0][1][1] if len(r) == 1 and r[0][1][0] == "val" else ("?",)))
            except Unsupported:
                out.append((i, ("?",)))
        return tuple(out)

    def result(self, I, r, d):
        if d["ret"].rstrip().endswith("&"):
            return I.reify(r)
        return r
