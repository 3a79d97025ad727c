"""
Abstract interpretation of the exported C++ program.

Every operation of the interface is evaluated over symbolic inputs; calls of the
repository's own functions are inlined, calls into the engine and into user code
become effects, and loops become summaries of one generic iteration.  The result
of an operation is a set of abstract paths (conditions, effects, outcome), see
summ.py.  Nothing is executed and no solver is involved: conditions are only
decided by the syntactic rules of summ.Facts.
"""
import re
import summ
from summ import okey
from cxprog import Prog, norm_type, strip_targs
from cxterm import *


NUMERIC = {"char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long",
           "unsigned long long", "float", "double", "bool"}


class Unsupported(Exception):
    pass


class Prune(Exception):
    """The path cannot be continued (no return)."""

    def __init__(self, out):
        self.out = out


class Throw(Exception):
    def __init__(self, tname, val, rid=None):
        self.tname, self.val, self.rid = tname, val, rid


class Jump(Exception):
    """A user-defined non-local exit (Lua errors)."""

    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val


class State:
    __slots__ = ("mem", "smem", "events", "conds", "facts", "count", "next", "refs", "ext", "line")

    def __init__(self):
        self.mem, self.smem, self.events, self.conds = {}, {}, (), ()
        self.facts, self.count, self.next, self.refs, self.ext, self.line = summ.Facts(), {}, 0, {}, {}, 0

    def copy(self):
        s = State.__new__(State)
        s.mem, s.smem, s.events, s.conds = dict(self.mem), dict(self.smem), self.events, self.conds
        s.facts, s.count, s.next, s.refs = self.facts.copy(), dict(self.count), self.next, dict(self.refs)
        s.ext = dict(self.ext)
        s.line = self.line
        return s


class Frame:
    def __init__(self, fn, this=None):
        self.fn, self.this, self.env = fn, this, {}
        self.scopes = [[]]          # objects to destroy
        self.temps = []             # stacks of temporaries of full expressions
        self.caps = None


STD_BASE = {
    "std::runtime_error": "std::exception", "std::logic_error": "std::exception", "std::bad_alloc": "std::exception",
    "std::bad_cast": "std::exception", "std::invalid_argument": "std::logic_error", "std::out_of_range": "std::logic_error",
    "std::length_error": "std::logic_error", "std::domain_error": "std::logic_error", "std::range_error": "std::runtime_error",
    "std::overflow_error": "std::runtime_error", "std::system_error": "std::runtime_error", "std::bad_function_call": "std::exception",
    "std::bad_array_new_length": "std::bad_alloc", "std::ios_base::failure": "std::system_error", "std::bad_typeid": "std::exception",
    "std::underflow_error": "std::runtime_error", "EngineFailure": "std::exception",
}
SCALARS = ("bool", "char", "int", "unsigned int", "long", "unsigned long", "double", "float", "short", "unsigned short", "unsigned char",
           "signed char", "long long", "unsigned long long")


def is_fnptr(t):
    t = norm_type(t)
    return "(*)" in t or t.endswith("_callback_t") or t.endswith("_callback")


def target_name(t):
    return t[1].split("::")[-1] if t[0] in ("ext", "virt", "recursion") and isinstance(t[1], str) else "function"


# engine calls that run registered observers, propagators, or solve event handlers
NOTIFY = re.compile(r"clingo_(backend_\w+|control_(assign_external|release_external|ground|load_aspif|remove_minimize|update_project|solve)|solve_handle_(?!wait)\w+)$")


def is_null(n):
    while n.get("k") in ("cast", "paren", "full"):
        if n.get("ck") == "NullToPointer":
            return True
        n = n["e"]
    return n.get("k") == "nullptr"


def subnodes(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from subnodes(v)
    elif isinstance(n, list):
        for v in n:
            yield from subnodes(v)


class Interp:
    maxdepth = 40
    maxpaths = 600

    def __init__(self, prog, engine=None):
        self.P = prog
        self._special = {}
        self.frames = []
        self.st = State()
        self.trail, self.pos = [], 0
        self.depth = 0               # loop nesting
        self.nested = {}
        self.handlers = []
        self.gcache = {}
        self.problems = []
        self.stack = []
        self.cbdepth = 0

    # ------------------------------------------------------------------ exploration

    def explore(self, fn, base):
        """Runs fn from copies of base until all decisions are exhausted -> [(state, outcome)]"""
        save = self.trail, self.pos, self.st, list(self.frames), self.depth, list(self.handlers), list(self.stack)
        saved_frames = [(f, dict(f.env), [list(s) for s in f.scopes], [list(t) for t in f.temps]) for f in self.frames]
        trail, results = [], []
        try:
            while True:
                self.trail, self.pos = trail, 0
                self.st = base.copy()
                self.frames = list(save[3])
                self.depth, self.handlers, self.stack = save[4], list(save[5]), list(save[6])
                for f, env, scopes, temps in saved_frames:
                    f.env, f.scopes, f.temps = dict(env), [list(s) for s in scopes], [list(t) for t in temps]
                try:
                    out = ("val", fn())
                except Throw as t:
                    out = ("throw", t)
                except Prune as p:
                    out = ("prune", p.out)
                except Jump as j:
                    out = ("jump", j)
                results.append((self.st, out))
                if len(results) > self.maxpaths:
                    raise Unsupported("too many paths")
                while trail and trail[-1][0] >= trail[-1][1] - 1:
                    trail.pop()
                if not trail:
                    return results
                trail[-1] = (trail[-1][0] + 1, trail[-1][1], None)
        finally:
            self.trail, self.pos, self.st, self.frames, self.depth, self.handlers, self.stack = save
            for f, env, scopes, temps in saved_frames:
                f.env, f.scopes, f.temps = env, scopes, temps

    def choose(self, n):
        if n == 1:
            return 0
        if self.pos < len(self.trail):
            r = self.trail[self.pos][0]
        else:
            self.trail.append((0, n, None))
            r = 0
        self.pos += 1
        return r

    def memo(self, fn):
        """Result of a deterministic computation, remembered over replays of this path."""
        if self.pos < len(self.trail):
            r = self.trail[self.pos][2]
            if self.trail[self.pos][1] == 1 and r is not None:
                self.pos += 1
                return r[0]
        r = fn()
        if self.pos < len(self.trail):
            self.trail[self.pos] = (0, 1, (r,))
        else:
            self.trail.append((0, 1, (r,)))
        self.pos += 1
        return r

    def decide(self, v):
        v = truth(v)
        if v[0] == "c":
            return bool(v[1])
        if v[0] == "ite":
            return self.decide(v[2] if self.decide(v[1]) else v[3])
        a, pol = atom_of(v)
        if a[0] == "c":
            return bool(a[1]) == pol
        if a[0] == "ite":
            return self.decide(a) == pol
        f = self.st.facts
        k = f.implied(a)
        if k is not None:
            return k == pol
        ft, ff = f.copy(), f.copy()
        okt, okf = ft.add(a, True), ff.add(a, False)
        if okt and not okf:
            return pol
        if okf and not okt:
            return not pol
        val = self.choose(2) == 0
        self.st.facts = ft if val else ff
        self.st.conds += ((a, val),)
        return val == pol

    def force(self, v):
        """Resolves a gated value on this path."""
        while v[0] == "ite":
            v = v[2] if self.decide(v[1]) else v[3]
        return v

    # ------------------------------------------------------------------ memory

    def new_root(self, val):
        n = self.st.next
        self.st.next = n + 1
        self.st.mem[n] = val
        return ("ptr", ("L", n), ())

    def loc(self, p):
        """Pointer value -> location (root, path)"""
        p = self.force(p)
        if p[0] == "ptr":
            return p[1], p[2]
        if p[0] == "arr":
            t = self.new_root(p[1])
            return t[1], (("i", ZERO),)
        return ("S", mkderef(p)), ()

    def addr(self, loc):
        root, path = loc
        if root[0] == "S":
            return mkaddr(root[1])
        return ("ptr", root, path)

    def step(self, loc, st):
        root, path = loc
        if root[0] == "S":
            if st[0] == "f":
                return ("S", ("fld", root[1], st[1])), ()
            return ("S", mkderef(padd(("data", root[1]), st[1]))), ()
        return root, path + (st,)

    def get(self, v, st):
        v0 = v
        if v[0] == "ite":
            return ("ite", v[1], self.get(v[2], st), self.get(v[3], st))
        if st[0] == "f":
            if v[0] == "rec":
                for k, x in v[2]:
                    if k == st[1]:
                        return x
                return ("uninit",)
            if v[0] == "uninit":
                return v
            if v[0] == "upd":
                for k, x in v[2]:
                    if k == ("fld", v[1], st[1]):
                        return x
                return ("fld", v[1], st[1])
            return ("fld", v, st[1])
        if st[0] == "i":
            if v[0] == "updseq":
                for i, x in reversed(v[2]):
                    if i == st[1]:
                        return x
                    r = rel("==", i, st[1])
                    if r != F:
                        return ("idx", ("data", v), st[1])
                return self.get(v[1], st)
            return seq_get(v, st[1])
        raise Unsupported(f"step {st}")

    def put(self, v, path, x):
        if not path:
            return x
        st = path[0]
        if st[0] == "f":
            if v[0] == "rec":
                out, hit = [], False
                for k, y in v[2]:
                    if k == st[1]:
                        out.append((k, self.put(y, path[1:], x)))
                        hit = True
                    else:
                        out.append((k, y))
                if not hit:
                    out.append((st[1], self.put(("uninit",), path[1:], x)))
                return ("rec", v[1], tuple(out))
            sub = self.put(self.get(v, st), path[1:], x)
            if v[0] == "uninit":
                return ("rec", "?", ((st[1], sub),))
            if v[0] == "upd":
                return ("upd", v[1], tuple(kv for kv in v[2] if kv[0] != ("fld", v[1], st[1])) + ((("fld", v[1], st[1]), sub),))
            return ("upd", v, ((("fld", v, st[1]), sub),))
        return seq_set(v, st[1], self.put(self.get(v, st) if len(path) > 1 else ("uninit",), path[1:], x))

    def read(self, loc):
        root, path = loc
        if root[0] == "L":
            if root[1] not in self.st.mem:
                return ("uninit",)
            v = self.st.mem[root[1]]
            for s in path:
                v = self.get(v, s)
            return v
        if root[0] == "G":
            v = self.gvalue(root[1])
            for s in path:
                v = self.get(v, s)
            return v
        return self.sread(root[1])

    def sread(self, t):
        sm = self.st.smem
        if t in sm:
            return sm[t]
        if t[0] == "glob":
            v = self.static_init(t[1])
            if v is not None:
                return v
        if not sm:
            return t
        if t[0] == "fld":
            o = t[1]
            b = self.sread_over(o)
            if b is not None:
                return self.get(b, ("f", t[2]))
        ch = tuple(sorted(((k, v) for k, v in sm.items() if k[0] == "fld" and k[1] == t), key=okey))
        if ch:
            return ("upd", t, ch)
        return t

    def sread_over(self, t):
        """Overlay of the object or one of its parents, or None."""
        sm = self.st.smem
        if t in sm:
            return sm[t]
        if t[0] == "fld":
            b = self.sread_over(t[1])
            if b is not None:
                return self.get(b, ("f", t[2]))
        return None

    def write(self, loc, v):
        root, path = loc
        if root[0] == "L":
            if root[1] not in self.st.mem:
                return
            self.st.mem[root[1]] = self.put(self.st.mem[root[1]], path, v)
            return
        if root[0] == "G":
            if not path:
                t = ("glob", self.P.var[root[1]]["name"])
            else:
                raise Unsupported("write to a static array")
        else:
            t = root[1]
        self.swrite(t, v)

    def swrite(self, t, v):
        if v[0] == "rec" and v[2] and v[1] != "?" and not v[1].startswith("std::"):
            for k, x in v[2]:
                self.swrite(("fld", t, k), x)
            return
        if v[0] == "upd" and v[1] == t:
            for k, x in v[2]:
                self.swrite(k, x)
            return
        sm = self.st.smem
        for k in [k for k in sm if k != t and contains_term(k, t)]:
            del sm[k]
        sm[t] = v
        if t[0] == "fld":
            self.event(("store", t[1], t[2], self.reify(v)))
        else:
            self.event(("store", t, "*", self.reify(v)))

    def gvalue(self, vid):
        var = self.P.var[vid]
        t = ("glob", var["name"])
        if t in self.st.smem:
            return self.st.smem[t]
        if "init" in var and (var.get("const") or self.static_ok(var)):
            if vid not in self.gcache:
                f = Frame(None)
                self.frames.append(f)
                try:
                    self.gcache[vid] = self.ev(var["init"])
                finally:
                    self.frames.pop()
            return self.gcache[vid]
        return t

    def static_ok(self, var):
        return bool(var.get("static_local"))

    def static_init(self, name):
        """Initial value of a function local static."""
        if name not in self.gcache:
            vs = [v for v in self.P.var.values() if v["name"] == name]
            self.gcache[name] = None
            if len(vs) == 1 and vs[0].get("static_local") and "init" in vs[0]:
                self.gcache[name] = self.gvalue(vs[0]["id"])
        return self.gcache[name]

    # ------------------------------------------------------------------ events

    def event(self, ev):
        self.st.events += ((ev, 0),)

    def occ(self, key):
        n = self.st.count.get(key, 0)
        self.st.count[key] = n + 1
        return n

    def reify(self, v, depth=0, seen=()):
        """Value independent of the local memory."""
        if not isinstance(v, tuple) or not v:
            return v
        k = v[0]
        if k in ("c", "v", "p"):
            return v
        if depth > 60:
            return ("deep",)
        if k == "ptr":
            root, path = v[1], v[2]
            if v in seen:
                return ("self",)
            if root[0] == "G":
                if path and path[-1][0] == "i":
                    return padd(("data", ("glob", self.P.var[root[1]]["name"])), path[-1][1])
                return ("addr", ("glob", self.P.var[root[1]]["name"]))
            if path and path[-1][0] == "i":
                arr = self.reify(self.read((root, path[:-1])), depth + 1, seen + (v,))
                return padd(self.mkarr(arr), path[-1][1])
            return self.mkaddr_of(self.reify(self.read((root, path)), depth + 1, seen + (v,)))
        if k == "clo":
            return ("fun",)
        if k == "fun":
            return ("fun",)
        if k == "deref" and v[1][0] in ("ptr", "arr"):
            return self.reify(self.read(self.loc(v[1])), depth + 1, seen)
        if k == "data":
            t = self.reify(v[1], depth + 1, seen)
            return self.mkarr(t)
        if k == "seq":
            return seq(tuple(self.rseg(s, depth, seen) for s in v[1]))
        if k == "rec":
            return ("rec", v[1], tuple((a, self.reify(x, depth + 1, seen)) for a, x in v[2]))
        return tuple(self.reify(x, depth + 1, seen) if isinstance(x, tuple) else x for x in v)

    def rseg(self, s, depth, seen):
        if s[0] == "m":
            return s
        return tuple(self.reify(x, depth + 1, seen) if isinstance(x, tuple) else x for x in s)

    def mkarr(self, s):
        """Pointer to the first element of a sequence."""
        if s[0] == "seq":
            if len(s[1]) == 1 and s[1][0][0] == "slice":
                return s[1][0][1]
            return ("arr", s)
        if s[0] == "c":
            return s
        return ("data", s)

    def mkaddr_of(self, v):
        return ("addr", v)

    # ------------------------------------------------------------------ objects

    def fresh(self, rid):
        """Storage of an object whose constructor runs next."""
        if self.P.newtype(rid):
            return ("uninit",)
        r = self.P.rec[rid]
        if r.get("ours"):
            return ("rec", r["name"], tuple((f["name"], ("uninit",)) for f in self.P.fields(rid)))
        return ("uninit",)

    def zero(self, n):
        rid = n.get("record")
        if "array" in n:
            return ("seq", (("e", ZERO),) * n["array"]) if n["array"] <= 64 else ("seq", (("fill", ("c", n["array"]), ZERO),))
        return self.zero_of(rid, n.get("t", "int"))

    def zero_of(self, rid, t):
        if rid in self.P.rec and self.P.rec[rid].get("fields"):
            if self.P.newtype(rid):
                f = self.P.fields(rid)[0]
                return self.zero_of(f.get("record"), f["type"])
            return ("rec", self.P.rec[rid]["name"], tuple((f["name"], self.zero_of(f.get("record"), f["type"])) for f in self.P.fields(rid)))
        t = norm_type(t)
        if t == "bool":
            return F
        if "*" in t or "nullptr" in t:
            return NULL
        return ZERO

    def field_loc(self, loc, name, fid):
        own = self.P.field_owner.get(fid)
        if own and self.P.newtype(own[0]):
            return loc
        return self.step(loc, ("f", name))

    def field_loc_of(self, loc, rid, f):
        if self.P.newtype(f[0]):
            return loc
        return self.step(loc, ("f", f[1]["name"]))

    # destruction -------------------------------------------------------

    def destroy(self, loc, rid):
        """Runs the destructor of an object of static type rid."""
        r = self.P.rec.get(rid)
        if not r or r.get("trivial_dtor"):
            return
        if r.get("ours"):
            d = r.get("dtor")
            if d is not None and d in self.P.fn:
                self.call_fn(d, self.addr(loc), [])
                return
            self.destroy_members(loc, rid)
            return
        if r["name"].startswith("std::unique_ptr"):
            p = self.read(loc)
            if p[0] in ("uninit",):
                return
            self.delete_unique(r, p)

    def destroy_members(self, loc, rid):
        r = self.P.rec[rid]
        for f in reversed(r["fields"]):
            if "record" in f:
                fl = loc if self.P.newtype(rid) else self.step(loc, ("f", f["name"]))
                self.destroy(fl, f["record"])
        for b in reversed(r["bases"]):
            self.destroy(loc, b["id"])

    def targ_record(self, r, i=0):
        ts = r.get("targs") or []
        if i < len(ts):
            x = self.P.recname.get(ts[i])
            return x["id"] if x else None
        return None

    def delete_unique(self, r, p):
        """Destruction of the object owned by a unique_ptr."""
        if p == NULL or not self.decide(p):
            return
        self.delete_ptr(p, self.targ_record(r))

    def delete_ptr(self, p, rid):
        loc = self.loc(p)
        if rid is not None:
            self.destroy(loc, rid)
        if loc[0][0] == "S":
            self.event(("call", "delete", self.reify(p)))
        else:
            self.st.ext[("freed", loc[0])] = True

    def run_scope(self, scope):
        for loc, rid in reversed(scope):
            self.destroy(loc, rid)

    # ------------------------------------------------------------------ functions

    def call_fn(self, fid, this, args, dest=None, clo=None):
        """Inlines a function; args are values, addresses for reference parameters."""
        f = self.P.fn[fid]
        d = self.P.decl[fid]
        if len(self.stack) > self.maxdepth:
            raise Unsupported(f"recursion in {f['name']}")
        if fid in self.stack:
            return self.user_call(("recursion", d["short"]), ([this] if this else []) + args, {"params": ([""] if this else []) + d["params"], "ret": d["ret"]}, None)
        k = self.special(fid)
        if k == "raises" and self.stack:
            if self.decide(args[0]):
                return ("c", "void")
            raise Throw("EngineFailure", ("enginefailure",))
        if k == "reports" and self.stack and self.handlers and self.handlers[-1].tname in (None, "EngineFailure"):
            self.event(("call", "report exception", self.reify(self.handlers[-1].val)))
            return ("c", "void")
        fr = Frame(f, this)
        self.frames.append(fr)
        self.stack.append(fid)
        res = ("c", "void")
        try:
            try:
                for p, a in zip(f["params"], args):
                    if p.get("ref"):
                        fr.env[p["id"]] = self.loc(a)
                    else:
                        root = self.loc(self.new_root(a))
                        fr.env[p["id"]] = root
                        if "record" in p:
                            fr.scopes[0].append((root, p["record"]))
                if clo is not None:
                    self.bind_closure(fr, clo, this)
                kind = d.get("kind")
                if kind in ("ctor", "copyctor", "movector") or f.get("inits") is not None:
                    done = []
                    try:
                        self.run_inits(f, this, done)
                        res = self.body(f, fr)
                    except Throw:
                        self.run_scope(done)
                        raise
                else:
                    res = self.body(f, fr)
                if kind == "dtor":
                    self.destroy_members(self.loc(this), d["record"])
            except Throw as t:
                if d.get("noexcept") or d.get("kind") == "dtor":
                    raise Prune(("terminate", t.tname or "user exception"))
                raise
        finally:
            self.frames.pop()
            self.stack.pop()
        return res

    def special(self, fid):
        """Functions that translate between engine errors and exceptions (specified as operations of their own)."""
        if fid not in self._special:
            f, d = self.P.fn[fid], self.P.decl[fid]
            names = set()

            def walk(n):
                if isinstance(n, dict):
                    if n.get("k") == "call" and "f" in n:
                        names.add(self.P.decl[n["f"]]["name"])
                    elif n.get("k") == "throw" and n.get("e") is None:
                        names.add("rethrow")
                    if n.get("k") == "call" and "f" in n and self.P.decl[n["f"]]["name"] == "std::rethrow_exception" and any(x.get("k") == "call" and "f" in x and self.P.decl[x["f"]]["name"] == "std::current_exception" for x in subnodes(n["args"])):
                        names.add("rethrow")
                    for v in n.values():
                        walk(v)
                elif isinstance(n, list):
                    for v in n:
                        walk(v)
            walk(f.get("body"))
            r = None
            if "clingo_error_code" in names and norm_type(d["ret"]) == "void" and [norm_type(p) for p in d["params"]] == ["bool"]:
                r = "raises"
            elif "clingo_set_error" in names and "rethrow" in names and not d["params"]:
                r = "reports"
            self._special[fid] = r
        return self._special[fid]

    def bind_closure(self, fr, clo, this):
        for cap in clo[2]:
            if cap[0] == "this":
                fr.this = cap[1]
            elif cap[0] == "ref":
                fr.env[cap[1]] = self.loc(cap[2])
            else:
                fr.env[cap[1]] = self.loc(self.new_root(cap[2])) if not isinstance(cap[2][0], int) else cap[2]

    def body(self, f, fr):
        """Runs the body and destroys parameters on every exit."""
        try:
            r = self.stmt(f["body"]) if f.get("body") else None
            res = ("c", "void")
            if r is not None and r[0] == "ret":
                res = r[1]
        except Throw:
            self.run_scope(fr.scopes[0])
            raise
        self.run_scope(fr.scopes[0])
        return res

    def run_inits(self, f, this, done):
        loc = self.loc(this)
        for i in f.get("inits") or []:
            if "field" in i:
                fl = self.field_loc(loc, i["field"], i["v"])
                _, fd = self.P.field_owner[i["v"]]
                if fd["type"].rstrip().endswith("&"):
                    self.write(fl, self.addr(self.lval(i["e"])))
                elif i["e"] is not None:
                    self.init_loc(fl, i["e"])
                    if "record" in fd:
                        done.append((fl, fd["record"]))
            elif "base" in i:
                self.init_loc(loc, i["e"], base=True)
                done.append((loc, i["base"]))
            else:
                self.init_loc(loc, i["e"], base=True)

    def init_loc(self, loc, e, base=False):
        """Initialises storage with an expression; constructors run in place."""
        x = e
        while x and x["k"] in ("full", "bind") or (x and x["k"] == "construct" and x.get("elidable") and len(x["args"]) == 1 and x["args"][0]["k"] in ("tmp", "bind", "construct")):
            if x["k"] == "full":
                self.full(lambda: self.init_loc(loc, x["e"], base))
                return
            x = x["e"] if x["k"] == "bind" else (x["args"][0]["e"] if x["args"][0]["k"] == "tmp" else x["args"][0])
        if x["k"] == "construct" and "array" not in x:
            self.construct(x, loc, base)
            return
        if x["k"] == "inhctor":
            self.inherited(x, loc)
            return
        self.write(loc, self.ev(x))

    def inherited(self, n, loc):
        fr = self.frames[-1]
        f = fr.fn
        args = []
        for p in f["params"]:
            l = fr.env[p["id"]]
            args.append(self.addr(l) if p.get("ref") else self.read(l))
        self.call_fn(n["f"], self.addr(loc), args)

    def call_any(self, fid, this, args, n, dest=None):
        """Dispatches a call by what is known about the callee."""
        d = self.P.decl[fid]
        name = d["short"]
        r = self.hook(fid, d, name, this, args, n, dest)
        if r is not None:
            return r
        if fid in self.P.fn:
            return self.call_fn(fid, this, args, dest)
        m = self.model(name)
        if m is not None:
            return m(d, this, args, n)
        if d.get("extern_c") and name.startswith("clingo_"):
            return self.engine(d, args, n)
        if d.get("record") is not None and (d.get("explicit_default") or d["kind"] in ("copyctor", "movector", "copyassign", "moveassign", "dtor", "ctor")) and (self.P.rec[d["record"]].get("ours") or not d.get("ours")):
            return self.default_special(d, this, args, n)
        if d.get("noreturn"):
            raise Prune(("abort", name))
        if not this and args and (name.startswith("std::") or d.get("extern_c")) and all(norm_type(t) in NUMERIC for t in [d["ret"]] + list(d["params"])):
            return ("pure", name.split("::")[-1], tuple(self.reify(self.force(x)) for x in args))       # arithmetic of the standard library
        return self.user_call(("ext", d["name"]), ([this] if this else []) + args, d, n, nothrow=d.get("noexcept") or d.get("extern_c"))

    def hook(self, fid, d, name, this, args, n, dest):
        return None

    def default_special(self, d, this, args, n):
        k = d["kind"]
        if k in ("copyctor", "movector"):
            v = self.read(self.loc(args[0]))
            self.write(self.loc(this), v)
            return ("c", "void")
        if k in ("copyassign", "moveassign"):
            self.write(self.loc(this), self.read(self.loc(args[0])))
            return this
        if k == "ctor":
            rid = d["record"]
            r = self.P.rec[rid]
            loc = self.loc(this)
            if r.get("ours"):
                for f in r["fields"]:
                    fl = loc if self.P.newtype(rid) else self.step(loc, ("f", f["name"]))
                    if "init" in f:
                        self.write(fl, self.ev(f["init"]))
                return ("c", "void")
            if args:
                self.write(loc, ("new", r["name"]) + tuple(self.reify_arg(a, t) for a, t in zip(args, d["params"])))
            else:
                self.write(loc, ("new", r["name"]))
            return ("c", "void")
        return ("c", "void")

    def reify_arg(self, a, t):
        t = t.strip()
        if t.endswith("&"):
            return self.reify(self.read(self.loc(a)))
        return self.reify(a)

    # calls of code that is not part of the repository
    def user_call(self, target, args, d, n, nothrow=False):
        rargs = tuple(self.reify_arg(a, t) for a, t in zip(args, d["params"])) if d and len(d["params"]) == len(args) else tuple(self.reify(a) for a in args)
        key = ("ucall", target) + rargs
        k = self.occ(key)
        term = key + (k,)
        self.event(key)
        for i, a in enumerate(args):
            f = self.closure_of(a)
            if f is not None:
                self.callbacks([(f"{target_name(target)}/{i}", f)], NULL, "user")
        if not nothrow and self.decide(("t", ("throws", term))):
            raise Throw(None, ("exc", term))
        ret = norm_type(d["ret"]) if d else "?"
        if d and d["ret"].rstrip().endswith("&"):
            return mkaddr(("uret", term))
        if ret == "bool":
            return ("truth", ("uret", term))
        return ("uret", term)

    def closure_of(self, a):
        """Function object of this code that is handed to other code."""
        for _ in range(3):
            if a[0] == "clo" and a[1] in self.P.fn:
                return a
            if a[0] == "ptr":
                try:
                    a = self.read((a[1], a[2]))
                except Unsupported:
                    return None
            else:
                return None
        return None

    # ------------------------------------------------------------------ engine

    HANDLES = None

    def is_out(self, t):
        """Parameters through which the engine returns a value."""
        t = t.strip()
        if not t.endswith("*"):
            return False
        inner = t[:-1].strip()
        if inner.endswith("*const"):
            return False
        if inner.startswith("const ") and not inner.endswith("*"):
            return False
        if inner.endswith("*"):
            return True
        if inner in SCALARS:
            return True
        if inner == "void" or "(" in inner:
            return False
        return self.P.complete(inner)

    def engine(self, d, args, n):
        name = d["short"]
        params = d["params"]
        query = summ.is_query(name)
        # callbacks
        args = [self.force(a) for a in args]
        has_cb = [i for i, a in enumerate(args) if a[0] in ("fun", "clo") or (a[0] == "ptr" and self.cb_struct(a))]
        rargs, outs, datai = [], [], None
        cbs = []
        if has_cb:
            datai = self.data_param(params, has_cb[0])
            for i in has_cb:
                a = args[i]
                if a[0] in ("fun", "clo"):
                    cbs.append((name + "/" + str(i), a))
                else:
                    v = self.read(self.loc(a))
                    for k, x in v[2]:
                        x = self.force(x)
                        if x[0] in ("fun", "clo"):
                            cbs.append((name + "/" + k, x))
        nodata = {self.data_param(params, i) for i, t in enumerate(params) if args[i] == NULL and is_fnptr(t)} - {None, datai}
        for i, (a, t) in enumerate(zip(args, params)):
            if i in nodata:
                rargs.append(("nodata",))
            elif i == datai and a != NULL:
                rargs.append(("cbdata",))
            elif i in has_cb:
                rargs.append(self.reify_cb(a))
            elif self.is_out(t) and a != NULL:
                if a[0] == "ptr":
                    outs.append((i, a))
                    rargs.append(("out",))
                elif a[0] in ("addr", "p", "fld", "padd", "cbp", "deref", "truth", "larg", "ud") or True:
                    outs.append((i, a))
                    rargs.append(("out",))
            else:
                rargs.append(self.reify(a))
        rargs = tuple(rargs)
        key = (name,) + rargs
        if not query:
            key += (self.occ(key),)
        if cbs:
            self.callbacks(cbs, args[datai] if datai is not None else NULL, name)
        if name == "clingo_ast_acquire":
            self.st.refs[rargs[0]] = self.st.refs.get(rargs[0], 0) + 1
            return ("c", "void")
        if name == "clingo_ast_release":
            self.st.refs[rargs[0]] = self.st.refs.get(rargs[0], 0) - 1
            return ("c", "void")
        self.event(("call", name) + rargs)
        if NOTIFY.match(name):
            self.notified(name)
        ret = norm_type(d["ret"])
        for i, a in outs:
            val = ("out",) + key + (i,)
            inner = params[i].strip()[:-1].strip()
            loc = self.loc(a)
            if loc[0][0] != "S" and loc[1] and loc[1][-1][0] == "i":
                arr = self.read((loc[0], loc[1][:-1]))
                self.write((loc[0], loc[1][:-1]), ("seq", (("slice", val, mklen(arr)),)))
                continue
            if inner == "bool":
                val = ("truth", val)
            self.write(loc, val) if loc[0][0] != "S" else self.swrite(loc[0][1], val)
        if ret == "void":
            return ("c", "void")
        r = ("ret",) + key
        return ("truth", r) if ret == "bool" else r

    def notified(self, name):
        """Registered propagators, observers, and handlers may have run and stored an exception."""
        fields = {f["name"] for r in self.P.rec.values() if r["name"] == "Clingo::Detail::AssignOnce" for f in r["fields"]}
        sm = self.st.smem
        for k in list(sm):
            if k[0] == "fld" and k[2] in fields and not (sm[k][0] == "cbout"):
                sm[k] = ("fld", ("notified", name, k[1]), k[2])

    def data_param(self, params, cb):
        """User data that accompanies the callback at the given position."""
        datas = [i for i, t in enumerate(params) if norm_type(t) == "void*" and i > cb]
        return datas[0] if datas else None

    def cb_struct(self, a):
        try:
            v = self.read(self.loc(a))
        except Unsupported:
            return False
        return v[0] == "rec" and any(x[0] in ("fun", "clo") for _, x in v[2])

    def reify_cb(self, a):
        if a[0] in ("fun", "clo"):
            return ("cb",)
        v = self.read(self.loc(a))
        return ("cbs", tuple((k, ("cb",) if x[0] in ("fun", "clo") else self.reify(x)) for k, x in v[2]))

    def callbacks(self, cbs, data, fname):
        """Analyses functions handed to the engine together with their data."""
        if self.cbdepth > 2:
            return
        base = self.st.copy()
        base.events = ()

        def run():
            self.cbdepth += 1
            changed = []
            res = {}
            for rnd in range(2):
                b = base.copy()
                for k, cell in enumerate(changed):
                    self.poke(b, cell, ("cbin", fname, k))
                found = []
                for key, f in cbs:
                    out = self.explore(lambda: self.run_callback(f, data), b)
                    res[key] = out
                    for s, o in out:
                        for cell in self.diff(b, s):
                            if cell not in found:
                                found.append(cell)
                new = changed + [x for x in found if x not in changed]
                if new == changed:
                    break
                changed = new
            self.cbdepth -= 1
            summ_ = {}
            for key, out in res.items():
                summ_[key] = [self.failed(self.path_of(s, o, base)) for s, o in out]
            return summ_, changed
        summaries, changed = self.memo(run)
        for key, paths in summaries.items():
            dst = self.nested.setdefault(key, [])
            for p in paths:
                if p not in dst:
                    dst.append(p)
        for k, cell in enumerate(changed):
            self.poke(self.st, cell, ("cbout", fname, k))

    def failed(self, p):
        """The engine ignores what a failing callback has stored through its parameters."""
        if p["out"] == ("ret", ("c", False)):
            p["events"] = tuple(e for e in p["events"] if not (e[0][0] == "store" and e[0][2] == "*" and e[0][1][0] in ("p", "deref") and (e[0][1][0] == "p" or e[0][1][1][0] == "p")))
        return p

    def run_callback(self, f, data):
        fid = f[1]
        fn = self.P.fn.get(fid)
        if fn is None:
            raise Unsupported("callback without body")
        args = []
        ps = fn["params"]
        vs = [i for i, p in enumerate(ps) if norm_type(p["type"]) == "void*" and not (i and is_fnptr(ps[i - 1]["type"]))]
        for i, p in enumerate(ps):
            t = norm_type(p["type"])
            if vs and i == vs[-1]:
                args.append(data)
            elif t == "bool":
                args.append(("truth", ("p", i + 100 * self.cbdepth)))
            elif p.get("ref"):
                args.append(mkaddr(("p", i + 100 * self.cbdepth)))
            else:
                args.append(("p", i + 100 * self.cbdepth))
        return self.call_fn(fid, None, args, clo=f if f[0] == "clo" else None)

    def poke(self, st, cell, v):
        root, path = cell
        save, self.st = self.st, st
        try:
            if root[0] == "S":
                st.smem[root[1]] = v
            else:
                old = self.read(cell)
                if isinstance(old, tuple) and old and old[0] in ("truth",) or old in (T, F):
                    v = ("truth", v)
                st.mem[root[1]] = self.put(st.mem[root[1]], path, v)
        finally:
            self.st = save

    def diff(self, a, b):
        """Cells existing in state a whose contents differ in state b."""
        out = []
        for n in sorted(a.mem):
            x, y = a.mem[n], b.mem.get(n, ("uninit",))
            if x != y:
                out += [(("L", n), p) for p in self.vdiff(x, y)]
        for k in sorted(set(a.smem) | set(b.smem), key=okey):
            if a.smem.get(k) != b.smem.get(k):
                out.append((("S", k), ()))
        return out

    def vdiff(self, x, y, path=()):
        if x == y:
            return []
        if x[0] == "rec" and y[0] == "rec" and [k for k, _ in x[2]] == [k for k, _ in y[2]]:
            out = []
            for (k, a), (_, b) in zip(x[2], y[2]):
                out += self.vdiff(a, b, path + (("f", k),))
            return out
        return [path]

    def path_of(self, s, out, base=None, n=0):
        """(state, outcome) -> abstract path (conditions, events, outcome)"""
        save, self.st = self.st, s
        try:
            if out[0] == "val":
                o = ("ret", self.reify(self.outval(out[1])))
            elif out[0] == "throw":
                o = ("raise", self.exc_name(out[1]), self.reify(out[1].val))
            elif out[0] == "prune":
                o = tuple(out[1])
            else:
                o = ("jump", out[1].kind)
            ev = s.events
            for k in sorted(s.refs, key=okey):
                v = s.refs[k] - (base.refs.get(k, 0) if base else 0)
                if v and k != NULL:
                    ev += ((("store", ("refs", k), "", ("c", v)), 0),)
            return {"conds": s.conds[n:], "events": ev, "out": o}
        finally:
            self.st = save

    def outval(self, v):
        return v

    def exc_name(self, t):
        if t.tname is None:
            return "user:" + (t.val[0] if t.val else "")
        return t.tname

    # ------------------------------------------------------------------ statements

    def stmt(self, s):
        if s is None:
            return None
        if s.get("l"):
            self.st.line = s["l"]
        return getattr(self, "s_" + s["k"])(s)

    def scope(self, fn):
        fr = self.frames[-1]
        fr.scopes.append([])
        try:
            r = fn()
        except Throw:
            sc = fr.scopes.pop()
            self.run_scope(sc)
            raise
        except (Prune, Jump, Unsupported):
            fr.scopes.pop()
            raise
        self.run_scope(fr.scopes.pop())
        return r

    def s_block(self, s):
        def go():
            for x in s["b"]:
                r = self.stmt(x)
                if r is not None:
                    return r
            return None
        return self.scope(go)

    def s_nop(self, s):
        return None

    def s_expr(self, s):
        self.discard(s["e"])
        return None

    def discard(self, e):
        def go():
            x = e
            while x["k"] == "void":
                x = x["e"]
            if x["k"] == "full":
                return self.full(lambda: self.discard(x["e"]))
            v = self.ev(x)
            if x["k"] == "bind" and "record" in x:
                root = self.loc(self.new_root(v))
                self.destroy(root, x["record"])
        self.full(go)

    def full(self, fn):
        fr = self.frames[-1]
        fr.temps.append([])
        try:
            r = fn()
        except Throw:
            t = fr.temps.pop()
            self.run_scope(t)
            raise
        except (Prune, Jump, Unsupported):
            fr.temps.pop()
            raise
        self.run_scope(fr.temps.pop())
        return r

    def s_decl(self, s):
        for v in s["d"]:
            self.declare(v)
        return None

    def declare(self, v):
        fr = self.frames[-1]
        if v.get("static"):
            fr.env[v["id"]] = (("G", v["id"]), ())
            return
        if v.get("ref"):
            fr.env[v["id"]] = self.full_keep(lambda: self.lval(v["init"], extend=True))
            return
        root = self.loc(self.new_root(self.fresh(v["record"]) if "record" in v else ("uninit",)))
        fr.env[v["id"]] = root
        if v.get("init") is not None:
            self.full(lambda: self.init_loc(root, v["init"]))
        if "record" in v:
            fr.scopes[-1].append((root, v["record"]))

    def full_keep(self, fn):
        return self.full(fn)

    def s_if(self, s):
        def go():
            if s.get("init"):
                self.stmt(s["init"])
            if s.get("var"):
                self.declare(s["var"])
            if self.cond(s["c"]):
                return self.stmt(s["a"])
            return self.stmt(s.get("b"))
        if s.get("init") or s.get("var"):
            return self.scope(go)
        return go()

    def cond(self, e):
        return self.decide(self.full(lambda: self.ev(e)))

    def s_return(self, s):
        if s.get("e") is None:
            return ("ret", ("c", "void"))
        fr = self.frames[-1]
        e = s["e"]
        if fr.fn and fr.fn["ret"].rstrip().endswith("&"):
            return ("ret", self.full(lambda: self.addr(self.lval(e))))
        if "nrvo" in s and s["nrvo"] in fr.env:
            loc = fr.env[s["nrvo"]]
            v = self.read(loc)
            for sc in fr.scopes:
                for i, (l, r) in enumerate(sc):
                    if l == loc:
                        del sc[i]
                        break
            return ("ret", v)
        return ("ret", self.full(lambda: self.ev(e)))

    def s_break(self, s):
        return ("break",)

    def s_continue(self, s):
        return ("continue",)

    def s_label(self, s):
        return self.stmt(s["s"])

    def s_switch(self, s):
        def go():
            if s.get("init"):
                self.stmt(s["init"])
            if s.get("var"):
                self.declare(s["var"])
            v = self.full(lambda: self.ev(s["c"]))
            body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
            flat, default = [], None
            for x in body:
                while x["k"] in ("case", "default"):
                    flat.append(("case", x["v"]) if x["k"] == "case" else ("default",))
                    x = x["s"]
                    if x is None:
                        break
                if x is not None:
                    flat.append(("s", x))
            start = None
            for i, x in enumerate(flat):
                if x[0] == "case":
                    if self.decide(rel("==", v, self.ev(x[1]))):
                        start = i
                        break
            if start is None:
                for i, x in enumerate(flat):
                    if x[0] == "default":
                        start = i
                if start is None:
                    return None

            def run():
                for x in flat[start:]:
                    if x[0] == "s":
                        r = self.stmt(x[1])
                        if r is not None:
                            return r
                return None
            r = self.scope(run)
            return None if r == ("break",) else r
        return self.scope(go)

    def s_try(self, s):
        fr = self.frames[-1]
        depth = len(self.frames), len(self.stack), len(fr.scopes), len(fr.temps)
        try:
            self.enter_try(s)
            return self.stmt(s["b"])
        except Throw as t:
            del self.frames[depth[0]:]
            del self.stack[depth[1]:]
            del fr.scopes[depth[2]:]
            del fr.temps[depth[3]:]
            for h in s["h"]:
                if self.matches(t, h):
                    self.handlers.append(t)
                    try:
                        def go():
                            if "var" in h:
                                v = h["var"]
                                p = self.new_root(t.val)
                                fr.env[v["id"]] = self.loc(p)
                            return self.stmt(h["b"])
                        return self.scope(go)
                    finally:
                        self.handlers.pop()
            raise

    def enter_try(self, s):
        """Hook: the body of a try statement begins."""

    def matches(self, t, h):
        if "t" not in h:
            return True
        want = norm_type(h["t"])
        if t.tname is None:
            return self.decide(("t", ("excis", t.val, want)))
        n = t.tname
        if n == "EngineFailure" and want in ("std::runtime_error", "std::logic_error", "std::bad_alloc"):
            return self.decide(("t", ("excis", t.val, want)))
        while n is not None:
            if n == want:
                return True
            n = STD_BASE.get(n)
        if t.rid is not None and h.get("record") is not None and self.P.is_base(h["record"], t.rid):
            return True
        if t.rid is not None:
            return self.rec_derives(t.rid, want)
        return False

    def rec_derives(self, rid, want):
        r = self.P.rec.get(rid)
        if not r:
            return False
        n = r["name"]
        while n is not None:
            if n == want:
                return True
            n = STD_BASE.get(n)
        return any(self.rec_derives(b["id"], want) for b in r["bases"])

    # loops -------------------------------------------------------------

    def s_while(self, s):
        def cond():
            if s.get("var"):
                self.declare(s["var"])
            return self.full(lambda: self.ev(s["c"]))
        return self.loop(cond, lambda: self.stmt(s["b"]), None, s)

    def s_do(self, s):
        first = [True]
        # the condition of the first iteration holds
        r = self.scope(lambda: self.stmt(s["b"]))
        if r is not None and r[0] == "ret":
            return r
        if r == ("break",):
            return None
        return self.loop(lambda: self.full(lambda: self.ev(s["c"])), lambda: self.stmt(s["b"]), None, s)

    def s_for(self, s):
        def go():
            if s.get("init"):
                self.stmt(s["init"])
            cond = (lambda: self.full(lambda: self.ev(s["c"]))) if s.get("c") else (lambda: T)
            inc = (lambda: self.discard(s["inc"])) if s.get("inc") else None
            return self.loop(cond, lambda: self.stmt(s["b"]), inc, s)
        return self.scope(go)

    def s_rangefor(self, s):
        def go():
            self.stmt(s["range"])
            self.stmt(s["begin"])
            self.stmt(s["end"])

            def body():
                def inner():
                    self.stmt(s["var"])
                    return self.stmt(s["b"])
                return self.scope(inner)
            return self.loop(lambda: self.full(lambda: self.ev(s["c"])), body, lambda: self.discard(s["inc"]), s)
        return self.scope(go)

    def loop(self, cond, body, inc, node):
        # concrete unrolling while the condition is known
        for k in range(80):
            base = self.st.copy()
            peek = self.memo(lambda: self.peek(cond, base))
            if peek is None:
                break
            if not peek:
                self.truth_of(cond)
                return None
            if k == 0 and self.endless(node):
                break
            if not self.truth_of(cond):
                return None
            r = self.scope(body)
            if r is not None and r[0] == "ret":
                return r
            if r == ("break",):
                return None
            if inc:
                inc()
        return self.abstract_loop(cond, body, inc, node)

    def endless(self, node):
        c_ = node.get("c")
        return c_ is None or c_["k"] in ("bool", "int")

    def truth_of(self, cond):
        return self.decide(cond())

    def peek(self, cond, base):
        """Truth value of the loop condition if it is a constant."""
        try:
            res = self.explore(lambda: truth(cond()), base)
        except Unsupported:
            return None
        if len(res) != 1 or res[0][1][0] != "val":
            return None
        s, (_, v) = res[0]
        v = truth(v)
        if v[0] != "c":
            a, pol = atom_of(v)
            k = base.facts.implied(a) if a[0] != "c" else a[1]
            if k is None:
                return None
            # facts only help for the current iteration: not a constant
            return None if bool(k) == pol else False
        return bool(v[1])

    def abstract_loop(self, cond, body, inc, node):
        S0 = self.st.copy()
        depth = self.depth
        var = ("v", depth)
        info = self.memo(lambda: self.loop_fix(S0, cond, body, inc, var))
        return self.loop_join(info, S0, var)

    def loop_fix(self, S0, cond, body, inc, var):
        kinds = {}          # cell -> ("ind", c) | ("acc",) | ("const", w) | ("carry", k)
        order = []

        def iteration():
            self.depth = var[1] + 1
            v = self.truth_of(cond)
            if not v:
                return "exit"
            r = self.scope(body)
            if r is not None and r[0] == "ret":
                return ("ret", r[1])
            if r == ("break",):
                return "break"
            if inc:
                inc()
            return "next"
        ext = {}
        for rnd in range(12):
            St = S0.copy()
            St.events = ()
            St.ext.update(ext)
            for k, cell in enumerate(order):
                self.set_cell(St, cell, self.generic(S0, cell, kinds[cell], var, k))
            res = self.explore(iteration, St)
            nexts = [s for s, o in res if o == ("val", "next")]
            again = False
            cells = []
            for s in nexts:
                for cell in self.diff(St, s):
                    cell = self.acc_cell(St, s, cell)
                    if cell not in cells:
                        cells.append(cell)
            for cell in cells:
                news = [self.cell_of(s, cell) for s in nexts]
                old = self.cell_of(St, cell)
                k = self.classify(S0, St, cell, old, news, var, kinds.get(cell), nexts)
                if cell not in kinds:
                    order.append(cell)
                if kinds.get(cell) != k:
                    kinds[cell] = k
                    again = True
            for k, v in self.loop_ext(S0, St, nexts, var):
                ext[k] = v
                again = True
            if not again:
                return res, St, kinds, order, nexts
        raise Unsupported("loop does not stabilise")

    def loop_ext(self, S0, St, nexts, var):
        """Changes of the generic state of an iteration beyond the memory."""
        return ()

    def loop_exit(self, st, n, exits, nexts, S0, var):
        pass

    def acc_cell(self, a, b, cell):
        return cell

    def cell_of(self, st, cell):
        root, path = cell
        if root[0] == "S":
            return st.smem.get(root[1], root[1])
        save, self.st = self.st, st
        try:
            return self.read(cell)
        finally:
            self.st = save

    def set_cell(self, st, cell, v):
        root, path = cell
        if root[0] == "S":
            st.smem[root[1]] = v
        else:
            st.mem[root[1]] = self.put(st.mem[root[1]], path, v)

    def classify(self, S0, St, cell, old, news, var, cur, nexts):
        entry = self.cell_of(S0, cell)
        rank = {"ind": 0, "acc": 1, "const": 2, "carry": 3, "upd": 1}
        lo = -1 if cur is None else rank[cur[0]]
        # induction
        if lo <= 0:
            d = None
            ok = True
            for x in news:
                k = self.delta(old, x)
                if k is None or (d is not None and d != k):
                    ok = False
                    break
                d = k
            if ok and d is not None and d != 0 and (cur is None or cur[:2] == ("ind", d)):
                return ("ind", d, any(x[0] == "padd" for x in news) or is_ptr(entry))
        # accumulation
        if lo <= 1:
            if all(self.appended(old, x) is not None for x in news) and self.seqlike(entry):
                return ("acc",)
            if all(x == old or (x[0] == "updseq" and x[1] == old and len(x[2]) == 1
                                and (x[2][0][0] == var or cur is None and x[2][0][0] == ZERO)) for x in news):
                return ("upd",)
        # set to an invariant value in every iteration
        if lo <= 2 and not (cur is not None and cur[0] == "carry"):
            if cur is not None:
                # keeping the value is setting it again in all but the first iteration
                news = [cur[1] if x == old and s.facts.implied(("t", var)) is True else x for x, s in zip(news, nexts)]
            vals = {x for x in news}
            if len(vals) == 1:
                w = next(iter(vals))
                if not any(contains_term(w, t) for t in (var,)) and not self.mentions_lv(w, var[1]) and w != old:
                    if cur is None or cur == ("const", w):
                        return ("const", w)
                if cur is not None and cur[0] == "const" and w == old:
                    return cur
            if cur is not None and cur[0] == "const" and vals <= {cur[1], old}:
                return cur if len(vals) == 1 else ("carry",)
        return ("carry",)

    def mentions_lv(self, t, depth):
        if not isinstance(t, tuple) or not t:
            return False
        if t[0] in ("lv", "pre") and len(t) > 1 and t[1] == depth:
            return True
        return any(self.mentions_lv(x, depth) for x in (free_parts(t, ("v", depth)) if isinstance(t[0], str) else t))

    def seqlike(self, v):
        return v[0] in ("seq", "cat") or v[0] == "c" and isinstance(v[1], str) or v[0] not in ("c", "ptr", "rec", "lin", "truth", "uninit", "addr", "updseq")

    def delta(self, old, new):
        if old == new:
            return 0
        (pa, ka), (pb, kb) = pbase(old), pbase(new)
        if old[0] in ("ptr", "padd", "addr", "data") or new[0] in ("ptr", "padd"):
            if pa != pb:
                return None
            d = lin_add(kb, ka, -1)
        else:
            if old[0] in ("rec", "seq", "uninit", "cat", "updseq", "ite") or new[0] in ("rec", "seq", "cat", "updseq", "ite", "truth", "not", "eq", "le"):
                return None
            if old[0] == "c" and not is_num(old) or new[0] == "c" and not is_num(new):
                return None
            d = lin_add(new, old, -1)
        if d[0] == "c" and isinstance(d[1], int) and not isinstance(d[1], bool):
            return d[1]
        return None

    def appended(self, old, new):
        """Segments appended to old to get new, or None."""
        if new == old:
            return ()
        if old[0] == "seq" or new[0] == "seq":
            a, b = segs(old), segs(new)
            if len(b) > len(a) and b[:len(a)] == a:
                return b[len(a):]
            if not (old[0] == "seq" and not old[1]) and new[0] != "seq":
                return None
            if old[0] == "seq" and not old[1]:
                return b
            return None
        if new[0] == "cat":
            a = old[1] if old[0] == "cat" else (old,)
            if old == ("c", ""):
                a = ()
            if new[1][:len(a)] == a:
                return tuple(("e", x) for x in new[1][len(a):])
        if old == ("c", "") and (new[0] == "c" and isinstance(new[1], str)):
            return (("e", new),)
        if old == ("c", "") and new[0] in ("deref", "idx", "ret", "out", "str"):
            return (("e", new),)
        return None

    def generic(self, S0, cell, kind, var, k):
        entry = self.cell_of(S0, cell)
        if kind[0] == "ind":
            step = mklin({var: kind[1]}, 0)
            return padd(entry, step) if kind[2] else lin_add(entry, step)
        if kind[0] == "acc":
            if entry[0] == "seq" or not (entry[0] in ("cat",) or entry[0] == "c"):
                return ("seq", (("pre", var[1], k),))
            return ("cat", (("pre", var[1], k),))
        if kind[0] == "upd":
            return ("pre", var[1], k)
        if kind[0] == "const":
            return ("ite", ("truth", var), kind[1], entry)
        v = ("lv", var[1], k)
        if entry in (T, F) or entry[0] in ("truth", "not", "eq", "le"):
            return ("truth", v)
        return v

    def loop_join(self, info, S0, var):
        res, St, kinds, order, nexts = info
        nb = len(St.conds)
        exits = [(s, o) for s, o in res if o == ("val", "exit")]
        others = [(s, o) for s, o in res if o not in (("val", "exit"), ("val", "next"))]
        # number of iterations
        n, guard = None, None
        if len(exits) == 1:
            cs = exits[0][0].conds[nb:]
            if len(cs) == 1:
                n = self.trip(cs[0][0], cs[0][1], var)
                guard = cs[0][0]
        ex_conds = None
        if n is None:
            if exits:
                ex_conds = summ.exit_conds([(s.conds[nb:], o == ("val", "exit")) for s, o in res])
                n = ("cnt", ex_conds, var)
                if len(exits) == 1 and len(exits[0][0].conds[nb:]) == 1:
                    guard = exits[0][0].conds[nb:][0][0]
            else:
                n = ("inf",)
        save, self.st = self.st, S0.copy()
        n = self.reify(n) if n[0] != "cnt" else n
        self.st = save

        def percond(s):
            return tuple(sorted(((a, v) for a, v in s.conds[nb:] if a != guard), key=okey))
        evp = merge_paths([(percond(s), self.loop_events(s)) for s in nexts])
        opts = ([("normal",)] if exits or n != ("inf",) else []) + [("exit", s, o) for s, o in others]
        ch = opts[self.choose(len(opts))] if len(opts) > 1 else opts[0]
        if ch[0] == "normal":
            st = self.st
            st.next = max([st.next] + [s.next for s, _ in res])
            for k, cell in enumerate(order):
                kind = kinds[cell]
                entry = self.cell_of(S0, cell)
                if kind[0] == "ind":
                    step = mklin({n: kind[1]}, 0) if n[0] != "c" and n[0] != "lin" else self.scale(n, kind[1])
                    v = padd(entry, step) if kind[2] else lin_add(entry, step)
                elif kind[0] == "acc":
                    ps = []
                    for s in nexts:
                        new = self.cell_of(s, cell)
                        save, self.st = self.st, s
                        el = tuple(self.rseg(x, 0, ()) for x in self.appended(self.cell_of(St, cell), new))
                        self.st = save
                        ps.append((percond(s), el))
                    m = ("m", n, merge_paths(ps), var)
                    if entry[0] == "cat" or entry[0] == "c":
                        v = cat(entry, ("catm", m))
                    else:
                        v = seq(segs(entry) + (m,))
                elif kind[0] == "upd":
                    ps = []
                    for s in nexts:
                        new = self.cell_of(s, cell)
                        save, self.st = self.st, s
                        pre = ("pre", var[1], k)        # elements not yet reached are those before the loop
                        el = self.reify(new[2][0][1]) if new[0] == "updseq" else None
                        el = None if el is None else subst(el, ("idx", ("data", pre), var), seq_get(self.reify(entry), var))
                        ps.append((percond(s), (("e", el),) if el is not None else ()))
                        self.st = save
                    m = ("m", n, merge_paths(ps), var)
                    if mklen(entry) == n and all(p[1] for p in ps):
                        v = seq((m,))
                    else:
                        v = ("updseq", entry, ((("range", n), m),))
                elif kind[0] == "const":
                    v = ("ite", truth(n), kind[1], entry) if n[0] != "inf" else kind[1]
                    if v[0] == "ite" and v[1][0] == "c":
                        v = v[2] if v[1][1] else v[3]
                else:
                    ps = []
                    for s in nexts:
                        save, self.st = self.st, s
                        ps.append((percond(s), (("e", self.reify(self.cell_of(s, cell))),)))
                        self.st = save
                    v = ("fold", n, merge_paths(ps), var, self.reify(entry), k)
                    if entry in (T, F) or entry[0] in ("truth", "not", "eq", "le"):
                        v = ("truth", v)
                self.set_cell(st, cell, v)
            if any(e for _, e in evp):
                st.events = S0.events + ((("loop", n, evp, var), 0),)
            st.line = S0.line
            self.loop_exit(st, n, [s for s, _ in exits], nexts, S0, var)
            return None
        _, s, o = ch
        st = s.copy()
        per = percond(s)
        st.conds = S0.conds + ((("inloop", n, per), True),)
        if s.events:
            st.events = S0.events + ((("loop*", n, s.events), 0),)
        else:
            st.events = S0.events
        st.next = max([st.next] + [x.next for x, _ in res])
        self.st = st
        if o[0] == "throw":
            raise o[1]
        if o[0] == "prune":
            raise Prune(o[1])
        if o[0] == "jump":
            raise o[1]
        if o[1] == "break":
            return None
        return o[1]

    def loop_events(self, s):
        return s.events

    def scale(self, n, k):
        d, c0 = lin(n)
        return mklin({t: v * k for t, v in d.items()}, c0 * k)

    def trip(self, atom, val, var):
        """Number of iterations from the condition (atom == val) that ends the loop."""
        if atom[0] == "le":
            d = dict(atom[1])
            k = atom[2]
            cv = d.pop(var, None)
            if cv not in (1, -1) or any(contains_term(t, var) or self.mentions_lv(t, var[1]) for t in d):
                return None
            rest = mklin(d, k)
            # exit iff cv*var + rest <= 0 (val) or > 0 (not val)
            if cv == -1 and val:            # exit iff var >= rest
                return rest
            if cv == 1 and not val:         # exit iff var + rest > 0  iff var >= 1 - rest
                return lin_add(("c", 1), rest, -1)
            return None
        if atom[0] == "eq" and val:
            try:
                if atom[1][0] in ("padd", "ptr", "data", "addr") or atom[2][0] in ("padd", "ptr", "data", "addr"):
                    (pa, ka), (pb, kb) = pbase(atom[1]), pbase(atom[2])
                    if pa != pb:
                        for x, y in ((atom[1], atom[2]), (atom[2], atom[1])):
                            b, k = pbase(x)
                            if contains_term(k, var) and not contains_term(y, var):
                                d, c0 = lin(k)
                                cv = d.pop(var, None)
                                if cv == 1:
                                    return lin_add(("pdiff", y, b), mklin(d, c0), -1)
                        return None
                    l = lin_add(ka, kb, -1)
                else:
                    l = lin_add(atom[1], atom[2], -1)
            except TypeError:
                return None
            d, c0 = lin(l)
            cv = d.pop(var, None)
            if cv not in (1, -1) or any(contains_term(t, var) or self.mentions_lv(t, var[1]) for t in d):
                return None
            r = mklin(d, c0)
            return self.scale(r, -1) if cv == 1 else r
        if atom[0] == "t" and not val:
            if atom[1] == var:
                return None
            d, c0 = lin(atom[1])
            cv = d.pop(var, None)
            if cv in (1, -1) and not any(contains_term(t, var) for t in d):
                r = mklin(d, c0)
                return self.scale(r, -1) if cv == 1 else r
        return None

    # ------------------------------------------------------------------ expressions

    def ev(self, n):
        m = getattr(self, "e_" + n["k"], None)
        if m is None:
            raise Unsupported("expression " + n["k"] + " " + str(n.get("c", "")))
        return m(n)

    def lval(self, n, extend=False):
        k = n["k"]
        if k in ("full", "bind"):
            return self.lval(n["e"], extend)
        if k == "var":
            return self.var_loc(n)
        if k == "member":
            if n.get("arrow"):
                b = self.loc(self.ev(n["b"]))
            elif self.is_glvalue(n["b"]):
                b = self.lval(n["b"])
            else:
                b = self.loc(self.new_root(self.ev(n["b"])))
            l = self.field_loc(b, n["n"], n["v"])
            if n.get("ref"):
                return self.loc(self.read(l))
            return l
        if k == "index":
            p, i = self.ev(n["b"]), self.ev(n["i"])
            return self.loc(padd(self.force(p), as_int(i)))
        if k == "unary":
            if n["op"] == "*":
                return self.loc(self.ev(n["e"]))
            if n["op"] in ("++", "--") and not n.get("post"):
                l = self.lval(n["e"])
                self.incdec(l, n["op"])
                return l
        if k == "assign":
            return self.assign(n)
        if k == "cond":
            return self.lval(n["a"] if self.cond(n["c"]) else n["b"])
        if k == "cast":
            if n["ck"] == "BaseToDerived" or n.get("hier") or n["ck"] in ("LValueBitCast", "NoOp"):
                return self.lval(n["e"])
            if n["ck"] == "Dynamic":
                l = self.lval(n["e"])
                return l
        if k == "tmp":
            v = None
            p = self.new_root(self.fresh(n["record"]) if n.get("record") in self.P.rec else ("uninit",))
            l = self.loc(p)
            self.init_loc(l, n["e"])
            if "record" in n:
                fr = self.frames[-1]
                if n.get("extended") or extend and not fr.temps:
                    fr.scopes[-1].append((l, n["record"]))
                elif fr.temps:
                    fr.temps[-1].append((l, n["record"]))
            return l
        if k == "this":
            return self.loc(self.frames[-1].this)
        if k == "str":
            return self.loc(self.new_root(("c", n["v"])))
        if k == "binary" and n["op"] == ",":
            self.discard(n["a"])
            return self.lval(n["b"])
        if k in ("call", "mcall", "opcall"):
            return self.loc(self.ev(n))
        if k == "load":            # reference to a loaded pointer
            return self.loc(self.new_root(self.ev(n)))
        if k == "fun":
            return self.loc(self.new_root(self.ev(n)))
        # prvalues bound to references
        return self.loc(self.new_root(self.ev(n)))

    def is_glvalue(self, n):
        return n["k"] in ("var", "member", "index", "unary", "assign", "cond", "cast", "tmp", "call", "mcall", "opcall", "full", "bind", "this", "str", "binary")

    def var_loc(self, n):
        for fr in (self.frames[-1],):
            if n["v"] in fr.env:
                return fr.env[n["v"]]
        if n.get("global") or n["v"] in self.P.var:
            return self.global_loc(n)
        raise Unsupported("variable " + n["n"])

    def global_loc(self, n):
        var = self.P.var[n["v"]]
        if "init" in var and var.get("const"):
            return (("G", n["v"]), ())
        return ("S", ("glob", var["name"])), ()

    def e_full(self, n):
        return self.full(lambda: self.ev(n["e"]))

    def e_bind(self, n):
        return self.ev(n["e"])

    def e_tmp(self, n):
        return self.addr(self.lval(n))

    def e_int(self, n):
        return ("c", n["v"])

    def e_bool(self, n):
        return ("c", bool(n["v"]))

    def e_float(self, n):
        return ("c", float(n["v"]))

    def e_str(self, n):
        return ("c", n["v"])

    def e_null(self, n):
        return NULL

    def e_this(self, n):
        return self.frames[-1].this

    def e_sizeof(self, n):
        return ("sizeof", norm_type(n["of"]))

    def e_enum(self, n):
        return ("c", n["v"])

    def e_fun(self, n):
        return ("fun", n["f"])

    def e_memfun(self, n):
        return ("memfun", n["f"])

    def e_void(self, n):
        self.ev(n["e"])
        return ("c", "void")

    def e_var(self, n):
        return self.addr(self.lval(n))

    def e_member(self, n):
        return self.addr(self.lval(n))

    def e_index(self, n):
        return self.addr(self.lval(n))

    def e_load(self, n):
        x = n["e"]
        if not self.is_glvalue(x):
            return self.ev(x)
        v = self.read(self.lval(x))
        return self.typed(v, x.get("t"))

    def typed(self, v, t):
        if t == "bool" and v[0] not in ("c", "truth", "not", "eq", "le", "t", "ite", "uninit", "isinst"):
            return ("truth", v)
        return v

    def incdec(self, l, op):
        v = self.read(l)
        k = ("c", 1 if op == "++" else -1)
        v = self.force(v)
        self.write(l, padd(v, k) if is_ptr(v) or self.ptr_loc(l) else lin_add(as_int(v), k))

    def ptr_loc(self, l):
        return False

    def e_unary(self, n):
        op = n["op"]
        if op == "&":
            if n["e"]["k"] == "fun":
                return ("fun", n["e"]["f"])
            return self.addr(self.lval(n["e"]))
        if op == "*":
            return self.addr(self.lval(n))
        if op in ("++", "--"):
            l = self.lval(n["e"])
            old = self.read(l)
            isp = n.get("t", "").rstrip().endswith("*")
            v = self.force(old)
            k = ("c", 1 if op == "++" else -1)
            self.write(l, padd(v, k) if isp or is_ptr(v) else lin_add(as_int(v), k))
            return old if n.get("post") else self.addr(l)
        v = self.ev(n["e"])
        if op == "!":
            return lnot(truth(v))
        if op == "-":
            v = self.force(v)
            if v[0] == "c" and isinstance(v[1], float):
                return ("c", -v[1])
            return self.scale(as_int(v), -1)
        if op == "~":
            return ("bnot", v)
        if op == "+":
            return v
        raise Unsupported("unary " + op)

    def e_binary(self, n):
        op = n["op"]
        if op == ",":
            self.discard(n["a"])
            return self.ev(n["b"])
        if op == "&&":
            if not self.decide(self.ev(n["a"])):
                return F
            return truth(self.ev(n["b"]))
        if op == "||":
            if self.decide(self.ev(n["a"])):
                return T
            return truth(self.ev(n["b"]))
        a, b = self.ev(n["a"]), self.ev(n["b"])
        return self.binop(op, a, b, n)

    def binop(self, op, a, b, n):
        lt = n.get("lt", "")
        if op in ("==", "!=", "<", ">", "<=", ">="):
            r = rel(op, a, b, lt.startswith("unsigned"))
            return r
        if lt.rstrip().endswith("*") or is_ptr(a):
            if op == "+":
                return padd(self.force(a), as_int(self.force(b)))
            if op == "-":
                if is_ptr(b) or not is_num(b) and b[0] not in ("len", "lin", "v"):
                    (pa, ka), (pb, kb) = pbase(a), pbase(b)
                    if pa == pb:
                        return lin_add(ka, kb, -1)
                    if n.get("t", "").endswith("*"):
                        return padd(a, self.scale(as_int(b), -1))
                    return ("pdiff", a, b)
                return padd(self.force(a), self.scale(as_int(self.force(b)), -1))
        if op == "+" and is_ptr(b):
            return padd(b, as_int(a))
        a, b = as_int(self.force(a)), as_int(self.force(b))
        if op in ("+", "-"):
            if isinstance(a[1], float) and is_c(a) or isinstance(b[1], float) and is_c(b):
                return (op, a, b)
            return lin_add(a, b, 1 if op == "+" else -1)
        if op == "*":
            if is_num(a) and isinstance(a[1], int):
                return self.scale(b, a[1])
            if is_num(b) and isinstance(b[1], int):
                return self.scale(a, b[1])
            return ("*",) + tuple(sorted((a, b), key=okey))
        if is_num(a) and is_num(b) and isinstance(a[1], int) and isinstance(b[1], int):
            x, y = a[1], b[1]
            try:
                return ("c", {"<<": lambda: x << y, ">>": lambda: x >> y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
                              "/": lambda: int(x / y), "%": lambda: x - y * int(x / y)}[op]())
            except (KeyError, ZeroDivisionError):
                pass
        if op in ("&", "|", "^"):
            if op == "&" and ZERO in (a, b):
                return ZERO
            if op == "|" and ZERO in (a, b):
                return a if b == ZERO else b
            return (op,) + tuple(sorted((a, b), key=okey))
        return (op, a, b)

    def e_assign(self, n):
        return self.addr(self.assign(n))

    def assign(self, n):
        op = n["op"]
        if op == "=":
            v = self.ev(n["b"])
            l = self.lval(n["a"])
            self.write(l, v)
            return l
        v = self.ev(n["b"])
        l = self.lval(n["a"])
        old = self.typed(self.read(l), n.get("t"))
        bop = op[:-1]
        r = self.binop(bop, old, v, n)
        if n.get("lt") == "bool" and bop in ("|", "&"):
            a, b = truth(old), truth(v)
            if bop == "|":
                r = T if self.decide(a) else b
            else:
                r = b if self.decide(a) else F
        self.write(l, r)
        return l

    def e_cond(self, n):
        r = self.data_or_null(n)
        if r is not None:
            return r
        x = n["a"] if self.cond(n["c"]) else n["b"]
        return self.ev(x)

    def data_or_null(self, n):
        """Address of the elements of a container, or null if there are none: the address is irrelevant in this case."""
        if not n.get("t", "").rstrip().endswith("*"):
            return None
        null = [is_null(n["a"]), is_null(n["b"])]
        if null[0] == null[1]:
            return None
        base = self.st.copy()
        res = self.memo(lambda: self.sides(n["c"], n["b"] if null[0] else n["a"], not null[0], base))
        return res

    def sides(self, cnd, other, when, base):
        save = self.st
        try:
            conds = self.explore(lambda: truth(self.ev(cnd)), base.copy())
            if len(conds) != 1 or conds[0][1][0] != "val" or conds[0][0].events != base.events:
                return None
            v = truth(conds[0][1][1])
            if v[0] == "c":
                return None
            a, pol = atom_of(v)
            if a[0] != "t" or a[1][0] != "seq" or pol != when:
                return None
            vals = self.explore(lambda: self.ev(other), base.copy())
            if len(vals) != 1 or vals[0][1][0] != "val" or vals[0][0].events != base.events:
                return None
            p = self.force(vals[0][1][1])
            b, k = pbase(p)
            if k != ZERO or b[0] != "ptr" or not b[2] or b[2][-1][0] != "i":
                return None
            if self.read((b[1], b[2][:-1])) != a[1]:
                return None
            return p
        except Unsupported:
            return None
        finally:
            self.st = save

    def e_cast(self, n):
        ck = n["ck"]
        if ck == "ArrayToPointerDecay":
            x = n["e"]
            if x["k"] == "str":
                return ("c", x["v"])
            l = self.lval(x)
            v = None
            if l[0][0] == "S":
                return ("data", l[0][1])
            return ("ptr", l[0], l[1] + (("i", ZERO),))
        if ck == "NullToPointer":
            return NULL
        if ck == "Dynamic":
            v = self.ev(n["e"])
            return self.dyncast(v, n)
        v = self.ev(n["e"])
        if ck in ("BitCast", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "IntegralToPointer", "PointerToIntegral", "FloatingCast", "LValueBitCast", "NoOp"):
            if ck == "BitCast" and v[0] == "ptr" and v[2] and v[2][-1] == ("i", ZERO) and False:
                pass
            return v
        if ck == "IntegralToBoolean" or ck == "PointerToBoolean" or ck == "FloatingToBoolean" or ck == "MemberPointerToBoolean":
            return truth(v)
        if ck == "IntegralCast" or ck == "BooleanToSignedIntegral":
            return self.intcast(v, n)
        if ck == "IntegralToFloating":
            return v
        if ck == "FloatingToIntegral":
            return ("ftoi", n.get("tb", 0), v)
        raise Unsupported("cast " + ck)

    def dyncast(self, v, n):
        return v

    def intcast(self, v, n):
        fb, tb = n.get("fb", 0), n.get("tb", 0)
        if v[0] == "c" and isinstance(v[1], int) and not isinstance(v[1], bool):
            x = v[1] & ((1 << tb) - 1)
            if not n.get("tu") and x >= 1 << (tb - 1):
                x -= 1 << tb
            if n.get("tu") and v[1] < 0:
                return ("c", x)
            return ("c", x)
        if tb < fb and v[0] not in ("c",):
            if n.get("f", "").endswith("bool"):
                return v
            if v[0] in ("sizeof",):
                return v
            if tb >= 32 and any(t[0] == "v" for t in lin(v)[0]) and all(t[0] == "v" for t in lin(v)[0]):
                return v        # positions of elements
            return ("narrow", tb, bool(n.get("tu")), v)
        return v

    def e_initlist(self, n):
        if "array" in n:
            es = []
            for x in n["e"]:
                es.append(("e", self.ev(x)))
            while len(es) < min(n["array"], 256) and n["array"] <= 256:
                es.append(("e", self.ev(n["filler"]) if n.get("filler") else ZERO))
            return seq(tuple(es))
        rid = n.get("record")
        if rid in self.P.rec:
            r = self.P.rec[rid]
            fs = self.P.fields(rid)
            if r.get("union"):
                return ("rec", r["name"], ((n.get("union", "?"), self.ev(n["e"][0]) if n["e"] else ZERO),))
            vals = []
            es = list(n["e"])
            if len(es) == 1 and len(fs) != 1 and es[0]["k"] == "construct":
                return self.ev(es[0])
            # base class initialisers come first
            nb = len(r["bases"])
            base_vals = {}
            for b, x in zip(r["bases"], es[:nb]):
                v = self.ev(x)
                for f in self.P.fields(b["id"]):
                    base_vals[f["name"]] = self.get(v, ("f", f["name"])) if not self.P.newtype(b["id"]) else v
            es = es[nb:]
            own = r["fields"]
            res = dict(base_vals)
            for f, x in zip(own, es):
                if f["type"].rstrip().endswith("&"):
                    res[f["name"]] = self.addr(self.lval(x))
                else:
                    res[f["name"]] = self.ev(x)
            for f in fs:
                if f["name"] not in res:
                    res[f["name"]] = self.ev(f["init"]) if "init" in f else self.zero_of(f.get("record"), f["type"])
            if self.P.newtype(rid):
                return res[fs[0]["name"]]
            return ("rec", r["name"], tuple((f["name"], res[f["name"]]) for f in fs))
        if len(n["e"]) == 1:
            return self.ev(n["e"][0])
        if not n["e"]:
            return self.zero(n)
        raise Unsupported("initializer list")

    def e_zero(self, n):
        return self.zero(n)

    def e_stdinit(self, n):
        l = self.lval(n["e"])
        return self.read(l)

    def e_throw(self, n):
        if n.get("e") is None:
            if self.handlers:
                raise self.handlers[-1]
            raise Prune(("terminate", "rethrow"))
        x = n["e"]
        v = self.ev(x)
        rid = None
        y = x
        while y["k"] in ("bind", "full", "construct") and (y["k"] != "construct" or (y.get("elidable") and y["args"])):
            y = y["e"] if y["k"] in ("bind", "full") else y["args"][0]
            if y["k"] == "tmp":
                y = y["e"]
        t = norm_type(n.get("t", "?"))
        r = self.P.recname.get(t)
        raise Throw(t, v, r["id"] if r else None)

    def e_new(self, n):
        if n.get("place"):
            p = self.ev(n["place"][0])
        else:
            p = self.new_root(self.fresh(n["record"]) if n.get("record") in self.P.rec else ("uninit",))
            self.st.ext[("heap", p[1])] = True
        if "size" in n:
            k = self.ev(n["size"])
            self.write(self.loc(p), ("seq", (("fill", k, ("uninit",)),)))
            return ("ptr", p[1], p[2] + (("i", ZERO),))
        loc = self.loc(p)
        if n.get("place") and n.get("record") in self.P.rec and loc[0][0] == "L":
            self.write(loc, self.fresh(n["record"]))
        if n.get("init") is not None:
            self.init_loc(loc, n["init"])
        return p

    def e_delete(self, n):
        p = self.ev(n["e"])
        if self.decide(truth(p)):
            self.delete_ptr(p, n.get("record"))
        return ("c", "void")

    def e_lambda(self, n):
        fr = self.frames[-1]
        caps = []
        for cp in n["caps"]:
            if cp.get("this"):
                caps.append(("this", fr.this))
            elif cp.get("initcap"):
                caps.append(("copy", cp["v"], self.ev(cp["init"])))
            elif cp.get("ref"):
                caps.append(("ref", cp["v"], self.addr(fr.env[cp["v"]])))
            else:
                caps.append(("copy", cp["v"], self.read(fr.env[cp["v"]])))
        return ("clo", n["f"], tuple(caps))

    def e_typeid(self, n):
        return ("typeid", norm_type(n.get("of", "?")))

    def e_pseudodtor(self, n):
        return ("c", "void")

    def e_boundmethod(self, n):
        return ("fun", n["f"])

    def e_construct(self, n):
        rid = n["record"]
        if "array" in n:
            return ("seq", (("fill", ("c", n["array"]), ("uninit",)),))
        d = self.P.decl[n["f"]]
        # elided copies
        if n.get("elidable") and len(n["args"]) == 1:
            x = n["args"][0]
            while x["k"] in ("tmp", "bind"):
                x = x["e"]
            if x["k"] in ("construct", "call", "mcall", "opcall", "cond", "initlist", "lambda", "full"):
                return self.ev(x)
        p = self.new_root(self.fresh(rid))
        l = self.loc(p)
        self.construct(n, l)
        return self.read(l)

    def construct(self, n, loc, base=False):
        fid = n["f"]
        d = self.P.decl[fid]
        rid = n["record"]
        if n.get("zero") and self.P.rec[rid].get("ours") and not base:
            self.write(loc, self.zero_of(rid, ""))
        if not base and loc[0][0] == "L" and self.read(loc) == ("uninit",) and not self.P.newtype(rid):
            self.write(loc, self.fresh(rid))
        args = self.args(d, n["args"])
        if self.P.rec.get(rid, {}).get("lambda") and len(args) == 1:
            self.write(loc, self.read(self.loc(args[0])))
            return
        if fid in self.P.fn:
            self.call_fn(fid, self.addr(loc), args)
            return
        self.call_any(fid, self.addr(loc), args, n)

    def args(self, d, nodes):
        out = []
        for i, x in enumerate(nodes):
            t = d["params"][i] if i < len(d["params"]) else ""
            if t.rstrip().endswith("&"):
                out.append(self.addr(self.lval(x)))
            else:
                out.append(self.ev(x))
        return out

    def e_call(self, n):
        if "f" in n:
            d = self.P.decl[n["f"]]
            if d["short"] in ("std::move", "std::forward") and len(n["args"]) == 1:
                return self.addr(self.lval(n["args"][0]))
            return self.call_any(n["f"], None, self.args(d, n["args"]), n)
        return self.call_value(self.ev(n["callee"]), n)

    def call_value(self, f, n):
        f = self.force(f)
        if f[0] == "ptr":
            f = self.read(self.loc(f))
        if f[0] in ("fun", "clo") and f[1] in self.P.fn:
            d = self.P.decl[f[1]]
            return self.call_fn(f[1], None, self.args(d, n["args"]), clo=f if f[0] == "clo" else None)
        args = [self.ev(x) if not self.is_glvalue(x) else self.addr(self.lval(x)) for x in n["args"]]
        d = {"ret": n.get("t", "?"), "params": [""] * len(args)}
        return self.user_call(self.reify(f), args, d, n)

    def e_mcall(self, n):
        if "f" not in n:
            f = self.ev(n["callee"])
            return self.call_value(f, n)
        d = self.P.decl[n["f"]]
        b = n["b"]
        if n.get("arrow"):
            this = self.ev(b)
        else:
            this = self.addr(self.lval(b))
        this = self.force(this)
        rec = self.P.rec.get(d.get("record"))
        if rec and rec.get("lambda"):
            if d["kind"] == "conv":
                return self.read(self.loc(this))
            return self.call_clo(this, d, n["args"], n)
        args = self.args(d, n["args"])
        if d["kind"] == "dtor":
            self.destroy(self.loc(this), d["record"])
            return ("c", "void")
        if n.get("virtual"):
            return self.virtual(d, this, args, n)
        return self.call_any(n["f"], this, args, n)

    def virtual(self, d, this, args, n):
        rid = self.dynamic_type(this)
        if rid is not None:
            f = self.override(rid, d)
            if f is not None and f in self.P.fn:
                return self.call_fn(f, this, args)
        return self.user_call(("virt", d["short"].split("::")[-1], self.reify(this)), args, d, n, nothrow=d.get("noexcept"))

    def dynamic_type(self, this):
        if this[0] == "ptr":
            v = self.read(self.loc(this))
            if v[0] == "rec" and v[1] in self.P.recname:
                return self.P.recname[v[1]]["id"]
        return None

    def override(self, rid, d):
        name = d["short"].split("::")[-1]
        for m in self.P.methods(rid):
            if m["short"].split("::")[-1] == name and m.get("virtual"):
                return m["id"]
        for b in self.P.rec[rid]["bases"]:
            r = self.override(b["id"], d)
            if r is not None:
                return r
        return None

    def call_clo(self, this, d, argn, n):
        clo = self.read(self.loc(this))
        args = self.args(d, argn)
        if clo[0] in ("clo", "fun") and clo[1] in self.P.fn:
            return self.call_fn(clo[1], None, args, clo=clo if clo[0] == "clo" else None)
        return self.user_call(self.reify(clo), args, d, n)

    def e_opcall(self, n):
        if "f" not in n:
            raise Unsupported("operator without callee")
        d = self.P.decl[n["f"]]
        if d.get("record") is not None and not d.get("static"):
            this = self.force(self.addr(self.lval(n["args"][0])))
            rec = self.P.rec.get(d["record"])
            if rec and rec.get("lambda"):
                return self.call_clo(this, d, n["args"][1:], n)
            args = self.args(d, n["args"][1:])
            if d.get("virtual"):
                return self.virtual(d, this, args, n)
            return self.call_any(n["f"], this, args, n)
        return self.call_any(n["f"], None, self.args(d, n["args"]), n)

    # ------------------------------------------------------------------ library models

    def model(self, short):
        name = short
        for a, b in (("std::__cxx11::", "std::"), ("__gnu_cxx::__normal_iterator", "std::iter"), ("__gnu_cxx::", "std::"), ("std::__exception_ptr::", "std::")):
            name = name.replace(a, b)
        m = MODELS.get(name)
        if m is None and name.startswith("std::atomic::operator ") and name.split()[-1] != "operator":
            m = cxstd.atomic_conv
        if m is None:
            return None
        return lambda d, this, args, n: m(self, d, this, args, n)


MODELS = {}


def model(*names):
    def deco(f):
        for x in names:
            MODELS[x] = f
        return f
    return deco


import cxstd  # noqa: E402  (registers the models)
