"""
Abstract interpretation of the Lua binding (libluaclingo/luaclingo.cc).

Extends the interpreter of cxeval.py with the stack machine of the Lua C API: every
lua_State has a stack of frames with symbolic arguments and the values pushed so far,
tables and userdata live on an abstract heap, and Lua errors are non-local exits that
are caught by lua_pcall.
"""
from collections import namedtuple
import summ
from summ import okey
from cxprog import norm_type
from cxterm import *
from cxeval import Interp, Frame, Jump, Prune, Throw, Unsupported

REG = -1001000
LF = namedtuple("LF", "kind n minp ov pushed ups free")
# kind: "args" (a C function called by Lua), "unk" (unknown contents below), "known" (nothing below)
TYPES = {"lbool": 1, "light": 2, "lint": 3, "lnum": 3, "lstr": 4, "lfmt": 4, "ltab": 5, "lcf": 6, "lud": 7, "lthr": 8, "lmeta": 5, "lreg": 5}
NIL = ("lnil",)
ASYNC = ("clingo_control_register_propagator", "clingo_control_register_observer", "clingo_register_script")


def teq(t, k):
    return ("eq", t, C(k))


def C(n):
    return ("c", n)


def constkey(k):
    return k[0] in ("lint", "lstr") and k[1][0] == "c"


class LuaInterp(Interp):
    maxpaths = 3000

    def __init__(self, prog):
        super().__init__(prog)
        self.bounds = [0]           # frames below are not unwound by an error
        self.prot = 0               # nesting of protected calls within callbacks
        self.unprot = False         # running a callback
        self.closures = {}
        self.known_tables = None

    # ------------------------------------------------------------------ frames

    def key(self, L):
        return self.reify(L) if L[0] != "lthr" else L

    def stack_(self, L):
        k = ("lua", self.key(L))
        if k not in self.st.ext:
            # threads that store values are created by the binding with the default size
            self.st.ext[k] = (LF("unk", None, 0, (), (), None, 0 if self.unprot and not self.prot else 16),)
        return k, self.st.ext[k]

    def cur(self, L):
        return self.stack_(L)[1][-1]

    def setf(self, L, **kw):
        k, s = self.stack_(L)
        self.st.ext[k] = s[:-1] + (s[-1]._replace(**kw),)

    def problem(self, rule, msg):
        fn = self.P.decl[self.stack[-1]]["short"].replace("(anonymous namespace)::", "") if self.stack else "?"
        p = (rule, fn, self.st.line, msg)
        if p not in self.problems:
            self.problems.append(p)

    def push(self, L, v):
        f = self.cur(L)
        free = f.free
        if isinstance(free, int):
            if free <= 0:
                self.problem("reserve", "pushes a value without having reserved space on the stack")
            else:
                free -= 1
        self.setf(L, pushed=f.pushed + (v,), free=free)

    def pop(self, L, k=1):
        f = self.cur(L)
        if k == 0:
            return ()
        if len(f.pushed) < k or any(x[0] == "lseg" for x in f.pushed[-k:]):
            if f.kind == "args" and f.n is None and not any(x[0] == "lseg" for x in f.pushed):
                # removes arguments
                gone = tuple(("larg", ("last", j)) for j in range(k - len(f.pushed), 0, -1))
                self.setf(L, pushed=(), ov=f.ov + (("gone", k - len(f.pushed)),))
                return gone + f.pushed
            if f.kind == "args" and not any(x[0] == "lseg" for x in f.pushed):
                f = self.cur(L)
                if f.n is not None:
                    if len(f.pushed) + f.n >= k:
                        allv = tuple(self.argval(f, i) for i in range(1, f.n + 1)) + f.pushed
                        keep = len(allv) - k
                        self.setf(L, n=min(f.n, keep), minp=min(f.minp, keep), ov=tuple(kv for kv in f.ov if kv[0] <= keep), pushed=allv[f.n:keep] if keep > f.n else (), free=f.free + k if isinstance(f.free, int) else f.free)
                        return allv[keep:]
            self.problem("balance", f"removes {k} values from the stack, but only {len(f.pushed)} were pushed")
            raise Prune(("stack underflow",))
        self.setf(L, pushed=f.pushed[:-k], free=f.free + k if isinstance(f.free, int) else f.free)
        return f.pushed[-k:]

    def argval(self, f, i):
        for k, v in f.ov:
            if k == i:
                return v
        for k, v in f.ov:
            if k == "shift":
                return v[i - 1] if i <= len(v) else ("larg", i - len(v))
        return ("larg", i)

    def present(self, f, i):
        """Whether argument i was passed (decided on demand)."""
        if f.n is not None:
            return i <= f.n
        if i <= f.minp:
            return True
        t = self.vtype(self.argval(f, i))
        if is_num(t):
            return t[1] != -1
        return not self.decide(teq(t, -1))

    def resolve(self, L, upto=None):
        """Determines the number of arguments (at least whether there are upto arguments)."""
        f = self.cur(L)
        if f.kind != "args":
            return
        i = f.minp
        while f.n is None and (upto is None or i < upto):
            i += 1
            if i > 9:
                raise Unsupported("number of arguments")
            if self.present(f, i):
                f = f._replace(minp=i)
                for j in range(1, i):
                    t = self.vtype(self.argval(f, j))
                    if not is_num(t):
                        self.imply(teq(t, -1), False)
            else:
                f = f._replace(n=i - 1)
        self.setf(L, n=f.n, minp=f.minp)

    def imply(self, v, val):
        a, pol = atom_of(truth(v))
        if a[0] == "c" or self.st.facts.implied(a) is not None:
            return
        val = val == pol
        if self.st.facts.add(a, val):
            self.st.conds += ((a, val),)

    def locate(self, L, idx):
        """-> ("push", j) | ("arg", i) | ("up", i) | ("reg",)"""
        idx = self.force(as_int(idx)) if not isinstance(idx, int) else C(idx)
        f = self.cur(L)
        if is_num(idx):
            i = idx[1]
            if i == REG:
                return ("reg",)
            if i < REG:
                return ("up", REG - i)
            if i < 0:
                p = f.pushed
                if -i <= len(p):
                    if any(x[0] == "lseg" for x in p[i:]):
                        raise Unsupported("index into a sequence of pushed values")
                    return ("push", len(p) + i)
                if f.kind == "args":
                    if any(x[0] == "lseg" for x in p):
                        raise Unsupported("index below a sequence of pushed values")
                    if f.n is None:
                        return ("last", -i - len(p))
                    k = f.n + len(f.pushed) + i + 1
                    if k >= 1:
                        return ("arg", k)
                self.problem("index", f"index {i} is below the values of the function")
                raise Prune(("invalid index",))
            if i == 0:
                self.problem("index", "index 0")
                raise Prune(("invalid index",))
            if f.kind == "known":
                return ("push", i - 1)
            if f.kind == "unk":
                return ("arg", i)
            if f.pushed and f.n is None and i > f.minp:
                self.resolve(L, i)
                f = self.cur(L)
            if f.n is not None and i > f.n and f.pushed:
                return self.above(f, i - f.n - 1)
            return ("arg", i)
        d, k = lin(idx)
        if f.n is not None and d == {("lnargs",): 1}:
            return self.locate(L, C(f.n + k))
        top = self.topterm(L, f)
        if top is not None and d == {top: 1} and k >= 1:
            return self.above(f, k - 1)
        if top is not None and d == {top: 1}:
            if f.kind == "args" and f.n is None:
                self.resolve(L)
                return self.locate(L, C(self.cur(L).n + k))
            raise Unsupported("index relative to the top")
        raise Unsupported("symbolic index")

    def above(self, f, j):
        if any(x[0] == "lseg" for x in f.pushed[:j + 1]):
            raise Unsupported("index above a sequence of pushed values")
        return ("push", j)

    def topterm(self, L, f):
        return ("lnargs",) if f.kind == "args" else ("ltop", self.key(L)) if f.kind == "unk" else None

    def at(self, L, idx):
        w = self.locate(L, idx)
        f = self.cur(L)
        if w[0] == "push":
            if w[1] >= len(f.pushed):
                return ("lnone",)
            return f.pushed[w[1]]
        if w[0] == "arg":
            if f.n is not None and w[1] > f.n and not [1 for k, _ in f.ov if k == w[1]]:
                return ("lnone",)
            return self.argval(f, w[1])
        if w[0] == "last":
            return ("larg", w)
        if w[0] == "up":
            for k, v in f.ov:
                if k == ("up", w[1]):
                    return v
            if f.ups is None:
                return ("lup", w[1])
            return f.ups[w[1] - 1] if w[1] <= len(f.ups) else ("lnone",)
        return ("lreg",)

    def setslot(self, L, idx, v):
        w = self.locate(L, idx)
        f = self.cur(L)
        if w[0] == "push":
            if w[1] >= len(f.pushed):
                self.problem("index", "replaces a value above the top of the stack")
                raise Prune(("invalid index",))
            self.setf(L, pushed=f.pushed[:w[1]] + (v,) + f.pushed[w[1] + 1:])
        elif w[0] == "arg":
            if f.kind == "unk":
                self.problem("index", "overwrites a value of another function")
            self.setf(L, ov=tuple(kv for kv in f.ov if kv[0] != w[1]) + ((w[1], v),))
        elif w[0] == "up":
            self.setf(L, ov=tuple(kv for kv in f.ov if kv[0] != ("up", w[1])) + ((("up", w[1]), v),))
            self.event(("store", ("upvalue",), C(w[1]), self.reify(v)))
        elif w[0] == "last":
            try:
                self.resolve(L)
            except Unsupported:
                self.problem("index", "overwrites an argument counted from the last one although any number of arguments is accepted")
                raise Prune(("invalid index",))
            self.setslot(L, idx, v)
        else:
            self.problem("index", "overwrites the registry")
            raise Prune(("invalid index",))

    # ------------------------------------------------------------------ values

    def vtype(self, v):
        """Type of a value as term."""
        if v[0] == "lnil":
            return C(0) if self.isnil(v) else ("ltype", self.reify(v))
        if v[0] == "lnone":
            return C(-1)
        if v[0] in TYPES:
            return C(TYPES[v[0]])
        t = ("ltype", self.reify(v))
        return t

    def isnil(self, v):
        return len(v) == 1 or self.read(self.loc(v[1])) == ZERO

    def istype(self, v, k):
        t = self.vtype(v)
        if is_num(t):
            return t[1] == k
        return self.decide(teq(t, k))

    def oneof(self, v, ks, atom):
        """Membership of the type in ks, refined by an atom if it is not decided by the type alone."""
        t = self.vtype(v)
        if is_num(t):
            return None if t[1] in ks else False
        known = [k for k in range(-1, 9) if self.st.facts.implied(atom_of(teq(t, k))[0]) is not False]
        if not set(known) & set(ks):
            return False
        r = self.decide(("t", (atom, self.reify(v))))
        if r:
            for k in range(-1, 9):
                if k not in ks:
                    self.imply(teq(t, k), False)
        return r

    def isstr(self, v):
        r = self.oneof(v, (3, 4), "isstr")
        if r is False:
            t = self.vtype(v)
            if not is_num(t):
                self.imply(teq(t, 3), False)
                self.imply(teq(t, 4), False)
        return r is None or r

    def isnum(self, v, what="isnum"):
        if v[0] in ("lint", "lnum"):
            return True
        r = self.oneof(v, (3, 4), what)
        if r is None:
            r = self.decide(("t", (what, self.reify(v))))
        if not r and what == "isnum" and not is_num(self.vtype(v)):
            self.imply(teq(self.vtype(v), 3), False)
        return r

    def lbool(self, v):
        if v[0] == "lbool":
            return truth(v[1])
        if v[0] in ("lnil", "lnone"):
            return F if self.isnil(v) or v[0] == "lnone" else T
        if v[0] in TYPES:
            return T
        t = self.vtype(v)
        for k in range(0, 9):
            if self.st.facts.implied(atom_of(teq(t, k))[0]):
                if k == 0:
                    return F
                if k != 1:
                    return T
        if self.st.facts.implied(atom_of(teq(t, -1))[0]):
            return F
        r = self.decide(("t", ("ltobool", self.reify(v))))
        if r:
            self.imply(teq(t, -1), False)
            self.imply(teq(t, 0), False)
        else:
            for k in range(2, 9):
                self.imply(teq(t, k), False)
        return T if r else F

    def cstr(self, v):
        if v[0] == "lstr":
            return v[1]
        return ("lcstr", self.reify(v))

    def toint(self, v):
        if v[0] == "lint":
            return v[1]
        if v[0] == "lnum":
            return v[1]
        return ("ltoint", self.reify(v))

    def tonum(self, v):
        if v[0] in ("lint", "lnum"):
            return v[1]
        return ("ltonum", self.reify(v))

    def reify(self, v, depth=0, seen=()):
        if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0][0] == "l":
            k = v[0]
            if k == "lnil":
                if self.isnil(v):
                    return NIL
                return ("lkey",)
            if v == ("lthr", ("newstate",)) or k in ("ltab", "lud") and len(v) == 3 or k == "lthr" and (not v[1] or v[1][0] != "ptr"):
                return v
            if k in ("ltab", "lud", "lthr") and isinstance(v[1], tuple):
                if v in seen:
                    return ("lself",)
                seen = seen + (v,)
                if depth > 40:
                    return ("deep",)
                if k == "ltab":
                    return ("ltab", self.metaof(v), self.reify(self.read(self.loc(v[1])), depth + 1, seen))
                if k == "lud":
                    return ("lud", self.metaof(v), self.reify(self.read(self.loc(v[1])), depth + 1, seen))
                f = self.st.ext.get(("lua", v))
                return ("lthr", tuple(self.reify(x, depth + 1, seen) for x in f[-1].pushed) if f and f[-1].kind == "known" else ())
            if k == "lcf":
                self.closures.setdefault(v[1], len(self.closures))
                return ("lcf", ("fun",) if not v[2] else ("closure",)) + tuple(self.reify(x, depth + 1, seen) for x in v[2])
            if k in ("larg", "lup", "lreg", "lnone", "lmeta"):
                return v
        return super().reify(v, depth, seen)

    def metaof(self, v):
        m = self.st.ext.get(("meta", v[1]))
        if m is None:
            return NIL
        if m[0] == "ltab":
            n = self.st.ext.get(("metaname", m[1]))
            return ("lmeta", n) if n else self.reify(m)
        return self.reify(m)

    # ------------------------------------------------------------------ errors

    def longjmp(self, kind="error"):
        """No C++ object with a destructor may be skipped by a Lua error."""
        for fr in self.frames[self.bounds[-1]:]:
            for sc in fr.scopes + fr.temps:
                for loc, rid in sc:
                    r = self.P.rec.get(rid)
                    if r and not r.get("trivial_dtor") and not self.heapless(loc, r):
                        self.problem("longjmp", f"a Lua error skips the destructor of an object of type {r['name'].replace('(anonymous namespace)::', '')[:60]}")

    def heapless(self, loc, r):
        """Objects whose destructor has nothing to do."""
        try:
            v = self.read(loc)
        except Unsupported:
            return False
        return v == ("uninit",) and False

    def error(self, val=None, kind="lua_error"):
        self.longjmp()
        if self.unprot and self.prot == 0:
            self.problem("escape", "a Lua error can be raised outside of a protected call in a function called by the engine")
        raise Jump(kind, val)

    def maythrow(self, key, val=None):
        if self.decide(("t", ("throws", key))):
            self.error(("lerr", self.reify(key)))

    # ------------------------------------------------------------------ hooks into the interpreter

    def enter_try(self, s):
        """Operations within try statements of the module allocate memory."""
        n = 0
        while ("t", ("lallocates", n)) in self.st.facts.d:
            n += 1
        if not self.decide(("t", ("lallocates", n))):
            raise Throw("std::bad_alloc", ("c", "bad allocation"))

    def decide(self, v):
        v = truth(v)
        a, pol = atom_of(v)
        if a[0] == "t" and isinstance(a[1], tuple) and a[1] and a[1][0] == "lthr":
            return pol
        return super().decide(v)

    def special(self, fid):
        if fid not in self._special:
            r = super().special(fid)
            f, d = self.P.fn[fid], self.P.decl[fid]
            ps = [norm_type(p) for p in d["params"]]
            if ps == ["lua_State*", "bool"] and norm_type(d["ret"]) == "void":
                names = self.callees(f)
                if "clingo_error_message" in names and "luaL_error" in names:
                    r = "lraises"
            elif ps[:1] == ["lua_State*"] and ps[-1:] == ["int"] and len(ps) == 4 and norm_type(d["ret"]) == "bool":
                if "clingo_set_error" in self.callees(f):
                    r = "lreports"
            self._special[fid] = r
        return self._special[fid]

    def callees(self, f):
        names = set()

        def walk(n):
            if isinstance(n, dict):
                if n.get("k") == "call" and "f" in n:
                    names.add(self.P.decl[n["f"]]["name"])
                for v in n.values():
                    walk(v)
            elif isinstance(n, list):
                for v in n:
                    walk(v)
        walk(f.get("body"))
        return names

    def call_fn(self, fid, this, args, dest=None, clo=None):
        if self.stack:
            k = self.special(fid)
            if k == "lraises":
                if self.decide(args[1]):
                    return ("c", "void")
                self.error(("enginefailure",), "engine_error")
            if k == "lreports":
                if self.decide(rel("==", args[3], ZERO)):
                    return T
                top = self.pop(args[0])[0]
                self.event(("call", "report Lua error", self.reify(args[1]), self.reify(args[2]), self.reify(top), self.reify(args[3])))
                return F
        return super().call_fn(fid, this, args, dest, clo)

    def user_call(self, target, args, d, n, nothrow=False):
        if target[0] == "recursion":
            # pushes its results
            f = self.P.fn[self.stack[[self.P.decl[x]["short"] for x in self.stack].index(target[1])]]
            if f["params"] and norm_type(f["params"][0]["type"]) == "lua_State*" and norm_type(d["ret"]) == "int":
                rargs = tuple(self.reify(a) for a in args[1:])
                key = ("ucall", ("recursion",)) + rargs
                term = key + (self.occ(key),)
                self.event(key)
                self.maythrow(term)
                self.push(args[0], ("lrec", term))
                return C(1)
            if f["params"] and norm_type(f["params"][0]["type"]) == "lua_State*":
                # conversion of a value on the stack
                rargs = tuple(self.reify(a) if i > 1 else self.reify(self.at(args[0], a)) for i, a in enumerate(args) if i)
                key = ("lconv",) + rargs
                self.maythrow(key)
                for a, t in zip(args[2:], d["params"][2:]):
                    if t.rstrip().endswith("&"):
                        self.write(self.loc(a), ("lconverted",) + key)
                return ("lconverted",) + key
        return super().user_call(target, args, d, n, nothrow=nothrow or target[0] != "ext" or not str(target[1]).startswith("std::"))

    def call_value(self, f, n):
        f = self.force(f)
        if f[0] == "ptr":
            f = self.read(self.loc(f))
        if f[0] == "fun" and f[1] not in self.P.fn and f[1] in self.P.decl:
            return self.call_any(f[1], None, self.args(self.P.decl[f[1]], n["args"]), n)
        return super().call_value(f, n)

    def static_ok(self, var):
        return super().static_ok(var) or "luaL_Reg" in var.get("type", "")

    def global_loc(self, n):
        var = self.P.var[n["v"]]
        if "luaL_Reg" in var.get("type", "") or "lua_CFunction" in var.get("type", ""):
            return (("G", n["v"]), ())
        return super().global_loc(n)

    def gvalue(self, vid):
        var = self.P.var[vid]
        if var.get("init") is None:
            if "luaL_Reg" in var.get("type", ""):
                return seq((("e", ("rec", "luaL_Reg", (("name", NULL), ("func", NULL)))),))
            if "lua_CFunction" in var.get("type", ""):
                return NULL
        return super().gvalue(vid)

    def binop(self, op, a, b, n):
        if a[0] == "ltype" and is_num(b) and op in ("==", "!="):
            return ("eq", a, b) if op == "==" else lnot(("eq", a, b))
        if b[0] == "ltype" and is_num(a) and op in ("==", "!="):
            return ("eq", b, a) if op == "==" else lnot(("eq", b, a))
        if a[0] == "ltype" and is_num(b) and op in ("<", "<=", ">", ">="):
            ks = [k for k in range(-1, 9) if {"<": k < b[1], "<=": k <= b[1], ">": k > b[1], ">=": k >= b[1]}[op]]
            neg = len(ks) > 5
            if neg:
                ks = [k for k in range(-1, 9) if k not in ks]
            for k in ks:
                if self.decide(teq(a, k)):
                    return F if neg else T
            return T if neg else F
        return super().binop(op, a, b, n)

    def hook(self, fid, d, name, this, args, n, dest):
        if name.startswith(("lua_", "luaL_")) and fid not in self.P.fn:
            m = getattr(self, "api_" + name, None)
            if m is None:
                raise Unsupported("Lua function " + name)
            return m(*[self.force(a) for a in args])
        if name in ("strcmp", "std::strcmp"):
            a, b = self.str_(args[0]), self.str_(args[1])
            return ZERO if self.decide(rel("==", a, b)) else C(1)
        return None

    def str_(self, p):
        p = self.force(p)
        return self.reify(p)

    # ------------------------------------------------------------------ the API: stack

    def api_lua_gettop(self, L):
        f = self.cur(L)
        k = C(len(f.pushed))
        if f.n is not None:
            return C(f.n + len(f.pushed))
        t = self.topterm(L, f)
        for x in f.pushed:
            if x[0] == "lseg":
                raise Unsupported("top above a sequence of pushed values")
        return lin_add(t, k) if t else k

    def api_lua_absindex(self, L, idx):
        if is_num(idx) and (idx[1] > 0 or idx[1] <= REG) or not is_num(idx):
            return idx
        return lin_add(lin_add(self.api_lua_gettop(L), idx), C(1))

    def api_lua_settop(self, L, idx):
        f = self.cur(L)
        if is_num(idx) and idx[1] < 0:
            self.pop(L, -idx[1] - 1)
            return ("c", "void")
        if is_num(idx) and f.kind == "args" and not (f.n is not None and idx[1] >= f.n):
            k = idx[1]
            self.resolve(L, k)
            f = self.cur(L)
            have = [self.argval(f, i) for i in range(1, (f.n if f.n is not None else k) + 1)] + (list(f.pushed) if f.n is not None else [])
            have = (have + [NIL] * k)[:k]
            self.setf(L, n=k, minp=k, ov=tuple((i + 1, v) for i, v in enumerate(have) if v != ("larg", i + 1)) + tuple(kv for kv in f.ov if not isinstance(kv[0], int)), pushed=())
            return ("c", "void")
        if f.n is not None or f.kind == "known":
            d, k = lin(idx)
            if f.n is not None and d == {("lnargs",): 1}:
                idx = C(f.n + k)
            if not is_num(idx):
                raise Unsupported("settop")
            k = idx[1] - (f.n or 0)
        else:
            d, k = lin(idx)
            if d != {self.topterm(L, f): 1}:
                raise Unsupported("settop")
        if k < 0:
            self.problem("balance", "removes values of another function from the stack")
            raise Prune(("stack underflow",))
        if k <= len(f.pushed):
            n = len(f.pushed) - k
            if any(x[0] == "lseg" for x in f.pushed):
                raise Unsupported("settop")
            self.setf(L, pushed=f.pushed[:k], free=f.free + n if isinstance(f.free, int) else f.free)
        else:
            for _ in range(k - len(f.pushed)):
                self.push(L, NIL)
        return ("c", "void")

    def api_lua_pushvalue(self, L, idx):
        self.push(L, self.norm(self.at(L, idx)))
        return ("c", "void")

    def norm(self, v):
        """Absent arguments behave like nil when used as values."""
        return NIL if v[0] == "lnone" else v

    def api_lua_rotate(self, L, idx, k):
        w = self.locate(L, idx)
        if w[0] == "last":
            self.resolve(L)
            w = self.locate(L, idx)
        f = self.cur(L)
        if w[0] == "arg" and f.kind == "args" and f.n is None and idx == C(1) and k == C(1) and len(f.pushed) == 1 and not f.ov:
            self.setf(L, ov=(("shift", f.pushed),), pushed=(), minp=f.minp + 1)
            return ("c", "void")
        if w[0] == "arg" and f.kind == "args":
            self.resolve(L)
            f = self.cur(L)
            allv = [self.argval(f, i) for i in range(1, f.n + 1)] + list(f.pushed)
            p = w[1] - 1
            seg_ = allv[p:]
            if not seg_ or abs(k[1]) > len(seg_):
                self.problem("index", "moves values above the top of the stack")
                raise Prune(("invalid index",))
            j = k[1] % len(seg_)
            seg_ = seg_[-j:] + seg_[:-j] if j else seg_
            allv[p:] = seg_
            self.setf(L, ov=tuple((i + 1, v) for i, v in enumerate(allv[:f.n]) if v != ("larg", i + 1)) + tuple(kv for kv in f.ov if not isinstance(kv[0], int)), pushed=tuple(allv[f.n:]))
            return ("c", "void")
        if w[0] != "push" or any(x[0] == "lseg" for x in f.pushed[w[1]:]):
            raise Unsupported("rotate")
        p = w[1]
        seg_ = list(f.pushed[p:])
        if not seg_ or abs(k[1]) > len(seg_):
            self.problem("index", "moves values above the top of the stack")
            raise Prune(("invalid index",))
        j = k[1] % len(seg_)
        seg_ = seg_[-j:] + seg_[:-j] if j else seg_
        self.setf(L, pushed=f.pushed[:p] + tuple(seg_))
        return ("c", "void")

    def api_lua_copy(self, L, src, dst):
        self.setslot(L, dst, self.norm(self.at(L, src)))
        return ("c", "void")

    def api_lua_xmove(self, a, b, n):
        vs = self.pop(a, n[1])
        for v in vs:
            self.push(b, v)
        return ("c", "void")

    def extends(self):
        """Outcome of a reservation; reservations are numbered along the path."""
        n = 0
        while ("t", ("lcheckstack", n)) in self.st.facts.d:
            n += 1
        return self.decide(("t", ("lcheckstack", n)))

    def api_lua_checkstack(self, L, n):
        if not self.extends():
            return F
        self.grow(L, n)
        return T

    def grow(self, L, n):
        f = self.cur(L)
        n = self.wide(n)
        if is_num(n):
            if isinstance(f.free, int):
                self.setf(L, free=max(f.free, n[1]))
        else:
            self.setf(L, free=n)

    def api_luaL_checkstack(self, L, n, msg):
        self.longjmp()
        if not self.extends():
            self.error(("stack overflow",))
        self.grow(L, n)
        return ("c", "void")

    # ------------------------------------------------------------------ the API: pushing

    def api_lua_pushnil(self, L):
        self.push(L, ("lnil", self.new_root(ZERO)))
        return ("c", "void")

    def api_lua_pushboolean(self, L, v):
        self.push(L, ("lbool", truth(v)))
        return ("c", "void")

    def api_lua_pushinteger(self, L, v):
        self.push(L, ("lint", as_int(v)))
        return ("c", "void")

    def api_lua_pushnumber(self, L, v):
        self.push(L, ("lnum", v))
        return ("c", "void")

    def api_lua_pushstring(self, L, s):
        s = self.str_(s)
        if s == NULL:
            self.push(L, NIL)
        else:
            self.push(L, ("lstr", s))
        return s

    def api_lua_pushlstring(self, L, s, n):
        s = self.str_(s)
        if s[0] == "c" and n == C(len(s[1])):
            self.push(L, ("lstr", s))
        else:
            self.push(L, ("lstr", ("substr", s, self.reify(n))))
        return s

    def api_lua_pushfstring(self, L, fmt, *args):
        self.fmt(fmt, args)
        v = ("lfmt", self.str_(fmt)) + tuple(self.reify(a) for a in args)
        self.push(L, v)
        return ("lcstr", v)

    def fmt(self, fmt, args):
        s = self.str_(fmt)
        if s[0] != "c":
            self.problem("format", "the format of a message is not a literal")
            return
        specs = [s[1][i + 1] for i in range(len(s[1]) - 1) if s[1][i] == "%" and (i == 0 or s[1][i - 1] != "%") and s[1][i + 1] != "%"]
        if len(specs) != len(args):
            self.problem("format", "the number of arguments does not fit the format")

    def api_lua_pushlightuserdata(self, L, p):
        self.push(L, ("light", p))
        return ("c", "void")

    def api_lua_pushcclosure(self, L, f, n):
        k = n[1]
        ups = self.pop(L, k) if k else ()
        f = self.force(f)
        if f[0] == "ptr":
            f = self.read(self.loc(f))
        if f[0] != "fun":
            raise Unsupported("C function")
        self.push(L, ("lcf", f[1], tuple(ups)))
        return ("c", "void")

    def api_lua_createtable(self, L, a, b):
        self.push(L, ("ltab", self.new_root(("seq", ()))))
        return ("c", "void")

    def api_lua_newuserdatauv(self, L, size, nuv):
        size = self.reify(size)
        p = self.new_root(("uninit",))
        if size[0] != "sizeof":
            self.write(self.loc(p), ("seq", (("fill", ("udsize", size), ("uninit",)),)))
        self.push(L, ("lud", p))
        return p if size[0] == "sizeof" else ("ptr", p[1], p[2] + (("i", ZERO),))

    def api_lua_newthread(self, L):
        p = ("lthr", self.new_root(("thread",)))
        self.push(L, p)
        self.st.ext[("lua", p)] = (LF("known", None, 0, (), (), None, 20),)
        return p

    # ------------------------------------------------------------------ the API: inspecting

    def api_lua_type(self, L, idx):
        return self.vtype(self.at(L, idx))

    def api_lua_typename(self, L, t):
        return ("typename", t)

    def api_lua_isnumber(self, L, idx):
        return T if self.isnum(self.at(L, idx)) else F

    def api_lua_isinteger(self, L, idx):
        v = self.at(L, idx)
        if v[0] == "lint":
            return T
        r = self.oneof(v, (3,), "isinteger")
        if r is None:
            r = self.decide(("t", ("isinteger", self.reify(v))))
        return T if r else F

    def api_lua_iscfunction(self, L, idx):
        v = self.at(L, idx)
        if v[0] == "lcf":
            return T
        r = self.oneof(v, (6,), "iscfunction")
        if r is None:
            r = self.decide(("t", ("iscfunction", self.reify(v))))
        return T if r else F

    def api_lua_isuserdata(self, L, idx):
        v = self.at(L, idx)
        return T if self.istype(v, 7) or self.istype(v, 2) else F

    def api_lua_rawlen(self, L, idx):
        return ("lrawlen", self.reify(self.at(L, idx)))

    def api_luaL_len(self, L, idx):
        t = self.reify(self.at(L, idx))
        self.maythrow(("llen", t))
        return ("llen", t)

    def api_lua_len(self, L, idx):
        t = self.reify(self.at(L, idx))
        self.maythrow(("llen", t))
        self.push(L, ("lint", ("llen", t)))
        return ("c", "void")

    def api_lua_compare(self, L, a, b, op):
        x, y = self.reify(self.at(L, a)), self.reify(self.at(L, b))
        self.maythrow(("lcompare", x, y, op))
        return truth(("lcompare", x, y, op))

    def api_luaL_optinteger(self, L, idx, d):
        v = self.at(L, idx)
        if self.istype(v, -1) or self.istype(v, 0):
            return d
        return self.api_luaL_checkinteger(L, idx)

    def api_luaL_optnumber(self, L, idx, d):
        v = self.at(L, idx)
        if self.istype(v, -1) or self.istype(v, 0):
            return d
        return self.api_luaL_checknumber(L, idx)

    def api_luaL_optlstring(self, L, idx, d, p):
        v = self.at(L, idx)
        if self.istype(v, -1) or self.istype(v, 0):
            return d
        return self.api_luaL_checklstring(L, idx, p)

    def api_luaL_testudata(self, L, idx, name):
        v = self.at(L, idx)
        name = self.str_(name)
        if v[0] == "lud":
            return v[1] if self.metaof(v) == ("lmeta", name) else NULL
        t = self.vtype(v)
        if is_num(t) and t[1] != 7:
            return NULL
        if not self.decide(("t", ("isud", self.reify(v), name))):
            return NULL
        for k in range(-1, 9):
            if k != 7:
                self.imply(teq(t, k), False)
        return ("ud", self.reify(v), name)

    def api_luaL_typeerror(self, L, idx, name):
        self.error()

    def api_luaL_tolstring(self, L, idx, p):
        v = self.reify(self.at(L, idx))
        self.maythrow(("ltostring", v))
        self.push(L, ("lstr", ("ltostring", v)))
        return ("ltostring", v)

    def api_luaL_traceback(self, L, L1, msg, level):
        m = self.force(msg)
        self.push(L, ("lstr", ("ltraceback", NULL if m == NULL else self.str_(msg), level)))
        return ("c", "void")

    def api_lua_status(self, L):
        return ZERO

    def api_lua_gc(self, L, what, *args):
        self.event(("call", "lua_gc", what) + tuple(args))
        return ZERO

    def api_luaL_unref(self, L, idx, ref):
        self.event(("call", "luaL_unref", self.reify(self.at(L, idx)), ref))
        return ("c", "void")

    def api_luaL_getmetafield(self, L, idx, name):
        v = self.reify(self.at(L, idx))
        k = ("lstr", self.str_(name))
        if not self.decide(("t", ("hasmetafield", v, k))):
            return ZERO
        return self.pushval(L, ("lget", ("lmetaof", v), k))

    def api_luaL_getsubtable(self, L, idx, name):
        v = self.at(L, idx)
        k = ("lstr", self.str_(name))
        self.event(("call", "luaL_getsubtable", self.reify(v), k))
        self.push(L, ("lget", self.reify(v), k))
        return T

    def api_lua_isstring(self, L, idx):
        return T if self.isstr(self.at(L, idx)) else F

    def api_lua_toboolean(self, L, idx):
        return self.lbool(self.at(L, idx))

    def api_lua_tointegerx(self, L, idx, p):
        v = self.at(L, idx)
        if v[0] in ("lnone", "lnil", "lbool"):
            return ZERO
        return self.toint(v)

    def api_lua_tonumberx(self, L, idx, p):
        return self.tonum(self.at(L, idx))

    def api_lua_tolstring(self, L, idx, p):
        v = self.at(L, idx)
        if not self.isstr(v):
            return NULL
        return self.cstr(v)

    def api_lua_touserdata(self, L, idx):
        v = self.at(L, idx)
        if v[0] == "light":
            return v[1]
        if v[0] == "lud":
            return v[1]
        return ("ludptr", self.reify(v))

    api_lua_topointer = api_lua_touserdata

    def api_lua_rawequal(self, L, a, b):
        x, y = self.at(L, a), self.at(L, b)
        if x == y:
            return T
        return truth(("lraweq",) + tuple(sorted((self.reify(x), self.reify(y)), key=okey)))

    # ------------------------------------------------------------------ the API: checks

    def api_luaL_checktype(self, L, idx, t):
        if not self.istype(self.at(L, idx), t[1]):
            self.error()
        self.longjmp()
        return ("c", "void")

    def api_luaL_checkany(self, L, idx):
        if self.istype(self.at(L, idx), -1):
            self.error()
        return ("c", "void")

    def api_luaL_checkinteger(self, L, idx):
        v = self.at(L, idx)
        if not self.isnum(v, "isint"):
            self.error()
        return self.toint(v)

    def api_luaL_checknumber(self, L, idx):
        v = self.at(L, idx)
        if not self.isnum(v):
            self.error()
        return self.tonum(v)

    def api_luaL_checklstring(self, L, idx, p):
        v = self.at(L, idx)
        if not self.isstr(v):
            self.error()
        return self.cstr(v)

    def api_luaL_checkudata(self, L, idx, name):
        v = self.at(L, idx)
        name = self.str_(name)
        if v[0] == "lud":
            m = self.metaof(v)
            if m == ("lmeta", name):
                return v[1]
            self.error()
        if is_num(self.vtype(v)) and self.vtype(v)[1] != 7:
            self.error()
        t = self.vtype(v)
        if not self.decide(("t", ("isud", self.reify(v), name))):
            self.error()
        for k in range(-1, 9):
            if k != 7:
                self.imply(teq(t, k), False)
        return ("ud", self.reify(v), name)

    def api_luaL_argerror(self, L, idx, msg):
        self.error()

    def api_luaL_error(self, L, fmt, *args):
        self.fmt(fmt, args)
        self.error(("lfmt", self.str_(fmt)) + tuple(self.reify(a) for a in args))

    def api_lua_error(self, L):
        v = self.pop(L)[0]
        self.error(self.reify(v))

    def api_luaL_checkversion_(self, L, v, s):
        return ("c", "void")

    # ------------------------------------------------------------------ the API: tables

    def tabread(self, t, k):
        """Value of a table, or None if it depends on unknown code."""
        ws = self.read(self.loc(t[1]))
        if ws[0] != "seq":
            return ("lget", self.reify(t), k)
        for s in reversed(segs(ws)):
            if s[0] == "e" and s[1][0] == "kv":
                if s[1][1] == k:
                    return s[1][2]
                x = s[1][1]
                if rel("==", x, k) == F or x[0] != k[0] or x[0] in ("lstr", "lint") and x[1][0] == k[1][0] == "c":
                    continue
            return ("lget", self.reify(t), k)
        return NIL

    def inherited(self, t, k):
        """Value of a key found via a metatable whose contents are known."""
        m = self.metaof(t)
        if m[0] != "lmeta" or m[1][0] != "c" or k[0] != "lstr" or k[1][0] != "c":
            return None
        tab = (self.known_tables or {}).get(m[1][1])
        if tab is None or tab.get("__index") != "self":
            return None
        v = self.tabread(t, k)
        if v[0] == "lnil":
            return ("lget", m, k) if k[1][1] in tab else NIL
        return v if v[0] != "lget" else None

    def index(self, t, k, raw):
        k = self.reify(k)
        if t[0] == "lnone" or t[0] == "lnil":
            self.error()
        if t[0] == "ltab":
            if not raw and ("meta", t[1]) in self.st.ext:
                v = self.inherited(t, k)
                if v is not None:
                    return v
                self.maythrow(("lindex", self.reify(t), k))
            return self.tabread(t, k)
        tt = self.reify(t)
        if t[0] == "lreg":
            if k[0] == "lstr":
                for (a, b), v in [(x, y) for x, y in self.st.ext.items() if x[0] == "metatab"]:
                    if b == k[1]:
                        return v
                return ("lmeta", k[1])
        elif not raw and t[0] not in ("lmeta",):
            self.maythrow(("lindex", tt, k))
        return self.st.smem.get(("lfld", tt, k), ("lget", tt, k))

    def store(self, t, k, v, raw):
        k = self.reify(k)
        if t[0] in ("lnone", "lnil"):
            self.error()
        if t[0] == "ltab":
            if not raw and ("meta", t[1]) in self.st.ext:
                v = self.inherited(t, k)
                if v is not None:
                    return v
                self.maythrow(("lnewindex", self.reify(t), k))
            l = self.loc(t[1])
            ws = self.read(l)
            # writes to distinct constant keys commute
            ws = list(segs(ws))
            n = len(ws)
            while constkey(k) and n and ws[n - 1][0] == "e" and ws[n - 1][1][0] == "kv" and constkey(ws[n - 1][1][1]) and okey(ws[n - 1][1][1]) > okey(k):
                n -= 1
            if constkey(k) and n and ws[n - 1][0] == "e" and ws[n - 1][1][:2] == ("kv", k):
                ws[n - 1] = ("e", ("kv", k, v))
            else:
                ws.insert(n, ("e", ("kv", k, v)))
            self.write(l, seq(tuple(ws)))
            return
        tt = self.reify(t)
        if not raw and t[0] not in ("lmeta", "lreg"):
            self.maythrow(("lnewindex", tt, k))
        self.st.smem[("lfld", tt, k)] = v
        self.event(("store", tt, k, self.reify(v)))

    def api_lua_getfield(self, L, idx, name):
        t = self.at(L, idx)
        self.push(L, self.index(t, ("lstr", self.str_(name)), False))
        return self.vtype(self.at(L, C(-1)))

    def api_lua_gettable(self, L, idx):
        t = self.at(L, idx)
        k = self.pop(L)[0]
        return self.pushval(L, self.index(t, k, False))

    def api_lua_rawget(self, L, idx):
        t = self.at(L, idx)
        k = self.pop(L)[0]
        return self.pushval(L, self.index(t, k, True))

    def api_lua_rawgeti(self, L, idx, i):
        t = self.at(L, idx)
        return self.pushval(L, self.index(t, ("lint", self.reify(as_int(i))), True))

    def api_lua_geti(self, L, idx, i):
        t = self.at(L, idx)
        return self.pushval(L, self.index(t, ("lint", self.reify(as_int(i))), False))

    def api_lua_rawgetp(self, L, idx, p):
        t = self.at(L, idx)
        return self.pushval(L, self.index(t, ("light", self.force(p)), True))

    def pushval(self, L, v):
        self.push(L, v)
        return self.vtype(v)

    def api_lua_getglobal(self, L, name):
        k = ("lstr", self.str_(name))
        self.maythrow(("lindex", ("lglobals",), self.reify(k)))
        return self.pushval(L, ("lget", ("lglobals",), self.reify(k)))

    def api_lua_setglobal(self, L, name):
        k = ("lstr", self.str_(name))
        v = self.pop(L)[0]
        self.maythrow(("lnewindex", ("lglobals",), self.reify(k)))
        self.event(("store", ("lglobals",), self.reify(k), self.reify(v)))
        return ("c", "void")

    def api_lua_settable(self, L, idx):
        t = self.at(L, idx)
        k, v = self.pop(L, 2)
        self.store(t, k, v, False)
        return ("c", "void")

    def api_lua_seti(self, L, idx, i):
        t = self.at(L, idx)
        v = self.pop(L)[0]
        self.store(t, ("lint", self.reify(as_int(i))), v, False)
        return ("c", "void")

    def api_lua_rawsetp(self, L, idx, p):
        t = self.at(L, idx)
        v = self.pop(L)[0]
        self.store(t, ("light", self.force(p)), v, True)
        return ("c", "void")

    def api_lua_setfield(self, L, idx, name):
        t = self.at(L, idx)
        v = self.pop(L)[0]
        self.store(t, ("lstr", self.str_(name)), v, False)
        return ("c", "void")

    def api_lua_rawset(self, L, idx):
        t = self.at(L, idx)
        k, v = self.pop(L, 2)
        self.store(t, k, v, True)
        return ("c", "void")

    def api_lua_rawseti(self, L, idx, i):
        t = self.at(L, idx)
        v = self.pop(L)[0]
        self.store(t, ("lint", self.reify(as_int(i))), v, True)
        return ("c", "void")

    def api_lua_next(self, L, idx):
        t = self.at(L, idx)
        key = self.pop(L)[0]
        if key[0] == "lnil" and len(key) < 2:
            raise Unsupported("iteration from a given key")
        if key[0] != "lnil":
            self.problem("index", "an iteration over a table does not start with nil")
            raise Prune(("invalid key",))
        if t[0] in ("lnone", "lnil"):
            self.error()
        if t[0] == "ltab":
            raise Unsupported("iteration over a local table")
        tt = self.reify(t)
        k = self.read(self.loc(key[1]))
        if not self.decide(rel("<", k, ("lsize", tt))):
            return F
        self.write(self.loc(key[1]), lin_add(k, C(1)))
        self.push(L, key)
        self.push(L, ("lval", tt, self.reify(k)))
        return T

    def api_lua_setmetatable(self, L, idx):
        v = self.at(L, idx)
        m = self.pop(L)[0]
        if v[0] in ("ltab", "lud"):
            self.st.ext[("meta", v[1])] = m
        else:
            self.event(("call", "lua_setmetatable", self.reify(v), self.reify(m)))
        return C(1)

    def api_lua_getmetatable(self, L, idx):
        v = self.at(L, idx)
        if v[0] in ("ltab", "lud"):
            m = self.st.ext.get(("meta", v[1]))
            if m is None:
                return F
            self.push(L, m)
            return T
        tt = self.reify(v)
        for a, val in self.st.conds:
            if val and a[0] == "t" and a[1][0] == "isud" and a[1][1] == tt:
                self.push(L, ("lmeta", a[1][2]))
                return T
        if not self.decide(("t", ("hasmeta", tt))):
            return F
        self.push(L, ("lmetaof", tt))
        return T

    def api_luaL_newmetatable(self, L, name):
        name = self.str_(name)
        v = ("ltab", self.new_root(("seq", ())))
        self.st.ext[("metatab", name)] = v
        self.st.ext[("metaname", v[1])] = name
        self.push(L, v)
        return T

    def api_luaL_setfuncs(self, L, regs, nup):
        ups = self.pop(L, nup[1]) if nup[1] else ()
        t = self.at(L, C(-1))
        loc = self.loc(regs)
        arr = self.read((loc[0], loc[1][:-1]))
        if arr[0] != "seq":
            raise Unsupported("function table")
        for s in segs(arr):
            v = s[1] if s[0] == "e" else None
            if v is None or v == ZERO:
                break
            name, f = self.get(v, ("f", "name")), self.get(v, ("f", "func"))
            if name == NULL:
                break
            self.store(t, ("lstr", name), ("lcf", self.force(f)[1], ups) if f != NULL else F, True)
        return ("c", "void")

    def api_luaL_ref(self, L, idx):
        t = self.at(L, idx)
        v = self.pop(L)[0]
        if t[0] == "ltab":
            l = self.loc(t[1])
            self.write(l, seq(segs(self.read(l)) + (("e", ("kv", ("lrefkey",), v)),)))
        else:
            self.event(("call", "luaL_ref", self.reify(t), self.reify(v)))
        return ("lrefkey", self.reify(t))

    def api_luaL_requiref(self, L, name, f, glb):
        f = self.force(f)
        self.invoke(L, ("lcf", f[1], ()), (("lstr", self.str_(name)),), 1)
        v = self.at(L, C(-1))
        self.event(("store", ("lget", ("lreg",), ("lstr", C("_LOADED"))), ("lstr", self.str_(name)), self.reify(v)))
        if self.decide(truth(glb)):
            self.event(("store", ("lglobals",), ("lstr", self.str_(name)), self.reify(v)))
        return ("c", "void")

    def api_luaL_openlibs(self, L):
        self.event(("call", "luaL_openlibs"))
        return ("c", "void")

    def api_luaL_newstate(self):
        p = ("lthr", ("newstate",))
        self.event(("call", "luaL_newstate"))
        if not self.decide(("t", ("newstate",))):
            return NULL
        self.st.ext[("lua", p)] = (LF("known", None, 0, (), (), None, 20),)
        return p

    def api_lua_close(self, L):
        self.event(("call", "lua_close", self.reify(L)))
        return ("c", "void")

    def api_luaL_loadbufferx(self, L, buf, size, name, mode):
        key = ("lload", self.str_(buf), self.reify(size), self.str_(name))
        self.event(("call", "luaL_loadbuffer", key))
        code = ("lcode", key)
        if self.decide(rel("==", code, ZERO)):
            self.push(L, ("lchunk", key))
            return ZERO
        self.push(L, ("lerr", key))
        return code

    # ------------------------------------------------------------------ the API: calls

    def wide(self, n):
        """Counts of values on a stack fit into an int."""
        if n[0] == "narrow":
            return self.wide(n[3])
        d, k = lin(n)
        if any(t[0] == "narrow" for t in d):
            r = C(k)
            for t, x in d.items():
                r = lin_add(r, self.scale(self.wide(t), x))
            return r
        return n

    def nargs(self, L, n):
        """Takes the given number of arguments from the stack."""
        f = self.cur(L)
        n = self.wide(n)
        if is_num(n):
            return self.pop(L, n[1])
        # a sequence of values
        d, k = lin(n)
        out = []
        p = list(f.pushed)
        while p and (d or k > 0):
            x = p.pop()
            if x[0] == "lseg":
                m = x[1]
                dm, km = lin(m)
                rest = lin_add(mklin(d, k), m, -1)
                d, k = lin(rest)
                out.insert(0, x)
            else:
                k -= 1
                out.insert(0, x)
        if d or k:
            raise Unsupported("number of arguments of a call")
        self.setf(L, pushed=tuple(p))
        return tuple(out)

    def invoke(self, L, f, args, nres):
        """Calls a function; pushes its results."""
        if f[0] == "lcf" and f[1] in self.P.fn:
            k, s = self.stack_(L)
            self.st.ext[k] = s + (LF("args", len(args), len(args), tuple((i + 1, v) for i, v in enumerate(args)), (), f[2], 20),)
            r = self.call_fn(f[1], None, [L])
            rs = self.results(L, r)
            k, s = self.stack_(L)
            self.st.ext[k] = s[:-1]
            rs = list(rs)[:nres] + [NIL] * (nres - len(rs))
            for v in rs:
                self.push(L, v)
            return
        key = ("ucall", ("lua", self.reify(f))) + tuple(self.reify(a) for a in args)
        term = key + (self.occ(key),)
        self.event(key)
        self.maythrow(term)
        for i in range(nres):
            self.push(L, ("lres", term, i))

    def results(self, L, r):
        """Values returned by a C function."""
        r = self.force(r)
        if not is_num(r):
            raise Unsupported("number of results")
        if r[1] < 0:
            self.problem("results", "negative number of results")
            raise Prune(("results",))
        if r[1] == 0:
            return ()
        f = self.cur(L)
        if len(f.pushed) >= r[1]:
            if any(x[0] == "lseg" for x in f.pushed[-r[1]:]):
                raise Unsupported("results")
            return f.pushed[-r[1]:]
        if f.kind == "args":
            return self.pop(L, r[1])
        self.problem("results", "returns more values than there are on the stack")
        raise Prune(("results",))

    def api_lua_callk(self, L, n, nres, ctx, k):
        args = self.nargs(L, n)
        f = self.pop(L)[0]
        if nres[1] < 0:
            raise Unsupported("variable number of results")
        self.invoke(L, f, args, nres[1])
        return ("c", "void")

    def api_lua_pcallk(self, L, n, nres, msgh, ctx, k):
        h = self.at(L, msgh) if msgh != ZERO else NIL
        if msgh != ZERO and h[0] != "lcf":
            self.problem("handler", "the message handler of a protected call is not a function")
        args = self.nargs(L, n)
        f = self.pop(L)[0]
        key_, s = self.stack_(L)
        depth = len(self.frames), len(self.stack), [(len(fr.scopes), len(fr.temps)) for fr in self.frames], len(self.handlers)
        self.bounds.append(len(self.frames))
        self.prot += 1
        try:
            if nres[1] < 0:
                raise Unsupported("variable number of results")
            self.invoke(L, f, args, nres[1])
            return ZERO
        except Jump as j:
            del self.frames[depth[0]:]
            del self.stack[depth[1]:]
            del self.handlers[depth[3]:]
            for fr, (a, b) in zip(self.frames, depth[2]):
                del fr.scopes[a:]
                del fr.temps[b:]
            self.st.ext[key_] = s
            err = ("lerror", j.kind, self.reify(j.val) if j.val is not None else ("message",), ("handled",) if h[0] == "lcf" else self.reify(h))
            self.push(L, err)
            code = ("lcode", self.occ(("pcall",)))
            self.imply(rel("==", code, ZERO), False)
            return code
        except Throw:
            self.problem("throw", "a C++ exception passes through a protected Lua call")
            raise
        finally:
            self.bounds.pop()
            self.prot -= 1

    # ------------------------------------------------------------------ loops

    def frames_of(self, st):
        return {k: v for k, v in st.ext.items() if k[0] == "lua"}

    def loop_ext(self, S0, St, nexts, var):
        """Growth of the stacks in loops -> [(key, frames)]"""
        out = []
        for k, s0 in self.frames_of(S0).items():
            g = St.ext.get(k)
            grown = set()
            for s in nexts:
                f = s.ext.get(k)
                if f == g:
                    continue
                if f[:-1] != g[:-1]:
                    raise Unsupported("stack of another function changes in a loop")
                a, b = g[-1], f[-1]
                if b == a._replace(n=b.n, minp=b.minp, free=b.free, ov=b.ov) and b.ov == a.ov and b.n == a.n:
                    # knowledge about the number of arguments is per iteration
                    continue
                if [kv for kv in b.ov if not isinstance(kv[0], int)] != [kv for kv in a.ov if not isinstance(kv[0], int)] and b.pushed == a.pushed:
                    raise Unsupported("upvalue changes in a loop")
                base = s0[-1].pushed
                save, self.st = self.st, s
                own = base if a.pushed == base else a.pushed if len(a.pushed) == len(base) + 1 and a.pushed[:-1] == base and a.pushed[-1][0] == "lseg" else None
                if own is not None and b.pushed[:len(own)] == own and len(b.pushed) > len(own):
                    self.st = save
                    if k in grown:
                        continue
                    grown.add(k)
                    els, count = [], len(b.pushed) - len(own)
                    for s2 in nexts:
                        p2 = s2.ext[k][-1].pushed
                        if p2[:len(own)] != own or len(p2) != len(own) + count:
                            self.problem("balance", "the iterations of a loop leave different numbers of values on the stack")
                            raise Unsupported("loop leaves values on the stack")
                        self.st = s2
                        els.append((tuple(sorted(s2.conds[len(St.conds):], key=okey)), tuple(self.reify(x) for x in p2[len(own):])))
                    self.st = save
                    el = merge_paths(els)
                    if isinstance(a.free, int):
                        self.problem("reserve", "pushes values in a loop without having reserved space for all of them")
                    seg_ = ("lseg", self.scale(var, count), el, var)
                    if own == base or seg_ != own[-1]:
                        out.append((k, g[:-1] + (a._replace(pushed=base + (seg_,)),)))
                elif len(b.pushed) < len(a.pushed) or b.pushed[:len(base)] != base:
                    self.st = save
                    if len(b.pushed) == len(a.pushed):
                        # values that are replaced by the loop
                        new = list(a.pushed)
                        for i, (x, y) in enumerate(zip(a.pushed, b.pushed)):
                            if x != y and x[0] != "lvar":
                                new[i] = ("lvar", var[1], i)
                        if tuple(new) != a.pushed:
                            out.append((k, g[:-1] + (a._replace(pushed=tuple(new)),)))
                    else:
                        self.problem("balance", "every iteration of a loop removes values from the stack")
                        raise Prune(("stack underflow",))
                else:
                    self.st = save
                    self.problem("balance", "the iterations of a loop leave values on the stack")
                    raise Unsupported("loop leaves values on the stack")
        return out

    def loop_exit(self, st, n, exits, nexts, S0, var):
        """Stacks after the regular end of a loop."""
        for k in self.frames_of(S0):
            fs = []
            for s in exits:
                f = s.ext.get(k)
                if f is not None and f not in fs:
                    fs.append(f)
            if not fs:
                continue
            tops = {tuple(x[-1].pushed) for x in fs}
            if len(tops) != 1:
                raise Unsupported("the stack differs at the end of a loop")
            top = fs[0][-1]
            pushed = tuple(("lseg", self.subst(x[1], var, n), x[2], x[3]) if x[0] == "lseg" and x[3] == var else x for x in top.pushed)
            free = S0.ext[k][-1].free
            if not isinstance(free, int):
                for x in pushed:
                    if x[0] == "lseg" and x not in S0.ext[k][-1].pushed:
                        free = lin_add(free, x[1], -1)
                if is_num(free):
                    free = free[1]
                    if free < 0:
                        self.problem("reserve", "reserves less space on the stack than a loop uses")
                elif any(x[0] == "lseg" and x not in S0.ext[k][-1].pushed for x in pushed):
                    self.problem("reserve", "the space reserved on the stack does not depend on the number of values pushed by a loop")
            else:
                free = top.free
            s0 = S0.ext[k]
            if fs[0][:-1] != s0[:-1]:
                raise Unsupported("stack of another function changes in a loop")
            keep = s0[-1]
            st.ext[k] = s0[:-1] + (keep._replace(pushed=pushed, free=free),)

    def subst(self, t, var, n):
        if t == var:
            return n
        d, k = lin(t)
        c_ = d.pop(var, None)
        if c_ is None:
            return t
        return lin_add(mklin(d, k), self.scale(n, c_))

    # ------------------------------------------------------------------ callbacks

    def run_callback(self, f, data):
        base = {k: v for k, v in self.st.ext.items() if k[0] == "lua"}
        save = self.unprot, self.prot, self.bounds
        self.unprot, self.prot, self.bounds = True, 0, self.bounds + [len(self.frames)]
        try:
            r = super().run_callback(f, data)
        except Throw:
            self.problem("throw", "a C++ exception can leave a function called by the engine")
            raise
        finally:
            self.unprot, self.prot, self.bounds = save
        name = self.P.decl[f[1]]["short"].replace("(anonymous namespace)::", "")
        for k, v in self.st.ext.items():
            if k[0] != "lua":
                continue
            if k in base:
                if [x.pushed for x in v] != [x.pushed for x in base[k]]:
                    self.stack.append(f[1])
                    self.problem("balance", f"{len(v[-1].pushed) - len(base[k][-1].pushed)} values remain on the stack after {name}")
                    self.stack.pop()
            elif v[-1].kind == "unk" and v[-1].pushed or len(v) > 1:
                self.stack.append(f[1])
                self.problem("balance", f"{len(v[-1].pushed)} values remain on the stack after {name}")
                self.stack.pop()
        return r

    def callbacks(self, cbs, data, fname):
        if fname.split("/")[0] in ASYNC:
            save, self.st = self.st, self.st.copy()
            n = 0
            for k, v in list(self.st.ext.items()):
                if k[0] == "lua":
                    if v[-1].kind != "known":
                        self.st.ext[k] = (LF("unk", None, 0, (), (), None, 0),)
            for r, v in sorted(self.st.mem.items()):
                if any(k[0] == "lua" and any(("ltab", ("ptr", ("L", r), ())) in f.pushed for f in fs) for k, fs in self.st.ext.items() if k[0] == "lua"):
                    self.st.mem[r] = ("lcur", n)
                    n += 1
            try:
                super().callbacks(cbs, data, fname)
            finally:
                save.next = self.st.next
                self.st = save
            return
        super().callbacks(cbs, data, fname)

    def path_of(self, s, out, base=None, n=0):
        p = super().path_of(s, out, base, n)
        if out[0] == "jump" and out[1].val is not None:
            save, self.st = self.st, s
            p["out"] = ("jump", out[1].kind, self.reify(out[1].val))
            self.st = save
        return p
