"""The compiled part of the Python API: the tables and wrappers of _clingo.c against clingo.h.

The file is compiled to LLVM IR; wrappers and trampolines are followed path by path under the scenarios "all conversions succeed", "conversion i fails", ..."""
import ast, os, re, subprocess, sysconfig, tempfile
import abi as abimod
import irprog as ir
from common import Broken, Check, REPO

PRIM = {0: ("void",), 1: ("bool",), 2: ("int", True, 8), 3: ("int", True, 8), 4: ("int", False, 8), 5: ("int", True, 16), 6: ("int", False, 16), 7: ("int", True, 32),
        8: ("int", False, 32), 9: ("int", True, 64), 10: ("int", False, 64), 11: ("int", True, 64), 12: ("int", False, 64), 13: ("float",), 14: ("double",),
        17: ("int", True, 8), 18: ("int", False, 8), 19: ("int", True, 16), 20: ("int", False, 16), 21: ("int", True, 32), 22: ("int", False, 32), 23: ("int", True, 64),
        24: ("int", False, 64), 25: ("int", True, 64), 26: ("int", False, 64), 27: ("int", True, 64), 28: ("int", False, 64), 29: ("int", True, 64)}
INT_EXPORT = {(True, 8): 1, (False, 8): 2, (True, 16): 3, (False, 16): 4, (True, 32): 5, (False, 32): 6, (True, 64): 7, (False, 64): 8}
(E_DEREF, E_TO_PTR, E_RESTORE, E_SAVE, E_FROM_PTR, E_TO_C, E_CALLPY, E_TO_BOOL, E_PREPARE) = (10, 11, 13, 14, 10, 17, 25, 22, 23)

FILES = {"app/pyclingo/_clingo.c": "app", "libpyclingo/_clingo.c": "lib"}
# which C type a function defined in Python is called through
EXTERN = [("pyclingo_observer_", "clingo_ground_program_observer"), ("pyclingo_propagator_", "clingo_propagator"), ("pyclingo_application_", "clingo_application"),
          ("pyclingo_script_", "clingo_script")]
EXTERN_T = {"pyclingo_ground_callback": ("param", "clingo_control_ground", 3), "pyclingo_solve_event_callback": ("param", "clingo_control_solve", 4),
            "pyclingo_logger_callback": ("param", "clingo_control_new", 2), "pyclingo_ast_callback": ("param", "clingo_ast_parse_files", 2),
            "pyclingo_symbol_callback": ("type", "clingo_symbol_callback_t"), "pyclingo_unpool_callback": ("param", "clingo_ast_unpool", 2)}


def python_include():
    for d in [sysconfig.get_paths()["include"], "/usr/include/python3.12", "/usr/include/python3"]:
        if os.path.exists(os.path.join(d, "Python.h")):
            return d
    raise Broken("no Python.h")


class Glue:
    def __init__(self, path):
        self.path = path
        self.m = ir.compile_ir(os.path.join(REPO, path), [os.path.join(REPO, "libclingo"), python_include()])
        ctx = self.m.init("_cffi_type_context")
        if ctx[0] != "agg" or len(ctx[1]) != 13:
            raise Broken(path + ": type context not understood")
        names = [x[1] for x in ctx[1][:6]]
        self.counts = [x[1] for x in ctx[1][6:10]] + [ctx[1][11][1]]
        get = lambda n: list(self.m.init(n)[1])
        self.types = [x[1] for x in get(names[0])]
        S = self.m.string
        self.globals = [(S(e[1][0]), e[1][1], e[1][2][1], e[1][3]) for e in get(names[1]) if e[1][0] != ("int", 0)]
        self.fields = [(S(e[1][0]), e[1][1][1], e[1][2][1], e[1][3][1]) for e in get(names[2]) if e[1][0] != ("int", 0)]
        self.structs = [(S(e[1][0]),) + tuple(x[1] for x in e[1][1:]) for e in get(names[3]) if e[1][0] != ("int", 0)]
        self.enums = [(S(e[1][0]), e[1][1][1], e[1][2][1], S(e[1][3])) for e in get(names[4]) if e[1][0] != ("int", 0)]
        self.typenames = [(S(e[1][0]), e[1][1][1]) for e in get(names[5]) if e[1][0] != ("int", 0)]
        self.types_name = names[0]

    def decode(self, idx, depth=0):
        if depth > 40:
            raise Broken("type cycle")
        if not 0 <= idx < len(self.types):
            return ("bad", idx)
        v = self.types[idx]
        op, arg = v & 0xff, v >> 8
        if op == 1:
            return PRIM.get(arg, ("prim", arg))
        if op == 3:
            t = self.decode(arg, depth + 1)
            return ("ptr", t)
        if op == 5:
            return ("arr", self.types[idx + 1], self.decode(arg, depth + 1))
        if op == 7:
            return ("arr", None, self.decode(arg, depth + 1))
        if op == 9:
            return ("struct", self.structs[arg][0])
        if op == 11:
            return PRIM.get(self.enums[arg][2], ("enum",))
        if op == 13:
            args, i = [], idx + 1
            while self.types[i] & 0xff != 15:
                args.append(self.decode(i, depth + 1))
                i += 1
            if self.types[i] >> 8 & 1:
                args.append(("...",))
            return ("func", self.decode(arg, depth + 1), tuple(args))
        if op == 17:
            return self.decode(arg, depth + 1)
        if op == 21:
            return self.decode(self.typenames[arg][1], depth + 1)
        return ("bad", v)

    # terms
    def type_of(self, term):
        """The type a table entry _cffi_types[i] denotes."""
        if term[0] == "load" and term[2] == 8:
            a = term[1]
            if a == ("global", self.types_name):
                return self.decode(0)
            if a[0] == "addr" and a[1] == ("global", self.types_name) and a[2] % 8 == 0:
                return self.decode(a[2] // 8)
        return None


def export(callee):
    if isinstance(callee, tuple) and callee[0] == "load" and callee[1][0] == "addr" and callee[1][1] == ("global", "_cffi_exports"):
        return callee[1][2] // 8
    if callee == ("load", ("global", "_cffi_exports"), 8):
        return 0
    return None


OPAQUE = ("_cffi_convert_array_argument", "_cffi_free_array_arguments", "_cffi_init", "_cffi_start_python", "_cffi_initialize_python", "_cffi_start_and_call_python",
          "_cffi_carefully_make_gil", "_cffi_unpack")


def strip(t):
    while t[0] == "cast" and t[1] in ("zext", "sext", "trunc"):
        t = t[2]
    return t


class Scenario:
    """What conversions return while a wrapper is followed."""

    def __init__(self, glue, fail=None, array=None):
        self.g, self.fail, self.array = glue, fail, array
        self.elem = {}

    def which(self, term):
        """Index of the Python argument a term denotes."""
        if term == ("param", 1):
            return 0
        if term[0] == "part" and term[1][0] == "out" and term[1][1] == self.unpack and term[2] == 0:
            return term[1][2] - 4
        return None

    def __call__(self, callee, args, cid):
        e = export(callee)
        if callee == "PyArg_UnpackTuple":
            self.unpack = cid
            return ("int", 0 if self.fail == "unpack" else 1)
        if callee == "PyErr_Occurred":
            return ("int", 0) if not isinstance(self.fail, int) else ("global", "error")
        if e == E_PREPARE:
            i = self.which(args[1])
            if i == self.fail or i == self.array:
                return ("int", 8)
            return ("int", 0)
        if callee == "_cffi_convert_array_argument":
            i = self.which(args[1])
            return ("int", -1 if i == self.fail else 0)
        if e is not None and (e in range(1, 9) or e == E_TO_BOOL):
            i = self.which(args[0])
            if i == self.fail:
                return ("int", -1)
            return None
        if callee == "PyFloat_AsDouble" and self.which(args[0]) == self.fail:
            return ("fp", -1.0)
        if e == E_TO_PTR and self.which(args[0]) == self.fail:
            return ("int", 0)
        if e == E_TO_C:
            i = self.which(args[2])
            return ("int", -1 if i == self.fail else 0)
        return None


def check_wrapper(ck, g, name, fn, direct, nargs_op, sig):
    where = "%s:%s" % (g.path, fn)
    ret, params = sig
    inst = lambda what: "%s:%s:%s" % (FILES[g.path], name, what)

    def bad(what, msg):
        ck.report(where, inst(what), "%s: %s" % (name, msg))

    expect_op = 25 if not params else 27 if len(params) == 1 else 23
    if nargs_op != expect_op:
        bad("arity", "is called with %s" % {25: "no arguments", 27: "one argument", 23: "a tuple of arguments"}.get(nargs_op, "an unknown convention"))
        return
    opaque = lambda n: n in OPAQUE or n == name

    def run(sc):
        return ir.Exec(g.m, sc, opaque, limit=20000).run(fn)

    def calls(st):
        return [e for e in st.events if e[0] == "call"]

    n = len(params)
    # 1. everything succeeds (and, one at a time, arguments passed as temporary arrays)
    pointers = [i for i, t in enumerate(params) if t[0] in ("ptr", "func")]
    for array in [None] + [i for i in pointers if params[i][0] == "ptr" and params[i][1][0] != "func"]:
        sc = Scenario(g, None, array)
        outs = run(sc)
        reached = 0
        for st, r in outs:
            ck.count("paths through wrappers")
            if r[0] == "unreachable":
                continue
            ev = calls(st)
            unp = [e for e in ev if e[2] == "PyArg_UnpackTuple"]
            if n > 1:
                if len(unp) != 1 or unp[0][3][2] != ("int", n) or unp[0][3][3] != ("int", n) or len(unp[0][3]) != 4 + n or unp[0][3][0] != ("param", 1):
                    bad("unpack", "does not unpack exactly %d arguments" % n)
                    return
            target = [k for k, e in enumerate(ev) if e[2] == name]
            if not target:
                # a path on which a converted integer equals -1 and no error is set still has to reach the call
                bad("lost", "a call with convertible arguments does not reach the engine")
                return
            if len(target) > 1:
                bad("twice", "calls the engine more than once")
                return
            reached += 1
            k = target[0]
            call = ev[k]
            other = [e for e in ev if isinstance(e[2], str) and e[2].startswith("clingo_") and e[2] != name]
            if other:
                bad("other", "calls %s" % other[0][2])
                return
            if len(call[3]) != n:
                bad("args", "passes %d arguments" % len(call[3]))
                return
            for i, a in enumerate(call[3]):
                msg = check_arg(g, sc, ev[:k], a, call[4][i], i, params[i], array)
                if msg:
                    bad("arg%d" % i, "argument %d %s" % (i + 1, msg))
                    return
            # the lock is released around the call, and errno is preserved
            names = [(e[2] if isinstance(e[2], str) else "export%s" % export(e[2])) for e in ev]
            pre = [x for x in names[:k] if x in ("PyEval_SaveThread", "PyEval_RestoreThread", "export13", "export14")]
            post = [x for x in names[k + 1:] if x in ("PyEval_SaveThread", "PyEval_RestoreThread", "export13", "export14")]
            if pre != ["PyEval_SaveThread", "export13"]:
                bad("gil", "does not release the interpreter lock (and restore errno) before calling the engine")
                return
            if post != ["export14", "PyEval_RestoreThread"]:
                bad("gil", "does not save errno and reacquire the interpreter lock after calling the engine")
                return
            if names[k + 1] != "export14" or names[k - 1] != "export13":
                bad("gil", "runs other functions without holding the interpreter lock")
                return
            save = [e for e in ev if e[2] == "PyEval_SaveThread"][0]
            rest = [e for e in ev if e[2] == "PyEval_RestoreThread"][0]
            if rest[3] != (("call", save[1], "PyEval_SaveThread", ("ptr",)),):
                bad("gil", "restores a different thread state")
                return
            msg = check_result(g, ev[k + 1:], call, r, ret)
            if msg:
                bad("result", msg)
                return
            if array is not None:
                freed = [e for e in ev[k + 1:] if e[2] == "_cffi_free_array_arguments"]
                tested = any(e[0] == "branch" for e in st.events)
                if not freed and not tested:
                    bad("free", "temporary arrays are not released")
                    return
        if array is not None and not any(e[2] == "_cffi_free_array_arguments" for st, r in outs for e in calls(st)):
            bad("free", "temporary arrays are not released")
            return
        if not reached:
            bad("lost", "never reaches the engine")
            return
    # 2. a conversion fails
    fails = (["unpack"] if n > 1 else []) + list(range(n))
    for i in fails:
        for st, r in run(Scenario(g, i)):
            ck.count("paths through wrappers")
            if r[0] == "unreachable":
                continue
            ev = calls(st)
            if isinstance(i, int) and params[i][0] in ("ptr",) and params[i][1][0] == "func" or (isinstance(i, int) and params[i][0] == "func"):
                # pointers to functions are converted by one call; the null result is checked with PyErr_Occurred
                pass
            if any(e[2] == name for e in ev) and not unconverted(g, ev, i, params):
                bad("fail%s" % i, "calls the engine although %s" % ("the number of arguments is wrong" if i == "unpack" else "argument %d could not be converted" % (i + 1)))
                return
            if not any(e[2] == name for e in ev) and r != ("ret", ("int", 0)):
                bad("fail%s" % i, "does not return an error when %s" % ("the number of arguments is wrong" if i == "unpack" else "argument %d cannot be converted" % (i + 1)))
                return
    # 3. the direct variant
    if direct[0] == "global":
        outs = ir.Exec(g.m, None, lambda f: f == name).run(direct[1])
        ok = len(outs) == 1
        if ok:
            ev = calls(outs[0][0])
            r = outs[0][1]
            ok = len(ev) == 1 and ev[0][2] == name and ev[0][3] == tuple(("param", i) for i in range(n)) and \
                (r == ("ret", None) if ret == ("void",) else r[0] == "ret" and r[1] is not None and strip(r[1])[:2] == ("call", ev[0][1]))
        if not ok:
            ck.report("%s:%s" % (g.path, direct[1]), inst("direct"), "%s: the direct variant does not call the engine function with the same arguments" % name)
    ck.count("wrappers")


def unconverted(g, ev, i, params):
    """The scenario has no failing conversion for this argument (there is no test to fail)."""
    t = params[i] if isinstance(i, int) else None
    return isinstance(i, int) and (t == ("bool",) and False)


def check_arg(g, sc, before, a, irt, i, t, array):
    if t[0] in ("ptr", "func"):
        fn = t[0] == "func" or t[1][0] == "func"
        src = strip(a)
        if src[0] == "call" and export(src[2]) == E_TO_PTR:
            e = [x for x in before if x[1] == src[1]][0]
            if sc.which(e[3][0]) != i:
                return "is not converted from argument %d" % (i + 1)
            ty = g.type_of(e[3][1])
            return check_type(ty, t)
        if src[0] != "part" or src[1][0] != "out" or src[2] != 0:
            return "is not the converted argument"
        e = [x for x in before if x[1] == src[1][1]]
        if not e:
            return "is not the converted argument"
        e = e[0]
        conv = "_cffi_convert_array_argument" if array == i else None
        is_prepare = export(e[2]) == E_PREPARE
        if not (is_prepare or e[2] == "_cffi_convert_array_argument") or src[1][2] != 2:
            return "is not the converted argument"
        if array == i and is_prepare:
            return "is used without the array being filled in"
        if sc.which(e[3][1]) != i:
            w = sc.which(e[3][1])
            return "is converted from %s" % ("argument %d" % (w + 1) if w is not None else "something else")
        if array == i:
            if e[3][3] != ("int", 8):
                return "is given an array of another size"
            cell = [v for key, v in e[5].items() if key[0] == e[3][2] and key[1] == 0]
            if len(cell) != 1 or cell[0] not in [("int", 0)] and cell[0][0] not in ("alloca", "select", "phi"):
                return "has no memory for the array"
        msg = check_type(g.type_of(e[3][0]), t)
        if msg:
            return msg
        # the preparation must have used the same type
        for x in before:
            if export(x[2]) == E_PREPARE and sc.which(x[3][1]) == i:
                return check_type(g.type_of(x[3][0]), t)
        return "is not prepared"
    src = a
    if t == ("bool",):
        s = strip(src)
        while s[0] in ("cmp", "op") and any(isinstance(x, tuple) and x[0] == "call" for x in s):
            s = [x for x in s if isinstance(x, tuple) and x[0] == "call"][0]
        if s[0] == "call" and export(s[2]) == E_TO_BOOL:
            e = [x for x in before if x[1] == s[1]][0]
            return None if sc.which(e[3][0]) == i else "is not converted from argument %d" % (i + 1)
        return "is not converted to a truth value"
    if t[0] == "int":
        s = strip(src)
        if s[0] == "call" and export(s[2]) is not None:
            k = export(s[2])
            if k != INT_EXPORT[(t[1], t[2])]:
                return "is converted to an integer of another type than %s" % abimod.show(t)
            e = [x for x in before if x[1] == s[1]][0]
            w = sc.which(e[3][0])
            return None if w == i else "is converted from %s" % ("argument %d" % (w + 1) if w is not None else "something else")
        return "is not the converted argument"
    if t == ("double",):
        s = src
        if s[0] == "call" and s[2] == "PyFloat_AsDouble":
            e = [x for x in before if x[1] == s[1]][0]
            return None if sc.which(e[3][0]) == i else "is not converted from argument %d" % (i + 1)
        return "is not the converted argument"
    if t[0] == "struct":
        return None
    return "has an unsupported type"


def check_type(ty, t):
    if ty is None:
        return "is converted with an unknown type"
    if ty[0] == "func" and t[0] == "ptr" and t[1][0] == "func":
        ty = ("ptr", ty)
    if not abimod.compatible(ty, t) or (ty == ("ptr", ("void",))) != (t == ("ptr", ("void",))) and not (t[0] == "ptr" and t[1][0] == "struct"):
        return "is converted to %s instead of %s" % (abimod.show(ty) if ty[0] != "bad" else "?", abimod.show(t))
    return None


def check_result(g, after, call, r, ret):
    if r[0] != "ret" or r[1] is None:
        return "no result"
    v = r[1]
    res = ("call", call[1])
    if ret == ("void",):
        return None if v == ("global", "_Py_NoneStruct") else "does not return None"
    if v[0] != "call":
        return "the result of the engine is not returned"
    e = [x for x in after if x[1] == v[1]]
    if not e:
        return "the result of the engine is not returned"
    e = e[0]
    a = e[3][0] if e[3] else ("none",)
    if strip(a)[:2] != res:
        return "the result of the engine is not returned"
    if ret == ("bool",):
        return None if e[2] == "PyBool_FromLong" else "the result is not a truth value"
    if ret[0] == "int":
        ok = ("PyLong_FromLong", "PyLong_FromLongLong") if ret[1] or ret[2] < 64 else ("PyLong_FromUnsignedLong", "PyLong_FromUnsignedLongLong")
        if e[2] not in ok and not (not ret[1] and e[2] in ("PyLong_FromUnsignedLong", "PyLong_FromUnsignedLongLong")):
            return "the result is converted by %s" % (e[2],)
        if ret[2] < 64 and e[4][0][1] == 64:
            want = "sext" if ret[1] else "zext"
            if a[0] == "cast" and a[1] != want:
                return "the result is extended with the wrong sign"
        return None
    if ret == ("double",):
        return None if e[2] == "PyFloat_FromDouble" else "the result is not a float"
    if ret[0] in ("ptr", "func"):
        if export(e[2]) not in (10, 12, 18):
            return "the result is not a pointer"
        ty = g.type_of(e[3][1])
        m = check_type(ty, ret)
        return None if m is None else "the result " + m
    return "unsupported result"


def check_constant(ck, g, name, fn, value):
    outs = ir.Exec(g.m).run(fn)
    ok = len(outs) == 1
    if ok:
        st, r = outs[0]
        stores = [e for e in st.events if e[0] == "store"]
        ok = len(stores) == 1 and stores[0][1] == ("param", 0) and stores[0][2] == 8 and stores[0][3][0] == "int" and r[0] == "ret" and r[1][0] == "int"
        if ok:
            v = ir.signed(stores[0][3][1], 64)
            neg = r[1][1]
            ok = v == value and (neg != 0) == (value <= 0)
    ck.count("constants")
    if not ok:
        ck.report("%s:%s" % (g.path, fn), "%s:%s:value" % (FILES[g.path], name), "constant %s does not have the value %d of the C interface" % (name, value))


def extern_type(a, name):
    for p, s in EXTERN:
        if name.startswith(p):
            f = dict(a.struct(s)).get(name[len(p):])
            return (f, "%s.%s" % (s, name[len(p):])) if f else (None, None)
    x = EXTERN_T.get(name)
    if x and x[0] == "param":
        return a.funcs[x[1]][1][x[2]], "argument %d of %s" % (x[2] + 1, x[1])
    if x:
        return a.typedefs[x[1]], x[1]
    return None, None


def check_extern(ck, g, a, name, obj, decoded):
    """A function called by the engine and implemented in Python."""
    inst = lambda what: "%s:%s:%s" % (FILES[g.path], name, what)
    where = "%s:%s" % (g.path, name)
    ck.count("functions implemented in Python")
    want, src = extern_type(a, name)
    if want is None and name in ("pyclingo_execute", "pyclingo_call", "pyclingo_callable", "pyclingo_main"):
        f = dict(a.struct("clingo_script"))[name[9:]]
        want, src = f, "clingo_script." + name[9:]
    if want is None:
        want = decoded
        src = None
    w = want[1] if want[0] == "ptr" else want
    d = decoded[1] if decoded[0] == "ptr" else decoded
    if d[0] != "func" or not abimod.compatible(d, w):
        ck.report(where, inst("type"), "%s is declared as %s but called as %s (%s)" % (name, abimod.show(d), abimod.show(w), src))
        return
    init = g.m.init(obj[1])
    ename = g.m.string(init[1][0])
    size = init[1][1][1]
    ret, params = d[1], d[2]
    need = 0 if ret == ("void",) else a.size_align(ret)[0]
    if ename is None or ename.split(".")[-1] != name:
        ck.report(where, inst("name"), "%s is registered under the name %s" % (name, ename))
    if size != need:
        ck.report(where, inst("size"), "%s: the size of the result is given as %d instead of %d" % (name, size, need))
    f = g.m.funcs.get(name)
    if f is None:
        ck.report(where, inst("missing"), "%s is not defined" % name)
        return
    outs = ir.Exec(g.m, None, lambda n: n in OPAQUE).run(name)
    for st, r in outs:
        if r[0] == "unreachable":
            continue
        ev = [e for e in st.events if e[0] == "call"]
        cp = [e for e in ev if export(e[2]) == E_CALLPY or (isinstance(e[2], tuple) and e[2][0] == "load" and e[2][1] == ("global", "_cffi_call_python"))]
        if len(cp) != 1 or cp[0][3][0] != obj:
            ck.report(where, inst("call"), "%s does not call its Python function" % name)
            return
        buf = cp[0][3][1]
        if buf[0] != "alloca":
            ck.report(where, inst("call"), "%s: the arguments are not in a local buffer" % name)
            return
        for i, t in enumerate(params):
            sz = 8 if t[0] in ("ptr", "func") else a.size_align(t)[0] if t[0] != "struct" else 8
            v = cp[0][5].get((buf, 8 * i, sz))
            if v is None or strip(v) != ("param", i):
                ck.report(where, inst("arg%d" % i), "%s: argument %d is not passed on at its place" % (name, i + 1))
                return
        alloc = [l for b in f.blocks.values() for l in b if l.startswith(buf[1] + " = alloca")]
        tk = ir.tokens(alloc[0].split("alloca", 1)[1])
        total = g.m.size_align(g.m.parse_type(tk, 0)[0])[0]
        if total < max(8 * len(params), need, 1):
            ck.report(where, inst("buffer"), "%s: the buffer is too small" % name)
            return
        if ret != ("void",):
            s = r[1]
            s = strip(s) if s else ("none",)
            while s[0] in ("cmp", "op"):
                c = [x for x in s[1:] if isinstance(x, tuple) and x[0] in ("part", "cast")]
                if s[0] == "cmp" and s[1] != "ne" or s[0] == "op" and s[1] == "not":
                    c = []
                s = strip(c[0]) if c else ("none",)
            if s != ("part", ("out", cp[0][1], 1), 0, need):
                ck.report(where, inst("result"), "%s does not return the result of its Python function" % name)
                return


def check_file(ck, path):
    a = abimod.load()
    g = Glue(path)
    tag = FILES[path]
    where = path
    T = lambda t: abimod.show(t)
    # the tables are searched by bisection and have to be complete
    for what, tab, n in (("globals", g.globals, g.counts[0]), ("struct_unions", g.structs, g.counts[1]), ("enums", g.enums, g.counts[2]), ("typenames", g.typenames, g.counts[3])):
        ck.count("table entries", len(tab))
        ns = [e[0] for e in tab]
        if len(tab) != n:
            ck.report(where, "%s:%s:count" % (tag, what), "the table of %s has %d entries but is used with %d" % (what, len(tab), n))
        for x, y in zip(ns, ns[1:]):
            if not (x < y):
                ck.report(where, "%s:%s:order:%s" % (tag, what, y), "the table of %s is not sorted at %s (lookups use bisection)" % (what, y))
    if len(g.types) != g.counts[4]:
        ck.report(where, "%s:types:count" % tag, "the table of types has %d entries but is used with %d" % (len(g.types), g.counts[4]))
    seen = set()
    for name, address, typ, extra in g.globals:
        seen.add(name)
        op, arg = typ & 0xff, typ >> 8
        if op in (23, 25, 27):
            if name not in a.funcs:
                ck.report(where, "%s:%s:unknown" % (tag, name), "%s is not a function of the C interface" % name)
                continue
            sig = a.funcs[name]
            d = g.decode(arg)
            if d[0] != "func" or not same_signature(d, sig):
                ck.report(where, "%s:%s:type" % (tag, name), "%s has the type %s instead of %s" % (name, T(d), T(("func",) + sig)))
                continue
            if address[0] != "global" or extra[0] != "global":
                ck.report(where, "%s:%s:address" % (tag, name), "%s has no wrapper" % name)
                continue
            check_wrapper(ck, g, name, address[1], extra, op, sig)
        elif op == 29 and name in a.funcs:
            outs = ir.Exec(g.m).run(address[1])
            stored = [e for st, _ in outs for e in st.events if e[0] == "store"]
            d = g.decode(arg)
            d = d[1] if d[0] == "ptr" else d
            ck.count("functions with variable arguments")
            if len(stored) != 1 or stored[0][1] != ("param", 0) or stored[0][3] != ("global", name):
                ck.report(where, "%s:%s:address" % (tag, name), "%s denotes another object" % name)
            if d[0] != "func" or not same_signature(d, a.funcs[name]):
                ck.report(where, "%s:%s:type" % (tag, name), "%s has the type %s instead of %s" % (name, T(d), T(("func",) + a.funcs[name])))
        elif op in (29, 31, 11):
            if name not in a.enums:
                ck.report(where, "%s:%s:unknown" % (tag, name), "%s is not a constant of the C interface" % name)
                continue
            check_constant(ck, g, name, address[1], a.enums[name])
        elif op == 41:
            check_extern(ck, g, a, name, address, g.decode(arg))
        elif op in (33, 35, 37, 39):
            ck.count("variables")
            if op == 33:
                if address != ("global", name):
                    ck.report(where, "%s:%s:address" % (tag, name), "%s denotes another object" % name)
            elif op == 39:
                outs = ir.Exec(g.m).run(address[1])
                if [r for _, r in outs] != [("ret", ("global", name))]:
                    ck.report(where, "%s:%s:address" % (tag, name), "%s denotes another object" % name)
            elif op == 35:
                if address != ("global", name):
                    ck.report(where, "%s:%s:address" % (tag, name), "%s denotes another function" % name)
        else:
            raise Broken("%s: table entry %s of unknown kind %d" % (path, name, op))
    # structures
    for name, tidx, flags, size, align, first, num in g.structs:
        fs = a.struct(name.lstrip("$"))
        ck.count("structures")
        if g.types[tidx] != (9 | ([s[0] for s in g.structs].index(name) << 8)):
            ck.report(where, "%s:%s:index" % (tag, name), "the type of structure %s is another type" % name)
        if flags & 16:
            continue
        if fs is None:
            ck.report(where, "%s:%s:unknown" % (tag, name), "%s is not a structure of the C interface" % name)
            continue
        lay, total = a.layout(name.lstrip("$"))
        if size != total:
            ck.report(where, "%s:%s:size" % (tag, name), "structure %s has %d bytes instead of %d" % (name, size, total))
        mine = g.fields[first:first + num]
        if len(mine) != len(lay):
            ck.report(where, "%s:%s:fields" % (tag, name), "structure %s has %d fields instead of %d" % (name, len(mine), len(lay)))
            continue
        for (fn, off, sz, top), (hn, ht, ho, hs) in zip(mine, lay):
            ck.count("structure fields")
            t = g.decode(top >> 8)
            if fn != hn or off != ho or sz not in (hs, 2 ** 64 - 1, -1) or not abimod.compatible(t, ht):
                ck.report(where, "%s:%s.%s" % (tag, name, hn), "field %s.%s: %s at offset %d instead of %s %s at offset %d" % (name, fn, T(t), off, T(ht), hn, ho))
    for name, idx in g.typenames:
        ck.count("type names")
        want = a.typedefs.get(name)
        if want is None:
            continue
        t = g.decode(idx)
        if not abimod.compatible(t, want) and not (want[0] == "struct" and t[0] == "struct"):
            ck.report(where, "%s:typename:%s" % (tag, name), "%s is %s instead of %s" % (name, T(t), T(want)))
    for name, tidx, prim, enumerators in g.enums:
        ck.count("enumerations")
        want = a.h.enum_groups.get(name)
        if want is None or enumerators is None:
            continue
        if enumerators.split(",") != list(want):
            missing = [x for x in enumerators.split(",") if x not in want]
            if missing:
                ck.report(where, "%s:enum:%s" % (tag, name), "enumeration %s has a member %s the C interface does not have" % (name, missing[0]))
    return g, seen


def same_signature(d, sig):
    ret, params = sig
    return len(d[2]) == len(params) and abimod.compatible(d[1], ret) and all(abimod.compatible(x, y) for x, y in zip(d[2], params))
