"""Checks A01-A03: the C interface, the compiled part of the Python API, and the registration of the scripting languages."""
import ast, glob, json, os, re, tempfile
import abi as abimod, cheader, glue
import irprog as ir
from common import Broken, Check, REPO, VERIF

SPEC = os.path.join(VERIF, "spec", "abi.json")


# ---------------------------------------------------------------- A01
def describe():
    a = abimod.load()
    S = abimod.show
    structs = {}
    for n in a.structs:
        lay, size = a.layout(n)
        structs[n] = {"size": size, "fields": [[f, S(t), o] for f, t, o, _ in lay]}
    return {"functions": {n: S(("func",) + s) for n, s in sorted(a.funcs.items())},
            "enumerators": dict(sorted(a.enums.items())),
            "enumerations": {n: sorted(g) for n, g in sorted(a.h.enum_groups.items())},
            "structures": structs,
            "types": {n: S(t) for n, t in sorted(a.typedefs.items())}}


def interface():
    ck = Check("A01", "functions, types, structures and constants declared in clingo.h are those of the binary interface")
    spec = json.load(open(SPEC))
    cur = describe()
    for n, sig in spec["functions"].items():
        ck.count("functions")
        c = cur["functions"].get(n)
        if c is None:
            ck.report("libclingo/clingo.h", "function:" + n, "function %s is not declared" % n)
        elif c != sig:
            ck.report("libclingo/clingo.h", "function:" + n, "function %s is declared as %s instead of %s" % (n, c, sig))
    for n, v in spec["enumerators"].items():
        ck.count("constants")
        c = cur["enumerators"].get(n)
        if c != v:
            ck.report("libclingo/clingo.h", "constant:" + n, "constant %s is %s instead of %d" % (n, "not declared" if c is None else c, v))
    for n, ms in spec["enumerations"].items():
        ck.count("enumerations")
        vals = {}
        for m in cur["enumerations"].get(n, ()):
            vals.setdefault(cur["enumerators"][m], []).append(m)
        base = {}
        for m in ms:
            base.setdefault(spec["enumerators"][m], []).append(m)
        for v, names in vals.items():
            if len(names) > 1 and len(names) > len(base.get(v, names)):
                ck.report("libclingo/clingo.h", "enumeration:%s:%s" % (n, names[-1]), "members %s of %s have the same value" % (" and ".join(names), n))
    for n, s in spec["structures"].items():
        ck.count("structures")
        c = cur["structures"].get(n)
        if c is None:
            ck.report("libclingo/clingo.h", "structure:" + n, "structure %s is not defined" % n)
            continue
        ck.count("fields", len(s["fields"]))
        for (f, t, o), (cf, ct, co) in zip(s["fields"], c["fields"]):
            if (f, t, o) != (cf, ct, co):
                ck.report("libclingo/clingo.h", "structure:%s:%s" % (n, f), "%s has a field %s %s at %d instead of %s %s at %d" % (n, ct, cf, co, t, f, o))
                break
        else:
            if len(s["fields"]) != len(c["fields"]) or s["size"] != c["size"]:
                ck.report("libclingo/clingo.h", "structure:%s" % n, "%s has %d bytes instead of %d" % (n, c["size"], s["size"]))
    for n, t in spec["types"].items():
        ck.count("types")
        c = cur["types"].get(n)
        if c != t:
            ck.report("libclingo/clingo.h", "type:" + n, "type %s is %s instead of %s" % (n, c or "not declared", t))
    ck.need("functions", 230)
    ck.need("constants", 220)
    ck.need("structures", 10)
    ck.finish("The declarations of clingo.h, resolved by clang to canonical types, against the recorded binary interface of the engine (spec/abi.json): every function with its "
              "parameter and result types, every constant with its value, every structure with the order, type and offset of its fields, every type name.")


# ---------------------------------------------------------------- A02
def used_names():
    """Names the Python modules use from the compiled module: {name: file:line}"""
    out, types = {}, {}
    for p in sorted(glob.glob(os.path.join(REPO, "libpyclingo/clingo/*.py"))):
        tree = ast.parse(open(p).read())
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ("_lib", "lib"):
                out.setdefault(n.attr, "libpyclingo/clingo/%s:%d" % (os.path.basename(p), n.lineno))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("_ffi", "ffi") and \
                    n.func.attr in ("new", "cast") and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                for w in re.findall(r"\bclingo_\w+", n.args[0].value):
                    types.setdefault(w, "libpyclingo/clingo/%s:%d" % (os.path.basename(p), n.lineno))
    return out, types


def compiled():
    ck = Check("A02", "the wrappers and tables of the compiled part of the Python API are faithful to clingo.h")
    used, types = used_names()
    for path, tag in glue.FILES.items():
        g, seen = glue.check_file(ck, path)
        for n, where in used.items():
            ck.count("names used by the Python modules")
            if n not in seen:
                ck.report(where, "%s:%s:used" % (tag, n), "%s is used but not provided by %s" % (n, path))
        names = {n for n, _ in g.typenames} | {s[0] for s in g.structs}
        for n, where in types.items():
            ck.count("types used by the Python modules")
            if n not in names:
                ck.report(where, "%s:%s:type used" % (tag, n), "the type %s is used but not provided by %s" % (n, path))
        init = g.m.funcs.get("PyInit__clingo")
        if init is None:
            ck.report(path, "%s:init" % tag, "the module initialisation is missing")
        else:
            ok, reached = True, 0
            for st, r in ir.Exec(g.m, None, lambda n: n in glue.OPAQUE and n != "_cffi_init").run("PyInit__clingo"):
                ev = [e for e in st.events if e[0] == "call"]
                call = [e for e in ev if e[2] == "PyObject_CallMethod"]
                vp = [e for e in ev if e[2] == "PyLong_FromVoidPtr"]
                for e in vp:
                    cells = {k[1]: v for k, v in e[5].items() if k[0] == e[3][0]}
                    ok = ok and cells.get(0) is not None and g.m.string(cells[0]) == "_clingo" and cells.get(16) == ("global", "_cffi_exports") and \
                        cells.get(24) == ("global", "_cffi_type_context")
                if call:
                    reached += 1
                    ok = ok and len(call) == 1 and g.m.string(call[0][3][1]) == "_init_cffi_1_0_external_module" and r[0] == "ret" and r[1] is not None and r[1][:2] == ("call", call[0][1])
                else:
                    ok = ok and r == ("ret", ("int", 0))
            ok = ok and reached > 0
            if not ok:
                ck.report(path, "%s:init" % tag, "the module initialisation does not register the tables of the module")
    ck.need("wrappers", 450)
    ck.need("constants", 400)
    ck.need("functions implemented in Python", 80)
    ck.need("structure fields", 100)
    ck.finish("Both copies of _clingo.c are compiled to LLVM IR. Every wrapper is followed along all paths under the scenarios 'all arguments can be converted', 'argument i is "
              "passed as a temporary array', 'argument i cannot be converted': the engine function of that name is called once with argument i converted from Python argument i with "
              "the type clingo.h declares, with the interpreter lock released, the result converted with its type, and not at all if a conversion fails. Tables (functions, "
              "constants, structures with offsets, enumerations, types) and functions implemented in Python (argument buffers, result sizes, types of the callbacks they are "
              "passed as) are compared with the declarations in clingo.h.")


# ---------------------------------------------------------------- A03
def events(st, kind="call"):
    return [e for e in st.events if e[0] == kind]


def embedding():
    ck = Check("A03", "the scripting languages are registered completely and under their names; programs stop if registering fails")
    a = abimod.load()
    off = {f: o for f, _, o, _ in a.layout("clingo_script")[0]}
    inc = [os.path.join(REPO, "libclingo"), os.path.join(REPO, "libpyclingo"), os.path.join(REPO, "libluaclingo")]
    with tempfile.TemporaryDirectory(prefix="vp_inc_") as d:
        open(os.path.join(d, "version.h"), "w").write('#define PYCLINGO_PYTHON_VERSION "9.8.7"\n')
        py = ir.compile_ir(os.path.join(REPO, "libpyclingo/pyclingo.c"), inc + [d])
    register_python(ck, py, off)
    lib = glue.Glue("libpyclingo/_clingo.c")
    library(ck, lib)
    for path in ("app/clingo/main.cc",):
        for conf in ((), ("PYTHON",), ("LUA",), ("PYTHON", "LUA")):
            m = ir.compile_ir(os.path.join(REPO, path), inc + [glue.python_include()] + lua_include(), ["CLINGO_WITH_" + c for c in conf])
            main_program(ck, path, m, conf)
    m = ir.compile_ir(os.path.join(REPO, "app/luaclingo/main.cc"), inc + lua_include())
    lua_module(ck, m)
    ck.need("programs", 4)
    ck.need("members of the script structure", 6)
    ck.finish("libpyclingo/pyclingo.c, libpyclingo/_clingo.c, app/clingo/main.cc (with each combination of scripting languages) and app/luaclingo/main.cc are compiled to LLVM IR "
              "and followed along all paths, with registration succeeding and failing: members of the registered structure, names, arguments, error messages and results.")


def lua_include():
    for d in ("/usr/include/lua5.3", "/usr/include/lua5.4", "/usr/include/lua5.2", "/usr/include/lua"):
        if os.path.exists(os.path.join(d, "lua.h")):
            return [d]
    return []


def register_python(ck, m, off):
    where = "libpyclingo/pyclingo.c:clingo_register_python_"
    want = {"execute": "pyclingo_execute", "call": "pyclingo_call", "callable": "pyclingo_callable", "main": "pyclingo_main"}
    x = ir.Exec(m, None, lambda n: n == "pyclingo_free_")
    for st, r in x.run("clingo_register_python_"):
        ev = [e for e in events(st) if e[2] == "clingo_register_script"]
        if len(ev) != 1:
            ck.report(where, "register", "the Python script is not registered exactly once")
            return
        e = ev[0]
        if m.string(e[3][0]) != "python":
            ck.report(where, "name", "the script language is registered as %r" % m.string(e[3][0]))
        if r[0] != "ret" or r[1] is None or glue.strip(r[1])[:2] != ("call", e[1]):
            ck.report(where, "result", "the success of registering is not returned")
        cells = {k[1]: v for k, v in e[5].items() if k[0] == e[3][1]}
        if e[3][1][0] == "global":
            v = m.init(e[3][1][1])
            cells = {8 * i: t for i, t in enumerate(v[1])}
        for f, o in off.items():
            ck.count("members of the script structure")
            c = cells.get(o)
            if f in want:
                if c != ("global", want[f]):
                    ck.report(where, "member:" + f, "the member %s of the script is %s" % (f, c[1] if c and len(c) > 1 else "not set"))
            elif f == "version":
                if c is None or m.string(c) != "9.8.7":
                    ck.report(where, "member:version", "the version of the script is not the version of Python")
            elif f == "free":
                if c is None or c[0] != "global" or c[1] not in m.funcs:
                    ck.report(where, "member:free", "the script has no function to release it")
                else:
                    for st2, _ in ir.Exec(m).run(c[1]):
                        if [x[2] for x in events(st2)] != ["pyclingo_finalize"]:
                            ck.report("libpyclingo/pyclingo.c:" + c[1], "finalize", "releasing the script does not finalize Python exactly once")


def library(ck, g):
    m = g.m
    for n in ("pyclingo_execute", "pyclingo_call", "pyclingo_callable", "pyclingo_main"):
        ck.count("exported functions")
        f = m.funcs.get(n)
        if f is None or f.internal:
            ck.report("libpyclingo/_clingo.c:" + n, "export:" + n, "%s is not visible to the function registering the script" % n)
    f = "pyclingo_finalize"
    where = "libpyclingo/_clingo.c:" + f
    if f not in m.funcs:
        ck.report(where, "finalize", "pyclingo_finalize is not defined")
    else:
        for init in (0, 1):
            for st, r in ir.Exec(m, lambda c, a, i: ("int", init) if c == "Py_IsInitialized" else None).run(f):
                names = [e[2] for e in events(st)]
                fin = [x for x in names if x in ("Py_Finalize", "Py_FinalizeEx")]
                if init and (len(fin) != 1 or "PyGILState_Ensure" not in names or names.index("PyGILState_Ensure") > names.index(fin[0])):
                    ck.report(where, "finalize", "Python is not finalized with the interpreter lock held")
                if not init and fin:
                    ck.report(where, "finalize", "Python is finalized although it is not initialized")
    v = m.init("_CFFI_PYTHON_STARTUP_CODE")
    if v[0] != "bytes":
        raise Broken("start-up code not understood")
    try:
        tree = ast.parse(v[1].split(b"\0")[0].decode())
    except (SyntaxError, UnicodeDecodeError) as e:
        ck.report("libpyclingo/_clingo.c:_CFFI_PYTHON_STARTUP_CODE", "startup:syntax", "the start-up code is not a Python program: %s" % e)
        return
    ck.count("start-up statements", len(tree.body))
    mods, cwd = set(), False
    for s in tree.body:
        if isinstance(s, ast.Import):
            mods |= {x.name for x in s.names}
        if isinstance(s, ast.ImportFrom) and s.module:
            mods.add(s.module)
            mods |= {s.module + "." + x.name for x in s.names}
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) == "sys.path.insert" and len(s.value.args) == 2:
            cwd = ast.unparse(s.value.args[0]) == "0" and ast.unparse(s.value.args[1]) == "os.getcwd()"
        if isinstance(s, ast.Assign) and ast.unparse(s) in ("sys.path[0:0] = [os.getcwd()]", "sys.path = [os.getcwd()] + sys.path"):
            cwd = True
    if "clingo.script" not in mods:
        ck.report("libpyclingo/_clingo.c:_CFFI_PYTHON_STARTUP_CODE", "startup:script", "starting Python does not load the functions running scripts (clingo.script)")
    if not cwd or not {"os", "sys"} <= mods:
        ck.report("libpyclingo/_clingo.c:_CFFI_PYTHON_STARTUP_CODE", "startup:path", "starting Python does not put the working directory first on the module path")


def main_program(ck, path, m, conf):
    regs = [("clingo_register_%s_" % c.lower()) for c in conf]
    tag = "+".join(conf) or "none"
    where = path + ":main"
    ck.count("programs")
    for fail in [None] + regs:
        def oracle(c, args, cid):
            if c in regs:
                return ("int", 0 if c == fail else 1)
            return None
        for st, r in ir.Exec(m, oracle).run("main"):
            ck.count("paths through programs")
            if r[0] != "ret":
                continue
            ev = events(st)
            names = [e[2] for e in ev]
            expect = regs[:regs.index(fail) + 1] if fail else regs
            got = [n for n in names if n in ("clingo_register_python_", "clingo_register_lua_")]
            if sorted(got) != sorted(expect) and not (fail and fail in got and len(set(got)) == len(got)):
                ck.report(where, "register:%s" % tag, "with %s: registers %s" % (tag, ", ".join(got) or "nothing"))
                continue
            for e in ev:
                if e[2] == "clingo_register_lua_" and e[3] != (("int", 0),):
                    ck.report(where, "lua state:%s" % tag, "the Lua script is registered with a foreign state")
            mains = [e for e in ev if e[2] == "clingo_main_"]
            if fail is None:
                if len(mains) != 1 or mains[0][3] != (("param", 0), ("param", 1)):
                    ck.report(where, "main:%s" % tag, "does not run the program once with its arguments")
                elif r[1] is None or r[1][:2] != ("call", mains[0][1]):
                    ck.report(where, "exit:%s" % tag, "does not exit with the code of the program")
                elif names.index("clingo_main_") < max([names.index(x) for x in got], default=-1):
                    ck.report(where, "order:%s" % tag, "runs the program before registering the script languages")
            else:
                if mains:
                    ck.report(where, "failed:%s:%s" % (tag, fail), "continues although %s failed" % fail)
                    continue
                if r[1] is None or r[1][0] != "int" or r[1][1] == 0:
                    ck.report(where, "failed exit:%s:%s" % (tag, fail), "reports success although %s failed" % fail)
                msgs = [e for e in ev if e[2] == "clingo_error_message"]
                shown = [e for e in ev if any(glue.strip(x)[:2] == ("call", y[1]) for x in e[3] for y in msgs)]
                if not shown or not any(x == ("global", "_ZSt4cerr") for e in shown for x in e[3]):
                    ck.report(where, "failed message:%s:%s" % (tag, fail), "does not print the error message when %s fails" % fail)


def lua_module(ck, m):
    where = "app/luaclingo/main.cc:luaopen_clingo"
    f = m.funcs.get("luaopen_clingo")
    ck.count("programs")
    if f is None or f.internal:
        ck.report(where, "luaopen", "luaopen_clingo is not exported")
        return
    for st, r in ir.Exec(m).run("luaopen_clingo"):
        ev = [e for e in events(st) if e[2] in ("clingo_register_lua_", "clingo_init_lua_")]
        if [e[2] for e in ev] != ["clingo_register_lua_", "clingo_init_lua_"] or any(e[3] != (("param", 0),) for e in ev):
            ck.report(where, "luaopen", "does not register the script language and initialise the module with the state it is given")
        elif r[0] != "ret" or r[1] is None or r[1][:2] != ("call", ev[1][1]):
            ck.report(where, "luaopen result", "does not return the result of initialising the module")
