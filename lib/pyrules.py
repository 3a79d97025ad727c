"""Structural rules over the abstract paths of the Python binding (independent of the specification of single operations)."""
import ast, collections
import summ, pysum
from pyeval import show, walk_own


def flat(evs):
    """Engine events of a path in order, including those in loop bodies: (event, uid)."""
    for e, u in evs:
        if e[0] == "loop":
            for per, x in e[2]:
                yield from flat(x)
        elif e[0] == "loop*":
            yield from flat(e[2])
        else:
            yield e, u


def where(f, name):
    return f"libpyclingo/clingo/{f.mod}.py:{f.node.lineno} {name}"


def all_paths(M):
    for name, f, cls, kind in M.entries:
        for p in M.paths(name):
            yield name, f, p


def own_tree(M):
    c = M.it
    return c


# ------------------------------------------------------------------ P01

def errors(c, M):
    """Every fallible engine call is checked on every path; a failed one ends the operation by an exception."""
    calls = set()
    for name, f, p in all_paths(M):
        evs = list(flat(p["events"]))
        c.count("abstract paths")
        for i, (e, u) in enumerate(evs):
            if e[0] != "call" or not M.h.fallible(e[1]):
                continue
            calls.add((name, e[1]))
            c.count("fallible engine calls on paths")
            if u not in p["checked"]:
                c.report(where(f, name), f"{name}:{e[1]}:unchecked", f"result of {e[1]} is not checked on the path {summ.describe(p['conds'], show)[:200]}")
                continue
            if p["checked"][u]:
                continue
            c.count("failing calls followed to the end of the operation")
            if p["out"][0] != "raise" and not name.startswith("onerror:"):
                c.report(where(f, name), f"{name}:{e[1]}:swallowed", f"failure of {e[1]} does not raise an exception but returns {summ.show_out(p['out'], show)[:120]}")
            for e2, u2 in evs[i + 1:]:
                if e2[0] == "call" and not summ.is_query(e2[1]) and u2 != u and not e2[1].endswith(("_close", "_free", "_release")):
                    c.report(where(f, name), f"{name}:{e[1]}:continued", f"{e2[1]} is still called after {e[1]} failed")
    c.count("operation/engine call pairs", len(calls))
    c.count("recognised error checkers", sum(1 for v in M.it.checkers.values() if v))
    for q, a in M.it.arity:
        c.report(q, f"{q}:arity", f"engine function called with a wrong number of arguments: {a}")


# ------------------------------------------------------------------ P02

def holder_of(t):
    """The object whose error slot a handler argument refers to."""
    if isinstance(t, tuple) and t and t[0] == "inst":
        d = dict(t[2])
        if "_error" in d and d["_error"][0] != "c":
            return d["_error"]
        for k, v in d.items():
            if k.startswith("_err") and v[0] != "c":
                return v
    return t


def callbacks(c, M, notify):
    names = {k.split(":", 1)[1] for k in M.byname if k.startswith("callback:")}
    used = set()
    kind_of = {name: kind for name, f, cls, kind in M.entries}      # helpers are followed from the operations that use them
    # methods that reset an error holder
    clears = set()
    for name, f, cls, kind in M.entries:
        if name.startswith("internal:_internal.") and cls and all(
                p["out"] == ("ret", ("c", None)) and [e[0] for e, _ in p["events"]] == ["store"] and p["events"][0][0][3] == ("c", None) for p in M.paths(name)):
            if len(pysum.positional(f)) == 1:
                clears.add(f.name)
    # calls that can run callbacks pass the holder of the callback's exception
    for name, f, p in all_paths(M):
        evs = list(flat(p["events"]))
        for e, _ in evs:
            for t in summ.walk(e):
                if len(t) == 2 and t[0] == "lib" and isinstance(t[1], str) and t[1].startswith("pyclingo_"):
                    used.add(t[1])
        if p["out"][:2] != ("raise", "EngineError") or p["out"][2] not in notify:
            continue
        fn, h = p["out"][2], p["out"][3]
        c.count("failing calls that may have run a callback")
        if h in (("c", None), None):
            c.report(where(f, name), f"{name}:{fn}:handler", f"an exception raised by a callback during {fn} is not re-raised (no error holder passed)")
            continue
        if kind_of.get(name) == "internal" or name.startswith("solving.SolveHandle"):
            continue           # the holder belongs to the search, which was started with a cleared one
        hold = holder_of(h)
        if hold[0] == "inst" or fn in ("clingo_solve_handle_close", "clingo_solve_handle_get", "clingo_solve_handle_core", "clingo_solve_handle_last", "clingo_solve_handle_model"):
            continue           # created afresh for this call, or belongs to the search started before
        fresh = False
        for e, _ in evs:
            if e[0] == "store" and e[1] == hold and e[3] == ("c", None):
                fresh = True
            if e[0] == "ucall" and e[1][:2] == ("attr", hold) and e[1][2] in clears:
                fresh = True
            if e[0] == "call" and e[1] == fn:
                break
        if not fresh:
            c.report(where(f, name), f"{name}:{fn}:stale", f"the error holder is not cleared before {fn}: an old exception could be re-raised")
        # data passed to the call shares the error slot with the holder
        for e, _ in evs:
            if e[0] == "call" and e[1] == fn:
                for t in summ.walk(e):
                    if t and t[0] == "newhandle" and t[1][0] == "inst" and "_error" in dict(t[1][2]):
                        if holder_of(t[1]) != hold:
                            c.report(where(f, name), f"{name}:{fn}:slot", f"the callback of {fn} stores its exception in {show(holder_of(t[1]))} but {show(hold)} is inspected")
    for n in sorted(used):
        c.count("callbacks handed to the engine")
        if n not in names:
            c.report(n, f"{n}:undefined", "callback is handed to the engine but never defined")
    for name, f, cls, kind in M.entries:
        if kind != "callback":
            continue
        cb = name.split(":", 1)[1]
        c.count("callbacks")
        if "onerror:" + cb not in M.byname:
            c.report(where(f, name), f"{name}:onerror", "no error handler: an exception in the callback is printed and ignored")
            continue
        # the handler finds the holder through a parameter of the callback
        ps = set(pysum.positional(f))
        for p in M.paths("onerror:" + cb):
            for t in summ.walk(tuple(e for e, _ in flat(p["events"]))):
                if t and t[0] == "item" and len(t) == 3 and isinstance(t[1], tuple) and t[1][:1] == ("attr",) and t[1][-1] == "f_locals":
                    c.count("error handler look-ups")
                    key = t[2][1] if t[2][0] == "c" else None
                    if key not in ps:
                        c.report(where(f, name), f"{name}:param", f"the error handler looks up '{key}', which is not a parameter of the callback")
                    else:
                        for n in walk_own(f.node):
                            tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)) else []
                            for x in tg:
                                for y in ast.walk(x):
                                    if isinstance(y, ast.Name) and y.id == key and isinstance(y.ctx, ast.Store):
                                        c.report(where(f, name), f"{name}:rebound", f"'{key}' is reassigned in the callback: the error handler finds a different object")


# ------------------------------------------------------------------ P05

def enums(c, M, spec):
    """Enum members stand for the constants of the C interface they are documented for."""
    new = M.consts()
    for k, v in spec.items():
        if not k.startswith("const:"):
            continue
        n = k[6:]
        c.count("enumeration members")
        mod, cls, mem = n.split(".")
        node = M.pkg.class_nodes.get((mod, cls))
        w = f"libpyclingo/clingo/{mod}.py:{node.lineno if node else 0} {n}"
        if n not in new:
            c.report(w, f"{n}:missing", "member does not exist any more")
        elif new[n] != v and not summ.is_opaque(new[n]):
            c.report(w, f"{n}:value", f"member stands for {show(new[n])} instead of {show(v)}")
    by = collections.defaultdict(dict)
    for n, v in new.items():
        mod, cls, mem = n.split(".")
        if isinstance(v, tuple) and v[0] == "lib":
            x = M.h.enums.get(v[1])
            if x is None:
                c.report(n, f"{n}:unknown", f"{v[1]} is not declared in clingo.h")
                continue
            if x in by[(mod, cls)]:
                c.report(n, f"{n}:duplicate", f"{mem} and {by[(mod, cls)][x]} have the same value")
            by[(mod, cls)][x] = mem
    c.count("enumerations", len(by))


# ------------------------------------------------------------------ P07

def ownership(c, M):
    """Memory allocated for the engine stays referenced as long as the engine can reach it."""
    for f in list(M.pkg.funcs.values()) + [g for k in M.pkg.classes.values() for g in k.values()]:
        todo = [f.node] + [n for n in ast.walk(f.node) if isinstance(n, ast.FunctionDef) and n is not f.node]
        for fn in todo:
            own_fun(c, M, f, fn)


def is_alloc(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("new", "new_handle") and \
        (isinstance(n.func.value, ast.Name) and n.func.value.id == "_ffi" or isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "_ffi")


def strip_cond(n):
    """Alternatives of a conditional expression."""
    if isinstance(n, ast.IfExp):
        return strip_cond(n.body) + strip_cond(n.orelse)
    if isinstance(n, ast.NamedExpr):
        return strip_cond(n.value)
    return [n]


def own_fun(c, M, f, fn):
    extern = any(isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "def_extern" for d in fn.decorator_list)
    body = [x for s in fn.body for x in _own(s)]
    cdata, pyobj, allocvar, contained = set(), set(), {}, set()
    for _ in range(3):
        for n in body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                t = n.targets[0].id
                for v in strip_cond(n.value):
                    if is_alloc(v):
                        cdata.add(t)
                        allocvar.setdefault(t, []).append(n)
                    elif isinstance(v, (ast.List, ast.ListComp, ast.Dict, ast.Tuple)):
                        pyobj.add(t)
                    elif isinstance(v, (ast.Subscript, ast.Attribute)) and root(v) in cdata:
                        cdata.add(t)
            if isinstance(n, (ast.For, ast.comprehension)):
                vs = loop_vars(n.target, n.iter)
                for a, it in vs:
                    if isinstance(it, ast.Name) and it.id in cdata:
                        cdata.add(a)
    for n in body:
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "add"):
            for a in n.args:
                for x in ast.walk(a):
                    if isinstance(x, ast.Name):
                        contained.add(x.id)
        if isinstance(n, (ast.List, ast.Tuple, ast.Dict)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load):
            for x in ast.iter_child_nodes(n):
                if isinstance(x, ast.Name):
                    contained.add(x.id)
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)) and root(n.targets[0]) not in cdata:
            for x in ast.walk(n.value):
                if isinstance(x, ast.Name):
                    contained.add(x.id)
    label = f"{f.mod}.{f.qual.split('.', 1)[-1] if f.qual.startswith(f.mod) else f.qual}"

    def rep(n, kind, msg):
        c.report(f"libpyclingo/clingo/{f.mod}.py:{n.lineno} {f.qual}", f"{f.qual}:{kind}", msg)
    loops = [n for n in body if isinstance(n, (ast.For, ast.While))]
    for n in body:
        if is_alloc(n):
            c.count("allocations for the engine")
        # pointer stored in foreign memory
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)) and root(t) in cdata:
                    c.count("pointers stored in engine structures")
                    for v in strip_cond(n.value):
                        if is_alloc(v):
                            rep(n, "dangling", "memory is stored in an engine structure without keeping a reference to it: it is freed before the engine uses it")
                        if isinstance(v, ast.Name) and v.id in allocvar and v.id not in contained:
                            for l in loops:
                                inl = {id(x) for x in ast.walk(l)}
                                if id(n) in inl and any(id(a) in inl for a in allocvar[v.id]):
                                    # the structure must not outlive the iteration
                                    base = root(t)
                                    if not any(id(a) in inl for a in allocvar.get(base, [])):
                                        rep(n, "rebound", f"memory held by '{v.id}' is freed in the next iteration but stays referenced by '{base}'")
        # nested in an initialiser
        if is_alloc(n) and n.func.attr == "new":
            for a in n.args[1:]:
                for x in init_elems(a):
                    c.count("initialiser elements")
                    for v in strip_cond(x):
                        if is_alloc(v):
                            rep(n, "initialiser", "memory referenced by an initialiser is freed as soon as the initialiser was evaluated")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "cast" and len(n.args) == 2 and is_alloc(n.args[1]):
            rep(n, "cast", "a cast does not keep the allocated memory alive")
        if extern and isinstance(n, ast.Return) and n.value is not None:
            for v in strip_cond(n.value):
                if is_alloc(v):
                    rep(n, "returned", "memory returned to the engine is freed when the callback returns")
                if isinstance(v, ast.Name) and v.id in allocvar and v.id not in contained:
                    rep(n, "returned", f"memory held by '{v.id}' only is freed when the callback returns")
        # pointers of a local container that dies with the function
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and n.value.id in cdata:
            base = n.value.id
            for m in body:
                if isinstance(m, ast.Assign) and any(isinstance(t, (ast.Subscript, ast.Attribute)) and root(t) == base for t in m.targets):
                    r = root(m.value) if isinstance(m.value, (ast.Subscript, ast.Attribute, ast.Name)) else None
                    if r and (r in pyobj or r in allocvar) and r not in contained:
                        rep(n, "container", f"'{base}' refers to memory owned by the local '{r}', which dies when the function returns")


def init_elems(a):
    if isinstance(a, (ast.List, ast.Tuple)):
        for x in a.elts:
            if isinstance(x, (ast.List, ast.Tuple)):
                yield from init_elems(x)
            else:
                yield x
    elif isinstance(a, (ast.ListComp, ast.GeneratorExp)):
        yield a.elt
    elif isinstance(a, ast.Dict):
        yield from a.values


def _own(n):
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        return
    yield n
    for x in ast.iter_child_nodes(n):
        yield from _own(x)


def root(n):
    while isinstance(n, (ast.Subscript, ast.Attribute)):
        n = n.value
    return n.id if isinstance(n, ast.Name) else None


def loop_vars(target, it):
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip" and isinstance(target, ast.Tuple):
        return [(t.id, a) for t, a in zip(target.elts, it.args) if isinstance(t, ast.Name)]
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and isinstance(target, ast.Tuple) and len(target.elts) == 2:
        return loop_vars(target.elts[1], it.args[0])
    return [(target.id, it)] if isinstance(target, ast.Name) else []


# ------------------------------------------------------------------ P08

def buffers(c, M):
    """(pointer, length) arguments agree; string/array fetches use the size reported for the same object."""
    for name, f, p in all_paths(M):
        evs = [e for e, _ in flat(p["events"]) if e[0] == "call" and e[1] in M.h.funcs]
        for e in evs:
            ps = M.h.funcs[e[1]]["params"]
            for i in range(1, min(len(ps), len(e[2])) - 1):
                if not ps[i][1].endswith("*") or ps[i + 1][1] != "size_t":
                    continue
                a, s = e[2][i], e[2][i + 1]
                if not isinstance(a, tuple) or not isinstance(s, tuple):
                    continue
                n = ("len", a) if a[0] == "p" else a[1] if a[0] in ("outarr", "arr", "arrs") else M.it.mklen(a) if a[0] == "seq" else None
                c.count("pointer/length arguments")
                if a[0] == "null":
                    continue
                if n is None or not known(n) or not known(s):
                    c.count("pointer/length arguments of unknown extent")
                    continue
                if n != s and not summ.contains((n, s), lambda x: x and x[0] in ("ite", "opq", "phi", "seq")):
                    c.report(where(f, name), f"{name}:{e[1]}:{i}", f"{e[1]} gets {show(n)[:100]} elements but the length {show(s)[:100]}")
                # size obtained from the engine for the same object
                if a[0] == "outarr" and isinstance(n, tuple) and n and n[0] == "out" and n[1].endswith("_size"):
                    c.count("size/fetch pairs")
                    szargs = [x for x in n[3] if x != ("outarg",)]
                    if n[1] == e[1] + "_size" and tuple(szargs) != tuple(e[2][:len(szargs)]):
                        c.report(where(f, name), f"{name}:{e[1]}:pair", f"size of {n[1]} was determined for different arguments than the content")


def known(t):
    return isinstance(t, tuple) and t[0] in ("len", "c", "out", "lin", "attr", "p", "outarr")
