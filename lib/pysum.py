"""Summaries of all public entries of the Python binding."""
import ast, sys
import pyeval, cheader, summ
from pyeval import Package, Interp, show


def is_extern(f):
    """-> name of the callback exported to C, or None"""
    for d in f.decorators:
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "def_extern":
            for k in d.keywords:
                if k.arg == "name" and isinstance(k.value, ast.Constant):
                    return k.value.value
            return f.name
    return None


def public(name):
    return not name.startswith("_") or (name.startswith("__") and name.endswith("__"))


def entries(pkg):
    """(display name, Func, class key or None, kind)"""
    res = []
    for key in pkg.class_nodes:
        if not public(key[1]):
            for nm, f in pkg.classes[key].items():
                res.append((f"internal:{key[0]}.{key[1]}.{nm}", f, key, "internal"))
            continue
        seen = set()
        for k in pkg.mro(key):
            for nm, f in pkg.classes[k].items():
                if k == key and not public(nm.split(":")[-1]):
                    res.append((f"internal:{key[0]}.{key[1]}.{nm}", f, key, "internal"))
                base = nm.split(":")[-1]
                if nm in seen or not public(base):
                    continue
                seen.add(nm)
                if base in ("__init_subclass__",):
                    continue
                if k != key:
                    continue      # inherited members are summarised at the class that defines them
                res.append((f"{key[0]}.{key[1]}.{nm}", f, key, "method"))
    for key, f in pkg.funcs.items():
        x = is_extern(f)
        if x:
            res.append((f"callback:{x}", f, None, "callback"))
            h = onerror(f)
            if h:
                res.append((f"onerror:{x}", h, None, "onerror"))
        elif key[0] == "_internal":
            res.append((f"internal:{key[0]}.{key[1]}", f, None, "internal"))
        elif public(key[1]) and key[0] != "_internal":
            res.append((f"{key[0]}.{key[1]}", f, None, "function"))
    return res + nested(pkg) + globals_of(pkg)


def nested(pkg):
    """Callbacks defined within other functions; names of the enclosing function are parameters."""
    res = []
    for f in list(pkg.funcs.values()) + [g for c in pkg.classes.values() for g in c.values()]:
        for n in ast.walk(f.node):
            if n is f.node or not isinstance(n, ast.FunctionDef):
                continue
            names = [k.value for d in n.decorator_list if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "def_extern" for k in d.keywords if k.arg == "name"]
            if not names:
                continue
            g = pyeval.Func(f.mod, n, None, f"{f.mod}.{(f.cls + '.') if f.cls else ''}{n.name}<local>")
            res.append((f"internal:{f.mod}.{f.cls or ''}.callback", g, None, "internal"))
    return res


def onerror(f):
    """Synthetic function running the error handler registered for a callback."""
    for d in f.decorators:
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "def_extern":
            for k in d.keywords:
                if k.arg == "onerror":
                    node = ast.parse("def f(exception, exc_value, traceback):\n return (%s)(exception, exc_value, traceback)" % ast.unparse(k.value)).body[0]
                    return pyeval.Func(f.mod, node, None, "onerror:" + f.qual)
    return None


def globals_of(pkg):
    """Synthetic functions computing the module variables (type aliases and export lists excluded)."""
    res = []
    for mod, tree in pkg.mods.items():
        body, names = [], []
        for n in tree.body:
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.Expr, ast.AugAssign, ast.For, ast.With)) and getattr(n, "value", 1) is not None:
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    continue
                t = [x.id for x in (n.targets if isinstance(n, ast.Assign) else [getattr(n, "target", None)]) if isinstance(x, ast.Name)]
                v = getattr(n, "value", None)
                if "__all__" in t or isinstance(v, ast.Subscript) and isinstance(v.value, ast.Name) and pkg.resolve_name(mod, v.value.id) is None \
                        or isinstance(v, ast.Subscript) and getattr(v.value, "id", "") in ("Union", "Callable", "Optional", "List", "Tuple", "Dict"):
                    continue
                body.append(n)
                names += t
        for nm in names:
            node = ast.parse("def f():\n pass").body[0]
            node.body = body + [ast.copy_location(ast.Return(ast.copy_location(ast.Name(nm, ast.Load()), body[-1])), body[-1])]
            ast.fix_missing_locations(node)
            res.append((f"global:{mod}.{nm}", pyeval.Func(mod, node, None, f"global:{mod}.{nm}"), None, "internal"))
    return res


def deco(f):
    """Decorators that change how an operation is used."""
    r = []
    for d in f.decorators:
        n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
        if n in ("property", "setter", "staticmethod", "classmethod", "contextmanager", "cached_property"):
            r.append(n)
    return tuple(r)


def positional(f):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    return names


def rename_params(t, m):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "p" and t[1] in m:
            return ("p", m[t[1]])
        return tuple(rename_params(x, m) for x in t)
    return t


class PyModel:
    def __init__(self, root=None, opts=None):
        self.pkg = Package(root)
        self.h = cheader.load()
        self.it = Interp(self.pkg, self.h, opts)
        self.entries = entries(self.pkg)
        chk = [f for k, f in sorted(self.pkg.funcs.items()) if k[0] == "_internal" and self.it.is_checker(f)]
        if len(chk) == 1:
            self.entries.append(("internal:role.checker", chk[0], None, "role"))
        self.byname = {n: (f, c, k) for n, f, c, k in self.entries}
        self.cache = {}
        self.cb_classes()

    def find(self, name):
        """Entry of the specification -> (Func, class key, kind), through inheritance and imports."""
        if name in self.byname:
            return self.byname[name]
        if ":" in name.split(".")[0]:
            return None
        parts = name.split(".")
        if len(parts) == 3:
            key = self.pkg.resolve_class(parts[0], parts[1])
            f = self.pkg.find_method(key, parts[2]) if key else None
            return (f, key, "method") if f else None
        r = self.pkg.resolve_name(parts[0], parts[1])
        if r and r[0] == "func":
            return (self.pkg.funcs[r[1]], None, "function")
        return None

    def paths(self, name):
        if name not in self.cache:
            f, cls, kind = self.find(name)
            self.cache[name] = self.it.summarize(f, cls)
        return self.cache[name]

    def summary(self, name):
        f, cls, kind = self.find(name)
        m = {n: f"#{i}" for i, n in enumerate(positional(f))}
        if kind == "onerror":
            cb = self.byname["callback:" + name.split(":")[1]][0]
            pm = {n: i for i, n in enumerate(positional(cb))}

            def fix(t):
                if t == ("c", t[-1]) and t[1] in pm:
                    return ("p", f"#cb{pm[t[1]]}")
                return tuple(fix(x) if isinstance(x, tuple) and x else x for x in t)
            return summ.make(self.paths(name), lambda t: rename_params(fix(t), m))
        if f.node.args.vararg:
            m["*" + f.node.args.vararg.arg] = "#*"
        if f.node.args.kwarg:
            m["**" + f.node.args.kwarg.arg] = "#**"
        if cls and not f.is_static:
            m["self"] = "#0"
        return summ.make(self.paths(name), lambda t: rename_params(t, m))

    def signature(self, name):
        f, cls, kind = self.find(name)
        a = f.node.args
        last = name.split(".")[-1]
        if kind in ("callback", "onerror", "internal", "role") or (last.startswith("__") and last != "__init__") or last.startswith("set:") or f.is_prop:
            return ("arity", len(a.posonlyargs + a.args), deco(f))
        d = self.it.defaults(f)
        return ("sig", tuple((x.arg, d.get(x.arg, ("none",))) for x in a.posonlyargs + a.args + a.kwonlyargs), bool(a.vararg), bool(a.kwarg), deco(f))

    def shapes(self):
        """Public base classes and class decorators (they determine inherited behaviour)."""
        res = {}
        for key, cnode in self.pkg.class_nodes.items():
            if not public(key[1]):
                continue
            bases, todo, seen = set(), [key], set()
            while todo:
                k = todo.pop()
                if k in seen:
                    continue
                seen.add(k)
                for b in self.pkg.class_nodes[k].bases:
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    n = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
                    k2 = self.pkg.resolve_class(k[0], n) if n else None
                    if k2:
                        todo.append(k2)
                    if n and public(n):
                        bases.add(n)
            decs = {x.id if isinstance(x, ast.Name) else x.attr for x in cnode.decorator_list if isinstance(x, (ast.Name, ast.Attribute))}
            res[f"{key[0]}.{key[1]}"] = (tuple(sorted(bases)), tuple(sorted(decs)))
        return res

    def fields(self):
        """Instance attributes in the order of their assignment, per class."""
        res = {}
        for key, cnode in self.pkg.class_nodes.items():
            out = []
            for n in ast.walk(cnode):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign)) else []):
                    for x in ast.walk(t):
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr not in out:
                            out.append(x.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__setattr__" and n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value not in out:
                    out.append(n.args[0].value)
            res[f"{key[0]}.{key[1]}"] = tuple(out + [x for x in self.pkg.nt_fields.get(key, ()) if x not in out])
        return res

    def cb_classes(self):
        """Class of the object behind the user data of each callback (from the call sites that pass it)."""
        self.it.cbdata = {}
        found = {}
        for name, f, cls, kind in self.entries:
            if kind in ("callback", "onerror") or ":" in name.split(".")[0]:
                continue
            for p in self.it.summarize(f):
                for t in summ.walk(tuple(e for e, _ in p["events"])):
                    if t and t[0] == "call" and len(t) == 3 and isinstance(t[2], tuple):
                        cbs = [x[1] for x in summ.walk(t[2]) if len(x) == 2 and x[0] == "lib" and isinstance(x[1], str) and x[1].startswith("pyclingo")]
                        hs = [x for x in summ.walk(t[2]) if x and x[0] == "newhandle"]
                        for c in cbs:
                            for h in hs:
                                if h[1][0] == "inst":
                                    found.setdefault(c, set()).add(h[1] + (f.mod,))
        self.cb_data = found
        for name, f, cls, kind in self.entries:
            if kind != "callback":
                continue
            cb = name.split(":")[1]
            insts = found.get(cb, ())
            tbl = ("attr", ("attr", ("p", "traceback"), "tb_frame"), "f_locals")
            for p in positional(f):
                for inst in insts:
                    ck = self.find_class(inst[1], inst[-1])
                    if ck:
                        self.it.cbdata[("onerror:" + f.qual, ("handle", ("item", tbl, ("c", p))))] = ck
                    base = ("handle", ("p", p))
                    ck = self.find_class(inst[1], inst[-1])
                    if ck:
                        self.it.cbdata[(f.qual, base)] = ck
                        for fld, v in inst[2]:
                            if v[0] == "inst":
                                c2 = self.find_class(v[1], inst[-1])
                                if c2:
                                    self.it.cbdata[(f.qual, ("attr", base, fld))] = c2

    def find_class(self, name, mod):
        k = self.pkg.resolve_class(mod, name)
        if k:
            return k
        c = [k for k in self.pkg.class_nodes if k[1] == name]
        return c[0] if len(c) == 1 else None

    def summaries(self):
        return {n: self.summary(n) for n, *_ in self.entries}

    def consts(self):
        """Values of enum members and documented class constants."""
        res = {}
        for key in self.pkg.class_nodes:
            if public(key[1]) and self.pkg.is_enum(key):
                for n, v in self.pkg.class_consts[key].items():
                    res[f"{key[0]}.{key[1]}.{n}"] = self.it.const_expr(key[0], v)
        return res


def label(f, show_it=True):
    return f"libpyclingo/clingo/{f.mod}.py:{f.node.lineno} {f.qual}"


