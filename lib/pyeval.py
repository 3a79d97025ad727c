"""
Abstract interpreter for the Python binding (libpyclingo/clingo/*.py).

The interpreter never runs the code and no solver is involved: it propagates
*provenance terms* through the syntax tree, partitions on branch conditions,
inlines functions of the package, and abstracts every loop into one body summary
over an index variable.  The outcome for a function is a set of abstract paths

    (conditions, events, outcome)

where events are calls into the engine (`_lib.f(args)`), calls of user supplied
objects, stores to attributes/C memory visible outside, and yields.  Terms are
normalised so that helper extraction, temporaries, loop vs. comprehension,
if vs. conditional expression, early return vs. else, and reordering of
independent statements give the same summary.
"""
import re, string, summ, ast, os, sys, builtins, itertools
import cheader
from summ import okey, okey0

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "libpyclingo/clingo"

NONE = ("c", None)
NULL = ("null",)
TRUE, FALSE = ("c", True), ("c", False)
MAX_STATES = 3000
MAX_DEPTH = 14

PURE_BUILTINS = {"str", "repr", "int", "float", "bool", "tuple", "list", "set", "dict", "sorted",
                 "min", "max", "abs", "sum", "any", "all", "id", "type", "hash", "range", "len",
                 "enumerate", "zip", "map", "filter", "isinstance", "issubclass", "hasattr",
                 "getattr", "callable", "iter", "frozenset", "bytes", "format", "reversed", "ord",
                 "chr", "round", "vars", "slice", "next", "globals", "divmod", "object", "print_exception"}
PURE_METHODS = {"encode", "decode", "join", "format", "startswith", "endswith", "strip", "split",
                "replace", "get", "items", "keys", "values", "copy", "indices", "index", "count",
                "lower", "upper", "title", "with_traceback"}


class Unsupported(Exception):
    pass


class Obj:
    __slots__ = ("kind", "ctype", "segs", "fields", "size", "stores", "cls", "site", "init")

    def __init__(self, kind, ctype=None, site=None):
        self.kind, self.ctype, self.site = kind, ctype, site
        self.segs = ()          # list contents / array contents
        self.fields = {}        # instance fields / scalar cell ("*")
        self.size = None        # array length term
        self.stores = ()        # ((idx, fieldpath), value) writes in order
        self.cls = None
        self.init = None

    def copy(self):
        o = Obj(self.kind, self.ctype, self.site)
        o.segs, o.fields, o.size, o.stores, o.cls, o.init = self.segs, dict(self.fields), self.size, self.stores, self.cls, self.init
        return o


class State:
    __slots__ = ("scopes", "heap", "fields", "conds", "events", "exc", "checked", "intry", "stack", "loopdepth", "opaque", "own", "lstart", "types")

    def __init__(self):
        self.scopes, self.heap, self.fields = {}, {}, {}
        self.conds, self.events = (), ()
        self.exc, self.checked, self.intry, self.stack = None, {}, 0, ()
        self.loopdepth, self.opaque = 0, False
        self.lstart = {}       # lists that exist since before the current loop -> their length then
        self.own = set()
        self.types = {}        # classes known from the annotations of parameters on this path

    def fork(self):
        """Cheap copy: scopes and heap objects are shared until written."""
        s = State.__new__(State)
        s.scopes, s.heap = dict(self.scopes), dict(self.heap)
        s.fields, s.conds, s.events = dict(self.fields), self.conds, self.events
        s.exc, s.checked, s.intry, s.stack = self.exc, dict(self.checked), self.intry, self.stack
        s.loopdepth, s.opaque, s.lstart = self.loopdepth, self.opaque, self.lstart
        s.own = set()
        s.types = self.types
        self.own = set()
        return s

    def env(self, sid):
        """Writable variables of a scope."""
        if ("s", sid) not in self.own:
            v = self.scopes[sid]
            self.scopes[sid] = (dict(v[0]), v[1], v[2])
            self.own.add(("s", sid))
        return self.scopes[sid][0]

    def w(self, i):
        """Writable heap object."""
        if i not in self.own:
            self.heap[i] = self.heap[i].copy()
            self.own.add(i)
        return self.heap[i]


class Func:
    def __init__(self, mod, node, cls=None, qual=None):
        self.mod, self.node, self.cls = mod, node, cls
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.qual = qual or f"{mod}.{(cls + '.') if cls else ''}{self.name}"
        self.decorators = [d for d in getattr(node, "decorator_list", ())]
        self.is_prop = any(isinstance(d, ast.Name) and d.id == "property" for d in self.decorators)
        self.setter_of = next((d.value.id for d in self.decorators if isinstance(d, ast.Attribute) and d.attr == "setter" and isinstance(d.value, ast.Name)), None)
        self.is_static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in self.decorators)
        self.is_overload = any(isinstance(d, ast.Name) and d.id == "overload" for d in self.decorators)
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))
        if isinstance(node.body, list):
            leave_tail_loops(node.body)


def leave_tail_loops(body):
    """In a loop that ends a function, returning None and leaving the loop are the same."""
    if len(body) > 1 and isinstance(body[-1], ast.Return) and (body[-1].value is None or isinstance(body[-1].value, ast.Constant) and body[-1].value.value is None):
        body = body[:-1]
    n = body[-1]
    if isinstance(n, (ast.While, ast.For)) and not n.orelse:
        breaks(n.body)
    elif isinstance(n, ast.If):
        leave_tail_loops(n.body)
        if n.orelse:
            leave_tail_loops(n.orelse)
    elif isinstance(n, ast.With):
        leave_tail_loops(n.body)


def breaks(body):
    for i, n in enumerate(body):
        if isinstance(n, ast.Return) and (n.value is None or isinstance(n.value, ast.Constant) and n.value.value is None):
            body[i] = ast.copy_location(ast.Break(), n)
        elif isinstance(n, ast.If):
            breaks(n.body)
            breaks(n.orelse)
        elif isinstance(n, ast.With):
            breaks(n.body)
        elif isinstance(n, ast.Try):
            for b in [n.body, n.orelse] + [h.body for h in n.handlers]:
                breaks(b)


def walk_own(node):
    """Walk a function body without entering nested functions/classes."""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo.append(c)


def bound_names(nodes):
    """Names bound by the given nodes, nested functions and classes (except for their names) excluded."""
    res, todo = set(), list(nodes)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            res.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            res.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            res |= {(a.asname or a.name).split(".")[0] for a in n.names}
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            res |= set(n.names)
        elif getattr(n, "name", None) and isinstance(getattr(n, "name"), str):
            res.add(n.name)
        elif isinstance(n, ast.AST) and "rest" in n._fields and n.rest:
            res.add(n.rest)
        todo += list(ast.iter_child_nodes(n))
    return res


def mark_unbound(tree):
    """Mark uses of names that no enclosing scope binds."""
    top = bound_names(tree.body) | {x for n in ast.walk(tree) if isinstance(n, ast.Global) for x in n.names}
    if "*" in top:
        return

    def visit(n, bound):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = n.args
            for x in list(getattr(n, "decorator_list", [])) + a.defaults + [d for d in a.kw_defaults if d is not None]:
                visit(x, bound)
            names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
            body = n.body if isinstance(n.body, list) else [n.body]
            inner = bound | names | bound_names(body)
            for x in body:
                visit(x, inner)
            return
        if isinstance(n, ast.ClassDef):
            inner = bound | bound_names(n.body)
            for x in n.bases + n.decorator_list + [k.value for k in n.keywords]:
                visit(x, bound)
            for x in n.body:
                visit(x, inner)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in bound and not hasattr(builtins, n.id) and not n.id.startswith("__"):
            n.unbound = True
        for x in ast.iter_child_nodes(n):
            visit(x, bound)
    for n in tree.body:
        visit(n, top | {"__class__"})


class Package:
    """Syntax trees, classes, functions, imports of the binding."""

    def __init__(self, root=None):
        self.root = root or os.path.join(REPO, PKG)
        self.mods, self.funcs, self.classes, self.bases, self.imports, self.globals = {}, {}, {}, {}, {}, {}
        self.class_consts, self.class_fields, self.class_nodes = {}, {}, {}
        self.nt_fields, self.files = {}, {}
        for fn in sorted(os.listdir(self.root)):
            if not fn.endswith(".py"):
                continue
            mod = fn[:-3]
            path = os.path.join(self.root, fn)
            self.files[mod] = path
            tree = ast.parse(open(path, encoding="utf-8").read(), path)
            self.mods[mod] = tree
            mark_unbound(tree)
            self.imports[mod], self.globals[mod] = {}, {}
            self._collect(mod, tree.body)
        for key in self.class_nodes:
            self._fields(key)

    def _collect(self, mod, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                f = Func(mod, n)
                if not f.is_overload:
                    self.funcs[(mod, n.name)] = f
            elif isinstance(n, ast.ClassDef):
                key = (mod, n.name)
                self.class_nodes[key] = n
                self.classes[key] = {}
                self.bases[key] = n.bases
                self.class_consts[key] = {}
                self._collect_class(mod, n, key, n.body)
            elif isinstance(n, ast.ImportFrom):
                src = (n.module or "").split(".")[-1]
                for a in n.names:
                    self.imports[mod][a.asname or a.name] = (src, a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[mod][a.asname or a.name.split(".")[0]] = (None, a.name)
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                for b in ("body", "orelse", "finalbody"):
                    self._collect(mod, getattr(n, b, []))
                for h in getattr(n, "handlers", []):
                    self._collect(mod, h.body)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.globals[mod][t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                self.globals[mod][n.target.id] = n.value

    def _collect_class(self, mod, cnode, key, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                f = Func(mod, n, cnode.name)
                if f.is_overload:
                    continue
                nm = n.name
                if f.setter_of:
                    nm = "set:" + nm
                self.classes[key][nm] = f
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.class_consts[key][t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                if any(isinstance(b, ast.Name) and b.id == "NamedTuple" for b in cnode.bases):
                    self.nt_fields.setdefault(key, []).append(n.target.id)
                elif n.value is not None:
                    self.class_consts[key][n.target.id] = n.value
            elif isinstance(n, ast.If):
                self._collect_class(mod, cnode, key, n.body)
                self._collect_class(mod, cnode, key, n.orelse)

    def _fields(self, key):
        res = set()
        for f in self.classes[key].values():
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                                res.add(x.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__setattr__" and n.args and isinstance(n.args[0], ast.Constant):
                    res.add(n.args[0].value)
        res |= set(self.nt_fields.get(key, ()))
        self.class_fields[key] = res

    def resolve_class(self, mod, name):
        seen = set()
        while (mod, name) not in seen:
            seen.add((mod, name))
            if (mod, name) in self.class_nodes:
                return (mod, name)
            imp = self.imports.get(mod, {}).get(name)
            if not imp or imp[0] is None:
                return None
            mod, name = imp
        return None

    def resolve_name(self, mod, name):
        """-> ('func',key) | ('cls',key) | ('global',mod,name) | ('import',src,name) | None"""
        seen = set()
        while (mod, name) not in seen:
            seen.add((mod, name))
            if (mod, name) in self.funcs:
                return ("func", (mod, name))
            if (mod, name) in self.class_nodes:
                return ("cls", (mod, name))
            imp = self.imports.get(mod, {}).get(name)
            if imp is None:
                if name in self.globals.get(mod, {}):
                    return ("global", mod, name)
                return None
            if imp[0] is None or imp[0] not in self.mods:
                return ("import", imp[0], imp[1])
            mod, name = imp
        return None

    def mro(self, key):
        out, todo = [], [key]
        while todo:
            k = todo.pop(0)
            if k in out or k is None:
                continue
            out.append(k)
            for b in self.bases.get(k, ()):
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Name):
                    todo.append(self.resolve_class(k[0], b.id))
        return out

    def base_names(self, key):
        res = set()
        for k in self.mro(key):
            for b in self.bases.get(k, ()):
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Name):
                    res.add(b.id)
                elif isinstance(b, ast.Attribute):
                    res.add(b.attr)
        return res

    def find_method(self, key, name):
        for k in self.mro(key):
            if name in self.classes[k]:
                return self.classes[k][name]
        return None

    def has_field(self, key, name):
        return any(name in self.class_fields.get(k, ()) for k in self.mro(key))

    def is_enum(self, key):
        return bool(self.base_names(key) & {"OrderedEnum", "Enum", "IntEnum"})

    def class_const(self, key, name):
        for k in self.mro(key):
            if name in self.class_consts[k]:
                return k, self.class_consts[k][name]
        return None


# ---------------------------------------------------------------- terms

def deps(t, acc=None):
    """Parameters (and engine outputs) a term depends on."""
    if acc is None:
        acc = set()
    if isinstance(t, tuple):
        if t and t[0] == "p":
            acc.add(t[1])
        elif t and t[0] == "opq":
            acc |= set(t[1])
        else:
            for x in t:
                deps(x, acc)
    elif isinstance(t, frozenset):
        for x in t:
            deps(x, acc)
    return acc


def has_opaque(t):
    if isinstance(t, tuple):
        if t and t[0] in ("opq", "phi"):
            return True
        return any(has_opaque(x) for x in t)
    return False


def contains_var(t, depth):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "v":
            return t[1] >= depth
        return any(contains_var(x, depth) for x in t)
    return False


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        if len(t) == 4 and t[0] in ("m", "loop") and t[3] == a:
            return (t[0], subst(t[1], a, b)) + t[2:]
        if len(t) == 6 and t[0] == "fold" and t[3] == a:
            return (t[0], subst(t[1], a, b), t[2], t[3], subst(t[4], a, b), t[5])
        if len(t) == 3 and t[0] == "cnt" and t[2] == a:
            return t
        return tuple(subst(x, a, b) for x in t)
    return t


def is_int(t):
    return t[0] == "c" and isinstance(t[1], int) and not isinstance(t[1], bool)


def lin(t):
    """-> (dict term->coef, const)"""
    if is_int(t):
        return {}, t[1]
    if t[0] == "lin":
        return dict(t[1]), t[2]
    return {t: 1}, 0


def mklin(d, c):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return ("c", c)
    if c == 0 and len(d) == 1 and next(iter(d.values())) == 1:
        return next(iter(d))
    return ("lin", tuple(sorted(d.items(), key=okey0)), c)


def lin_add(a, b, s=1):
    da, ca = lin(a)
    db, cb = lin(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + s * v
    return mklin(da, ca + s * cb)


def intlike(t):
    if t[0] in ("len", "lin", "v"):
        return True
    if is_int(t):
        return True
    if t[0] == "out" and len(t) > 4 and t[4] in ("size_t", "uint32_t", "int", "clingo_id_t", "clingo_literal_t", "uint64_t"):
        return True
    if t[0] == "val" and len(t) > 3 and t[3] in ("size_t", "uint32_t", "int", "clingo_id_t", "clingo_literal_t"):
        return True
    return False


def le0(l):
    """Atom and polarity for  l <= 0  (l linear)."""
    d, c = lin(l)
    if not d:
        return ("const", c <= 0)
    items = sorted(d.items(), key=okey0)
    # emptiness tests
    if len(items) == 1 and items[0][0][0] == "len":
        s, k = items[0][0][1], items[0][1]
        if k == 1 and c == 0:
            return ("t", s), False
        if k == -1 and c == 1:
            return ("t", s), True
    if all(k > 0 and summ.nonneg(t) for t, k in items) and c > 0:
        return ("const", False)
    if all(k < 0 and summ.nonneg(t) for t, k in items) and c <= 0:
        return ("const", True)
    if items[0][1] < 0:
        # canonical: first coefficient positive;  l<=0  <=>  not (-l+1 <= 0)
        neg = {k: -v for k, v in d.items()}
        return ("le", tuple(sorted(neg.items(), key=okey0)), -c + 1), False
    return ("le", tuple(items), c), True


def seq_simplify(segs):
    """Contents of a sequence -> term; identity copies collapse to their source."""
    out = []
    for s in segs:
        if s[0] == "m":
            n, paths = s[1], s[2]
            if n == ("c", 0):
                continue
            if len(paths) == 1 and not paths[0][0] and len(paths[0][1]) == 1:
                el = paths[0][1][0]
                v = s[3]
                if el[0] == "e" and el[1][0] == "item" and el[1][2] == v and not contains_term(el[1][1], v):
                    src = el[1][1]
                    if n == ("len", src) or src[0] == "out" and len(src) > 3 and src[3][src[2]:src[2] + 1] == (("outarr", n),):
                        out.append(("x", src))
                        continue
        out.append(s)
    if not out:
        return ("seq", ())
    if len(out) == 1 and out[0][0] == "x":
        return out[0][1]
    return ("seq", tuple(out))


def boolish(t):
    """Terms that are either True or False."""
    return t[0] in ("eq", "lt", "is", "in", "not", "truth", "isinst", "isnull") or t[0] == "out" and len(t) > 4 and t[4] == "bool"


def free_parts(t, var):
    """Subterms of t outside the scope in which t binds the loop position var."""
    if len(t) == 4 and t[0] in ("m", "loop") and t[3] == var:
        return t[1:2]
    if len(t) == 6 and t[0] == "fold" and t[3] == var:
        return (t[1], t[4])
    if len(t) == 3 and t[0] == "cnt" and t[2] == var:
        return ()
    return t


def contains_term(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        return any(contains_term(y, x) for y in (free_parts(t, x) if t and isinstance(t[0], str) else t))
    return False


class Interp:
    def __init__(self, pkg, header=None, opts=None):
        self.loops = {}
        self.pkg, self.h = pkg, header or cheader.load()
        self.ids = itertools.count(1)
        self.call_locs = {}      # uid -> (file, line, function stack)
        self.states = 0
        self.incomplete = []
        self.opts = opts or {}
        self.missing_lib = []    # _lib.<name> that the header does not declare
        self.arity = []          # engine calls with a wrong number of arguments
        self.stats = {"inlined": 0, "engine_calls": 0, "loops": 0, "functions": 0}
        self.no_inline = set()
        self.checkers = {}
        self.cbdata = {}
        self.globtypes = {}
        self.seen = set()
        self.cur = None

    # ---------------------------------------------------- entry

    def summarize(self, func, cls=None):
        """Abstract paths of a function: list of dicts."""
        self.states = 0
        self.cur = func
        self.seen.add(func.qual)
        self.stats["functions"] += 1
        st = State()
        sid = self.new_scope(st, func.mod, None)
        env = st.env(sid)
        args = func.node.args
        names = [a for a in args.posonlyargs + args.args + args.kwonlyargs]
        self.types = {}
        for i, a in enumerate(names):
            t = ("p", a.arg)
            if i == 0 and func.cls and not func.is_static:
                t = ("p", "self")
                self.types[t] = cls or (func.mod, func.cls)
            else:
                k = self.ann_class(func.mod, a.annotation)
                if k:
                    self.types[t] = k
            env[a.arg] = t
        if args.vararg:
            env[args.vararg.arg] = ("p", "*" + args.vararg.arg)
        if args.kwarg:
            env[args.kwarg.arg] = ("p", "**" + args.kwarg.arg)
        paths = []
        st.stack = (func.qual,)
        for status, val, s in self.block(func.node.body, sid, st):
            if status == "ret":
                out = ("ret", self.resolve(val, s))
            elif status == "raise":
                out = ("raise",) + tuple(self.resolve(x, s) if isinstance(x, tuple) else x for x in s.exc)
            else:
                out = ("ret", NONE)
            evs = list(s.events)
            for (b, nm), v in s.fields.items():
                if isinstance(v, tuple) and v[:1] == ("ref",) and v[1] in s.heap and s.heap[v[1]].kind in ("list", "dict"):
                    rb = self.resolve(b, s)
                    for i in range(len(evs) - 1, -1, -1):
                        e, u = evs[i]
                        if e[0] == "store" and e[1] == rb and e[2] == nm:
                            evs[i] = (("store", rb, nm, self.resolve(v, s)), u)
                            break
            s.events = tuple(evs)
            paths.append({"conds": s.conds, "events": s.events, "out": out, "checked": s.checked,
                          "rawret": val if status == "ret" else None, "state": s})
        return paths

    def defaults(self, func):
        """Default values of the public signature (resolved terms)."""
        st = State()
        sid = self.new_scope(st, func.mod, None)
        a = func.node.args
        pos = a.posonlyargs + a.args
        res = {}
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d]:
            v = self.ev(d, sid, st)
            res[p.arg] = self.resolve(v[0][0], v[0][1]) if v else ("opq", ())
        return res

    def is_checker(self, fn):
        """A function that returns without effect iff its first argument is true and raises otherwise."""
        if fn.qual not in self.checkers:
            self.checkers[fn.qual] = False
            ok = False
            if fn.mod == "_internal" and fn.cls is None and fn.node.args.args:
                sub = Interp(self.pkg, self.h, {})
                sub.checkers = self.checkers
                p = ("t", ("p", fn.node.args.args[0].arg))
                good = bad = 0
                ok = True
                for x in sub.summarize(fn):
                    d = dict(x["conds"])
                    if d.get(p) is True and x["out"] == ("ret", NONE) and not x["events"]:
                        good += 1
                    elif d.get(p) is False and x["out"][0] == "raise":
                        bad += 1
                    else:
                        ok = False
                ok = ok and good == 1 and bad > 0
            self.checkers[fn.qual] = ok
        return self.checkers[fn.qual]

    def ann_class(self, mod, ann):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript) and isinstance(ann.value, ast.Name) and ann.value.id == "Optional":
            return self.ann_class(mod, ann.slice)
        if isinstance(ann, ast.Name):
            k = self.pkg.resolve_class(mod, ann.id)
            return k
        return None

    def new_scope(self, st, mod, parent):
        sid = next(self.ids)
        st.scopes[sid] = ({}, mod, parent)
        return sid

    # ---------------------------------------------------- statements

    def block(self, stmts, sid, st):
        cur = [("next", None, st)]
        for stmt in stmts:
            nxt = []
            for status, val, s in cur:
                if status != "next":
                    nxt.append((status, val, s))
                else:
                    nxt.extend(self.stmt(stmt, sid, s))
            cur = nxt
            if len(cur) > MAX_STATES:
                self.incomplete.append((self.cur.qual, "too many paths"))
                return cur[:MAX_STATES]
        return cur

    def stmt(self, n, sid, st):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.incomplete.append((self.cur.qual, "statement " + type(n).__name__))
            st.opaque = True
            return [("next", None, st)]
        return m(n, sid, st)

    def from_vals(self, vals):
        """(val, st) pairs -> statement results (raise or next)."""
        return [("raise" if s.exc is not None else "next", None, s) for _, s in vals]

    def s_Pass(self, n, sid, st):
        return [("next", None, st)]

    def s_Import(self, n, sid, st):
        for a in n.names:
            st.env(sid)[a.asname or a.name.split(".")[0]] = ("g", a.name)
        return [("next", None, st)]

    def s_ImportFrom(self, n, sid, st):
        for a in n.names:
            v = ("g", f"{n.module}.{a.name}")
            if n.level == 1 and n.module in self.pkg.mods:
                v = self.global_name(n.module, a.name)
            st.env(sid)[a.asname or a.name] = v
        return [("next", None, st)]

    def s_Global(self, n, sid, st):
        return [("next", None, st)]

    s_Nonlocal = s_Global

    def s_Expr(self, n, sid, st):
        return self.from_vals(self.ev(n.value, sid, st))

    def s_Return(self, n, sid, st):
        if n.value is None:
            return [("ret", NONE, st)]
        if st.stack and st.stack[-1].endswith(".__iter__"):
            # an iterator that is returned instead of a generator function
            res = []
            for v, s in self.ev(n.value, sid, st):
                if s.exc is not None:
                    res.append(("raise", None, s))
                elif self.yieldable(v, s):
                    res += [("raise", None, s2) if s2.exc is not None else ("ret", NONE, s2) for _, s2 in self.yield_all(v, s, n, sid)]
                else:
                    res.append(("ret", v, s))
            return res
        return [("raise", None, s) if s.exc is not None else ("ret", v, s) for v, s in self.ev(n.value, sid, st)]

    def yieldable(self, v, st):
        return v[0] in ("mapf", "range", "slice", "zip", "enumerate", "seq") or v[0] == "ref" and st.heap[v[1]].kind in ("list", "tuple")

    def yield_all(self, v, st, node, sid):
        """Yields all elements of an iterable, as a loop would."""
        cs = next(self.ids)
        st.scopes[cs] = ({"<it>": v}, st.scopes[sid][1], sid)
        at = lambda x: ast.copy_location(x, node)
        elt = at(ast.Name(id="<x>", ctx=ast.Load()))
        if v[0] == "mapf":
            st.env(cs).update({"<f>": v[1], "<it>": v[2]})
            elt = at(ast.Call(func=at(ast.Name(id="<f>", ctx=ast.Load())), args=[elt], keywords=[]))
        loop = at(ast.For(target=at(ast.Name(id="<x>", ctx=ast.Store())), iter=at(ast.Name(id="<it>", ctx=ast.Load())), body=[at(ast.Expr(value=at(ast.Yield(value=elt))))], orelse=[]))
        return [(NONE, s) for status, val, s in self.block([loop], cs, st)]

    def s_Assign(self, n, sid, st):
        res = []
        for v, s in self.ev(n.value, sid, st):
            if s.exc is not None:
                res.append(("raise", None, s))
                continue
            outs = [s]
            for t in n.targets:
                outs = [o2 for o in outs for o2 in self.assign(t, v, sid, o)]
            res.extend(self.from_vals([(None, o) for o in outs]))
        return res

    def s_AnnAssign(self, n, sid, st):
        if n.value is None:
            return [("next", None, st)]
        res = []
        for v, s in self.ev(n.value, sid, st):
            if s.exc is not None:
                res.append(("raise", None, s))
                continue
            res.extend(self.from_vals([(None, o) for o in self.assign(n.target, v, sid, s)]))
        return res

    def s_AugAssign(self, n, sid, st):
        load = ast.copy_location(self._as_load(n.target), n)
        e = ast.copy_location(ast.BinOp(left=load, op=n.op, right=n.value), n)
        res = []
        for v, s in self.ev(e, sid, st):
            if s.exc is not None:
                res.append(("raise", None, s))
                continue
            # in-place list concatenation keeps identity
            res.extend(self.from_vals([(None, o) for o in self.assign(n.target, v, sid, s)]))
        return res

    def _as_load(self, t):
        t2 = ast.parse(ast.unparse(t), mode="eval").body
        for x in ast.walk(t2):
            ast.copy_location(x, t)
        return t2

    def assign(self, t, v, sid, st):
        """-> list of states"""
        if isinstance(t, ast.Name):
            st.env(sid)[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            elems = self.unpack(v, len(t.elts), st)
            outs = [st]
            for x, e in zip(t.elts, elems):
                if isinstance(x, ast.Starred):
                    outs = [o2 for o in outs for o2 in self.assign(x.value, ("opq", tuple(sorted(deps(v)))), sid, o)]
                else:
                    outs = [o2 for o in outs for o2 in self.assign(x, e, sid, o)]
            return outs
        if isinstance(t, ast.Attribute):
            outs = []
            for b, s in self.ev(t.value, sid, st):
                outs.extend(self.set_attr(b, t.attr, v, s, t) if s.exc is None else [s])
            return outs
        if isinstance(t, ast.Subscript):
            outs = []
            for (b, i), s in self.ev_list([t.value, t.slice], sid, st):
                outs.extend(self.set_item(b, i, v, s, t) if s.exc is None else [s])
            return outs
        self.incomplete.append((self.cur.qual, "assignment target"))
        return [st]

    def unpack(self, v, n, st):
        if v[0] == "ref" and st.heap[v[1]].kind in ("list", "tuple"):
            o = st.heap[v[1]]
            if all(s[0] == "e" for s in o.segs) and len(o.segs) == n:
                return [s[1] for s in o.segs]
        if v[0] == "c" and isinstance(v[1], (tuple, list)) and len(v[1]) == n:
            return [("c", x) for x in v[1]]
        return [("item", v, ("c", i)) for i in range(n)]

    def set_attr(self, b, name, v, st, node):
        if b[0] == "ite":
            return [r for x, s in self.force(b, st) for r in self.set_attr(x, name, v, s, node)]
        if b[0] == "ref":
            o = st.heap[b[1]]
            if o.kind == "inst":
                m = self.pkg.find_method(o.cls, "set:" + name) if o.cls else None
                if m:
                    return [s for _, s in self.inline(m, [b, v], {}, st, node)]
                st.w(b[1]).fields[name] = v
                return [st]
            if o.kind == "new":
                o = st.w(b[1])
                o.stores = o.stores + (((None, name), v),)
                return [st]
        if b[0] == "item" and b[1][0] == "ref" and st.heap[b[1][1]].kind == "new":
            o = st.w(b[1][1])
            o.stores = o.stores + (((b[2], name), v),)
            return [st]
        k = self.type_of(b, st)
        if k:
            m = self.pkg.find_method(k, "set:" + name)
            if m:
                return [s for _, s in self.inline(m, [b, v], {}, st, node)]
            sm = self.pkg.find_method(k, "__setattr__")
            if sm and not self.pkg.has_field(k, name) and sm.qual not in st.stack:
                return [s for _, s in self.inline(sm, [b, ("c", name), v], {}, st, node)]
        if v == NONE and (b, name) not in st.fields \
                and self.implied(("is", ("attr", self.resolve(b, st), name), NONE), st.conds) is True:
            return [st]
        st.fields[(b, name)] = v
        self.event(st, ("store", self.resolve(b, st), name, self.resolve(v, st)), node)
        return [st]

    def set_item(self, b, i, v, st, node):
        if b[0] == "ite":
            return [r for x, s in self.force(b, st) for r in self.set_item(x, i, v, s, node)]
        if b[0] == "ref":
            o = st.heap[b[1]]
            if o.kind == "new":
                o = st.w(b[1])
                o.stores = o.stores + (((i, None), v),)
                if i == ("c", 0) and o.ctype.endswith("*"):
                    o.fields["*"] = v
                return [st]
            if o.kind in ("dict",):
                st.w(b[1]).fields[i] = v
                return [st]
            if o.kind == "list":
                o = st.w(b[1])
                if is_int(i) and all(s[0] == "e" for s in o.segs) and -len(o.segs) <= i[1] < len(o.segs):
                    l = list(o.segs)
                    l[i[1]] = ("e", v)
                    o.segs = tuple(l)
                else:
                    o.segs = o.segs + (("set", i, v),)
                return [st]
            if o.kind == "inst" and o.cls:
                m = self.pkg.find_method(o.cls, "__setitem__")
                if m:
                    return [s for _, s in self.inline(m, [b, i, v], {}, st, node)]
        if b[0] in ("item", "attr") and b[1][0] == "ref":
            pass
        k = self.type_of(b, st)
        if k:
            m = self.pkg.find_method(k, "__setitem__")
            if m and m.qual not in st.stack:
                return [s for _, s in self.inline(m, [b, i, v], {}, st, node)]
        if b[0] == "item" and b[1][0] == "ref" and st.heap[b[1][1]].kind == "new":
            o = st.w(b[1][1])
            o.stores = o.stores + (((b[2], i), v),)
            return [st]
        self.event(st, ("setitem", self.resolve(b, st), self.resolve(i, st), self.resolve(v, st)), node)
        return [st]

    def s_Delete(self, n, sid, st):
        cur = [st]
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    s.env(sid).pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for (b, i), s2 in self.ev_list([t.value, t.slice], sid, s):
                        if s2.exc is not None:
                            nxt.append(s2)
                            continue
                        k = self.type_of(b, s2)
                        m = self.pkg.find_method(k, "__delitem__") if k else None
                        if m and m.qual not in s2.stack:
                            nxt.extend(s3 for _, s3 in self.inline(m, [b, i], {}, s2, n))
                        else:
                            self.event(s2, ("delitem", self.resolve(b, s2), self.resolve(i, s2)), n)
                            nxt.append(s2)
                else:
                    for b, s2 in self.ev(t.value, sid, s):
                        self.event(s2, ("delattr", self.resolve(b, s2), t.attr), n)
                        nxt.append(s2)
            cur = nxt
        return self.from_vals([(None, s) for s in cur])

    def s_If(self, n, sid, st):
        res, arms = [], []
        base = self.snapshot(st)
        pre = st.scopes[sid][0]
        for b, s in self.cond(n.test, sid, st):
            if s.exc is not None:
                res.append(("raise", None, s))
            else:
                conds = s.conds
                arms.append((b, conds, self.block(n.body if b else n.orelse, sid, s)))
        if len(arms) == 2 and all(len(x[2]) == 1 and x[2][0][0] == "next" for x in arms):
            m = self.join_arms([(b, c, [(NONE, o[0][2])]) for b, c, o in arms], base)
            if m is not None:
                atom, (_, sa), (_, sb) = m
                ea, eb = sa.scopes[sid][0], sb.scopes[sid][0]
                names = set(ea) | set(eb)
                if set(ea) == set(eb) and self.same_env(sa, sb, sid) and \
                        not any(v[0] in ("clo", "tup") for k in names if ea[k] != eb[k] for v in (ea[k], eb[k])):
                    sa.heap.update({k: v for k, v in sb.heap.items() if k not in sa.heap})
                    sa.scopes.update({k: v for k, v in sb.scopes.items() if k not in sa.scopes})
                    sa.conds = base[1]
                    sa.own = set()
                    env = sa.env(sid)
                    for k in names:
                        if ea[k] != eb[k]:
                            env[k] = self.mkite(atom, ea[k], eb[k])
                    return res + [("next", None, sa)]
        for _, _, o in arms:
            res.extend(o)
        return res

    def s_Assert(self, n, sid, st):
        res = []
        for b, s in self.cond(n.test, sid, st):
            if s.exc is not None:
                res.append(("raise", None, s))
            elif b:
                res.append(("next", None, s))
            else:
                s.exc = ("AssertionError", ())
                res.append(("raise", None, s))
        return res

    def s_Raise(self, n, sid, st):
        if n.exc is None:
            st.exc = st.exc or ("reraise", ())
            return [("raise", None, st)]
        res = []
        for v, s in self.ev(n.exc, sid, st):
            if s.exc is None:
                s.exc = self.exc_of(v, s)
            res.append(("raise", None, s))
        return res

    def exc_of(self, v, st):
        if v[0] == "ref" and st.heap[v[1]].kind == "inst":
            o = st.heap[v[1]]
            return (o.cls[1] if o.cls else "?", tuple(self.resolve(x, st) for x in o.fields.values()))
        if v[0] == "exc":
            return (v[1], v[2])
        if v[0] == "b":
            return (v[1], ())
        return ("term", self.resolve(v, st))

    def s_Break(self, n, sid, st):
        return [("brk", None, st)]

    def s_Continue(self, n, sid, st):
        return [("cont", None, st)]

    def s_FunctionDef(self, n, sid, st):
        f = Func(st.scopes[sid][1], n, None, qual=f"{self.cur.qual}.<locals>.{n.name}")
        st.env(sid)[n.name] = ("clo", f, sid)
        return [("next", None, st)]

    def s_ClassDef(self, n, sid, st):
        st.env(sid)[n.name] = ("opq", ())
        return [("next", None, st)]

    def s_With(self, n, sid, st):
        return self.with_items(list(n.items), n, sid, st)

    def with_items(self, items, n, sid, st):
        if not items:
            return self.block(n.body, sid, st)
        it, res = items[0], []
        for c, s in self.ev(it.context_expr, sid, st):
            if s.exc is not None:
                res.append(("raise", None, s))
                continue
            k = self.type_of(c, s)
            m1 = self.pkg.find_method(k, "__enter__") if k else None
            m2 = self.pkg.find_method(k, "__exit__") if k else None
            ent = self.inline(m1, [c], {}, s, n) if m1 else [(("call", ("attr", c, "__enter__"), (), ()), s)]
            for ev_, s1 in ent:
                if s1.exc is not None:
                    res.append(("raise", None, s1))
                    continue
                outs = [s1]
                if it.optional_vars is not None:
                    outs = self.assign(it.optional_vars, ev_, sid, s1)
                for s2 in outs:
                    for status, val, s3 in self.with_items(items[1:], n, sid, s2):
                        exc, s3.exc = s3.exc, None
                        if m2:
                            ex = self.inline(m2, [c, ("opq", ()), ("opq", ()), ("opq", ())], {}, s3, n)
                        else:
                            self.event(s3, ("ucall", ("attr", self.resolve(c, s3), "__exit__"), ()), n)
                            ex = [(FALSE, s3)]
                        for rv, s4 in ex:
                            if s4.exc is not None:
                                res.append(("raise", None, s4))
                            elif status == "raise" and rv == TRUE:
                                res.append(("next", None, s4))
                            else:
                                s4.exc = exc
                                res.append((status, val, s4))
        return res

    def s_Try(self, n, sid, st):
        st.intry += 1
        outs = self.block(n.body, sid, st)
        res = []
        for status, val, s in outs:
            s.intry -= 1
            if status == "raise" and n.handlers:
                res.extend(self.handle(n.handlers, s, sid))
            elif status == "next" and n.orelse:
                res.extend(self.block(n.orelse, sid, s))
            else:
                res.append((status, val, s))
        if n.finalbody:
            fin = []
            for status, val, s in res:
                exc, s.exc = s.exc, None
                for st2, v2, s2 in self.block(n.finalbody, sid, s):
                    if st2 != "next":
                        fin.append((st2, v2, s2))
                    else:
                        s2.exc = exc
                        fin.append((status, val, s2))
            res = fin
        return res

    def handle(self, handlers, s, sid):
        res, rest = [], s
        for h in handlers:
            m = self.exc_match(rest.exc, h.type, rest.scopes[sid][1])
            if m == "no":
                continue
            if m == "maybe":
                t = rest.fork()
            else:
                t, rest = rest, None
            exc = t.exc
            t.exc = None
            if h.name:
                t.env(sid)[h.name] = ("exc", exc[0], exc[1] if len(exc) > 1 else ())
            if m != "yes":
                t.conds = t.conds + ((("caught", self.exc_name(h.type)), True),)
            outs = self.block(h.body, sid, t)
            for status, val, s2 in outs:
                if status == "raise" and s2.exc is not None and s2.exc[0] == "reraise":
                    s2.exc = exc
                if status != "raise" or s2.exc != exc:
                    # an exception was swallowed or replaced: visible in the summary
                    s2.events = s2.events + ((("swallow", exc[0] if exc[0] != "term" else "?"), 0),)
                res.append((status, val, s2))
            if rest is None:
                return res
        res.append(("raise", None, rest))
        return res

    def exc_name(self, t):
        return ast.unparse(t) if t is not None else "*"

    def exc_match(self, exc, t, mod):
        if t is None:
            return "yes"
        names = [ast.unparse(x) for x in (t.elts if isinstance(t, ast.Tuple) else [t])]
        if "BaseException" in names:
            return "yes"
        c = getattr(builtins, str(exc[0]), None)
        known = isinstance(c, type) and issubclass(c, BaseException)
        for nm in names:
            d = getattr(builtins, nm, None)
            if known and isinstance(d, type):
                if issubclass(c, d):
                    return "yes"
            elif nm == "Exception" and exc[0] not in ("term", "?"):
                return "yes"
            else:
                return "maybe"
        return "no" if known else "maybe"

    # ---------------------------------------------------- loops

    def s_For(self, n, sid, st):
        res = []
        for it, s in self.ev(n.iter, sid, st):
            if s.exc is not None:
                res.append(("raise", None, s))
                continue
            for view, s1 in self.iter_view(it, s, n):
                if s1.exc is not None:
                    res.append(("raise", None, s1))
                    continue
                if view[0] == "conc":
                    cur, done = [s1], []
                    for e in view[1]:
                        nxt = []
                        for c in cur:
                            for c2 in self.assign(n.target, e, sid, c):
                                for status, val, c3 in self.block(n.body, sid, c2):
                                    if status in ("next", "cont"):
                                        nxt.append(c3)
                                    elif status == "brk":
                                        done.append(("next", None, c3))
                                    else:
                                        done.append((status, val, c3))
                        cur = nxt
                    res.extend(done)
                    for c in cur:
                        res.extend(self.block(n.orelse, sid, c))
                    continue
                for status, val, s2 in self.loop(view, n.target, n.body, sid, s1, n):
                    if status == "next" and n.orelse:
                        res.extend(self.block(n.orelse, sid, s2))
                    else:
                        res.append((status, val, s2))
        return res

    def iter_view(self, it, st, node):
        """How a value is iterated: list of (view, st); view = ('conc', [elems]) | ('sym', n, fn(idx)->term)"""
        if it[0] == "ite":
            return [r for x, s in self.force(it, st) for r in self.iter_view(x, s, node)]
        if it[0] == "c" and isinstance(it[1], (tuple, list, str)):
            return [(("conc", [("c", x) for x in it[1]]), st)]
        if it[0] == "ref":
            o = st.heap[it[1]]
            if o.kind in ("list", "tuple"):
                if all(s[0] == "e" for s in o.segs):
                    return [(("conc", [s[1] for s in o.segs]), st)]
                r = self.resolve(it, st)
                return [(("sym", self.mklen(r), lambda i, r=r: self.mkitem(r, i)), st)]
            if o.kind == "new":
                n = o.size if o.size is not None else ("len", it)
                return [(("sym", n, lambda i, r=it: ("item", r, i)), st)]
            if o.kind == "inst":
                m = self.pkg.find_method(o.cls, "__iter__") if o.cls else None
                r = self.resolve(it, st)
                return [(("sym", ("len", r), lambda i, r=r: ("item", r, i)), st)]
        if it[0] == "range":
            a, b, c = it[1], it[2], it[3]
            if a == ("c", 0) and c == ("c", 1):
                return [(("sym", b, lambda i: i), st)]
            if c == ("c", 1):
                return [(("sym", lin_add(b, a, -1), lambda i: lin_add(i, a)), st)]
            if c == ("c", -1):
                return [(("sym", lin_add(a, b, -1), lambda i: lin_add(a, i, -1)), st)]
            return [(("sym", ("call", ("b", "rangelen"), (a, b, c), ()), lambda i: ("call", ("b", "rangeitem"), (a, b, c, i), ())), st)]
        if it[0] == "enumerate":
            inner = self.iter_view(it[1], st, node)
            start = it[2]
            res = []
            for view, s in inner:
                if view[0] == "conc":
                    els = []
                    for i, e in enumerate(view[1]):
                        els.append(self.mktuple([lin_add(start, ("c", i)), e], s))
                    res.append((("conc", els), s))
                else:
                    res.append((("sym", view[1], lambda i, f=view[2], s=s: ("tup", (lin_add(start, i), f(i)))), s))
            return res
        if it[0] == "zip":
            views = [self.iter_view(x, st, node)[0][0] for x in it[1]]
            if all(v[0] == "conc" for v in views):
                return [(("conc", [self.mktuple(list(t), st) for t in zip(*[v[1] for v in views])]), st)]
            sym = [v for v in views if v[0] == "sym"]
            n = sym[0][1]
            for v in sym:
                if v[1][0] == "len":
                    n = v[1]
                    break

            def fn(i, views=views):
                out = []
                for v in views:
                    out.append(v[2](i) if v[0] == "sym" else ("item", ("seq", tuple(("e", e) for e in v[1])), i))
                return ("tup", tuple(out))
            return [(("sym", n, fn), st)]
        if it[0] == "slice":
            b, lo, hi = it[1], it[2], it[3]
            lo = ("c", 0) if lo == NONE else lo
            if hi != NONE:
                return [(("sym", lin_add(hi, lo, -1), lambda i: ("item", b, lin_add(i, lo))), st)]
        if it[0] == "mapf":
            inner = self.iter_view(it[2], st, node)
            res = []
            for view, s in inner:
                res.append((("mapcall", it[1], view), s))
            return [( ("sym", v[1][1] if v[0] == "mapcall" and v[2][0] == "sym" else ("len", self.resolve(it, s)), lambda i, r=self.resolve(it, s): ("item", r, i)), s) for v, s in res]
        if it[0] == "seq":
            return [(("sym", self.mklen(it), lambda i: self.mkitem(it, i)), st)]
        k = self.type_of(it, st)
        return [(("sym", ("len", it), lambda i: ("item", it, i)), st)]

    def mktuple(self, els, st):
        o = Obj("tuple")
        o.segs = tuple(("e", e) for e in els)
        return self.alloc(o, st)

    def alloc(self, o, st):
        i = next(self.ids)
        st.heap[i] = o
        st.own.add(i)
        return ("ref", i)

    def mklen(self, t):
        if t[0] == "seq":
            n = ("c", 0)
            for s in t[1]:
                if s[0] == "e":
                    n = lin_add(n, ("c", 1))
                elif s[0] == "m" and all(len(p[1]) == 1 for p in s[2]):
                    n = lin_add(n, s[1])
                elif s[0] == "x":
                    n = lin_add(n, ("len", s[1]))
                else:
                    return ("len", t)
            return n
        if t[0] == "slice" and t[2] in (NONE, ("c", 0)) and t[3] != NONE:
            return t[3]
        if t[0] == "enc":
            return ("len", t)
        return ("len", t)

    def mkitem(self, t, i):
        if t[0] == "ite" and len(t) == 4:
            a, b = self.mkitem(t[2], i), self.mkitem(t[3], i)
            return a if a == b else ("ite", t[1], a, b)
        if t[0] == "seq":
            if is_int(i):
                if all(s[0] == "e" for s in t[1]):
                    try:
                        return t[1][i[1]][1]
                    except IndexError:
                        return ("item", t, i)
                if i[1] == -1 and t[1] and t[1][-1][0] == "e":
                    return t[1][-1][1]
            if len(t[1]) == 1 and t[1][0][0] == "m":
                n, paths, v = t[1][0][1], t[1][0][2], t[1][0][3]
                if len(paths) == 1 and not paths[0][0] and len(paths[0][1]) == 1 and paths[0][1][0][0] == "e":
                    return subst(paths[0][1][0][1], v, i)
                if len(paths) > 1 and all(len(p[1]) == 1 and p[1][0][0] == "e" for p in paths):
                    d = summ._diagram([(tuple(p[0]), p[1][0][1]) for p in paths])
                    if d:
                        def tree(d):
                            return d[1] if d[0] == "leaf" else ("ite", d[1], tree(d[2]), tree(d[3]))
                        return subst(tree(d), v, i)
        if t[0] == "slice" and t[3] != NONE and not (is_int(i) and i[1] < 0):
            lo = ("c", 0) if t[2] == NONE else t[2]
            return ("item", t[1], lin_add(i, lo))
        if t[0] == "tup" and is_int(i) and -len(t[1]) <= i[1] < len(t[1]):
            return t[1][i[1]]
        return ("item", t, i)

    def assigned(self, body):
        res = set()
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    res.add(x.id)
                if isinstance(x, ast.FunctionDef):
                    res.add(x.name)
        return res

    def loop(self, view, target, body, sid, st, node, yields=None):
        """One abstract iteration of `for target in view: body`."""
        self.stats["loops"] += 1
        n, fn = view[1], view[2]
        if n == ("c", 0):
            return [("next", None, st)]
        depth = st.loopdepth
        var = ("v", depth)
        names = self.assigned(body) & set(st.scopes[sid][0])
        pre = {k: st.scopes[sid][0][k] for k in names}
        ind, havoc = {}, {}

        def run(extra):
            s = st.fork()
            s.loopdepth = depth + 1
            s.events = ()
            s.conds = st.conds
            s.lstart = dict(st.lstart)
            for i, o in s.heap.items():
                if o.kind == "list" and i not in s.lstart:
                    s.lstart[i] = len(o.segs)
            for k, v in extra.items():
                s.env(sid)[k] = v
            elem = fn(var)
            outs = []
            tgts = [s]
            if target is not None:
                if elem[0] == "tup" and isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == len(elem[1]):
                    for x, e in zip(target.elts, elem[1]):
                        tgts = [t2 for t in tgts for t2 in self.assign(x, e, sid, t)]
                else:
                    if elem[0] == "tup":
                        elem = self.mktuple(list(elem[1]), s)
                    tgts = self.assign(target, elem, sid, s)
            for t in tgts:
                outs.extend(self.block(body, sid, t))
            return outs

        outs = run({})
        # loop carried scalars
        changed = {}
        for status, val, s in outs:
            if status in ("next", "cont"):
                for k in names:
                    nv = s.scopes[sid][0].get(k)
                    if nv is not None and nv != pre[k]:
                        changed.setdefault(k, set()).add(nv)
                    elif nv == pre[k]:
                        changed.setdefault(k, set())
        extra = {}
        for k, vals in changed.items():
            if not vals:
                continue
            p = pre[k]
            step = None
            if len(vals) == 1 and (is_int(p) or intlike(p)):
                d = lin_add(next(iter(vals)), p, -1)
                if is_int(d) and all((s.scopes[sid][0].get(k) in vals) for stt, _, s in outs if stt in ("next", "cont")):
                    step = d[1]
            if step is not None:
                ind[k] = (p, step)
                extra[k] = lin_add(p, mklin({var: step}, 0))
            else:
                if any(self.reads_before_write(body, k) for _ in (0,)):
                    allv = [self.resolve(p, st)] + sorted((self.resolve(v, s) for v in vals for s in [outs[0][2]] if self._resolvable(v, s)), key=okey)
                    havoc[k] = ("phi", tuple(dict.fromkeys(allv)))
                    extra[k] = havoc[k]
        if extra:
            outs = run(extra)
        return self.join_loop(outs, st, sid, n, var, depth, names, pre, ind, node)

    def _resolvable(self, v, s):
        return not (v[0] == "ref" and v[1] not in s.heap)

    def reads_before_write(self, body, name):
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load):
                    return True
        return False

    def join_loop(self, outs, st, sid, n, var, depth, names, pre, ind, node):
        base_conds = set(st.conds)
        groups = {}
        results = []
        for status, val, s in outs:
            delta = [c for c in s.conds if c not in base_conds]
            inv = tuple(c for c in delta if not contains_var(c[0], depth) and not has_opaque(c[0]))
            per = tuple(c for c in delta if c not in inv)
            if status in ("next", "cont", "brk"):
                groups.setdefault(frozenset(inv), []).append((status, per, s, inv))
            else:
                s2 = s
                s2.loopdepth = depth
                s2.lstart = st.lstart
                s2.conds = st.conds + inv + ((("inloop", self.resolve(n, s), tuple(sorted(per, key=okey))), True),)
                s2.events = st.events + ((("loop*", self.resolve(n, s), s.events), 0),) if s.events else st.events
                results.append((status, val, s2))
        # merge compatible groups: a group with a smaller invariant set is contained in larger ones
        keys = list(groups)
        finals = []
        for k in keys:
            members = list(groups[k])
            for k2 in keys:
                if k2 < k:
                    members += [(a, b, c, tuple(k)) for a, b, c, _ in groups[k2]]
            if any(k < k2 for k2 in keys):
                # k is extended by more specific groups; keep it only if they do not cover it
                ext = [k2 - k for k2 in keys if k < k2]
                atoms = {c[0] for e in ext for c in e}
                if len(atoms) >= 1:
                    flip = {frozenset(((a, True),)) for a in atoms} | {frozenset(((a, False),)) for a in atoms}
                    if all(f in ext for f in flip):
                        continue
            finals.append((k, members))
        for inv, members in finals:
            s0 = st.fork()
            s0.conds = st.conds + tuple(members[0][3])
            first = members[0][2]
            brk = any(m[0] == "brk" for m in members)
            nn = self.resolve(n, first)
            # heap effects
            ids = set(st.heap)
            for i in ids:
                o0 = st.heap[i]
                if all(m[2].heap[i] is o0 for m in members):
                    continue
                paths, stores = [], {}
                touched = False
                for status, per, s, _ in members:
                    o = s.heap[i]
                    add = o.segs[len(o0.segs):] if o.segs[:len(o0.segs)] == o0.segs else None
                    if add is None:
                        touched = True
                        paths = None
                        break
                    radd = tuple(self.rseg(x, s) for x in add)
                    sper = tuple(sorted(((self.resolve(a, s), b) for a, b in per), key=okey))
                    paths.append((sper, radd))
                    if add:
                        touched = True
                if touched and paths is None:
                    s0.w(i).segs = (("x", ("opq", ())),)
                elif touched:
                    p2 = merge_paths(paths)
                    s0.w(i).segs = o0.segs + (("m", nn, p2, var),)
                # C array stores
                st_paths = []
                touched = False
                for status, per, s, _ in members:
                    o = s.heap[i]
                    add = o.stores[len(o0.stores):]
                    if add:
                        touched = True
                    sper = tuple(sorted(((self.resolve(a, s), b) for a, b in per), key=okey))
                    st_paths.append((sper, tuple((self.rkey(kk, s), self.resolve(vv, s)) for kk, vv in add)))
                if touched:
                    s0.w(i).stores = o0.stores + ((("loop", nn, var), merge_paths(st_paths)),)
                # entries added to dictionaries
                if o0.kind == "dict":
                    paths, touched = [], False
                    for status, per, s, _ in members:
                        o = s.heap[i]
                        add = tuple(("e", ("seq", (("e", self.resolve(f, s)), ("e", self.resolve(v, s))))) for f, v in o.fields.items() if o0.fields.get(f) != v)
                        add += tuple(self.rseg(x, s) for x in o.segs[len(o0.segs):])
                        touched = touched or bool(add)
                        paths.append((tuple(sorted(((self.resolve(a, s), b) for a, b in per), key=okey)), add))
                    if touched:
                        s0.w(i).segs = o0.segs + (("m", nn, merge_paths(paths), var),)
                    continue
                # scalar cells / instance fields
                for status, per, s, _ in members:
                    o = s.heap[i]
                    for f, v in o.fields.items():
                        if o0.fields.get(f) != v:
                            old = o0.fields.get(f)
                            rv = self.resolve(v, s)
                            s0.w(i).fields[f] = ("phi", tuple(x for x in (old, rv) if x is not None))
            for status, per, s, _ in members:
                for f, v in s.fields.items():
                    if st.fields.get(f) != v:
                        s0.fields[f] = ("opq", tuple(sorted(deps(self.resolve(v, s)))))
                for u, c in s.checked.items():
                    s0.checked[u] = c
            evp = []
            for status, per, s, _ in members:
                sper = tuple(sorted(((self.resolve(a, s), b) for a, b in per), key=okey))
                if s.events or status == "brk":
                    evp.append((sper, s.events + (((("break",), 0),) if status == "brk" else ())))
            if evp:
                s0.events = st.events + ((("loop", nn, tuple(evp), var), 0),)
            # variables
            env0 = s0.env(sid)
            allnames = set()
            for status, per, s, _ in members:
                allnames |= set(s.scopes[sid][0])
            for k in allnames:
                vals = []
                for status, per, s, _ in members:
                    v = s.scopes[sid][0].get(k)
                    if v is None:
                        continue
                    if self._is_pre_ref(v, st) or v == st.scopes[sid][0].get(k):
                        vals.append(v)
                    else:
                        vals.append(self.resolve(v, s) if v[0] != "clo" else v)
                if k in pre:
                    if k in ind:
                        p, stepc = ind[k]
                        d, c = lin(n)
                        env0[k] = lin_add(p, mklin({x: y * stepc for x, y in d.items()}, c * stepc)) if not brk else ("opq", tuple(sorted(deps(self.resolve(n, first)))))
                    elif all(v == pre[k] for v in vals):
                        env0[k] = pre[k]
                    elif not brk and self.any_value(k, members, pre[k], st, sid, depth) is not None:
                        paths, v = self.any_value(k, members, pre[k], st, sid, depth)
                        a = ("anyof", summ.canon(("m", nn, paths, var)))
                        env0[k] = ("ite", a, v, pre[k])
                    else:
                        u = [pre[k]] + [v for v in vals if v != pre[k]]
                        u = list(dict.fromkeys(u))
                        if all(x[0] != "ref" for x in u):
                            env0[k] = ("phi", tuple(u))
                        else:
                            env0[k] = ("phi", tuple(u))
                elif vals:
                    u = list(dict.fromkeys(vals))
                    env0[k] = u[0] if len(u) == 1 else ("phi", tuple(u))
            s0.loopdepth = depth
            s0.lstart = st.lstart
            results.append(("next", None, s0))
        return results

    def any_value(self, k, members, pre, st, sid, depth):
        """A variable that some iterations set to one loop-invariant value: -> (case paths, value)"""
        paths, new = [], set()
        for status, per, s, _ in members:
            v = s.scopes[sid][0].get(k)
            if v is None:
                return None
            base = tuple((self.resolve(a, s), b) for a, b in per)
            for c, leaf in summ._ite_paths(v):
                if not self._is_pre_ref(leaf, st) and leaf[0] == "ref":
                    return None
                if leaf != pre:
                    new.add(leaf)
                cs = base + tuple((self.resolve(a, s), b) for a, b in c)
                paths.append((tuple(sorted(dict(cs).items(), key=okey)), (("e", ("c", leaf != pre)),)))
        if len(new) != 1:
            return None
        v = next(iter(new))
        if contains_var(v, depth) or has_opaque(v) or contains_var(pre, depth) and pre[0] != "ref":
            return None
        return tuple(sorted(set(paths), key=okey)), v

    def _is_pre_ref(self, v, st):
        return v[0] == "ref" and v[1] in st.heap

    def rkey(self, k, s):
        if k and k[0] == "loop":
            return k
        return tuple(self.resolve(x, s) if isinstance(x, tuple) else x for x in k)

    def rseg(self, g, s):
        if g[0] in ("e", "x"):
            return (g[0], self.resolve(g[1], s))
        if g[0] == "m":
            return ("m", self.resolve(g[1], s), g[2], g[3])
        if g[0] == "set":
            return ("set", self.resolve(g[1], s), self.resolve(g[2], s))
        return g

    def s_While(self, n, sid, st):
        # counting loops are rewritten to range loops
        rng = self.counting(n, sid, st)
        if rng is not None:
            view, body = rng
            res = []
            for status, val, s in self.loop(view, None, body, sid, st, n):
                res.append((status, val, s))
            return res
        # general: (possibly) iterate an unknown number of times
        if not (isinstance(n.test, ast.Constant) and n.test.value) and not n.orelse:
            n = self.endless_loop(n)
        names = self.assigned(n.body) & set(st.scopes[sid][0])
        pre = {k: st.scopes[sid][0][k] for k in names}
        depth = st.loopdepth
        var = ("v", depth)
        const = {k for k in names if pre[k][0] != "ref"}
        while True:
            s = st.fork()
            s.loopdepth = depth + 1
            s.events = ()
            for k in names:
                if self.reads_before_write(n.body, k) or any(isinstance(x, ast.Name) and x.id == k for x in ast.walk(n.test)):
                    # value at the start of some iteration
                    s.env(sid)[k] = ("phi", (self.resolve(pre[k], s), ("v", depth))) if pre[k][0] != "ref" and k not in const else pre[k]
            outs = []
            exits = []
            for b, s1 in self.cond(n.test, sid, s):
                if s1.exc is not None:
                    outs.append(("raise", None, s1))
                elif b:
                    outs.extend(self.block(n.body, sid, s1))
                else:
                    exits.append(s1)
            changed = {k for k in const for status, _, s1 in outs if status in ("next", "cont", "continue") and self.resolve(s1.scopes[sid][0].get(k, pre[k]), s1) != self.resolve(pre[k], st)}
            if not changed:
                break
            const -= changed
        cnt = ("while", self.resolve_cond_term(n, sid, st))
        # events of the test are evaluated once more at exit; they are part of the body events
        res = []
        if not outs:
            return [("next", None, e) for e in exits]
        fin = self.join_loop(outs, st, sid, cnt, var, depth, names, pre, {}, n)
        for status, val, s2 in fin:
            if status == "next" and not exits and not any(o[0] == "brk" for o in outs):
                continue     # `while True` without break: never falls through
            res.append((status, val, s2))
        return res

    def endless_loop(self, n):
        if n not in self.loops:
            t = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=[ast.Break()], orelse=[])
            self.loops[n] = ast.copy_location(ast.While(test=ast.Constant(value=True), body=[t] + n.body, orelse=[]), n)
            ast.fix_missing_locations(self.loops[n])
            for x in ast.walk(t):
                ast.copy_location(x, n.test) if not hasattr(x, "lineno") else None
        return self.loops[n]

    def resolve_cond_term(self, n, sid, st):
        return ("c", "loop")

    def counting(self, n, sid, st):
        """while i < N: body; i += 1"""
        t = n.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name)):
            return None
        i = t.left.id
        init = st.scopes[sid][0].get(i)
        if init is None or not (is_int(init) or intlike(init)):
            return None
        body = list(n.body)
        if any(isinstance(x, (ast.Break, ast.Continue)) for b in body for x in ast.walk(b)):
            return None
        inc = [b for b in body if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and b.target.id == i]
        if len(inc) != 1 or not (isinstance(inc[0].op, ast.Add) and isinstance(inc[0].value, ast.Constant) and inc[0].value.value == 1):
            return None
        if any(isinstance(x, ast.Name) and x.id == i and isinstance(x.ctx, ast.Store) for b in body if b is not inc[0] for x in ast.walk(b)):
            return None
        vals = self.ev(t.comparators[0], sid, st)
        if len(vals) != 1 or vals[0][1].exc is not None or vals[0][1] is not st:
            return None
        N = vals[0][0]
        return ("sym", lin_add(N, init, -1), lambda x: lin_add(x, init)), body

    # ---------------------------------------------------- conditions

    def cond(self, n, sid, st):
        """Branch on an expression: list of (bool, st)."""
        if isinstance(n, ast.BoolOp):
            res, cur = [], [st]
            isand = isinstance(n.op, ast.And)
            for i, v in enumerate(n.values):
                nxt = []
                for s in cur:
                    for b, s2 in self.cond(v, sid, s):
                        if s2.exc is not None:
                            res.append((None, s2))
                        elif b != isand:
                            res.append((b, s2))
                        elif i == len(n.values) - 1:
                            res.append((b, s2))
                        else:
                            nxt.append(s2)
                cur = nxt
            return res
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [((not b) if b is not None else None, s) for b, s in self.cond(n.operand, sid, st)]
        res = []
        for v, s in self.ev(n, sid, st):
            if s.exc is not None:
                res.append((None, s))
            else:
                res.extend(self.decide(v, s))
        return res

    def truth(self, v, st):
        """-> True/False or (atom, polarity)"""
        k = v[0]
        if k == "c":
            return bool(v[1])
        if k == "null":
            return False
        if k == "not":
            r = self.truth(v[1], st)
            return (not r) if isinstance(r, bool) else (r[0], not r[1])
        if k == "truth":
            return self.truth(v[1], st)
        if k in ("lib", "clo", "func", "cls", "bm", "enc", "g", "newhandle", "b", "inst", "tup"):
            if k == "lib" and v[1] in self.h.enums:
                return bool(self.h.enums[v[1]])
            return True
        if k == "ref":
            o = st.heap[v[1]]
            if o.kind in ("list", "tuple", "dict"):
                if o.kind == "dict":
                    if o.fields or not o.segs:
                        return bool(o.fields)
                    return (("t", self.resolve(v, st)), True)
                if any(s[0] == "e" for s in o.segs):
                    return True
                if not o.segs:
                    return False
                return (("t", self.resolve(v, st)), True)
            if o.kind == "inst" and o.cls:
                # objects are true unless they define otherwise
                if self.pkg.find_method(o.cls, "__bool__") or self.pkg.find_method(o.cls, "__len__"):
                    return (("t", self.resolve(v, st)), True)
            return True
        if k == "len":
            return (("t", v[1]), True)
        if k == "lt":
            if intlike(v[1]) or intlike(v[2]):
                r = le0(lin_add(lin_add(v[1], v[2], -1), ("c", 1)))
                return r[1] if r[0] == "const" else r
            return (v, True)
        if k == "eq":
            a, b = v[1], v[2]
            for x, y in ((a, b), (b, a)):
                if y == ("c", 0) and x[0] == "bin" and x[1] == "&":
                    return (("t", x), False)
                if y == ("c", 0) and x[0] == "len":
                    return (("t", x[1]), False)
                if y == TRUE and x[0] in ("not", "truth", "eq", "lt", "is"):
                    return self.truth(x, st)
            if a[0] in ("c", "lib") and b[0] in ("c", "lib"):
                va = self.h.enums.get(a[1], None) if a[0] == "lib" else a[1]
                vb = self.h.enums.get(b[1], None) if b[0] == "lib" else b[1]
                if va is not None and vb is not None:
                    return va == vb
            return (v, True)
        if k in ("is", "in"):
            return (v, True)
        if k == "ret":
            return (v, True)
        if k == "bin" and v[1] in ("|",):
            pass
        return (("t", v), True)

    def decide(self, v, st):
        if self.has_ite(v):
            w = self.lift(v)
            if w[0] == "ite":
                return [x for y, s in self.force(w, st) for x in self.decide(y, s)]
        r = self.truth(v, st)
        if isinstance(r, bool):
            return [(r, st)]
        atom, pol = r
        if atom[0] == "ret":           # success flag of an engine call
            uid = atom[1]
            if uid in st.checked:
                return [(st.checked[uid] == pol, st)]
            s2 = st.fork()
            st.checked[uid] = True
            s2.checked[uid] = False
            return [(pol, st), (not pol, s2)]
        atom = self.ratom(atom, st)
        known = self.implied(atom, st.conds)
        if known is not None:
            return [(known == pol, st)]
        s2 = st.fork()
        st.conds = st.conds + ((atom, True),)
        s2.conds = s2.conds + ((atom, False),)
        return [(pol, st), (not pol, s2)]

    def ratom(self, a, st):
        return tuple(self.resolve(x, st) if isinstance(x, tuple) else x for x in a) if a[0] != "le" else a

    def implied(self, atom, conds):
        for a, b in conds:
            if a == atom:
                return b
        if atom[0] == "le":
            for a, b in conds:
                if a[0] == "le" and a[1] == atom[1]:
                    # a: L + c <= 0
                    if b and atom[2] <= a[2]:
                        return True
                    if not b and atom[2] >= a[2]:
                        return False
        if atom[0] == "eq":
            x, y = atom[1], atom[2]
            for a, b in conds:
                if a[0] == "eq" and b:
                    for s, t in ((a[1], a[2]), (a[2], a[1])):
                        for u, w in ((x, y), (y, x)):
                            if s == u and self.distinct(t, w):
                                return False
        if atom[0] == "is" and atom[2] == NONE:
            for a, b in conds:
                if b and a == ("t", atom[1]):
                    return False
                if b and a[0] == "isinst" and a[1] == atom[1]:
                    return False
        if atom[0] == "t":
            for a, b in conds:
                if b and a == ("is", atom[1], NONE):
                    return False
        if atom[0] == "isinst" and atom[2] not in ("object",):
            for a, b in conds:
                if b and a == ("is", atom[1], NONE):
                    return False
        return None

    def distinct(self, a, b):
        va = self.h.enums.get(a[1]) if a[0] == "lib" else (a[1] if a[0] == "c" else None)
        vb = self.h.enums.get(b[1]) if b[0] == "lib" else (b[1] if b[0] == "c" else None)
        return va is not None and vb is not None and va != vb

    # ---------------------------------------------------- expressions

    def ev_list(self, nodes, sid, st):
        cur = [((), st)]
        for n in nodes:
            nxt = []
            for vals, s in cur:
                if s.exc is not None:
                    nxt.append((vals + (NONE,), s))
                    continue
                for v, s2 in self.ev(n, sid, s):
                    nxt.append((vals + (v if v is not None else NONE,), s2))
            cur = nxt
        return cur

    def ev(self, n, sid, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.incomplete.append((self.cur.qual, "expression " + type(n).__name__))
            return [(("opq", ()), st)]
        return m(n, sid, st)

    def e_Constant(self, n, sid, st):
        return [(("c", n.value), st)]

    def e_Name(self, n, sid, st):
        s = sid
        while s is not None:
            env, mod, parent = st.scopes[s]
            if n.id in env:
                return [(env[n.id], st)]
            s = parent
        if getattr(n, "unbound", False):
            st.exc = ("NameError", (("c", n.id),))
            return [(None, st)]
        return [(self.global_name(st.scopes[sid][1], n.id), st)]

    def global_name(self, mod, name):
        if name == "_lib":
            return ("LIB",)
        if name == "_ffi":
            return ("FFI",)
        r = self.pkg.resolve_name(mod, name)
        if r is None:
            if hasattr(builtins, name):
                return ("b", name)
            return ("g", name)
        if r[0] == "func":
            return ("func", r[1])
        if r[0] == "cls":
            return ("cls", r[1])
        if r[0] == "global":
            node = self.pkg.globals[r[1]][r[2]]
            if isinstance(node, ast.Constant):
                return ("c", node.value)
            return ("g", f"{r[1]}.{r[2]}")
        return ("g", f"{r[1]}.{r[2]}" if r[1] else r[2])

    def e_Tuple(self, n, sid, st):
        return self.mkseq("tuple", n.elts, sid, st)

    def e_List(self, n, sid, st):
        return self.mkseq("list", n.elts, sid, st)

    def e_Set(self, n, sid, st):
        return self.mkseq("list", n.elts, sid, st)

    def mkseq(self, kind, elts, sid, st):
        plain = [e.value if isinstance(e, ast.Starred) else e for e in elts]
        res = []
        for vals, s in self.ev_list(plain, sid, st):
            if s.exc is not None:
                res.append((None, s))
                continue
            o = Obj(kind)
            segs = []
            for e, v in zip(elts, vals):
                if isinstance(e, ast.Starred):
                    segs.extend(self.spread(v, s))
                else:
                    segs.append(("e", v))
            o.segs = tuple(segs)
            res.append((self.alloc(o, s), s))
        return res

    def spread(self, v, st):
        if v[0] == "call" and v[1][0] == "attr" and v[1][2] == "indices" and len(v[2]) == 1:
            return [("e", ("item", v, ("c", i))) for i in range(3)]         # slice.indices
        if v[0] == "ref" and st.heap[v[1]].kind in ("list", "tuple"):
            return list(st.heap[v[1]].segs)
        r = self.resolve(v, st)
        if r[0] == "seq":
            return list(r[1])
        return [("x", r)]

    def e_Dict(self, n, sid, st):
        keys = [k for k in n.keys if k is not None]
        res = []
        for vals, s in self.ev_list(keys + list(n.values), sid, st):
            if s.exc is not None:
                res.append((None, s))
                continue
            o = Obj("dict")
            for k, v in zip(vals[:len(keys)], vals[len(keys):]):
                o.fields[k] = v
            res.append((self.alloc(o, s), s))
        return res

    def e_JoinedStr(self, n, sid, st):
        parts = [v.value if isinstance(v, ast.FormattedValue) else v for v in n.values]
        res = []
        for vals, s in self.ev_list(parts, sid, st):
            if s.exc is not None:
                res.append((None, s))
                continue
            parts = []
            for x, v in zip(n.values, vals):
                v = self.resolve(v, s)
                if isinstance(x, ast.FormattedValue) and x.format_spec is not None:
                    v = ("call", ("b", "format"), (v, ("c", ast.unparse(x.format_spec))), ())
                parts.append((v, x.conversion if isinstance(x, ast.FormattedValue) else -1))
            res.append((self.mkfstr(parts), s))
        return res

    def e_FormattedValue(self, n, sid, st):
        return self.ev(n.value, sid, st)

    def e_IfExp(self, n, sid, st):
        base = self.snapshot(st)
        res = []
        for b, s in self.cond(n.test, sid, st):
            if s.exc is not None:
                res.append((None, s))
            else:
                res.extend(self.ev(n.body if b else n.orelse, sid, s))
        return self.join_values(res, base)

    def mkite(self, atom, a, b):
        if a == b:
            return a
        return ("ite", atom, a, b)

    def snapshot(self, st):
        return (st.events, st.conds, st.heap.copy(), dict(st.fields), dict(st.checked), dict(st.scopes))

    def tree(self, items, k):
        """items: (conditions after the branch, value) -> one gated value, or None."""
        if len(items) == 1:
            return items[0][1] if len(items[0][0]) == k else None
        if any(len(i[0]) <= k for i in items):
            return None
        atom = items[0][0][k][0]
        if any(i[0][k][0] != atom for i in items):
            return None
        t = [i for i in items if i[0][k][1]]
        f = [i for i in items if not i[0][k][1]]
        if not t or not f:
            return None
        a, b = self.tree(t, k + 1), self.tree(f, k + 1)
        return None if a is None or b is None else self.mkite(atom, a, b)

    def pure_since(self, s, base):
        return (s.exc is None and s.events == base[0] and len(s.conds) >= len(base[1]) and s.fields == base[3]
                and s.checked == base[4] and all(s.heap.get(k) is o for k, o in base[2].items())
                and all(s.scopes.get(k) is v or (k in s.scopes and s.scopes[k][0] == v[0]) for k, v in base[5].items()))

    def join_values(self, res, base):
        """Join pure alternatives of one expression into a gated value."""
        if len(res) < 2 or any(v is None or not self.pure_since(s, base) for v, s in res):
            return res
        v = self.tree([(s.conds[len(base[1]):], v) for v, s in res], 0)
        if v is None:
            return res
        s0 = res[0][1]
        for _, s in res[1:]:
            s0.heap.update({k: o for k, o in s.heap.items() if k not in s0.heap})
            s0.scopes.update({k: o for k, o in s.scopes.items() if k not in s0.scopes})
        s0.own = set()
        s0.conds = base[1]
        return [(v, s0)]

    def join_arms(self, arms, base):
        """Two pure arms that differ in one decided condition -> (atom, true arm, false arm)."""
        if len(arms) != 2 or len(arms[0][2]) != 1 or len(arms[1][2]) != 1:
            return None
        got = {}
        for b, conds, [(v, s)] in arms:
            if s.exc is not None or v is None or len(conds) != len(base[1]) + 1 or s.conds != conds:
                return None
            if s.events != base[0] or s.fields != base[3] or s.checked != base[4]:
                return None
            if any(s.heap.get(k) is not o for k, o in base[2].items()):
                return None
            got[conds[-1][1]] = (conds[-1][0], v, s)
        if set(got) != {True, False} or got[True][0] != got[False][0]:
            return None
        return got[True][0], got[True][1:], got[False][1:]

    def same_env(self, sa, sb, skip):
        """Scopes present in both states hold the same variables (except `skip`)."""
        for k, v in sa.scopes.items():
            if k == skip:
                continue
            w = sb.scopes.get(k)
            if w is not None and w[0] is not v[0] and w[0] != v[0]:
                return False
        return True

    def force(self, v, st):
        """Split a gated value into its alternatives: list of (value, state)."""
        if not (isinstance(v, tuple) and v and v[0] == "ite"):
            return [(v, st)]
        atom, a, b = v[1:]
        known = self.implied(atom, st.conds)
        if known is not None:
            return self.force(a if known else b, st)
        s2 = st.fork()
        st.conds = st.conds + ((atom, True),)
        s2.conds = s2.conds + ((atom, False),)
        return self.force(a, st) + self.force(b, s2)

    def forced(self, vals, st):
        cur = [((), st)]
        for v in vals:
            cur = [(done + (x,), s2) for done, s in cur for x, s2 in self.force(v, s)]
        return cur

    def e_BoolOp(self, n, sid, st):
        isand = isinstance(n.op, ast.And)
        base = self.snapshot(st)
        res, cur = [], [st]
        for i, v in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for s in cur:
                for val, s2 in self.ev(v, sid, s):
                    if s2.exc is not None or last:
                        res.append((val, s2))
                        continue
                    for b, s3 in self.decide(val, s2):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            # a comparison that was decided is a known boolean
                            if val[0] in ("eq", "lt", "is", "in", "not", "truth", "isinst"):
                                res.append((("c", b), s3))
                            else:
                                res.append((val, s3))
            cur = nxt
        return self.join_values(res, base)

    def e_NamedExpr(self, n, sid, st):
        res = []
        for v, s in self.ev(n.value, sid, st):
            if s.exc is None:
                s.env(sid)[n.target.id] = v
            res.append((v, s))
        return res

    def e_UnaryOp(self, n, sid, st):
        res = []
        for v, s in self.ev(n.operand, sid, st):
            if s.exc is not None:
                res.append((None, s))
            elif isinstance(n.op, ast.Not):
                r = self.truth(v, s)
                if isinstance(r, bool):
                    res.append((("c", not r), s))
                elif r[0][0] == "ret":
                    for b, s2 in self.decide(v, s):
                        res.append((("c", not b), s2))
                else:
                    res.append((v[1] if v[0] == "not" else ("not", v), s))
            elif isinstance(n.op, ast.USub):
                if v[0] == "c":
                    res.append((("c", -v[1]), s))
                else:
                    d, c = lin(v)
                    res.append((mklin({k: -x for k, x in d.items()}, -c), s))
            elif isinstance(n.op, ast.UAdd):
                res.append((v, s))
            else:
                res.append((("un", type(n.op).__name__, v), s))
        return res

    def e_BinOp(self, n, sid, st):
        res = []
        for (a, b), s in self.ev_list([n.left, n.right], sid, st):
            if s.exc is not None:
                res.append((None, s))
                continue
            res.append((self.binop(type(n.op).__name__, a, b, s), s))
        return res

    def constval(self, t):
        if t[0] == "c":
            return t[1]
        if t[0] == "lib" and t[1] in self.h.enums:
            return self.h.enums[t[1]]
        return None

    def binop(self, op, a, b, s):
        for x, y, f in ((a, b, 0), (b, a, 1)):
            if x[0] == "ite":
                u = self.binop(op, x[2], y, s) if not f else self.binop(op, y, x[2], s)
                w = self.binop(op, x[3], y, s) if not f else self.binop(op, y, x[3], s)
                return self.mkite(x[1], u, w)
        if a[0] == "c" and b[0] == "c":
            try:
                f = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mult": lambda x, y: x * y,
                     "BitOr": lambda x, y: x | y, "BitAnd": lambda x, y: x & y, "FloorDiv": lambda x, y: x // y,
                     "Mod": lambda x, y: x % y, "LShift": lambda x, y: x << y, "Pow": lambda x, y: x ** y}[op]
                return ("c", f(a[1], b[1]))
            except Exception:
                pass
        if op in ("Add", "Sub"):
            ra, rb = self.seqlike(a, s), self.seqlike(b, s)
            if op == "Add" and (ra or rb):
                o = Obj("list")
                o.segs = tuple(self.spread(a, s) + self.spread(b, s))
                return self.alloc(o, s)
            if intlike(a) or intlike(b):
                return lin_add(a, b, 1 if op == "Add" else -1)
        if op == "BitOr":
            items = set()
            for x in (self.resolve(a, s), self.resolve(b, s)):
                if x == ("c", 0):
                    continue
                if x[0] == "or":
                    items |= set(x[1])
                else:
                    items.add(x)
            if not items:
                return ("c", 0)
            if len(items) == 1:
                return next(iter(items))
            return ("or", tuple(sorted(items, key=okey)))
        a, b = self.resolve(a, s), self.resolve(b, s)
        if op == "Add" and any(self.strlike(x) for x in (a, b)):
            return self.mkfstr([(a, -1), (b, -1)])
        if op == "Mod" and a[0] == "c" and isinstance(a[1], str):
            args = [x[1] for x in b[1]] if b[0] == "seq" and all(x[0] == "e" for x in b[1]) else list(b[1]) if b[0] == "tup" else [b]
            bits = re.split(r"(%[sr])", a[1])
            if len(bits) == 2 * len(args) + 1 and not any("%" in x for x in bits[::2]):
                return self.mkfstr([(("c", x), -1) if not i % 2 else (args[i // 2], 114 if x == "%r" else -1) for i, x in enumerate(bits)])
        if op in ("BitAnd",):
            return ("bin", "&") + tuple(sorted((a, b), key=okey))
        return ("bin", {"Add": "+", "Sub": "-", "Mult": "*"}.get(op, op), a, b)

    def mkfstr(self, parts):
        """A string put together from parts (value, conversion), in canonical form."""
        out = []
        def put(t, c):
            c = -1 if c == 115 else c
            if c == -1 and t[0] == "fstr":
                for y, d in zip(t[1], t[2]):
                    put(y, d)
                return
            if c == -1 and t[0] == "call" and t[1] in (("b", "str"), ("b", "repr")) and len(t[2]) == 1 and not t[3]:
                put(t[2][0], -1 if t[1][1] == "str" else 114)
                return
            if t[0] == "c" and c in (-1, 114):
                t, c = ("c", str(t[1]) if c == -1 else repr(t[1])), -1
                if not t[1]:
                    return
                if out and out[-1][0][0] == "c" and out[-1][1] == -1:
                    out[-1] = (("c", out[-1][0][1] + t[1]), -1)
                    return
            out.append((t, c))
        for t, c in parts:
            put(t, c)
        if not out:
            return ("c", "")
        if len(out) == 1 and out[0][1] == -1 and (out[0][0][0] == "c" or self.strlike(out[0][0])):
            return out[0][0]
        if len(out) == 1 and out[0][1] in (-1, 114):
            return ("call", ("b", "str" if out[0][1] == -1 else "repr"), (out[0][0],), ())
        return ("fstr", tuple(x for x, _ in out), tuple(c for _, c in out))

    def format_parts(self, fmt, args, kw):
        """Parts of a format string with plain fields, or None."""
        parts, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(fmt):
                parts.append((("c", lit), -1))
                if field is None:
                    continue
                if spec:
                    return None
                if field == "":
                    v, auto = args[auto], auto + 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    return None
                parts.append((v, ord(conv) if conv else -1))
        except (ValueError, IndexError):
            return None
        return parts

    def strlike(self, t):
        if t[0] == "c":
            return isinstance(t[1], str)
        if t[0] == "call":
            return t[1] == ("b", "str") or t[1][0] == "attr" and t[1][2] in ("replace", "join", "lower", "upper", "strip") and self.strlike(t[1][1]) \
                or t[1][0] == "b" and t[1][1] in ("str", "repr")
        return t[0] in ("fstr", "dec")

    def seqlike(self, v, s):
        return v[0] == "seq" or (v[0] == "ref" and s.heap[v[1]].kind in ("list", "tuple"))

    def e_Compare(self, n, sid, st):
        res = []
        for vals, s in self.ev_list([n.left] + list(n.comparators), sid, st):
            if s.exc is not None:
                res.append((None, s))
                continue
            cur = [(None, s)]
            for i, op in enumerate(n.ops):
                nxt = []
                for v, s1 in cur:
                    if i > 0:
                        for b, s2 in self.decide(v, s1):
                            if not b:
                                res.append((FALSE, s2))
                            else:
                                nxt.extend(self.compare(op, vals[i], vals[i + 1], s2, n))
                    else:
                        nxt.extend(self.compare(op, vals[0], vals[1], s1, n))
                cur = nxt
            res.extend(cur)
        return res

    def has_ite(self, v):
        return isinstance(v, tuple) and bool(v) and (v[0] == "ite" or (v[0] in ("not", "truth", "eq", "is", "lt") and any(self.has_ite(x) for x in v[1:])))

    def lift(self, v):
        """not(ite(c,a,b)) -> ite(c,not a,not b) etc."""
        if v[0] == "ite":
            return v
        for i, x in enumerate(v[1:], 1):
            if self.has_ite(x):
                y = self.lift(x)
                if y[0] == "ite":
                    return ("ite", y[1], v[:i] + (y[2],) + v[i + 1:], v[:i] + (y[3],) + v[i + 1:])
        return v

    def compare(self, op, a, b, st, node):
        """-> list of (term, st)"""
        if a[0] == "ite" or b[0] == "ite":
            return [r for (x, y), s in self.forced((a, b), st) for r in self.compare(op, x, y, s, node)]
        name = type(op).__name__
        if name in ("Eq", "NotEq"):
            out = []
            a, b = self.unenum(a, b, st)
            for t, s in self.eq(a, b, st, node):
                out.append((self.neg(t) if name == "NotEq" and s.exc is None else t, s))
            return out
        if name in ("Is", "IsNot"):
            t = self.is_(a, b, st)
            return [(self.neg(t) if name == "IsNot" else t, st)]
        if name in ("In", "NotIn"):
            out = []
            for t, s in self.in_(a, b, st, node):
                out.append((self.neg(t) if name == "NotIn" and s.exc is None else t, s))
            return out
        if a[0] == "c" and b[0] == "c":
            try:
                r = {"Lt": a[1] < b[1], "LtE": a[1] <= b[1], "Gt": a[1] > b[1], "GtE": a[1] >= b[1]}[name]
                return [(("c", r), st)]
            except TypeError:
                pass
        ra, rb = self.resolve(a, st), self.resolve(b, st)
        if name == "Lt":
            return [(("lt", ra, rb), st)]
        if name == "Gt":
            return [(("lt", rb, ra), st)]
        if name == "GtE":
            return [(("not", ("lt", ra, rb)), st)]
        return [(("not", ("lt", rb, ra)), st)]

    def neg(self, t):
        if t[0] == "c":
            return ("c", not t[1])
        if t[0] == "not":
            return t[1]
        return ("not", t)

    def unenum(self, a, b, st):
        ra = self.enum_value(a, st)
        rb = self.enum_value(b, st)
        if ra is not None and rb is not None:
            return ra, rb
        return a, b

    def enum_member(self, a, st, node):
        """Name of the member an enum value is known to be on this path."""
        v = self.enum_value(a, st)
        cls = st.heap[a[1]].cls
        for m in self.pkg.class_consts.get(cls, ()) if v is not None else ():
            w = self.enum_value(("enum", cls, m), st)
            for t, s in self.eq(v, w, st, node) if w is not None else ():
                r = self.truth(t, s)
                if not isinstance(r, bool):
                    if r[0][0] == "ret":
                        continue
                    known = self.implied(self.ratom(r[0], s), s.conds)
                    r = known is not None and known == r[1]
                if r:
                    return m
        return None

    def enum_value(self, a, st):
        """Underlying value of an enum member (or int for int enums)."""
        if a[0] == "ref" and st.heap[a[1]].kind == "inst" and st.heap[a[1]].cls and self.pkg.is_enum(st.heap[a[1]].cls):
            return st.heap[a[1]].fields.get("value")
        if a[0] == "enum":
            c = self.pkg.class_const(a[1], a[2])
            if c:
                return self.const_expr(c[0][0], c[1])
        return None

    def const_expr(self, mod, node):
        st = State()
        sid = self.new_scope(st, mod, None)
        v = self.ev(node, sid, st)
        return self.resolve(v[0][0], v[0][1])

    def eq(self, a, b, st, node):
        if a[0] == "c" and b[0] == "c":
            return [(("c", a[1] == b[1]), st)]
        k = self.type_of(a, st)
        ra, rb = self.resolve(a, st), self.resolve(b, st)
        if ra == rb and not (ra[0] == "opq"):
            return [(TRUE, st)]
        if a == NULL or b == NULL:
            x = ra if b == NULL else rb
            return [(("isnull", x), st)]
        for u, w in ((ra, rb), (rb, ra)):
            if w[0] == "c" and isinstance(w[1], bool) and boolish(u):
                return [(("truth", u) if w[1] else ("not", ("truth", u)), st)]
        # elementwise comparison of tuple literals
        x, y = sorted((ra, rb), key=okey)
        for u, w in ((x, y), (y, x)):
            if w == ("c", 0) and u[0] == "bin" and u[1] == "&":
                return [(("not", ("truth", u)), st)]
        return [(("eq", x, y), st)]

    def is_(self, a, b, st):
        if a[0] == "phi":
            a = self.resolve(a, st)
        if b[0] == "phi":
            b = self.resolve(b, st)
        if a == b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if y == NONE:
                if x[0] == "c":
                    return ("c", x[1] is None)
                if x[0] in ("ref", "enc", "lib", "clo", "func", "cls", "null", "newhandle", "seq", "len", "lin", "inst", "val", "fstr", "out"):
                    return FALSE
                return ("is", self.resolve(x, st), NONE)
        if a[0] == "c" and b[0] == "c":
            return ("c", a[1] is b[1])
        for x, y in ((a, b), (b, a)):
            if y in (TRUE, FALSE) and boolish(x) and y[1] in (True, False) and isinstance(y[1], bool):
                return ("truth", self.resolve(x, st)) if y[1] else ("not", ("truth", self.resolve(x, st)))
        ra, rb = self.resolve(a, st), self.resolve(b, st)
        x, y = sorted((ra, rb), key=okey)
        return ("is", x, y)

    def in_(self, a, b, st, node):
        elems = None
        if b[0] == "ref" and st.heap[b[1]].kind in ("list", "tuple") and all(s[0] == "e" for s in st.heap[b[1]].segs):
            elems = [s[1] for s in st.heap[b[1]].segs]
        if b[0] == "ref" and st.heap[b[1]].kind == "dict" and st.heap[b[1]].fields and not st.heap[b[1]].segs and all(x[0] in ("c", "lib") for x in st.heap[b[1]].fields):
            elems = list(st.heap[b[1]].fields)
        if elems is not None:
            cur, out = [st], []
            for e in elems:
                nxt = []
                for s in cur:
                    for t, s2 in self.eq(*self.unenum(a, e, s), s, node):
                        for bb, s3 in self.decide(t, s2):
                            if bb:
                                out.append((TRUE, s3))
                            else:
                                nxt.append(s3)
                cur = nxt
            return out + [(FALSE, s) for s in cur]
        k = self.type_of(b, st)
        if k:
            m = self.pkg.find_method(k, "__contains__")
            if m and m.qual not in st.stack:
                return self.inline(m, [b, a], {}, st, node)
        return [(("in", self.resolve(a, st), self.resolve(b, st)), st)]

    def e_Lambda(self, n, sid, st):
        f = Func(st.scopes[sid][1], n, None, qual=f"{self.cur.qual}.<lambda>")
        return [(("clo", f, sid), st)]

    def e_Starred(self, n, sid, st):
        return self.ev(n.value, sid, st)

    def e_Slice(self, n, sid, st):
        parts = [n.lower, n.upper, n.step]
        res = []
        for vals, s in self.ev_list([p if p is not None else ast.Constant(value=None) for p in parts], sid, st):
            res.append((("slc",) + tuple(vals), s) if s.exc is None else (None, s))
        return res

    def e_Subscript(self, n, sid, st):
        res = []
        for (b, i), s in self.ev_list([n.value, n.slice], sid, st):
            if s.exc is not None:
                res.append((None, s))
            else:
                res.extend(self.get_item(b, i, s, n))
        return res

    def get_item(self, b, i, st, node):
        if b[0] == "ite" or i[0] == "ite":
            return [r for (x, y), s in self.forced((b, i), st) for r in self.get_item(x, y, s, node)]
        if i[0] == "slc":
            if b[0] == "ref" and st.heap[b[1]].kind in ("list", "tuple") and all(s[0] == "e" for s in st.heap[b[1]].segs) and all(x[0] == "c" for x in i[1:]):
                els = st.heap[b[1]].segs[slice(i[1][1], i[2][1], i[3][1])]
                o = Obj("list")
                o.segs = tuple(els)
                return [(self.alloc(o, st), st)]
            if i[3] in (NONE, ("c", 1)) and not self.type_of(b, st):
                return [(("slice", self.resolve(b, st), i[1], i[2]), st)]
            i = ("c", slice) if False else ("slc",) + tuple(self.resolve(x, st) for x in i[1:])
        if i == ("c", -1) and b[0] != "ref" and st.events:        # what has just been appended to a list of the user
            ev = st.events[-1][0]
            if ev[0] == "ucall" and ev[1] == ("attr", self.resolve(b, st), "append") and len(ev[2]) == 1 and not ev[3]:
                return [(ev[2][0], st)]
        if b[0] == "ref":
            o = st.heap[b[1]]
            if o.kind in ("list", "tuple"):
                if is_int(i):
                    k0 = st.lstart.get(b[1])
                    if k0 is not None and len(o.segs) > k0 and (i[1] >= k0 or i[1] < 0 and -i[1] > len(o.segs) - k0):
                        if i[1] >= 0 and k0 == 0:      # an element added by an earlier iteration
                            return [(("item", ("carried", b[1]), i), st)]
                        return [(("item", ("opq", ("loop-carried list",)), i), st)]
                    if all(s[0] == "e" for s in o.segs):
                        if -len(o.segs) <= i[1] < len(o.segs):
                            return [(o.segs[i[1]][1], st)]
                    elif i[1] == -1 and o.segs and o.segs[-1][0] == "e":
                        return [(o.segs[-1][1], st)]
                return [(self.mkitem(self.resolve(b, st), self.resolve(i, st)), st)]
            if o.kind == "dict":
                if i in o.fields:
                    return [(o.fields[i], st)]
                if o.segs:
                    return [(self.mkitem(self.resolve(b, st), self.resolve(i, st)), st)]
                if o.fields and all(k[0] in ("c", "lib") for k in o.fields):
                    # a dispatch table: partition over its keys
                    out, cur = [], [st]
                    for k, v in list(o.fields.items()):
                        nxt = []
                        for s in cur:
                            for t, s2 in self.eq(i, k, s, node):
                                for bb, s3 in self.decide(t, s2):
                                    if bb:
                                        out.append((v, s3))
                                    else:
                                        nxt.append(s3)
                        cur = nxt
                    for s in cur:
                        s.exc = ("KeyError", (self.resolve(i, s),))
                        out.append((None, s))
                    return out
                return [(("item", self.resolve(b, st), self.resolve(i, st)), st)]
            if o.kind == "new":
                if i == ("c", 0) and "*" in o.fields:
                    return [(o.fields["*"], st)]
                if is_int(i) and i[1] != 0 and "*" in o.fields and o.size is None:
                    return [(("item", ("beyond", self.resolve(b, st)), i), st)]
                for k, v in reversed(o.stores):
                    if k == (i, None):
                        return [(v, st)]
                    if k[0] == "loop":
                        break
                return [(("item", b, i), st)]
            if o.kind == "inst" and o.cls:
                m = self.pkg.find_method(o.cls, "__getitem__")
                if m and m.qual not in st.stack:
                    return self.inline(m, [b, i], {}, st, node)
        k = self.type_of(b, st)
        if k:
            m = self.pkg.find_method(k, "__getitem__")
            if m and m.qual not in st.stack:
                return self.inline(m, [b, i], {}, st, node)
        if b[0] == "tup" and is_int(i):
            return [(b[1][i[1]], st)]
        if b[0] in ("ref",):
            return [(("item", b, i), st)]
        return [(self.mkitem(self.resolve_keep(b, st), self.resolve(i, st)), st)]

    def resolve_keep(self, b, st):
        # keep references to C arrays below item/attr so that writes can be found
        if b[0] in ("item", "attr") and self.root_ref(b):
            return b
        return self.resolve(b, st)

    def root_ref(self, b):
        while b[0] in ("item", "attr"):
            b = b[1]
        return b[0] == "ref"

    def e_Attribute(self, n, sid, st):
        res = []
        for b, s in self.ev(n.value, sid, st):
            if s.exc is not None:
                res.append((None, s))
            else:
                res.extend(self.get_attr(b, n.attr, s, n))
        return res

    def get_attr(self, b, name, st, node):
        if b[0] == "ite":
            return [r for x, s in self.force(b, st) for r in self.get_attr(x, name, s, node)]
        k = b[0]
        if k == "LIB":
            if name not in self.h.funcs and name not in self.h.enums and not name.startswith("g_clingo") and not name.startswith("pyclingo"):
                self.missing_lib.append((name, self.loc(node, st)))
            return [(("lib", name), st)]
        if k == "FFI":
            if name == "NULL":
                return [(NULL, st)]
            return [(("ffi", name), st)]
        if k == "cls":
            if self.pkg.is_enum(b[1]) and name in self.pkg.class_consts[b[1]]:
                return [(("enum", b[1], name), st)]
            m = self.pkg.find_method(b[1], name)
            if m:
                return [(("unbound", m), st)]
            c = self.pkg.class_const(b[1], name)
            if c:
                return [(self.const_expr(c[0][0], c[1]), st)]
            return [(("attr", b, name), st)]
        if k == "enum":
            if name == "value":
                return [(self.enum_value(b, st), st)]
            if name == "name":
                return [(("c", b[2]), st)]
        if k == "item" and b[1][0] == "ref" and st.heap[b[1][1]].kind == "new":
            for key, v in reversed(st.heap[b[1][1]].stores):
                if key == (b[2], name):
                    return [(v, st)]
                if key[0] == "loop" or key[1] == name:
                    break
        if k == "super":
            for kk in self.pkg.mro(b[2])[1:]:
                if name in self.pkg.classes[kk]:
                    return [(("bm", self.pkg.classes[kk][name], b[1]), st)]
            return [(("superattr", b[1], name), st)]
        if k == "ref":
            o = st.heap[b[1]]
            if o.kind == "inst":
                if name in o.fields:
                    return [(o.fields[name], st)]
                if name == "name" and o.cls and self.pkg.is_enum(o.cls):
                    m = self.enum_member(b, st, node)
                    if m is not None:
                        return [(("c", m), st)]
                if o.cls:
                    return self.cls_attr(o.cls, b, name, st, node)
            if o.kind == "new":
                for kk, v in reversed(o.stores):
                    if kk == (None, name):
                        return [(v, st)]
                    if kk[0] == "loop":
                        break
                if o.kind == "new" and o.ctype and o.ctype.endswith("*") and o.init is None:
                    return [(("attr", self.resolve(b, st), name), st)]
                return [(("attr", b, name), st)]
            if o.kind in ("list", "tuple", "dict"):
                return [(("meth", b, name), st)]
        if k == "item" and b[1][0] == "ref" and st.heap[b[1][1]].kind == "new":
            for kk, v in reversed(st.heap[b[1][1]].stores):
                if kk == (b[2], name):
                    return [(v, st)]
        if (b, name) in st.fields:
            return [(st.fields[(b, name)], st)]
        kc = self.type_of(b, st)
        if kc:
            return self.cls_attr(kc, b, name, st, node)
        if k == "c" and isinstance(b[1], (str, bytes)):
            return [(("meth", b, name), st)]
        return [(("attr", self.resolve_keep(b, st), name), st)]

    def cls_attr(self, kc, b, name, st, node):
        m = self.pkg.find_method(kc, name)
        if m:
            if m.is_prop:
                if m.qual in st.stack or len(st.stack) > MAX_DEPTH:
                    return [(("attr", self.resolve(b, st), name), st)]
                return self.inline(m, [b], {}, st, node)
            if m.is_static:
                return [(("func", m), st)]
            return [(("bm", m, b), st)]
        if self.pkg.has_field(kc, name) or name.startswith("__"):
            return [(("attr", self.resolve(b, st), name), st)]
        g = self.pkg.find_method(kc, "__getattr__")
        if g and g.qual not in st.stack:
            return self.inline(g, [b, ("c", name)], {}, st, node)
        c = self.pkg.class_const(kc, name)
        if c:
            return [(self.const_expr(c[0][0], c[1]), st)]
        return [(("attr", self.resolve(b, st), name), st)]

    def type_of(self, b, st):
        if b[0] == "ref":
            o = st.heap.get(b[1])
            return o.cls if o and o.kind == "inst" else None
        if b[0] == "inst":
            return b[1]
        t = st.types.get(b) or (self.types.get(b) if hasattr(self, "types") else None)
        if t:
            return t
        if self.cbdata and self.cur is not None:
            t = self.cbdata.get((self.cur.qual, b))
            if t:
                return t
        if b[0] == "attr":
            base = self.type_of(b[1], st)
            if base:
                return self.field_type(base, b[2])
        if b[0] == "g" and len(b) == 2 and "." in b[1] and b[1].split(".")[0] in self.pkg.mods:
            return self.glob_type(*b[1].split(".", 1))
        return None

    def glob_type(self, mod, name):
        """Class of a module variable that is only bound to instances of that class."""
        key = (mod, name)
        if key not in self.globtypes:
            vals = [n.value for n in ast.walk(self.pkg.mods[mod]) if isinstance(n, ast.Assign) and len(n.targets) == 1
                    and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name]
            k = None
            if len(vals) == 1 and isinstance(vals[0], ast.Call) and isinstance(vals[0].func, ast.Name):
                k = self.pkg.resolve_class(mod, vals[0].func.id)
            self.globtypes[key] = k
        return self.globtypes[key]

    def field_type(self, key, name):
        """Class of a field assigned `self.name = Cls(...)` in the constructor."""
        for k in self.pkg.mro(key):
            for f in self.pkg.classes[k].values():
                for n in walk_own(f.node):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) \
                            and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == "self" and n.targets[0].attr == name \
                            and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name):
                        c = self.pkg.resolve_class(k[0], n.value.func.id)
                        if c and not self.pkg.is_enum(c):
                            return c
            f = self.pkg.classes[k].get("__init__")
            if f:
                anns = {a.arg: a.annotation for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
                for n in walk_own(f.node):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) \
                            and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == "self" and n.targets[0].attr == name \
                            and isinstance(n.value, ast.Name) and n.value.id in anns:
                        c = self.ann_class(k[0], anns[n.value.id])
                        if c and not self.pkg.is_enum(c):
                            return c
        return None

    # comprehensions -------------------------------------------------

    def e_ListComp(self, n, sid, st):
        return self.comp(n, [n.elt], sid, st, "list")

    def e_SetComp(self, n, sid, st):
        return self.comp(n, [n.elt], sid, st, "list")

    def e_GeneratorExp(self, n, sid, st):
        return self.comp(n, [n.elt], sid, st, "list")

    def e_DictComp(self, n, sid, st):
        res = []
        for v, s in self.comp(n, [n.key, n.value], sid, st, "list"):
            if s.exc is not None:
                res.append((None, s))
            else:
                res.append((("dictc", self.resolve(v, s)), s))
        return res

    def comp(self, n, elts, sid, st, kind):
        # translate into nested loops appending to a fresh list
        g = n.generators[0]
        if len(n.generators) == 1 and not g.ifs and isinstance(g.target, ast.Name) and isinstance(g.iter, ast.Call) \
                and isinstance(g.iter.func, ast.Name) and g.iter.func.id == "range" and len(g.iter.args) == 1 and not g.iter.keywords \
                and isinstance(g.iter.args[0], ast.Constant) and isinstance(g.iter.args[0].value, int) and 0 < g.iter.args[0].value <= 8:
            csid = next(self.ids)
            st.scopes[csid] = ({}, st.scopes[sid][1], sid)
            cur = [((), st)]
            for k in range(g.iter.args[0].value):
                nxt = []
                for vals, s in cur:
                    if s.exc is not None:
                        nxt.append((vals, s))
                        continue
                    s.env(csid)[g.target.id] = ("c", k)
                    for vs, s2 in self.ev_list(list(elts), csid, s):
                        nxt.append((vals + ((vs[0] if len(elts) == 1 else ("tup", tuple(vs))),) if s2.exc is None else vals, s2))
                cur = nxt
            res = []
            for vals, s in cur:
                if s.exc is not None:
                    res.append((None, s))
                    continue
                o = Obj("list")
                o.segs = tuple(("e", v) for v in vals)
                res.append((self.alloc(o, s), s))
            return res
        lst = Obj("list")
        lst.site = getattr(n, "lineno", 0)
        ref = self.alloc(lst, st)
        csid = next(self.ids)
        st.scopes[csid] = ({"<acc>": ref}, st.scopes[sid][1], sid)
        elt = elts[0] if len(elts) == 1 else ast.Tuple(elts=elts, ctx=ast.Load())
        ast.copy_location(elt, n)
        body = [_Append(elt, n)]
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                body = [ast.copy_location(ast.If(test=c, body=body, orelse=[]), n)]
            body = [ast.copy_location(ast.For(target=g.target, iter=g.iter, body=body, orelse=[]), n)]
        res = []
        for status, val, s in self.block(body, csid, st):
            if status == "raise":
                res.append((None, s))
            else:
                res.append((s.scopes[csid][0]["<acc>"], s))
        return res

    def s__Append(self, n, sid, st):
        res = []
        for v, s in self.ev(n.elt, sid, st):
            if s.exc is not None:
                res.append(("raise", None, s))
                continue
            sc = sid
            while "<acc>" not in s.scopes[sc][0]:
                sc = s.scopes[sc][2]
            r = s.scopes[sc][0]["<acc>"]
            w = s.w(r[1])
            w.segs = w.segs + (("e", v),)
            res.append(("next", None, s))
        return res

    def e_Yield(self, n, sid, st):
        res = []
        for v, s in (self.ev(n.value, sid, st) if n.value is not None else [(NONE, st)]):
            if s.exc is None:
                self.event(s, ("yield", self.resolve(v, s)), n)
            res.append((NONE, s))
        return res

    def e_YieldFrom(self, n, sid, st):
        res = []
        for v, s in self.ev(n.value, sid, st):
            if s.exc is not None:
                res.append((None, s))
            elif v[0] == "gen":
                for _, s2 in self.run_func(v[1], list(v[2]), {}, s, n, v[3]):
                    res.append((NONE, s2))
            elif self.yieldable(v, s):
                res += self.yield_all(v, s, n, sid)
            else:
                self.event(s, ("yieldfrom", self.resolve(v, s)), n)
                res.append((NONE, s))
        return res

    # calls ------------------------------------------------------------

    def e_Call(self, n, sid, st):
        res = []
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return self.ev_super(sid, st)
        for f, s in self.ev(n.func, sid, st):
            if s.exc is not None:
                res.append((None, s))
                continue
            nodes = [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords]
            for vals, s2 in self.ev_list(nodes, sid, s):
                if s2.exc is not None:
                    res.append((None, s2))
                    continue
                args, unk = [], False
                for a, v in zip(n.args, vals):
                    if isinstance(a, ast.Starred):
                        segs = self.spread(v, s2)
                        if all(x[0] == "e" for x in segs):
                            args.extend(x[1] for x in segs)
                        else:
                            args.append(("star", self.resolve(v, s2)))
                            unk = True
                    else:
                        args.append(v)
                kw = {}
                for k, v in zip(n.keywords, vals[len(n.args):]):
                    if k.arg is None:
                        if v[0] == "ref" and s2.heap[v[1]].kind == "dict" and all(x[0] == "c" for x in s2.heap[v[1]].fields):
                            kw.update({x[1]: y for x, y in s2.heap[v[1]].fields.items()})
                        else:
                            kw["**"] = v
                    else:
                        kw[k.arg] = v
                res.extend(self.call(f, args, kw, s2, n, sid))
        return res

    def ev_super(self, sid, st):
        s = sid
        while s is not None:
            env = st.scopes[s][0]
            if "<cls>" in env:
                return [(("super", env["<self>"], env["<cls>"]), st)]
            s = st.scopes[s][2]
        return [(("super", ("p", "self"), (self.cur.mod, self.cur.cls)), st)]

    def loc(self, node, st):
        f = self.pkg.files.get(self.cur.mod, "?")
        return (getattr(node, "lineno", 0), st.stack)

    def event(self, st, ev, node):
        uid = next(self.ids)
        self.call_locs[uid] = (node_file(self, st), getattr(node, "lineno", 0), st.stack)
        st.events = st.events + ((ev, uid),)
        return uid

    def call(self, f, args, kw, st, node, sid):
        k = f[0]
        if k == "ite" or (k in ("meth", "attr") and f[1][0] == "ite"):
            if k == "ite":
                return [r for x, s in self.force(f, st) for r in self.call(x, args, kw, s, node, sid)]
            return [r for x, s in self.force(f[1], st) for r in self.call((k, x, f[2]), args, kw, s, node, sid)]
        if (k in ("b", "meth", "attr") or (k == "ffi" and f[1] != "cast")) and any(a[0] == "ite" for a in args):
            return [r for vs, s in self.forced(args, st) for r in self.call(f, list(vs), kw, s, node, sid)]
        if k == "lib":
            return self.engine_call(f[1], args, kw, st, node)
        if k == "ffi":
            return self.ffi_call(f[1], args, kw, st, node, sid)
        if k == "func":
            fn = f[1] if isinstance(f[1], Func) else self.pkg.funcs[f[1]]
            if args and args[0][0] == "ret" and self.is_checker(fn):
                hn = [a.arg for a in fn.node.args.args[1:2]]
                h = args[1] if len(args) > 1 else kw.get(hn[0], NONE) if hn else NONE
                res = []
                for b, s2 in self.decide(args[0], st):
                    if b:
                        res.append((NONE, s2))
                    else:
                        s2.exc = ("EngineError", args[0][2], self.resolve(h, s2))
                        res.append((None, s2))
                return res
            return self.inline(fn, args, kw, st, node)
        if k == "unbound":
            return self.inline(f[1], args, kw, st, node)
        if k == "bm":
            return self.inline(f[1], [f[2]] + args, kw, st, node)
        if k == "clo":
            return self.inline(f[1], args, kw, st, node, f[2])
        if k == "cls":
            return self.construct(f[1], args, kw, st, node)
        if k == "b":
            return self.builtin(f[1], args, kw, st, node, sid)
        if k in ("meth", "attr") and f[2] == "format" and f[1][0] == "c" and isinstance(f[1][1], str):
            parts = self.format_parts(f[1][1], [self.resolve(x, st) for x in args], {k: self.resolve(x, st) for k, x in kw.items()})
            if parts is not None:
                return [(self.mkfstr(parts), st)]
        if k == "meth" or (k == "attr" and f[2] in PURE_METHODS):
            return self.method(f[1], f[2], args, kw, st, node)
        if k == "superattr":
            if f[2] == "__setattr__" and len(args) == 2 and args[0][0] == "c":
                b, name = f[1], args[0][1]
                if b[0] == "ref":
                    st.w(b[1]).fields[name] = args[1]
                else:
                    st.fields[(b, name)] = args[1]
                    self.event(st, ("store", self.resolve(b, st), name, self.resolve(args[1], st)), node)
                return [(NONE, st)]
            return [(("call", ("superattr", self.resolve(f[1], st), f[2]), tuple(self.resolve(a, st) for a in args), ()), st)]
        if k == "phi":
            pass
        if k == "g" and f[1].startswith("typing."):
            nm = f[1].split(".")[-1]
            if nm == "cast" and len(args) == 2:
                return [(args[1], st)]
        # user supplied callable
        rf = self.resolve(f, st)
        rargs = self.late(rf, args, tuple(self.resolve(a, st) for a in args), st)
        rkw = tuple(sorted((x, self.resolve(v, st)) for x, v in kw.items()))
        pure = k == "g" and f[1].split(".")[-1] in ("python_version", "format_exception", "getcwd")
        res = []
        if not pure:
            self.event(st, ("ucall", rf, rargs, rkw), node)
        if st.intry and not pure:
            s2 = st.fork()
            s2.exc = ("?", (rf,))
            res.append((None, s2))
        res.append((("call", rf, rargs, rkw), st))
        return res

    def late(self, rf, args, rargs, st):
        """Mark values that are iterated by a bulk operation after the engine object they may view has been changed."""
        if rf[0] != "attr" or rf[2] not in ("extend", "__iadd__") or not isinstance(rf[1], tuple) or rf[1][0] != "inst":
            return rargs
        if not any(t and t[0] == "call" and len(t) > 1 and isinstance(t[1], str) and re.search("_(insert|delete|set)_", t[1]) for e, _ in st.events for t in summ.walk(e)):
            return rargs
        res = []
        for a, r in zip(args, rargs):
            if a[0] != "ref" and any(t and t[0] == "p" for t in summ.walk(r)):
                ok = any((c == ("t", ("isinst", r, "list")) and v) or
                         (c[0] == "eq" and not v and any(t and t[0] == "attr" and t[1] == r for t in summ.walk(c))) for c, v in st.conds)
                if not ok:
                    r = ("late", r)
            res.append(r)
        return tuple(res)

    def method(self, b, name, args, kw, st, node):
        if b[0] == "ref" and st.heap[b[1]].kind in ("list", "tuple"):
            o = st.w(b[1])
            if name == "append" and len(args) == 1:
                o.segs = o.segs + (("e", args[0]),)
                return [(NONE, st)]
            if name == "extend" and len(args) == 1:
                o.segs = o.segs + tuple(self.spread(args[0], st))
                return [(NONE, st)]
            if name == "insert" and len(args) == 2 and args[0] == ("c", 0):
                o.segs = (("e", args[1]),) + o.segs
                return [(NONE, st)]
            if name in ("clear",):
                o.segs = ()
                return [(NONE, st)]
            return [(("call", ("attr", self.resolve(b, st), name), tuple(self.resolve(a, st) for a in args), ()), st)]
        if name in ("encode", "decode"):
            # UTF-8 with strict error handling unless given otherwise
            how = list(zip(("encoding", "errors"), (self.resolve(a, st) for a in args)))
            how += [(x, self.resolve(v, st)) for x, v in kw.items()]
            how = tuple(sorted((x, v) for x, v in how
                               if not (v[0] == "c" and (x == "encoding" and str(v[1]).lower().replace("-", "").replace("_", "") in ("utf8", "u8", "utf")
                                                        or x == "errors" and v[1] == "strict"))))
            if b[0] == "c" and isinstance(b[1], str) and name == "encode" and not how:
                return [(("c", b[1].encode()), st)]
            r = ("enc" if name == "encode" else "dec", self.resolve(b, st))
            return [((r[0], ("codec", r[1], how)) if how else r, st)]
        k = self.type_of(b, st)
        if k:
            m = self.pkg.find_method(k, name)
            if m:
                return self.inline(m, [b] + args, kw, st, node)
        if b[0] == "ref" and st.heap[b[1]].kind == "dict" and name == "get" and args:
            out = []
            for v, s in self.get_item(b, args[0], st, node):
                if s.exc is not None and s.exc[0] == "KeyError":
                    s.exc = None
                    v = args[1] if len(args) > 1 else NONE
                out.append((v, s))
            return out
        return [(("call", ("attr", self.resolve(b, st), name), tuple(self.resolve(a, st) for a in args),
                  tuple(sorted((x, self.resolve(v, st)) for x, v in kw.items()))), st)]

    def construct(self, key, args, kw, st, node):
        if self.pkg.is_enum(key):
            o = Obj("inst")
            o.cls = key
            o.fields["value"] = args[0] if args else ("opq", ())
            return [(self.alloc(o, st), st)]
        o = Obj("inst", site=getattr(node, "lineno", 0))
        o.cls = key
        ref = self.alloc(o, st)
        nt = self.pkg.nt_fields.get(key)
        if nt:
            for n, v in zip(nt, args):
                o.fields[n] = v
            for n, v in kw.items():
                o.fields[n] = v
            return [(ref, st)]
        m = self.pkg.find_method(key, "__init__")
        if m is None or m.qual in st.stack:
            for i, a in enumerate(args):
                o.fields[f"arg{i}"] = a
            return [(ref, st)]
        return [(ref, s) for _, s in self.inline(m, [ref] + args, kw, st, node)]

    def inline(self, fn, args, kw, st, node, parent=None):
        if fn.qual in st.stack or len(st.stack) > MAX_DEPTH or fn.qual in self.no_inline:
            names = [x.arg for x in fn.node.args.posonlyargs + fn.node.args.args]
            defs = dict(zip(names[::-1], fn.node.args.defaults[::-1]))
            kw = dict(kw)
            while not any(x[0] == "star" for x in args) and len(args) < len(names):
                nm = names[len(args)]
                if nm in kw:
                    args = list(args) + [kw.pop(nm)]
                elif isinstance(defs.get(nm), ast.Constant):
                    args = list(args) + [("c", defs[nm].value)]
                else:
                    break
            r = ("call", ("rec", fn.qual.split(".")[-1]), tuple(self.resolve(a, st) for a in args),
                 tuple(sorted((x, self.resolve(v, st)) for x, v in kw.items())))
            self.event(st, ("ucall", r[1], r[2], r[3]), node)
            return [(r, st)]
        if fn.is_gen:
            return [(("gen", fn, tuple(args), parent), st)]
        return self.run_func(fn, args, kw, st, node, parent)

    def run_func(self, fn, args, kw, st, node, parent=None):
        self.stats["inlined"] += 1
        self.seen.add(fn.qual)
        a = fn.node.args
        sid = self.new_scope(st, fn.mod, parent)
        env = st.env(sid)
        pos = a.posonlyargs + a.args
        star = any(x[0] == "star" for x in args)
        kwall = self.resolve(kw["**"], st) if "**" in kw else NONE
        for p, v in zip(pos, args):
            if v[0] == "star":
                break
            env[p.arg] = v
        if star:
            j = next(i for i, x in enumerate(args) if x[0] == "star")
            one = sum(1 for x in args if x[0] == "star") == 1 and j == len(args) - 1
            for k, p in enumerate(pos[j:]):
                if p.arg not in kw:
                    env[p.arg] = ("sarg", args[j][1], kwall, ("c", k), ("c", p.arg)) if one else ("opq", tuple(sorted(deps(args[j]))))
            if "**" in kw:
                for p in a.kwonlyargs:
                    env.setdefault(p.arg, ("sarg", NONE, kwall, NONE, ("c", p.arg)))
        if len(args) > len(pos) or a.vararg:
            extra = args[len(pos):]
            if a.vararg:
                o = Obj("tuple")
                o.segs = tuple(("e", x) if x[0] != "star" else ("x", x[1]) for x in extra)
                env[a.vararg.arg] = self.alloc(o, st)
        names = {p.arg for p in pos + a.kwonlyargs}
        extra = {}
        for k, v in kw.items():
            if k in names:
                env[k] = v
            elif k != "**" or a.kwarg:
                extra[k] = v
        if a.kwarg:
            o = Obj("dict")
            o.fields = {("c", k): v for k, v in extra.items()}
            env[a.kwarg.arg] = self.alloc(o, st)
        cur = [st]
        defs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in defs:
            if p.arg not in env:
                v = self.ev(d, sid, st)
                env = st.env(sid)
                env[p.arg] = v[0][0]
        for p in pos + a.kwonlyargs:
            if p.arg not in env:
                env[p.arg] = ("opq", ())
        if fn.cls and args:
            env["<self>"] = args[0]
            env["<cls>"] = (fn.mod, fn.cls)
        # parameter types from annotations, for values of unknown class
        for p in pos:
            v = env[p.arg]
            if v[0] in ("attr", "item", "call") and v not in self.types and v not in st.types:
                kk = self.ann_class(fn.mod, p.annotation)
                if kk and not self.pkg.is_enum(kk):
                    st.types = {**st.types, v: kk}
        stack = st.stack
        st.stack = stack + (fn.qual,)
        base = self.snapshot(st)
        base[5].pop(sid, None)
        body = fn.node.body if isinstance(fn.node.body, list) else [ast.copy_location(ast.Return(value=fn.node.body), fn.node)]
        res = []
        for status, val, s in self.block(body, sid, st):
            s.stack = stack
            if status == "raise":
                res.append((None, s))
            elif status == "ret":
                res.append((val, s))
            else:
                res.append((NONE, s))
        return self.join_values(res, base)

    # engine and ffi ----------------------------------------------------

    def engine_call(self, name, args, kw, st, node):
        self.stats["engine_calls"] += 1
        h = self.h.funcs.get(name)
        star = any(a[0] == "star" for a in args)
        rargs = tuple(self.resolve(a, st) for a in args)
        if h is None:
            self.event(st, ("call", name, rargs), node)
            return [(("val", name, rargs), st)]
        if not star and not h["variadic"] and len(args) != len(h["params"]):
            self.arity.append((name, len(args), len(h["params"]), self.loc(node, st)))
        # outputs are not inputs: content before the call does not matter
        outs = [i for i in self.h.out_params(name) if not (name == "clingo_backend_add_atom" and i == 1)]
        inargs = tuple(("outarg",) if i in outs and i < len(args) and args[i][0] == "ref" and st.heap[args[i][1]].kind == "new" and st.heap[args[i][1]].ctype.endswith("*") else r
                       for i, r in enumerate(rargs))
        arrouts = [i for i in outs if i < len(args) and args[i][0] == "ref" and st.heap[args[i][1]].kind == "new" and not st.heap[args[i][1]].ctype.endswith("*")]
        inargs = tuple(("outarr", self.resolve(st.heap[args[i][1]].size, st) if st.heap[args[i][1]].size is not None else NONE) if i in arrouts else r for i, r in enumerate(inargs))
        uid = self.event(st, ("call", name, inargs), node)
        for i in outs:
            if i >= len(args):
                continue
            a = args[i]
            pt = h["params"][i][1][:-1].strip() if i < len(h["params"]) else ""
            if a[0] == "ref" and st.heap[a[1]].kind == "new":
                o = st.w(a[1])
                if o.ctype.endswith("*"):
                    o.fields["*"] = ("out", name, i, inargs, pt, uid if self.opts.get("uids") else 0)
                    o.stores = ()
                else:
                    o.segs = (("x", ("out", name, i, inargs, pt, uid if self.opts.get("uids") else 0)),)
                    o.stores = ()
        if self.h.fallible(name):
            return [(("ret", uid, name), st)]
        if h["ret"] == "void":
            return [(NONE, st)]
        return [(("val", name, inargs, h["ret"]), st)]

    def ffi_call(self, name, args, kw, st, node, sid=None):
        if name == "new":
            ct = args[0]
            if ct[0] != "c":
                ctn = "?*" if True else ""
                r = self.resolve(ct, st)
                if r[0] == "fstr":
                    ctn = "".join(str(x[1]) if x[0] == "c" else "?" for x in r[1])
            else:
                ctn = ct[1]
            ctn = " ".join(ctn.split())
            init = args[1] if len(args) > 1 else kw.get("init")
            if ctn.endswith("[1]"):
                ctn = ctn[:-3] + "*"
                if init is not None and self.is_seq_value(init, st):
                    segs = self.spread(init, st)
                    if len(segs) == 1 and segs[0][0] == "e":
                        init = segs[0][1]
            o = Obj("new", ctn, site=getattr(node, "lineno", 0))
            if init is not None:
                if ctn.endswith("[]"):
                    iv = init
                    if self.is_seq_value(iv, st):
                        o.segs = tuple(self.spread(iv, st))
                        o.size = self.mklen(self.resolve(iv, st))
                        if ctn.replace("const", "").replace(" ", "") == "char[]":
                            o.init = iv
                    elif iv[0] == "enc" or (iv[0] == "c" and isinstance(iv[1], bytes)):
                        o.init = iv
                    else:
                        o.size = iv
                        if not is_int(iv) and not intlike(iv) and iv[0] not in ("out", "val") and self.maybe_seq(iv):
                            # a sequence (or a length): contents come from it
                            o.init = iv
                else:
                    flds = self.struct_fields(ctn)
                    if flds and self.is_seq_value(init, st) and all(x[0] == "e" for x in self.spread(init, st)):
                        o.stores = tuple(((None, f), x[1]) for (f, _), x in zip(flds, self.spread(init, st)))
                    elif flds and init[0] == "ref" and st.heap[init[1]].kind == "dict" and all(x[0] == "c" for x in st.heap[init[1]].fields):
                        o.stores = tuple(((None, x[1]), v) for x, v in st.heap[init[1]].fields.items())
                    else:
                        o.init = init
                        o.fields["*"] = init
            return [(self.alloc(o, st), st)]
        if name == "new_handle":
            o = Obj("handle", site=getattr(node, "lineno", 0))
            o.fields["*"] = args[0]
            return [(self.alloc(o, st), st)]
        if name == "from_handle":
            a = args[0]
            if a[0] == "ref" and st.heap[a[1]].kind == "handle":
                return [(st.heap[a[1]].fields["*"], st)]
            return [(("handle", self.resolve(a, st)), st)]
        if name == "cast":
            if len(args) == 2:
                return [(args[1], st)]
        if name == "string":
            if len(args) > 1 or kw:
                lim = args[1] if len(args) > 1 else next(iter(kw.values()))
                o = st.heap[args[0][1]] if args[0][0] == "ref" else None
                if lim != ("c", -1) and not (o is not None and o.size is not None and self.resolve(o.size, st) == self.resolve(lim, st)):
                    return [(("cstr", self.resolve(args[0], st), self.resolve(lim, st)), st)]
            return [(("cstr", self.resolve(args[0], st)), st)]
        if name == "unpack":
            a, num = args[0], self.resolve(args[1], st)
            o = st.heap[a[1]] if a[0] == "ref" else None
            if sid is not None and not (o is not None and "char" in (o.ctype or "")):
                if o is not None and o.kind == "new" and o.size is not None and self.resolve(o.size, st) == num:
                    return self.builtin("list", [a], {}, st, node, sid)
                return self.builtin("list", [("slice", a if o is not None else self.resolve(a, st), ("c", 0), num)], {}, st, node, sid)
            return [(("slice", self.resolve(a, st), ("c", 0), num), st)]
        if name == "gc":
            return [(("gc", self.resolve(args[0], st)), st)]
        return [(("call", ("ffi", name), tuple(self.resolve(a, st) for a in args), ()), st)]

    def struct_fields(self, ctn):
        """Fields of the structure that `ctn` points to."""
        n = ctn[:-1].replace("const", "").strip()
        for x in (n, self.h.typedefs.get(n, "").replace("struct ", "").strip()) if self.h else ():
            if x in self.h.structs:
                return self.h.structs[x]
        return None

    def maybe_seq(self, t):
        return t[0] in ("p", "item", "attr", "seq")

    def is_seq_value(self, v, st):
        return v[0] == "seq" or (v[0] == "ref" and st.heap[v[1]].kind in ("list", "tuple"))

    def builtin(self, name, args, kw, st, node, sid):
        R = self.resolve
        if name in ("min", "max") and len(args) == 2 and not kw and not any(a[0] == "star" for a in args):
            a, b = R(args[0], st), R(args[1], st)
            if not has_opaque(a) and not has_opaque(b) and (intlike(a) or intlike(b)):
                if okey(b) < okey(a):           # numbers: which of two equal ones is taken does not matter
                    a, b = b, a
                base = self.snapshot(st)
                res = []
                for v, s in self.decide(("lt", b, a), st):
                    res.append((b if v == (name == "min") else a, s))
                return self.join_values(res, base)
        if name == "len" and len(args) == 1:
            a = args[0]
            if a[0] == "ref":
                o = st.heap[a[1]]
                if o.kind in ("list", "tuple"):
                    return [(self.mklen(R(a, st)), st)]
                if o.kind == "new":
                    return [(o.size if o.size is not None else ("len", R(a, st)), st)]
                if o.kind == "inst" and o.cls:
                    m = self.pkg.find_method(o.cls, "__len__")
                    if m:
                        return self.inline(m, [a], {}, st, node)
            if a[0] == "c" and hasattr(a[1], "__len__"):
                return [(("c", len(a[1])), st)]
            k = self.type_of(a, st)
            if k:
                m = self.pkg.find_method(k, "__len__")
                if m and m.qual not in st.stack:
                    return self.inline(m, [a], {}, st, node)
            return [(self.mklen(R(a, st)), st)]
        if name == "range":
            a = [R(x, st) for x in args]
            if len(a) == 1:
                return [(("range", ("c", 0), a[0], ("c", 1)), st)]
            if len(a) == 2:
                return [(("range", a[0], a[1], ("c", 1)), st)]
            if len(a) == 3:
                return [(("range", a[0], a[1], a[2]), st)]
            return [(("call", ("b", "range"), tuple(a), ()), st)]
        if name == "enumerate":
            return [(("enumerate", args[0], args[1] if len(args) > 1 else kw.get("start", ("c", 0))), st)]
        if name == "zip":
            return [(("zip", tuple(args)), st)]
        if name in ("list", "tuple", "iter", "sorted") and len(args) == 1 and name != "sorted":
            a = args[0]
            if name == "iter":
                return [(a, st)]
            o = Obj("list" if name == "list" else "tuple")
            if a[0] == "ref" and st.heap[a[1]].kind in ("list", "tuple"):
                o.segs = st.heap[a[1]].segs
            elif a[0] == "ref" and st.heap[a[1]].kind == "new" and st.heap[a[1]].segs:
                o.segs = st.heap[a[1]].segs
            elif a[0] in ("range", "enumerate", "zip", "slice", "mapf"):
                # materialise through the loop abstraction
                l = Obj("list")
                ref = self.alloc(l, st)
                cs = next(self.ids)
                st.scopes[cs] = ({"<acc>": ref, "<it>": a}, st.scopes[sid][1], sid)
                tgt = ast.copy_location(ast.Name(id="<x>", ctx=ast.Store()), node)
                ld = ast.copy_location(ast.Name(id="<x>", ctx=ast.Load()), node)
                elt = ld
                if a[0] == "mapf":
                    st.env(cs)["<f>"] = a[1]
                    st.env(cs)["<it>"] = a[2]
                    elt = ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id="<f>", ctx=ast.Load()), node), args=[ld], keywords=[]), node)
                loop = ast.copy_location(ast.For(target=tgt, iter=ast.copy_location(ast.Name(id="<it>", ctx=ast.Load()), node), body=[_Append(elt, node)], orelse=[]), node)
                res = []
                for status, val, s in self.block([loop], cs, st):
                    res.append((None, s) if status == "raise" else (s.scopes[cs][0]["<acc>"], s))
                return res
            else:
                k = self.type_of(a, st)
                o.segs = (("x", R(a, st)),)
            return [(self.alloc(o, st), st)]
        if name in ("list", "dict", "tuple", "set") and not args:
            if name == "dict":
                o = Obj("dict")
                o.fields = {("c", k): v for k, v in kw.items()}
            else:
                o = Obj("tuple" if name == "tuple" else "list")
            return [(self.alloc(o, st), st)]
        if name == "map" and len(args) == 2:
            return [(("mapf", args[0], args[1]), st)]
        if name == "bool" and len(args) == 1:
            r = self.truth(args[0], st)
            if isinstance(r, bool):
                return [(("c", r), st)]
            if r[0][0] == "ret":
                return [(("c", b), s) for b, s in self.decide(args[0], st)]
            a = args[0]
            if a[0] in ("eq", "lt", "is", "in", "not", "truth", "isinst"):
                return [(a, st)]
            return [(("truth", R(a, st)), st)]
        if name == "isinstance" and len(args) == 2:
            a, t = args
            tn = self.type_name(t, st)
            if a[0] == "c":
                c = getattr(builtins, tn, None)
                if isinstance(c, type):
                    return [(("c", isinstance(a[1], c)), st)]
            if a[0] == "slc":
                return [(("c", tn == "slice"), st)]
            if a[0] in ("v", "lin", "len"):
                return [(("c", tn == "int"), st)]
            if a[0] == "tup" and tn in ("str", "int", "slice", "bytes", "float"):
                return [(FALSE, st)]
            if a[0] == "seq" and not self.type_of(a, st) and tn in ("str", "int", "slice", "bytes", "float"):
                return [(FALSE, st)]
            if a[0] in ("seq", "ref"):
                kk = self.type_of(a, st)
                if kk:
                    want = t[1] if t[0] == "cls" else None
                    if want:
                        return [(("c", want in self.pkg.mro(kk)), st)]
                    if tn in ("str", "int"):
                        return [(("c", False), st)]
                elif a[0] == "ref" and st.heap[a[1]].kind in ("list", "tuple"):
                    if tn.split(".")[-1] in ("list", "Sequence", "Iterable", "tuple", "MutableSequence"):
                        return [(TRUE, st)]
                    if tn in ("str", "int", "slice"):
                        return [(FALSE, st)]
                elif a[0] == "ref" and st.heap[a[1]].kind == "new" and tn in ("str", "int"):
                    return [(FALSE, st)]
            kk = self.type_of(a, st)
            if kk and t[0] == "cls" and a != ("p", "self") and a[0] != "p":
                return [(("c", t[1] in self.pkg.mro(kk)), st)]
            return [(("isinst", R(a, st), tn), st)]
        if name == "getattr" and len(args) >= 2:
            a, nm = args[0], args[1]
            if nm[0] == "c" and len(args) == 2:
                return self.get_attr(a, nm[1], st, node)
            r = ("call", ("b", "getattr"), tuple(R(x, st) for x in args), ())
            return [(r, st)]
        if name == "str" and len(args) == 1:
            a = args[0]
            if a[0] == "c":
                return [(("c", str(a[1])), st)]
            return [(self.mkfstr([(R(a, st), -1)]), st)]
        if name in ("int", "float") and len(args) == 1:
            return [(args[0], st)]
        if name == "sum" and args and args[0][0] == "ref" and st.heap[args[0][1]].kind in ("list", "tuple") and all(x[0] == "e" for x in st.heap[args[0][1]].segs):
            r = args[1] if len(args) > 1 else ("c", 0)
            for x in st.heap[args[0][1]].segs:
                r = x[1] if r == ("c", 0) else self.binop("Add", r, x[1], st)
            return [(r, st)]
        if name == "setattr" and len(args) == 3 and args[1][0] == "c" and isinstance(args[1][1], str):
            return [((None if s.exc is not None else NONE), s) for s in self.set_attr(args[0], args[1][1], args[2], st, node)]
        if name in ("exec", "eval", "setattr", "delattr", "open", "compile", "__import__", "input"):
            r = ("call", ("b", name), tuple(R(a, st) for a in args), tuple(sorted((x, R(v, st)) for x, v in kw.items())))
            self.event(st, ("ucall",) + r[1:], node)
            return [(r, st)]
        if name == "print":
            self.event(st, ("ucall", ("b", "print"), tuple(R(a, st) for a in args), ()), node)
            return [(NONE, st)]
        c = getattr(builtins, name, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            return [(("exc", name, tuple(R(a, st) for a in args)), st)]
        return [(("call", ("b", name), tuple(R(a, st) for a in args), tuple(sorted((x, R(v, st)) for x, v in kw.items()))), st)]

    def type_name(self, t, st):
        if t[0] == "b":
            return t[1]
        if t[0] == "cls":
            return t[1][1]
        if t[0] == "g":
            return t[1].split(".")[-1]
        if t[0] == "attr":
            return t[2]
        if t[0] == "ref":
            o = st.heap[t[1]]
            return "|".join(sorted(self.type_name(s[1], st) for s in o.segs if s[0] == "e"))
        return repr(t)

    # ---------------------------------------------------- resolution

    def resolve(self, t, st):
        if not isinstance(t, tuple) or not t:
            return t
        k = t[0]
        if k in ("c", "p", "lib", "null", "v", "g", "b"):
            return t
        if k == "ref":
            o = st.heap.get(t[1])
            if o is None:
                return ("opq", ())
            return self.robj(o, st)
        if k == "clo":
            return ("fun", t[1].name)
        if k == "func":
            return ("fun", t[1].name if isinstance(t[1], Func) else t[1][1])
        if k == "bm":
            return ("attr", self.resolve(t[2], st), t[1].name)
        if k == "unbound":
            return ("fun", t[1].qual)
        if k == "gen":
            return ("gen", t[1].name, tuple(self.resolve(x, st) for x in t[2]))
        if k == "cls":
            return ("cls", t[1][1])
        if k == "enum":
            return ("enumv", t[1][1], self.enum_value(t, st))
        if k == "meth":
            return ("attr", self.resolve(t[1], st), t[2])
        if k == "ret":
            return ("ok", t[2])
        if k == "tup":
            return ("seq", tuple(("e", self.resolve(x, st)) for x in t[1]))
        if k == "phi":
            vals = tuple(dict.fromkeys(self.resolve(x, st) for x in t[1]))
            return vals[0] if len(vals) == 1 else ("phi", tuple(sorted(vals, key=okey)))
        if k == "seq":
            return t
        if k == "ite":
            return self.mkite(t[1], self.resolve(t[2], st), self.resolve(t[3], st))
        if k == "item":
            return self.mkitem(self.resolve(t[1], st), self.resolve(t[2], st))
        if k == "dec":
            return t
        return tuple(self.resolve(x, st) if isinstance(x, tuple) else x for x in t)

    def robj(self, o, st):
        if o.kind in ("list", "tuple"):
            segs = []
            for s in o.segs:
                segs.append(self.rseg(s, st))
            return seq_simplify(segs)
        if o.kind == "dict":
            more = seq_simplify([self.rseg(s, st) for s in o.segs]) if o.segs else None
            if more and not o.fields:
                return ("dictc", more)
            return ("dict", tuple(sorted(((self.resolve(a, st), self.resolve(b, st)) for a, b in o.fields.items()), key=okey))) + ((more,) if more else ())
        if o.kind == "inst":
            return ("inst", o.cls[1] if o.cls else "?", tuple(sorted((f, self.resolve(v, st)) for f, v in o.fields.items())))
        if o.kind == "handle":
            return ("newhandle", self.resolve(o.fields["*"], st))
        if o.kind == "new":
            if o.ctype.endswith("*"):
                if "*" in o.fields:
                    v = self.resolve(o.fields["*"], st)
                    more = tuple(self.rstore(x, st) for x in o.stores if x[0] != (("c", 0), None))
                    return ("ptr", v, more) if more else ("ptr", v)
                if o.stores and all(x[0][0] in (None, ("c", 0)) and isinstance(x[0][1], str) for x in o.stores):
                    d = {}
                    for (_, f), v in o.stores:
                        d[f] = self.resolve(v, st)
                    return ("ptr", ("struct", tuple(sorted(d.items()))))
                if o.stores:
                    return ("ptr", NONE, tuple(self.rstore(x, st) for x in o.stores))
                return ("cell",)
            if o.init is not None and not o.stores:
                return self.resolve(o.init, st)
            segs = [self.rseg(s, st) for s in o.segs]
            if o.stores:
                return self.array_contents(o, st)
            if segs:
                return seq_simplify(segs)
            size = self.resolve(o.size, st) if o.size is not None else NONE
            return ("seq", ()) if size == ("c", 0) else ("arr", size)
        return ("opq", ())

    def rstore(self, x, st):
        return (self.rkey(x[0], st), self.resolve(x[1], st) if x[0][0] != "loop" else x[1])

    def array_contents(self, o, st):
        """Array filled by element stores."""
        size = self.resolve(o.size, st) if o.size is not None else None
        if len(o.stores) == 1 and o.stores[0][0][0] == "loop":
            (_, n, var), paths = o.stores[0]
            el, ok = [], True
            for per, adds in paths:
                d = {}
                for (idx, fld), v in adds:
                    if idx != var and not (idx[0] == "lin" and False):
                        ok = False
                    d.setdefault(fld, v)
                    d[fld] = v
                if set(d) == {None}:
                    el.append((per, (("e", d[None]),)))
                elif d and None not in d:
                    el.append((per, (("e", ("struct", tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))),)))
                else:
                    ok = False
            if ok and size is not None and (size == n or True):
                c = seq_simplify([("m", n, merge_paths(el), var)])
                if size == n:
                    return c
                return ("arrof", size, c)
        # a run of constant-index stores
        if all(k[0] != "loop" for k, _ in o.stores):
            d = {}
            for (idx, fld), v in o.stores:
                d[(self.resolve(idx, st) if isinstance(idx, tuple) else idx, fld)] = self.resolve(v, st)
            if all(isinstance(k[0], tuple) and is_int(k[0]) and k[1] is None for k in d):
                n = len(d)
                if sorted(k[0][1] for k in d) == list(range(n)) and size == ("c", n):
                    return ("seq", tuple(("e", d[(("c", i), None)]) for i in range(n)))
        base = tuple(self.rseg(s, st) for s in o.segs)
        return ("arrs", size, base, tuple(self.rstore(x, st) for x in o.stores))


def merge_paths(paths):
    """Merge body paths with equal effect; complementary conditions cancel."""
    ps = list(dict.fromkeys(paths))
    d = summ.diagram_paths(ps)
    if d is not None:
        return d
    changed = True
    while changed:
        changed = False
        for i in range(len(ps)):
            for j in range(i + 1, len(ps)):
                if ps[i][1] == ps[j][1]:
                    a, b = dict(ps[i][0]), dict(ps[j][0])
                    if set(a) == set(b):
                        diff = [k for k in a if a[k] != b[k]]
                        if len(diff) == 1:
                            m = tuple(sorted(((k, v) for k, v in a.items() if k != diff[0]), key=okey))
                            ps[i] = (m, ps[i][1])
                            del ps[j]
                            changed = True
                            break
            if changed:
                break
    return tuple(sorted(ps, key=okey))


class _Append(ast.stmt):
    _fields = ("elt",)

    def __init__(self, elt, node):
        super().__init__()
        self.elt = elt
        self.lineno = getattr(node, "lineno", 0)
        self.col_offset = 0


def node_file(interp, st):
    q = st.stack[-1] if st.stack else interp.cur.qual
    mod = q.split(".")[0]
    return interp.pkg.files.get(mod, mod)


def show(t):
    """Readable rendering of a term."""
    if not isinstance(t, tuple):
        return repr(t)
    if not t:
        return "()"
    k = t[0]
    if not isinstance(k, str):
        return "(" + ", ".join(show(x) for x in t) + ")"
    if k == "ite":
        return f"({show(t[2])} if {show(t[1])} else {show(t[3])})"
    if k == "t":
        return show(t[1])
    if k == "is":
        return f"{show(t[1])} is {show(t[2])}"
    if k == "isinst":
        return f"isinstance({show(t[1])}, {t[2]})"
    if k == "c":
        return repr(t[1])
    if k == "p":
        return t[1]
    if k == "lib":
        return t[1]
    if k == "null":
        return "NULL"
    if k == "v":
        return f"i{t[1]}"
    if k == "g" or k == "b":
        return t[1]
    if k == "attr":
        return f"{show(t[1])}.{t[2]}"
    if k == "item":
        return f"{show(t[1])}[{show(t[2])}]"
    if k == "len":
        return f"len({show(t[1])})"
    if k == "enc":
        return f"{show(t[1])}.encode()"
    if k == "lin":
        return "(" + "+".join((f"{c}*" if c != 1 else "") + show(x) for x, c in t[1]) + (f"{t[2]:+d}" if t[2] else "") + ")"
    if k == "out":
        return f"{t[1]}#{t[2]}({', '.join(show(x) for x in t[3])})"
    if k == "val":
        return f"{t[1]}({', '.join(show(x) for x in t[2])})"
    if k == "seq":
        return "[" + ", ".join(showseg(s) for s in t[1]) + "]"
    if k == "inst":
        return f"{t[1]}({', '.join(f'{a}={show(b)}' for a, b in t[2])})"
    if k == "eq":
        return f"{show(t[1])}=={show(t[2])}"
    if k == "not":
        return f"not({show(t[1])})"
    if k in ("outarg",):
        return "<out>"
    if k == "newhandle":
        return f"handle({show(t[1])})"
    return k + "(" + ", ".join(show(x) for x in t[1:]) + ")"


def showseg(s):
    if s[0] == "e":
        return show(s[1])
    if s[0] == "x":
        return "*" + show(s[1])
    if s[0] == "m":
        return "for i<" + show(s[1]) + ":{" + "; ".join((" if " + " and ".join(("" if b else "not ") + show(a) for a, b in p[0]) + " -> " if p[0] else "") + ", ".join(showseg(x) for x in p[1]) for p in s[2]) + "}"
    return show(s)


if __name__ == "__main__":
    pkg = Package()
    it = Interp(pkg)
    want = sys.argv[1:]
    for key, cls in list(pkg.classes.items()):
        for nm, f in cls.items():
            if want and f.qual not in want and f.qual.split(".")[0] not in want:
                continue
            ps = it.summarize(f)
            print("==", f.qual, len(ps), "paths")
            if want:
                for p in ps:
                    print("   if", " and ".join(("" if b else "not ") + show(a) for a, b in p["conds"]))
                    for e, u in p["events"]:
                        print("      ", show(e) if e[0] != "loop" else e)
                    print("      ->", p["out"][0], *[show(x) if isinstance(x, tuple) else x for x in p["out"][1:]])
    for key, f in list(pkg.funcs.items()):
        if want and f.qual not in want and f.qual.split(".")[0] not in want:
            continue
        ps = it.summarize(f)
        print("==", f.qual, len(ps), "paths")
        if want:
            for p in ps:
                print("   if", " and ".join(("" if b else "not ") + show(a) for a, b in p["conds"]))
                for e, u in p["events"]:
                    print("      ", show(e) if e[0] != "loop" else e)
                print("      ->", p["out"][0], *[show(x) if isinstance(x, tuple) else x for x in p["out"][1:]])
    print("incomplete", set(it.incomplete)); print("missing", it.missing_lib); print("arity", it.arity); print(it.stats)
