"""
Normal form and comparison of function summaries.

A summary is a set of abstract paths (conditions, effects, outcome) over
provenance terms.  Two summaries agree iff every pair of paths whose conditions
can hold together has the same ordered effects, the same stores, and the same
outcome once gated terms are resolved under the joint conditions.  The
comparison never looks at the text of the program.
"""
import hashlib, json, re

QUERY = re.compile(
    r"^clingo_(assignment_|signature_|symbol_|symbolic_atoms_|theory_atoms_|error_|version$|warning_string|add_string|parse_term|"
    r"ast_(attribute_(get|size|type)|equal|less_than|hash|get_type|has_attribute|to_string)|"
    r"statistics_(array_at|array_size|map_at|map_size|map_has|map_subkey_name|type|root|value_get)|"
    r"configuration_(?!value_set)|model_(?!extend)|"
    r"control_(get_|has_const|is_conflicting|configuration|statistics|symbolic_atoms|theory_atoms|clasp_facade)|"
    r"propagate_control_(assignment|has_watch|thread_id)|propagate_init_(get_|assignment|number_of_threads|solver_literal|symbolic_atoms|theory_atoms)|"
    r"solve_control_symbolic_atoms|script_version)")


def is_query(name):
    return bool(QUERY.match(name))


_OKEY = {}


def okey(t):
    """Key of a total order on terms that depends on their contents only (memoised, terms share structure)."""
    if not isinstance(t, tuple):
        return repr(t)
    e = _OKEY.get(id(t))
    if e is not None:
        return e[1]
    if len(_OKEY) > 3000000:
        _OKEY.clear()
    h = hashlib.md5("|".join([okey(x) for x in t]).encode()).hexdigest()[:16]
    _OKEY[id(t)] = (t, h)
    return h


def okey0(item):
    return okey(item[0])


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


# ------------------------------------------------------------------ (de)serialisation with shared subterms

def dump(obj, path):
    table, index = [], {}

    def enc(t):
        if isinstance(t, (tuple, list)):
            kids = tuple(enc(x) for x in t)
            key = ("T",) + kids
            if key not in index:
                index[key] = len(table)
                table.append(list(kids))
            return ("#", index[key])
        if isinstance(t, bytes):
            return ("b", t.decode("latin1"))
        if isinstance(t, (str, int, float, bool, type(None))):
            return t if not isinstance(t, bool) else ("B", int(t))
        return ("s", repr(t))

    funcs = {k: enc(v) for k, v in sorted(obj.items())}
    flat = [[x if not isinstance(x, tuple) else list(x) for x in row] for row in table]
    with open(path, "w") as f:
        f.write('{"terms":[\n')
        f.write(",\n".join(json.dumps(r, separators=(",", ":")) for r in flat))
        f.write('\n],"functions":')
        json.dump({k: list(v) if isinstance(v, tuple) else v for k, v in funcs.items()}, f, indent=0)
        f.write("}\n")


def load(path):
    d = json.load(open(path))
    table = []

    def dec(x):
        if isinstance(x, list):
            if x[0] == "#":
                return table[x[1]]
            if x[0] == "b":
                return x[1].encode("latin1")
            if x[0] == "B":
                return bool(x[1])
            return x[1]
        return x
    for row in d["terms"]:
        table.append(tuple(dec(x) for x in row))
    return {k: dec(v) for k, v in d["functions"].items()}


# ------------------------------------------------------------------ terms under conditions

def walk(t):
    """Subterms in preorder; shared subterms once."""
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple) and id(x) not in seen:
            seen.add(id(x))
            yield x
            stack.extend(reversed(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def is_opaque(t):
    return contains(t, lambda x: x and x[0] in ("opq", "phi"))


def bool_core(t):
    """Truth value term -> (term below negations, negated, known to be a truth value)"""
    neg = wrapped = False
    while isinstance(t, tuple) and len(t) == 2 and t[0] in ("not", "truth", "t"):
        neg, wrapped, t = neg != (t[0] == "not"), True, t[1]
    return t, neg, wrapped


def v_eq_bool(d):
    """Decided equalities of truth values: term -> ((other term, equal), ...)"""
    res = {}
    for b, v in d.items():
        if b[0] == "eq":
            (x, m, p), (y, n, q) = bool_core(b[1]), bool_core(b[2])
            if p and q:
                res.setdefault(x, []).append((y, v == (m == n)))
                res.setdefault(y, []).append((x, v == (m == n)))
    return res


class Facts:
    """A consistent conjunction of decided conditions."""

    def __init__(self, enums=None):
        self.enums = enums or {}
        self.d = {}

    def copy(self):
        f = Facts(self.enums)
        f.d = dict(self.d)
        return f

    def cval(self, t):
        if t[0] == "c":
            return t[1]
        if t[0] == "lib":
            return self.enums.get(t[1])
        return None

    def equal_within(self, a, b):
        """Equal up to numbers that are known to be equal."""
        if a == b:
            return True
        if not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b:
            return False
        if len(a) == len(b) and all(x == y or self.equal_within(x, y) for x, y in zip(a, b)):
            return True
        return self.equal_ints(a, b)

    def equal_ints(self, a, b):
        """Are a <= b and b <= a known?"""
        if not all(isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ("c", "lin", "p", "out", "val", "attr", "item", "len", "v") for x in (a, b)) \
                or any(x[0] == "c" and not isinstance(x[1], int) for x in (a, b)):
            return False
        for x, y in ((a, b), (b, a)):
            r, neg = le_norm(((x, 1), (y, -1)), 0)
            v = r[1] if r[0] == "c" else self.implied(r)
            if v is None or v == neg:
                return False
        return True

    def const(self, x):
        """Value of a number if it is known."""
        if self.d.get(("t", x)) is False:
            return 0
        for b, v in self.d.items():
            if v and b[0] == "eq" and x in (b[1], b[2]):
                w = self.cval(b[2] if b[1] == x else b[1])
                if isinstance(w, int):
                    return w
        return None

    def implied(self, a):
        if a in self.d:
            return self.d[a]
        k = a[0]
        if k == "le":
            for b, v in self.d.items():
                if b[0] == "le" and b[1] == a[1]:
                    if v and a[2] <= b[2]:
                        return True
                    if not v and a[2] >= b[2]:
                        return False
            total = a[2]
            for x, m in a[1]:
                w = self.const(x)
                if w is None:
                    break
                total += m * w
            else:
                return total <= 0
        if k == "eq":
            for b, v in self.d.items():
                if b[0] == "eq" and v:
                    for s, t in ((b[1], b[2]), (b[2], b[1])):
                        for u, w in ((a[1], a[2]), (a[2], a[1])):
                            if s == u and isinstance(t, tuple) and isinstance(w, tuple):
                                x, y = self.cval(t), self.cval(w)
                                if x is not None and y is not None and x != y:
                                    return False
        if k == "is" and a[2] == ("c", None):
            x = a[1]
            if self.d.get(("t", x)) is True:
                return False
            if any(b[0] == "isinst" and b[1] == x and v for b, v in self.d.items()):
                return False
        if k == "t":
            if self.d.get(("is", a[1], ("c", None))) is True or self.d.get(("isnull", a[1])) is True:
                return False
            if v_eq_bool(self.d):
                x, neg, _ = bool_core(a)
                for y, same in v_eq_bool(self.d).get(x, ()):
                    w = self.d.get(("t", y))
                    if w is not None:
                        return (w == same) != neg
        if k == "eq":
            (x, m, b), (y, n, c) = bool_core(a[1]), bool_core(a[2])
            if b and c:
                v, w = self.d.get(("t", x)), self.d.get(("t", y))
                if v is not None and w is not None:
                    return (v != m) == (w != n)
        if k == "isnull" and self.d.get(("t", a[1])) is True:
            return False
        if k == "isinst":
            if self.d.get(("is", a[1], ("c", None))) is True:
                return False
        return None

    def add(self, a, v):
        """-> False if the conjunction becomes inconsistent"""
        k = self.implied(a)
        if k is not None and k != v:
            return False
        self.d[a] = v
        # facts that became inconsistent with the new one
        if v and a[0] in ("eq", "t", "is", "isinst", "isnull", "le") or not v and a[0] in ("le", "t"):
            for b, w in list(self.d.items()):
                if b != a:
                    del self.d[b]
                    k = self.implied(b)
                    self.d[b] = w
                    if k is not None and k != w:
                        return False
        for x in ([t for t, _ in a[1]] if a[0] == "le" and len(a[1]) == 1 else [a[1], a[2]] if a[0] == "eq" and not v else [a[1]] if a[0] == "t" and v else []):
            if self.exhausted(x):
                return False
        return True

    def exhausted(self, x):
        """Whether no value is left for a number with a small range."""
        lo = hi = None
        no = set()
        for b, v in self.d.items():
            if b[0] == "le" and len(b[1]) == 1 and b[1][0][0] == x and b[1][0][1] in (1, -1):
                m, k = b[1][0][1], b[2]
                if not v:                       # m*x + k > 0
                    m, k = -m, 1 - k
                if m == 1:
                    hi = -k if hi is None else min(hi, -k)
                else:
                    lo = k if lo is None else max(lo, k)
            elif b[0] == "eq" and not v and x in (b[1], b[2]):
                no.add(self.cval(b[2] if b[1] == x else b[1]))
            elif b == ("t", x) and v:
                no.add(0)
        return lo is not None and hi is not None and hi - lo < 16 and all(i in no for i in range(lo, hi + 1))

    def add_all(self, conds):
        for a, v in conds:
            if a[0] == "const":
                continue
            if first_ite(a):            # gated values below the condition
                a = simplify(a, self)
            if a[0] == "not":
                a, v = a[1], not v
            if a[0] == "c":
                if bool(a[1]) != v:
                    return False
                continue
            if not self.add(a, v):
                return False
        return True


def nonneg(t):
    """Values of unsigned types and lengths."""
    return (t[0] == "out" and len(t) > 4 and t[4] in UNSIGNED or t[0] == "val" and len(t) > 3 and t[3] in UNSIGNED or t[0] == "len")


UNSIGNED = ("size_t", "uint32_t", "uint64_t", "clingo_id_t", "clingo_atom_t")


def le_norm(items, k):
    """(sum of items) + k <= 0 in canonical form -> (atom or constant, negated?)"""
    d = {}
    for t, co in items:
        if t[0] == "c" and isinstance(t[1], int):
            k += co * t[1]
        elif t[0] == "lin" and len(t) == 3:
            for x, c in t[1]:
                d[x] = d.get(x, 0) + co * c
            k += co * t[2]
        else:
            d[t] = d.get(t, 0) + co
    d = {t: co for t, co in d.items() if co}
    if not d:
        return ("c", k <= 0), False
    items = sorted(d.items(), key=okey0)
    if all(co > 0 and nonneg(t) for t, co in items) and k > 0:
        return ("c", False), False
    if all(co < 0 and nonneg(t) for t, co in items) and k <= 0:
        return ("c", True), False
    if items[0][1] < 0:
        return ("le", tuple((t, -co) for t, co in items), -k + 1), True
    return ("le", tuple(items), k), False


def simplify(t, facts):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "le" and len(t) == 3 and first_ite(t):
        a, neg = le_norm(tuple((simplify(x, facts), co) for x, co in t[1]), t[2])
        v = a[1] if a[0] == "c" else facts.implied(a)
        return ("c", v != neg) if v is not None else ("not", a) if neg else a
    if t[0] == "ite":
        a = simplify(t[1], facts)
        yes, no = t[2], t[3]
        v = facts.implied(t[1]) if a != t[1] else None
        while a[0] == "not" and len(a) == 2:
            a, yes, no, v = a[1], no, yes, None if v is None else not v
        if v is None:
            v = bool(a[1]) if a[0] == "c" else facts.implied(a)
        if v is not None:
            return simplify(yes if v else no, facts)
        yes, no = simplify(yes, facts), simplify(no, facts)
        return yes if yes == no else ("ite", a, yes, no)
    if t[0] == "t" and len(t) == 2 and isinstance(t[1], tuple):
        x, neg = simplify(t[1], facts), False
        while x[0] == "not" and len(x) == 2:
            x, neg = x[1], not neg
        if x[0] == "c" and (x[1] is None or isinstance(x[1], (bool, int))):
            return ("c", bool(x[1]) != neg)
        return ("not", ("t", x)) if neg else ("t", x)
    if t[0] == "out" and len(t) > 4 and t[4] == "bool":
        v = facts.implied(("t", t))
        if v is not None:
            return ("c", v)
    if t[0] == "truth" and len(t) == 2:
        v = facts.implied(("t", t[1]))
        if v is not None:
            return ("c", v)
    if t[0] == "not" and len(t) == 2:
        x = simplify(t[1], facts)
        if isinstance(x, tuple) and x and x[0] == "c":
            return ("c", not x[1])
        return ("not", x)
    if t[0] in ("eq", "is", "lt", "in", "isinst", "isnull", "le") and len(t) >= 2:
        v = facts.implied(t)
        if v is not None:
            return ("c", v)
    return tuple(simplify(x, facts) for x in t)


def first_ite(t):
    if isinstance(t, tuple) and t:
        if t[0] == "ite":
            inner = first_ite(t[1])
            return inner or t[1]
        if t[0] in ("m", "loop") and len(t) == 4:            # loop bodies are compared on their own
            return None
        for x in t:
            r = first_ite(x)
            if r:
                return r
    return None


CONSTANT = ("or", "lib", "c", "lin", "bin")


class Comparer:
    """Compares summaries; `known` restricts instance fields that matter."""

    def __init__(self, enums=None, rename=None, fields=None):
        self.enums, self.rename, self.fields = enums or {}, rename or {}, fields or {}
        self.pairs = 0
        self.atoms = 0

    # -- equality of terms under facts
    def eq(self, a, b, facts, depth=0):
        a, b = simplify(a, facts), simplify(b, facts)
        if a == b:
            return True
        if self.struct_eq(a, b, facts, depth):
            return True
        if depth > 6:
            return False
        atom = first_ite(a) or first_ite(b)
        if atom is None:
            return any(x[0] == "le" for x in facts.d) and facts.equal_within(a, b)
        for v in (True, False):
            f = facts.copy()
            if f.add(atom, v) and not self.eq(a, b, f, depth + 1):
                return False
        return True

    def const_value(self, t):
        """Value of a named constant, a number, or a combination of flags."""
        if t[0] == "lib":
            return self.enums.get(t[1])
        if t[0] == "c":
            return t[1] if isinstance(t[1], int) and not isinstance(t[1], bool) else None
        if t[0] == "lin":
            vals = [(self.const_value(x), k) for x, k in t[1]]
            return t[2] + sum(x * k for x, k in vals) if all(isinstance(x, int) for x, _ in vals) else None
        if t[0] == "bin" and len(t) == 4 and t[1] in ("+", "-", "&"):
            x, y = self.const_value(t[2]), self.const_value(t[3])
            return None if x is None or y is None else x + y if t[1] == "+" else x - y if t[1] == "-" else x & y
        if t[0] == "or":
            vals = [self.const_value(x) for x in t[1]]
            if all(isinstance(x, int) for x in vals):
                r = 0
                for x in vals:
                    r |= x
                return r
        return None

    def struct_eq(self, a, b, facts, depth):
        if a == b:
            return True
        if not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b:
            return False
        if a[0] == "fun" and b[0] == "fun":
            return True
        if a[0] in CONSTANT and b[0] in CONSTANT and self.enums:
            x, y = self.const_value(a), self.const_value(b)
            if x is not None and y is not None:
                return x == y
        if a[0] == "inst" and b[0] == "inst" and len(a) == 3 and len(b) == 3:
            if a[1] != b[1]:
                return False
            da, db = dict(a[2]), dict(b[2])
            return set(da) <= set(db) and all(self.struct_eq(da[k], db[k], facts, depth) for k in da)
        if a[0] in ("m", "loop") and b[0] == a[0] and len(a) == 4 and len(b) == 4 and isinstance(a[2], tuple) and isinstance(b[2], tuple) and a[3] == b[3]:
            return self.eq(a[1], b[1], facts, depth) and a[3] == b[3] and \
                self.paths_eq([(p[0], p[1]) for p in a[2]], [(p[0], p[1]) for p in b[2]], facts, depth)
        if a[0] == "or" and b[0] == "or":
            return set(a[1]) == set(b[1])
        if a[0] == "ite" or b[0] == "ite":
            if a[0] == "ite" and b[0] == "ite" and a[1] == b[1]:
                return self.eq(a[2], b[2], facts, depth + 1) and self.eq(a[3], b[3], facts, depth + 1)
            return False
        return len(a) == len(b) and all(self.struct_eq(x, y, facts, depth) for x, y in zip(a, b))

    def paths_eq(self, pa, pb, facts, depth):
        """Path sets with plain payload terms (loop bodies)."""
        pa = [p for p in pa]
        if not pa or not pb:
            return not any(p[1] for p in pa) and not any(p[1] for p in pb)
        for ca, va in pa:
            for cb, vb in pb:
                f = facts.copy()
                if f.add_all(ca) and f.add_all(cb):
                    self.pairs += 1
                    if not self.eq(va, vb, f, depth + 1):
                        return False
        return True


def norm_events(events):
    """Split events into ordered effects and (unordered) stores; queries are dropped."""
    eff, stores = [], {}

    def body(evs):
        out = []
        for e in evs:
            if e[0] == "call" and is_query(e[1]):
                continue
            if e[0] == "loop":
                paths = tuple((per, body(x)) for per, x in e[2])
                if any(p[1] for p in paths):
                    out.append(("loop", e[1], paths, e[3]))
                continue
            if e[0] == "loop*":
                x = body(e[2])
                if x:
                    out.append(("loop*", e[1], x))
                continue
            if e[0] == "ucall" and e[1][:1] == ("rec",):
                pass
            out.append(e)
        return tuple(out)
    for e in body(events):
        if e[0] == "store":
            stores[(e[1], e[2])] = e[3]
        else:
            eff.append(e)
    return tuple(eff), stores


# ------------------------------------------------------------------ canonical decision diagrams

MAXNODES, MAXLEAVES = 400, 64


def _diagram(paths):
    """{(conds, leaf)} -> canonical list of (conds, leaf): ordered, reduced decision diagram over the conditions."""
    atoms = sorted({a for c, _ in paths for a, _ in c}, key=okey)
    idx = {a: i for i, a in enumerate(atoms)}
    leaves = []
    lid = {}
    for _, l in paths:
        if l not in lid:
            lid[l] = len(leaves)
            leaves.append(l)
    single = []         # (atom, value) -> values it decides
    for a in atoms:
        x = []
        for v in (False, True):
            f = Facts()
            f.d[a] = v
            x.append([f.implied(b) if b != a else None for b in atoms])
        single.append(x)
    n = len(atoms)
    # decides[i][v][j]: value of atom j if atom i has value v (None: open)
    decides = [[[None] * n for v in (0, 1)] for i in range(n)]
    for i in range(n):
        for v in (0, 1):
            for j in range(n):
                k = single[i][v][j]
                if k is None and i != j:
                    no = [w for w in (0, 1) if single[j][w][i] is not None and single[j][w][i] != bool(v)]
                    k = None if len(no) != 1 else not no[0]
                decides[i][v][j] = k
    memo = {}

    def build(i, ps):
        it = iter(ps)
        first = next(it)[1]
        if all(l == first for _, l in it):
            return ("leaf", leaves[first])
        while i < n and not any(j == i for c, _ in ps for j, _ in c):
            i += 1
        key = (i, ps)
        if key in memo:
            return memo[key]
        if i == n or len(memo) > MAXNODES:
            raise ValueError
        sub = {}
        for v in (True, False):
            dec = decides[i][v]
            q = set()
            for c, l in ps:
                rest = []
                for j, w in c:
                    k = v if j == i else dec[j]
                    if k is None:
                        rest.append((j, w))
                    elif k != w:
                        break
                else:
                    q.add((tuple(rest), l))
            if q:
                sub[v] = build(i + 1, frozenset(q))
        if not sub:
            raise ValueError
        if len(sub) == 1:
            r = next(iter(sub.values()))
        elif sub[True] == sub[False]:
            r = sub[True]
        else:
            r = ("node", atoms[i], sub[True], sub[False])
        memo[key] = r
        return r
    def count(d):
        if d[0] == "leaf":
            return 1
        if id(d) not in sizes:
            sizes[id(d)] = count(d[2]) + count(d[3])
        return sizes[id(d)]
    sizes = {}
    try:
        d = build(0, frozenset((tuple(sorted((idx[a], v) for a, v in c)), lid[l]) for c, l in paths))
    except ValueError:
        return None
    return d if count(d) <= MAXLEAVES else None


def minimal(paths):
    """Path conditions without those that others of the same path imply, complementary paths merged."""
    ps = []
    for c, x in paths:
        c = sorted(set(c), key=okey)
        i = 0
        while i < len(c):
            a, v = c[i]
            f = Facts()
            f.d = {b: w for b, w in c if b != a}
            if f.implied(a) == v:
                del c[i]
            else:
                i += 1
        ps.append((frozenset(c), x))
    ps = list(dict.fromkeys(ps))
    i = 0
    while i < len(ps):
        for j in range(i):
            a, b = ps[i][0], ps[j][0]
            d = a ^ b
            if ps[i][1] == ps[j][1] and len(d) == 2 and len({x for x, _ in d}) == 1 and len(a) == len(b):
                x = (a & b, ps[i][1])
                del ps[i], ps[j]
                if x not in ps:
                    ps.append(x)
                i = -1
                break
        i += 1
    return tuple(sorted(((tuple(sorted(c, key=okey)), x) for c, x in ps), key=okey))


def _ite_paths(t, conds=(), depth=0):
    if isinstance(t, tuple) and len(t) == 4 and t[0] == "ite" and depth < 8:
        for v, x in ((True, t[2]), (False, t[3])):
            w = [k for a, k in conds if a == t[1]]
            if w and w[0] != v:
                continue
            yield from _ite_paths(x, conds if w else conds + ((t[1], v),), depth + 1)
    else:
        yield conds, t


def _split(conds, payload):
    """Split gated terms at the top of the payload's elements into path conditions."""
    for i, e in enumerate(payload):
        if isinstance(e, tuple) and len(e) == 2 and isinstance(e[1], tuple) and e[1] and e[1][0] == "ite":
            for c, x in _ite_paths(e[1], conds):
                yield from _split(c, payload[:i] + ((e[0], x),) + payload[i + 1:])
            return
    yield conds, payload


def _split_deep(conds, payload, budget):
    """Split every gated term of a path (outside nested loops) into path conditions."""
    a = first_ite((conds, payload))
    if a is None:
        yield conds, payload
        return
    budget[0] -= 1
    if budget[0] < 0:
        raise ValueError
    for v in (True, False):
        f = Facts()
        f.add(a, v)
        cs, ok = [(a, v)], True
        for b, w in conds:
            if b == a:
                ok = ok and w == v
                continue
            if first_ite(b):
                b = simplify(b, f)
                if b[0] == "not":
                    b, w = b[1], not w
                if b[0] == "c":
                    ok = ok and bool(b[1]) == w
                    continue
            cs.append((b, w))
        if ok and Facts().add_all(cs):
            yield from _split_deep(tuple(dict(cs).items()), simplify(payload, f), budget)


def _flat(d, conds=()):
    if d[0] == "leaf":
        yield conds, d[1]
    else:
        yield from _flat(d[2], conds + ((d[1], True),))
        yield from _flat(d[3], conds + ((d[1], False),))


def canon(t, memo=None):
    """Loop bodies and gated terms as ordered decision diagrams: independent of how the cases are written."""
    if not isinstance(t, tuple) or not t:
        return t
    if memo is None:
        memo = {}
    k = id(t)
    if k in memo:
        return memo[k][1]
    r = tuple(canon(x, memo) for x in t)
    if len(r) == 2 and isinstance(r[1], bool) and isinstance(r[0], tuple) and r[0][:1] == ("not",):
        r = (r[0][1], not r[1])
    elif r[0] == "not" and len(r) == 2 and isinstance(r[1], tuple) and r[1][:1] == ("not",):
        r = r[1][1]
    elif r[0] == "le" and len(r) == 3:
        a, neg = le_norm(r[1], r[2])
        r = ("not", a) if neg else a if a[0] != "c" else r
    elif r[0] == "lin" and len(r) == 3 and isinstance(r[1], tuple):
        r = ("lin", tuple(sorted(r[1], key=okey0)), r[2])
    elif r[0] in ("eq", "is") and len(r) == 3 and isinstance(r[1], tuple) and isinstance(r[2], tuple):
        if r[1][:1] == ("c",) and r[2][:1] != ("c",) or (r[1][:1] == ("c",)) == (r[2][:1] == ("c",)) and okey(r[1]) > okey(r[2]):
            r = (r[0], r[2], r[1])
    elif r[0] == "ite" and len(r) == 4 and r[1][0] == "not":
        r = ("ite", r[1][1], r[3], r[2])
    if r[0] == "ite" and len(r) == 4:
        d = _diagram(list(_ite_paths(r)))
        if d:
            def back(d):
                return d[1] if d[0] == "leaf" else ("ite", d[1], back(d[2]), back(d[3]))
            r = back(d)
    elif r[0] == "m" and len(r) == 4 and isinstance(r[2], tuple) and all(isinstance(p, tuple) and len(p) == 2 for p in r[2]):
        d = diagram_paths(r[2])
        r = ("m", r[1], _sorted([q for p in r[2] for q in _split(p[0], p[1])]) if d is None else d, r[3])
    elif r[0] == "loop" and len(r) == 4 and isinstance(r[2], tuple) and all(isinstance(p, tuple) and len(p) == 2 for p in r[2]):
        try:
            budget = [200]
            ps = tuple(q for p in r[2] for q in _split_deep(p[0], p[1], budget))
        except ValueError:
            ps = r[2]
        d = diagram_paths(ps, False)
        r = ("loop", r[1], _sorted(r[2]) if d is None else d, r[3])
    memo[k] = (t, r)
    return r


def diagram_paths(paths, split=True):
    """Paths of a loop body as the leaves of their canonical decision diagram."""
    ps = [q for p in paths for q in _split(p[0], p[1])] if split else list(paths)
    if not ps or any(x[0] == "const" for c, _ in ps for x, _ in c):
        return None
    d = _diagram(ps)
    return minimal(ps) if d is None else tuple(_flat(d))


def exit_conds(paths):
    """Conditions under which a loop ends regularly: paths are pairs (conditions, ends?) of a whole iteration."""
    d = _diagram([(c, x) for c, x in paths])
    if d is not None:
        return tuple(sorted(((tuple(sorted(c, key=okey)), ()) for c, x in _flat(d) if x), key=okey))
    return minimal([(c, ()) for c, x in paths if x])


def _sorted(ps):
    return tuple(sorted(((tuple(sorted(c, key=okey)), x) for c, x in ps), key=okey))


def strip_uids(events):
    out = []
    for e, u in events:
        if e[0] == "loop":
            out.append(("loop", e[1], tuple((per, strip_uids(x)) for per, x in e[2]), e[3]))
        elif e[0] == "loop*":
            out.append(("loop*", e[1], strip_uids(e[2])))
        else:
            out.append(e)
    return tuple(out)


def rotate(events):
    """Loops without a count in a form that does not depend on where the source enters them: e (N e)* = (e N)* e."""
    if not any(e[0] == "loop" and e[1][0] == "while" for e in events):
        return events
    out = []
    for e in events:
        if e[0] != "loop" or e[1][0] != "while":
            out.append(e)
            continue
        body = e[2]
        while out and body and any(not q or q[-1] != ("break",) for _, q in body) and all(q and q[-1] in (out[-1], ("break",)) for _, q in body):
            x = out.pop()
            body = tuple((c, (x,) + (q if q[-1] == ("break",) else q[:-1])) for c, q in body)
        if len(body) == 1 and body[0][1] and body[0][1][-1] == ("break",):
            out.extend(body[0][1][:-1])
        else:
            out.append(e[:2] + (body,) + e[3:])
    return tuple(out)


def make(paths, rename=None):
    """Interpreter paths -> serialisable summary (engine failures are decided elsewhere)."""
    rename = rename or (lambda t: t)
    res, memo, keep = [], {}, []
    for p in paths:
        if p["out"][0] == "raise" and p["out"][1] == "EngineError":
            continue
        t = rename((p["conds"], rotate(strip_uids(p["events"])), p["out"]))
        keep.append(t)              # the memo is by identity
        res.append(canon(t, memo))
    return tuple(res)


def inloop(conds):
    return any(a[0] == "inloop" for a, _ in conds)


def atoms_of(s):
    return {a for p in s for a, _ in p[0]}


def calls_in(t):
    return {x for x in walk(t) if x and x[0] in ("call", "ucall") and len(x) > 1 and isinstance(x[1], tuple) and x[1][:1] != ("lua",)}


def describe(conds, show):
    return " and ".join(("" if v else "not ") + show(a) for a, v in conds) or "always"


def effect_names(s):
    r = set()
    for p in s:
        for t in walk(p[1]):
            if t and t[0] == "call" and len(t) > 1 and isinstance(t[1], str) and not is_query(t[1]):
                r.add(t[1])
    return r


def compare(ref, new, enums, show, known_fields=None, facet=None):
    """-> (verdict, message); verdict in same|different|weak

    facet "errors": only the way an operation ends (normally, or with which exception) is compared."""
    C = Comparer(enums)
    if tuple(ref) == tuple(new):
        return "same", f"{len(new)} identical paths", len(new)
    out_eq = globals()["out_eq"] if facet is None else (lambda C, a, b, f: a[0] == b[0] and (a[0] == "ret" or a[1] == b[1]))
    # can the conditions of the new version be related to those of the reference?
    rat, nat = atoms_of(ref), atoms_of(new)
    refcalls = calls_in(ref)
    extra = nat - rat
    opaque = is_opaque(new) or is_opaque(ref)
    callees = {x[:2] for x in refcalls}
    unknown = [a for a in extra if is_opaque(a) or a[0] in ("caught",) or any(x[:2] not in callees for x in calls_in(a))]
    unknown += [a for a in rat - nat if a[0] in ("caught",) or is_opaque(a)]
    weak = opaque or bool(unknown)
    diffs, n_ok, matched_ref, matched_new = [], 0, set(), set()
    R = [(c, norm_events(e), o) for c, e, o in ref]
    N = [(c, norm_events(e), o) for c, e, o in new]
    ids = {}
    rids, nids = ([tuple((ids.setdefault(a, len(ids)), v) for a, v in c if a[0] not in ("inloop", "const")) for c, _, _ in x] for x in (R, N))
    rl, nl = [inloop(c) for c, _, _ in R], [inloop(c) for c, _, _ in N]
    for i, (rc, (re_, rs), ro) in enumerate(R):
        fr = Facts(enums)
        rdec = dict(rids[i])
        if not fr.add_all([x for x in rc if x[0][0] != "inloop"]):
            matched_ref.add(i)
            continue
        for j, (nc, (ne, ns), no) in enumerate(N):
            if rl[i] != nl[j] or rl[i] and i in matched_ref and j in matched_new:
                continue
            if any(rdec.get(a, v) != v for a, v in nids[j]):
                continue
            f = fr.copy()
            if not f.add_all([x for x in nc if x[0][0] != "inloop"]):
                continue
            C.pairs += 1
            why = None
            if not out_eq(C, ro, no, f):
                why = lambda ro=ro, no=no: f"result {show_out(ro, show)} became {show_out(no, show)}"
            elif rl[i] or facet == "errors":
                pass
            elif not ev_eq(C, *((cleanup(re_), cleanup(ne)) if ro[:2] == no[:2] and ro[:2] in (("raise", "EngineFailure"), ("jump", "engine_error")) else (unfreed(re_, f), unfreed(ne, f))), f):
                why = lambda a=re_, b=ne: "effects " + show_ev(a, show) + " became " + show_ev(b, show)
            else:
                ss = stores_eq(C, rs, ns, f, known_fields)
                if ss:
                    why = lambda ss=ss: f"stored state differs: {show(ss) if isinstance(ss, tuple) else ss}"
            if why is None:
                matched_ref.add(i)
                matched_new.add(j)
                n_ok += 1
            elif not rl[i]:
                diffs.append((lambda nc=nc, rc=rc, why=why: f"when {describe(nc, show)[:300]} (specified for: {describe(rc, show)[:300]}): {why()}", j))
    # exits from within loops: every exit needs a counterpart with the same outcome
    for j, (nc, _, no) in enumerate(N):
        if nl[j] and j not in matched_new and Facts(enums).add_all([x for x in nc if x[0][0] != "inloop"]):
            diffs.append((lambda nc=nc, no=no: f"when {describe(nc, show)[:300]}: unspecified outcome {show_out(no, show)}", j))
    for i, (rc, _, ro) in enumerate(R):
        if rl[i] and i not in matched_ref:
            diffs.append((lambda rc=rc, ro=ro: f"outcome {show_out(ro, show)} specified for {describe(rc, show)[:300]} vanished", i))
    if not diffs:
        unm = [i for i in range(len(R)) if i not in matched_ref]
        return ("same" if not unm or weak else "same"), f"{C.pairs} path pairs", C.pairs
    if not weak:
        return "different", diffs[0][0](), C.pairs
    # weak comparison: unrelated conditions or unknown values
    if opaque:
        a, b = effect_names(ref), effect_names(new)
        if a != b:
            return "different", f"engine operations changed from {sorted(a)} to {sorted(b)}", C.pairs
        return "weak", "engine operations agree (values not comparable)", C.pairs
    if all(i in matched_ref for i in range(len(R))) and all(j in matched_new for j in range(len(N))):
        return "weak", "behaviours agree (conditions not comparable)", C.pairs
    a, b = effect_names(ref), effect_names(new)
    if a != b:
        return "different", f"engine operations changed from {sorted(a)} to {sorted(b)}", C.pairs
    return "weak", "engine operations agree (conditions not comparable)", C.pairs


def cleanup(ev):
    """Effects that matter once the engine reported a failure: resources are released."""
    return tuple(e for e in ev if e[0] != "call" or re.search(r"close|free|delete|release", str(e[1])))


def unfreed(ev, f):
    """Releasing a null pointer has no effect."""
    def null(e):
        return e[0] == "call" and len(e) == 3 and isinstance(e[1], str) and e[1].startswith("clingo_") and e[1].endswith("_free") and f.implied(("t", e[2])) is False
    return tuple(e for e in ev if not null(e)) if any(len(e) == 3 and str(e[1]).endswith("_free") for e in ev) else ev


def out_eq(C, a, b, f):
    if a[0] != b[0]:
        return False
    if a[0] == "ret":
        return C.eq(a[1], b[1], f)
    return a[1] == b[1]        # class of the exception


def ev_eq(C, a, b, f):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return False
        if x[0] == "loop":
            if not C.eq(x[1], y[1], f) or not C.paths_eq(x[2], y[2], f, 0):
                return False
        elif not C.eq(x, y, f):
            return False
    return True


def stores_eq(C, a, b, f, known_fields):
    for k in set(a) | set(b):
        if k not in a and known_fields is not None and k[1] not in known_fields:
            continue
        x, y = a[k] if k in a else initial(k), b[k] if k in b else initial(k)
        if x is None or y is None:
            return ("call", k[1])
        if not C.eq(x, y, f) and not (vanished(x, f) and vanished(y, f)):
            return y if k not in a else a[k]
    return None


def initial(k):
    """The value a location holds before the call (None: not expressible)."""
    if isinstance(k[0], tuple) and k[0] and k[0][0] != "refs":
        return k[0] if k[1] == "*" else ("fld", k[0], k[1])
    return None


def vanished(t, f):
    """A null value: the constant, or a term the conditions of the path decide to be null."""
    return t in (("c", None), ("c", 0), ("c", False)) or f.implied(("t", t)) is False and t[:1] in (("this",), ("fld",), ("param",), ("arg",), ("p",))


def show_out(o, show):
    return o[0] + " " + " ".join(show(x)[:400] if isinstance(x, tuple) else str(x) for x in o[1:])


def show_ev(ev, show):
    return "[" + "; ".join((show(e)[:300] if e[0] != "loop" else f"loop over {show(e[1])[:100]}: {e[2]!r}"[:400]) for e in ev) + "]"
