"""The binary interface clingo.h describes: canonical types of functions, fields, callbacks; values of enumerators."""
import functools, re, subprocess, os, tempfile
import cheader
from common import Broken

BASE = {"void": ("void",), "_Bool": ("bool",), "bool": ("bool",), "char": ("int", True, 8), "signed char": ("int", True, 8), "unsigned char": ("int", False, 8),
        "short": ("int", True, 16), "unsigned short": ("int", False, 16), "int": ("int", True, 32), "unsigned int": ("int", False, 32), "unsigned": ("int", False, 32),
        "long": ("int", True, 64), "unsigned long": ("int", False, 64), "long long": ("int", True, 64), "unsigned long long": ("int", False, 64), "float": ("float",),
        "double": ("double",), "long double": ("longdouble",)}


class Types:
    def __init__(self, header):
        self.h = header
        self.cache = {}

    def name(self, n, depth=0):
        if depth > 20:
            raise Broken("typedef cycle at " + n)
        if n in BASE:
            return BASE[n]
        if n in self.h.typedefs:
            q = self.h.typedefs[n]
            if q.replace("struct ", "").strip() == n:
                return ("struct", n)
            return self.parse(q, depth + 1)
        if n in self.h.enum_groups:
            return ("int", False, 32)
        return ("struct", n)

    def parse(self, s, depth=0):
        key = s
        if key in self.cache:
            return self.cache[key]
        tk = re.findall(r"\.\.\.|[A-Za-z_$][\w$]*|\d+|[()*,\[\]]", s)
        t, i = self._type(tk, 0, depth)
        if i != len(tk):
            raise Broken("type not understood: " + s)
        self.cache[key] = t
        return t

    def _type(self, tk, i, depth):
        words = []
        kind = None
        while i < len(tk) and re.match(r"[A-Za-z_$]", tk[i]):
            w = tk[i]
            if w in ("const", "volatile", "restrict", "extern"):
                pass
            elif w in ("struct", "enum", "union"):
                kind = w
            else:
                words.append(w)
            i += 1
        n = " ".join(words)
        if kind == "enum":
            base = ("int", False, 32)
        elif kind:
            base = ("struct", n)
        else:
            base = self.name(n, depth)
        return self._declarator(tk, i, base, depth)

    def _declarator(self, tk, i, base, depth):
        while i < len(tk) and tk[i] in ("*", "const", "volatile"):
            if tk[i] == "*":
                base = ("ptr", base)
            i += 1
        if i < len(tk) and tk[i] == "(" and i + 1 < len(tk) and tk[i + 1] == "*":
            # (* ...)(params): find the matching parenthesis, parse what follows first
            d, j = 0, i
            while True:
                d += (tk[j] == "(") - (tk[j] == ")")
                j += 1
                if d == 0:
                    break
            inner = tk[i + 1:j - 1]
            base, k = self._suffix(tk, j, base, depth)
            t, n = self._declarator(inner, 0, base, depth)
            if n != len(inner):
                raise Broken("declarator not understood: " + " ".join(tk))
            return t, k
        return self._suffix(tk, i, base, depth)

    def _suffix(self, tk, i, base, depth):
        if i < len(tk) and tk[i] == "(":
            args = []
            i += 1
            while tk[i] != ")":
                if tk[i] == ",":
                    i += 1
                    continue
                if tk[i] == "...":
                    args.append(("...",))
                    i += 1
                    continue
                a, i = self._type(tk, i, depth)
                args.append(a)
            if args == [("void",)]:
                args = []
            return ("func", base, tuple(args)), i + 1
        if i < len(tk) and tk[i] == "[":
            n = int(tk[i + 1]) if tk[i + 1] != "]" else None
            j = tk.index("]", i) + 1
            base, j = self._suffix(tk, j, base, depth)
            return ("arr", n, base), j
        return base, i


def strip_func(t):
    """Functions as parameters and members are pointers to functions."""
    return t


class Abi:
    def __init__(self):
        self.h = cheader.load()
        self.t = Types(self.h)
        P = self.t.parse
        self.funcs = {n: (P(f["ret"]), tuple(P(t) for _, t in f["params"]) + ((("...",),) if f["variadic"] else ())) for n, f in self.h.funcs.items()}
        self.structs = {n: [(fn, P(ft)) for fn, ft in fs] for n, fs in self.h.structs.items()}
        self.enums = dict(self.h.enums)
        self.typedefs = {n: self.t.name(n) for n in self.h.typedefs if n.startswith("clingo")}

    def struct(self, n):
        """Fields of a structure given by its tag or the name of its type."""
        if n in self.structs:
            return self.structs[n]
        t = self.typedefs.get(n)
        if t and t[0] == "struct" and t[1] in self.structs:
            return self.structs[t[1]]
        return None

    def size_align(self, t):
        k = t[0]
        if k == "bool":
            return 1, 1
        if k == "int":
            return t[2] // 8, t[2] // 8
        if k in ("ptr", "double", "func"):
            return 8, 8
        if k == "float":
            return 4, 4
        if k == "arr":
            s, a = self.size_align(t[2])
            return s * (t[1] or 0), a
        if k == "struct":
            off, al = 0, 1
            fs = self.struct(t[1])
            if fs is None:
                raise Broken("incomplete structure " + t[1])
            for _, f in fs:
                s, a = self.size_align(f)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise Broken("size of %r" % (t,))

    def layout(self, n):
        """[(field, type, offset, size)] and the size of a structure."""
        off, out = 0, []
        for fn, ft in self.struct(n):
            s, a = self.size_align(ft)
            off = (off + a - 1) // a * a
            out.append((fn, ft, off, s))
            off += s
        return out, self.size_align(("struct", n))[0]


@functools.lru_cache(None)
def load():
    return Abi()


def show(t):
    k = t[0]
    if k == "int":
        return ("int%d" if t[1] else "uint%d") % t[2]
    if k == "ptr":
        return show(t[1]) + "*"
    if k == "func":
        return "%s(%s)" % (show(t[1]), ", ".join(show(a) for a in t[2]))
    if k == "struct":
        return t[1]
    if k == "arr":
        return "%s[%s]" % (show(t[2]), "" if t[1] is None else t[1])
    return k


def compatible(a, b, depth=0):
    """Same representation: equal up to void* standing for any pointer, and char for any byte."""
    if a == b or depth > 12:
        return True
    if a[0] == "func" and b[0] == "ptr" and b[1][0] == "func":
        return compatible(a, b[1], depth + 1)
    if b[0] == "func" and a[0] == "ptr" and a[1][0] == "func":
        return compatible(a[1], b, depth + 1)
    if a[0] == "ptr" and b[0] == "ptr":
        if ("void",) in (a[1], b[1]):
            return True
        return compatible(a[1], b[1], depth + 1)
    if a[0] == "func" and b[0] == "func":
        return len(a[2]) == len(b[2]) and compatible(a[1], b[1], depth + 1) and all(compatible(x, y, depth + 1) for x, y in zip(a[2], b[2]))
    if a[0] in ("ptr", "func") and b[0] in ("ptr", "func"):
        return ("ptr", ("void",)) in (a, b)
    if a[0] == "struct" and b[0] == "struct":
        return norm(a[1]) == norm(b[1])
    return False


def norm(n):
    n = n.lstrip("$")
    return n[:-2] if n.endswith("_t") else n
