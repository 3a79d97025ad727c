"""Terms of the C++ analyses: linear arithmetic, addresses, sequences, relations."""
from pyeval import lin, mklin, lin_add, merge_paths, contains_term, free_parts, subst
from summ import walk, okey, okey0

T, F, NULL, ZERO = ("c", True), ("c", False), ("c", None), ("c", 0)


def c(v):
    return ("c", v)


def is_num(t):
    return t[0] == "c" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool)


def is_c(t):
    return t[0] == "c"


def as_int(t):
    if t[0] == "c" and isinstance(t[1], bool):
        return ("c", int(t[1]))
    return t


def mkaddr(t):
    """Address of a symbolic object."""
    if t[0] == "deref":
        return t[1]
    if t[0] == "idx":
        return padd(t[1], t[2])
    return ("addr", t)


def mkderef(p):
    if p[0] == "addr":
        return p[1]
    if p[0] == "padd":
        return ("idx", p[1], p[2])
    if p[0] == "data" and p[1][0] == "seq":
        return seq_get(p[1], ZERO)
    return ("deref", p)


def padd(p, k):
    if k == ZERO:
        return p
    if p[0] == "padd":
        return padd(p[1], lin_add(p[2], k))
    if p[0] == "ptr":
        root, path = p[1], p[2]
        if path and path[-1][0] == "i":
            return ("ptr", root, path[:-1] + (("i", lin_add(path[-1][1], k)),))
        return ("padd", p, k)
    return ("padd", p, k)


def pbase(p):
    if p[0] == "padd":
        return p[1], p[2]
    if p[0] == "ptr" and p[2] and p[2][-1][0] == "i":
        return ("ptr", p[1], p[2][:-1] + (("i", ZERO),)), p[2][-1][1]
    return p, ZERO


def is_ptr(t):
    return t[0] in ("ptr", "addr", "padd", "data", "arr")


# ---------------------------------------------------------------- sequences

def seq(segs):
    out = []
    for s in segs:
        if s[0] == "m":
            if s[1] == ZERO:
                continue
            n, paths, var = s[1], s[2], s[3]
            if len(paths) == 1 and not paths[0][0] and len(paths[0][1]) == 1 and paths[0][1][0][0] == "e":
                el = paths[0][1][0][1]
                if not contains_term(el, var):
                    s = ("fill", n, el)
                elif el[0] == "idx" and not contains_term(el[1], var):
                    off = lin_add(el[2], var, -1)
                    if not contains_term(off, var):
                        s = ("slice", padd(el[1], off), n)
                elif el[0] == "deref" and not contains_term(el[1], var):
                    s = ("fill", n, el)
        if s[0] == "slice":
            p, n = s[1], s[2]
            if n == ZERO:
                continue
            if p[0] == "data" and n == ("len", p[1]):
                s = ("x", p[1])
            elif n == ("c", 1):
                s = ("e", mkderef(p))
            elif out and out[-1][0] == "slice" and padd(out[-1][1], out[-1][2]) == p:
                s = ("slice", out[-1][1], lin_add(out[-1][2], n))
                out.pop()
        if s[0] == "x":
            t = s[1]
            if t[0] == "seq":
                out.extend(t[1])
                continue
            if t == ("c", ""):
                continue
        if s[0] == "fill" and s[1][0] == "c" and 0 <= s[1][1] <= 8:
            out.extend([("e", s[2])] * s[1][1])
            continue
        out.append(s)
    if len(out) == 1 and out[0][0] == "x":
        return out[0][1]
    return ("seq", tuple(out))


def segs(v):
    if v[0] == "seq":
        return v[1]
    return (("x", v),)


def mklen(v):
    if v[0] == "c" and isinstance(v[1], str):
        return ("c", len(v[1]))
    if v[0] != "seq":
        return ("len", v)
    n = ZERO
    for s in v[1]:
        n = lin_add(n, seg_len(s))
    return n


def seg_len(s):
    if s[0] == "e":
        return ("c", 1)
    if s[0] == "x":
        return mklen(s[1])
    if s[0] == "slice":
        return s[2]
    if s[0] == "fill":
        return s[1]
    if s[0] == "m":
        if s[2] and all(len(p[1]) == 1 and p[1][0][0] == "e" for p in s[2]):
            return s[1]
        return ("len", ("seq", (s,)))
    return ("len", ("seq", (s,)))


def seq_get(v, i):
    if v[0] == "c" and isinstance(v[1], str):
        if i[0] == "c" and isinstance(i[1], int) and 0 <= i[1] <= len(v[1]):
            return ("c", ord(v[1][i[1]]) if i[1] < len(v[1]) else 0)
        return ("idx", v, i)
    if v[0] != "seq":
        return ("idx", ("data", v), i) if i != ZERO else ("deref", ("data", v))
    off = ZERO
    for s in v[1]:
        k = lin_add(i, off, -1)
        if s[0] == "e":
            if k == ZERO:
                return s[1]
            off = lin_add(off, ("c", 1))
            continue
        rest_known = len(v[1]) == 1
        if s[0] == "slice" and (rest_known or _within(k, s[2])):
            return mkderef(padd(s[1], k))
        if s[0] == "x" and (rest_known or _within(k, mklen(s[1]))):
            return seq_get(s[1], k)
        if s[0] == "fill" and (rest_known or _within(k, s[1])):
            return s[2]
        if s[0] == "m" and (rest_known or _within(k, s[1])) and len(s[2]) == 1 and not s[2][0][0] and len(s[2][0][1]) == 1:
            return subst(s[2][0][1][0][1], s[3], k)
        off = lin_add(off, seg_len(s))
    return ("idx", ("data", v), i) if i != ZERO else ("deref", ("data", v))


def _within(k, n):
    return k[0] == "v" or (k[0] == "c" and n[0] == "c" and k[1] < n[1])


def seq_set(v, i, x):
    if v[0] == "seq" and i[0] == "c":
        out, n = list(v[1]), i[1]
        for j, s in enumerate(out):
            if s[0] != "e":
                break
            if j == n:
                out[j] = ("e", x)
                return seq(out)
    if v[0] == "updseq" and v[2] and v[2][-1][0] == i:
        return ("updseq", v[1], v[2][:-1] + ((i, x),))
    if v[0] == "updseq":
        return ("updseq", v[1], v[2] + ((i, x),))
    return ("updseq", v, ((i, x),))


def cat(*vs):
    """Concatenation of strings."""
    out = []
    for v in vs:
        parts = v[1] if v[0] == "cat" else (v,)
        for p in parts:
            if p[0] == "c" and p[1] == "":
                continue
            if out and p[0] == "c" and isinstance(p[1], str) and out[-1][0] == "c" and isinstance(out[-1][1], str):
                out[-1] = ("c", out[-1][1] + p[1])
            else:
                out.append(p)
    if not out:
        return ("c", "")
    return out[0] if len(out) == 1 else ("cat", tuple(out))


# ---------------------------------------------------------------- relations

def lnot(v):
    if v[0] == "c":
        return ("c", not v[1])
    if v[0] == "not":
        return v[1]
    return ("not", v)


def truth(v):
    """Value as a boolean term."""
    k = v[0]
    if k == "c":
        return ("c", bool(v[1]) if not isinstance(v[1], str) else True)
    if k in ("truth", "not", "eq", "le", "t", "isinst", "streq"):
        return v
    if k in ("ptr", "addr", "fun", "clo", "rec", "cb", "data", "arr", "padd"):
        return T
    if k == "len":
        return nonempty(v[1])
    if k == "lin":
        return lnot(rel("==", v, ZERO))
    if k == "ite":
        return ("ite", v[1], truth(v[2]), truth(v[3]))
    return ("truth", v)


def nonempty(s):
    if s[0] == "seq":
        if any(x[0] == "e" for x in s[1]):
            return T
        if not s[1]:
            return F
        if len(s[1]) == 1:
            x = s[1][0]
            if x[0] == "x":
                return nonempty(x[1])
            if x[0] in ("slice", "fill"):
                return truth(x[2] if x[0] == "slice" else x[1])
    if s[0] == "c":
        return ("c", bool(s[1]))
    return ("truth", ("len", s))


def linrel(l):
    """Term for l <= 0."""
    d, k = lin(l)
    if not d:
        return ("c", k <= 0)
    items = sorted(d.items(), key=okey0)
    if len(items) == 1:
        t, co = items[0]
        if t[0] in ("len", "u"):            # quantities known to be non-negative
            if co > 0 and k == 0:
                return lnot(truth(t))
            if co < 0 and k == 1:
                return truth(t)
            if co > 0 and k > 0:
                return F
            if co < 0 and k <= 0:
                return T
    if items[0][1] < 0:
        neg = {t: -co for t, co in d.items()}
        return ("not", ("le", tuple(sorted(neg.items(), key=okey0)), -k + 1))
    return ("le", tuple(items), k)


def rel(op, a, b, unsigned=False):
    if a[0] == "ite" and a != b:
        return ("ite", a[1], rel(op, a[2], b, unsigned), rel(op, a[3], b, unsigned))
    if b[0] == "ite" and a != b:
        return ("ite", b[1], rel(op, a, b[2], unsigned), rel(op, a, b[3], unsigned))
    if op in (">", ">="):
        return rel("<" if op == ">" else "<=", b, a, unsigned)
    if op == "!=":
        return lnot(rel("==", a, b, unsigned))
    if a[0] in ("ptr", "padd", "addr", "data", "arr") or b[0] in ("ptr", "padd", "addr", "data", "arr"):
        (pa, ka), (pb, kb) = pbase(a), pbase(b)
        if pa == pb:
            return rel(op, ka, kb, unsigned)
        if op == "==":
            if pa == NULL or pb == NULL:
                return F
            if pa[0] == "ptr" or pb[0] == "ptr":
                return F
            return _eq(a, b)
        d = ("pdiff", a, b)
        return linrel(lin_add(d, ("c", 1))) if op == "<" else linrel(d)
    bools = ("truth", "not", "eq", "le", "t", "isinst", "streq")
    if op == "==":
        if a == b:
            return T
        if a[0] in bools or b[0] in bools:
            for x, y in ((a, b), (b, a)):
                if y[0] == "c" and isinstance(y[1], (bool, int)):
                    if y[1] in (0, 1):
                        return x if y[1] else lnot(x)
                    return F
            return ("eq",) + tuple(sorted((a, b), key=okey))
        if a == NULL or b == NULL:
            return lnot(truth(b if a == NULL else a))
        if is_c(a) and is_c(b):
            return ("c", a[1] == b[1])
        for x, y in ((a, b), (b, a)):
            # a single bit is set exactly if masking leaves it
            if x[0] == "&" and is_c(y) and y in x[1:] and isinstance(y[1], int) and y[1] > 0 and y[1] & (y[1] - 1) == 0:
                return truth(x)
        if a[0] in ("fun", "clo") and b[0] in ("fun", "clo"):
            return ("c", a == b)
        if a[0] == "seq" and b[0] == "seq" and a == b:
            return T
        d = lin_add(a, b, -1) if not (is_c(a) and isinstance(a[1], str) or is_c(b) and isinstance(b[1], str)) else None
        if d is None:
            return _eq(a, b)
        dd, k = lin(d)
        if not dd:
            return ("c", k == 0)
        items = sorted(dd.items(), key=okey0)
        if len(items) == 1 and abs(items[0][1]) == 1:
            t, v = items[0][0], ("c", -k * items[0][1])
            return lnot(truth(t)) if v == ZERO else _eq(t, v)
        if len(items) == 2 and k == 0 and {items[0][1], items[1][1]} == {1, -1}:
            return _eq(items[0][0], items[1][0])
        if items[0][1] < 0:
            d = mklin({t: -co for t, co in dd.items()}, -k)
        return _eq(d, ZERO)
    a, b = as_int(a), as_int(b)
    if is_c(a) and is_c(b):
        try:
            return ("c", a[1] < b[1] if op == "<" else a[1] <= b[1])
        except TypeError:
            pass
    if unsigned or a[0] == "v" and is_c(b) or b[0] == "v" and is_c(a):       # loop positions are never negative
        if op == "<" and a == ZERO:
            return truth(b)
        if op == "<=" and b == ZERO:
            return lnot(truth(a))
        if op == "<" and b == ("c", 1):
            return lnot(truth(a))
        if op == "<=" and a == ("c", 1):
            return truth(b)
        if op == "<" and b == ZERO:
            return F
        if op == "<=" and a == ZERO:
            return T
    if isinstance(a[1], str) and a[0] == "c" or isinstance(b[1], str) and b[0] == "c" or a[0] in ("rec", "seq") or b[0] in ("rec", "seq"):
        return ("t", ("rel", op, a, b))
    d = lin_add(a, b, -1)
    return linrel(lin_add(d, ("c", 1)) if op == "<" else d)


def _eq(a, b):
    if is_c(a) and not is_c(b):
        a, b = b, a
    if not is_c(b):
        a, b = sorted((a, b), key=okey)
    return ("eq", a, b)


def atom_of(v):
    """boolean term -> (atom, polarity) or a constant"""
    pol = True
    while True:
        k = v[0]
        if k == "not":
            v, pol = v[1], not pol
            continue
        if k == "truth":
            v = v[1]
            if v[0] == "len":
                v = v[1]
            return ("t", v), pol
        if k == "t":
            if v[1][0] == "len":
                return ("t", v[1][1]), pol
            return v, pol
        return v, pol


def var_depth(t):
    return max([x[1] for x in walk(t) if len(x) == 2 and x[0] == "v" and isinstance(x[1], int)] + [-1])


# ------------------------------------------------------------------ rendering

def show(t):
    """Readable rendering of a term."""
    if not isinstance(t, tuple):
        return repr(t)
    if not t:
        return "()"
    k = t[0]
    if not isinstance(k, str):
        return "(" + ", ".join(show(x) for x in t) + ")"
    if k == "c":
        return "nullptr" if t[1] is None else repr(t[1]).lower() if isinstance(t[1], bool) else repr(t[1])
    if k == "p":
        return f"arg{t[1]}"
    if k == "v":
        return f"i{t[1]}"
    if k == "this":
        return "this"
    if k in ("t", "truth") and len(t) == 2:
        return show(t[1])
    if k == "not":
        return "!" + show(t[1])
    if k == "eq":
        return f"{show(t[1])} == {show(t[2])}"
    if k == "fld":
        return f"{show(t[1])}.{t[2]}"
    if k == "deref":
        return f"*{show(t[1])}"
    if k == "addr":
        return f"&{show(t[1])}"
    if k == "idx":
        return f"{show(t[1])}[{show(t[2])}]"
    if k == "padd":
        return f"{show(t[1])}+{show(t[2])}"
    if k == "lin" and len(t) == 3:
        return "(" + "+".join((f"{c}*" if c != 1 else "") + show(x) for x, c in t[1]) + (f"{t[2]:+d}" if t[2] else "") + ")"
    if k == "le":
        return "(" + "+".join((f"{c}*" if c != 1 else "") + show(x) for x, c in t[1]) + f"{t[2]:+d} <= 0)"
    if k in ("ret", "out") and len(t) > 1:
        a = [x for x in t[2:] if isinstance(x, tuple)]
        return ("result of " if k == "ret" else f"output {t[-1]} of ") + f"{t[1]}({', '.join(show(x) for x in a)})"
    if k == "call":
        return f"{t[1]}({', '.join(show(x) for x in t[2:])})"
    if k == "ucall" and len(t) > 1:
        return f"user call {show(t[1])}({', '.join(show(x) for x in t[2:] if isinstance(x, tuple))})"
    if k == "rec" and len(t) == 3:
        return f"{t[1]}{{{', '.join(str(a) + ': ' + show(b) for a, b in t[2])}}}"
    if k == "ite":
        return f"({show(t[1])} ? {show(t[2])} : {show(t[3])})"
    if k == "e" and len(t) == 2:
        return show(t[1])
    if k == "seq":
        return "[" + ", ".join(show(x) for x in t[1]) + "]"
    return k + "(" + ", ".join(show(x) for x in t[1:]) + ")"
