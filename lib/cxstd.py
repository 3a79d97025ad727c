"""Models of the parts of the standard library used by the bindings."""
from cxterm import *
from summ import okey
from cxprog import norm_type
import cxeval
from cxeval import model, Throw, Prune, Unsupported


def rd(I, a):
    return I.read(I.loc(a))


def argv(I, d, args, i):
    """Value of an argument, whether passed by value or by reference."""
    if d["params"][i].rstrip().endswith("&"):
        return rd(I, args[i])
    return args[i]


VOID = ("c", "void")


def container_value(I, p, q):
    """Contents of the range [p, q)"""
    p, q = I.force(p), I.force(q)
    (pb, pk), (qb, qk) = pbase(p), pbase(q)
    if pb == qb:
        return slice_of(I, pb, pk, lin_add(qk, pk, -1))
    return ("seq", (("slice", p, ("pdiff", q, p)),))


def slice_of(I, base, off, n):
    if base[0] == "ptr" and base[2] and base[2][-1][0] == "i":
        v = I.read((base[1], base[2][:-1]))
        if off == ZERO and n == mklen(v):
            return v
        if v[0] == "seq" and all(s[0] == "e" for s in v[1]) and off[0] == "c" and n[0] == "c":
            return seq(v[1][off[1]:off[1] + n[1]])
        return seq((("slice", padd(I.mkarr(v) if I.mkarr(v)[0] != "arr" else ("data", v), off), n),))
    return seq((("slice", padd(base, off), n),))


# ---------------------------------------------------------------- vector

@model("std::vector::(ctor)", "std::initializer_list::(ctor)")
def vec_ctor(I, d, this, args, n):
    ps = [norm_type(p) for p in d["params"]]
    ps = [p for p in ps if "std::allocator" not in p or p.startswith("std::vector") or p.startswith("std::initializer_list")]
    loc = I.loc(this)
    if not ps:
        v = ("seq", ())
    elif ps[0].startswith("std::vector") or ps[0].startswith("std::initializer_list"):
        v = argv(I, d, args, 0)
        if d["kind"] == "movector" and not I.loc(args[0])[0][0] == "S":
            I.write(I.loc(args[0]), ("seq", ()))
    elif len(ps) == 1:
        v = seq((("fill", as_int(args[0]), ZERO),))
    elif ps[0] in ("unsigned long", "int", "unsigned int", "size_t"):
        v = seq((("fill", as_int(args[0]), argv(I, d, args, 1)),))
    else:
        v = container_value(I, args[0], args[1])
    I.write(loc, v)
    return VOID


@model("std::vector::operator=")
def vec_assign(I, d, this, args, n):
    v = argv(I, d, args, 0)
    I.write(I.loc(this), v)
    if d["kind"] == "moveassign" and I.loc(args[0]) != I.loc(this) and I.loc(args[0])[0][0] == "L":
        I.write(I.loc(args[0]), ("seq", ()))
    return this


def begin_ptr(I, this):
    l = I.loc(this)
    if l[0][0] == "S":
        v = I.read(l)
        if v == l[0][1]:
            return ("data", v)
        return I.mkarr(v) if v[0] == "seq" and I.mkarr(v)[0] != "arr" else ("data", v)
    return ("ptr", l[0], l[1] + (("i", ZERO),))


@model("std::vector::data", "std::vector::begin", "std::vector::cbegin", "std::initializer_list::begin", "std::array::data", "std::array::begin")
def vec_data(I, d, this, args, n):
    return begin_ptr(I, this)


@model("std::vector::end", "std::vector::cend", "std::initializer_list::end")
def vec_end(I, d, this, args, n):
    return padd(begin_ptr(I, this), mklen(rd(I, this)))


@model("std::begin", "std::cbegin")
def std_begin(I, d, this, args, n):
    return begin_ptr(I, args[0])


@model("std::end", "std::cend")
def std_end(I, d, this, args, n):
    return padd(begin_ptr(I, args[0]), mklen(rd(I, args[0])))


@model("std::vector::size", "std::initializer_list::size", "std::string::size", "std::string::length", "std::size")
def vec_size(I, d, this, args, n):
    return mklen(rd(I, this if this else args[0]))


@model("std::vector::empty", "std::string::empty")
def vec_empty(I, d, this, args, n):
    return lnot(nonempty(rd(I, this)))


@model("std::vector::operator[]", "std::array::operator[]")
def vec_index(I, d, this, args, n):
    return padd(begin_ptr(I, this), as_int(args[0]))


@model("std::vector::at")
def vec_at(I, d, this, args, n):
    if not I.decide(rel("<", args[0], mklen(rd(I, this)), True)):
        raise Throw("std::out_of_range", ("c", "at"))
    return padd(begin_ptr(I, this), as_int(args[0]))


@model("std::vector::front")
def vec_front(I, d, this, args, n):
    return begin_ptr(I, this)


@model("std::vector::back")
def vec_back(I, d, this, args, n):
    v = rd(I, this)
    if v[0] == "seq" and v[1] and v[1][-1][0] == "e":
        l = I.loc(this)
        return padd(begin_ptr(I, this), lin_add(mklen(v), c(-1)))
    return padd(begin_ptr(I, this), lin_add(mklen(v), c(-1)))


def element(I, ptype, a):
    """Value of a new element of a container that is copied or moved from an argument."""
    t = norm_type(ptype)
    r = I.P.recname.get(t)
    if r and r.get("ours") and ptype.rstrip().endswith("&"):
        kind = "movector" if ptype.rstrip().endswith("&&") else "copyctor"
        for m in I.P.methods(r["id"]):
            if m["kind"] == kind and m["id"] in I.P.fn:
                p = I.new_root(I.fresh(r["id"]))
                I.call_any(m["id"], p, [a], {})
                return I.read(I.loc(p))
    return rd(I, a) if ptype.rstrip().endswith("&") else a


def for_each(I, p, q, fn):
    """Executes fn for the address of each element of the range [p, q); it ends early if the result of fn is true."""
    p, q = I.force(p), I.force(q)
    if not is_ptr(p) and p[0] not in ("padd", "data", "arr", "fld", "p"):
        raise Unsupported("algorithm on " + p[0])
    k = I.loc(I.new_root(p))
    res = []

    def body():
        return ("break",) if fn(I.read(k)) is True else None

    def inc():
        I.write(k, padd(I.force(I.read(k)), c(1)))
    I.scope(lambda: I.loop(lambda: rel("!=", I.force(I.read(k)), q), body, inc, {"c": {"k": "x"}}))
    return I.read(k)


def functor(I, f, arity=1):
    """Function object of this code as a function of addresses."""
    f = I.closure_of(f) or f
    if f[0] not in ("clo", "fun") or f[1] not in I.P.fn:
        raise Unsupported("algorithm with other function objects")

    def call(*ps):
        d = I.P.decl[f[1]]
        return I.call_fn(f[1], None, [x if t.rstrip().endswith("&") else rd(I, x) for t, x in zip(d["params"], ps)], clo=f if f[0] == "clo" else None)
    return call


def method(I, obj, name, nparams, ptype=None):
    r = None
    v = I.read(I.loc(obj))
    if v[0] == "rec":
        r = I.P.recname.get(v[1])
    for m in I.P.methods(r["id"]) if r else ():
        if m["short"].split("::")[-1] == name and len(m["params"]) == nparams and (ptype is None or norm_type(m["params"][0]) == ptype):
            return m["id"]
    raise Unsupported("no " + name)


def append_each(I, p, q, out, f=None, move=False):
    """Appends (the images of) the elements of [p, q) through a back inserter."""
    cont = out[1]
    v = I.read(I.loc(cont))
    if v[0] in ("seq", "resized") or v[0] != "rec":
        if f is None:
            I.write(I.loc(cont), seq(segs(v) + segs(container_value(I, p, q))))
            return out

        def fn(e):
            l = I.loc(cont)
            I.write(l, seq(segs(I.read(l)) + (("e", f(e)),)))
    else:
        m = method(I, cont, "push_back", 1)
        isref = I.P.decl[m]["params"][0].rstrip().endswith("&")

        def fn(e):
            if f is not None:
                x = f(e)
                I.call_any(m, cont, [I.new_root(x) if isref else x], {})
            else:
                I.call_any(m, cont, [e if isref else rd(I, e)], {})
    for_each(I, p, q, lambda e: fn(e) and None)
    return out


@model("std::vector::push_back")
def vec_push(I, d, this, args, n):
    v = element(I, d["params"][0], args[0])
    l = I.loc(this)
    I.write(l, seq(segs(rd(I, this)) + (("e", v),)))
    return VOID


@model("std::vector::emplace_back")
def vec_emplace(I, d, this, args, n):
    r = I.P.rec.get(d["record"])
    elem = (r.get("targs") or ["?"])[0] if r else "?"
    v = build(I, elem, d, args)
    l = I.loc(this)
    old = rd(I, this)
    I.write(l, seq(segs(old) + (("e", v),)))
    return padd(begin_ptr(I, this), mklen(old))


@model("std::vector::pop_back")
def vec_pop(I, d, this, args, n):
    v = rd(I, this)
    if v[0] == "seq" and v[1] and v[1][-1][0] == "e":
        I.write(I.loc(this), seq(v[1][:-1]))
    else:
        I.write(I.loc(this), slice_of(I, begin_ptr(I, this), ZERO, lin_add(mklen(v), c(-1))))
    return VOID


@model("std::vector::clear", "std::string::clear")
def vec_clear(I, d, this, args, n):
    I.write(I.loc(this), ("seq", ()) if "vector" in d["short"] else c(""))
    return VOID


@model("std::vector::reserve", "std::string::reserve")
def vec_reserve(I, d, this, args, n):
    return VOID


@model("std::vector::resize")
def vec_resize(I, d, this, args, n):
    v = rd(I, this)
    k = as_int(args[0])
    x = argv(I, d, args, 1) if len(args) > 1 else ZERO
    if v == ("seq", ()):
        I.write(I.loc(this), seq((("fill", k, x),)) if k[0] != "c" or k[1] > 8 else seq((("e", x),) * k[1]))
    elif mklen(v) != k:
        I.write(I.loc(this), ("resized", v, k))
    return VOID


@model("std::vector::swap", "std::string::swap")
def vec_swap(I, d, this, args, n):
    return swap(I, this, args[0])


@model("std::vector::insert")
def vec_insert(I, d, this, args, n):
    v = rd(I, this)
    pos = I.force(args[0])
    b, k = pbase(pos)
    if len(args) == 3:
        new = segs(container_value(I, args[1], args[2]))
    elif norm_type(d["params"][1]).startswith("std::initializer_list"):
        new = segs(argv(I, d, args, 1))
    else:
        new = (("e", element(I, d["params"][1], args[1])),)
    if k == mklen(v):
        r = seq(segs(v) + new)
    elif k == ZERO:
        r = seq(new + segs(v))
    else:
        r = ("insert", v, k, seq(new))
    I.write(I.loc(this), r)
    return pos


@model("std::vector::assign")
def vec_assign2(I, d, this, args, n):
    I.write(I.loc(this), container_value(I, args[0], args[1]))
    return VOID


def build(I, tname, d, args):
    """Constructs an object of type tname from the arguments of an emplace operation."""
    t = norm_type(tname)
    r = I.P.recname.get(t) or I.P.recname.get(tname)
    vals = [argv(I, d, args, i) for i in range(len(args))]
    if r is None:
        return vals[0] if vals else ZERO
    if len(vals) == 1 and d["params"] and norm_type(d["params"][0]) == t:
        return vals[0]
    if r["name"].startswith("std::basic_string"):
        return str_value(I, d, args)
    if r["name"].startswith("std::pair"):
        return pair_value(I, r, args)
    if r.get("ours"):
        cands = [m for m in I.P.methods(r["id"]) if m["kind"] in ("ctor", "copyctor", "movector") and len(m["params"]) == len(args)]
        best = None
        for m in cands:
            score = 0
            for p, q in zip(m["params"], d["params"]):
                a, b = norm_type(p), norm_type(q)
                score += 3 if a == b else (1 if (a in cxeval.SCALARS) == (b in cxeval.SCALARS) else 0)
            if best is None or score > best[0]:
                best = (score, m)
        if best:
            m = best[1]
            p = I.new_root(I.fresh(r["id"]))
            a2 = []
            for i, (pt, a) in enumerate(zip(m["params"], args)):
                isref = d["params"][i].rstrip().endswith("&")
                if pt.rstrip().endswith("&"):
                    a2.append(a if isref else I.new_root(a))
                else:
                    a2.append(rd(I, a) if isref else a)
            I.call_any(m["id"], p, a2, {})
            return I.read(I.loc(p))
        if not cands and vals:
            fs = I.P.fields(r["id"])
            if I.P.newtype(r["id"]):
                return vals[0]
            return ("rec", r["name"], tuple((f["name"], v) for f, v in zip(fs, vals)))
        if not vals:
            return I.zero_of(r["id"], t)
    if len(vals) == 1:
        return vals[0]
    return ("new", t) + tuple(I.reify(v) for v in vals)


# ---------------------------------------------------------------- iterators of vectors are pointers

@model("std::iter::operator*", "std::iter::operator->")
def it_deref(I, d, this, args, n):
    return rd(I, this)


@model("std::iter::operator++", "std::iter::operator--")
def it_inc(I, d, this, args, n):
    l = I.loc(this)
    v = I.force(I.read(l))
    w = padd(v, c(1 if d["short"].endswith("++") else -1))
    I.write(l, w)
    return v if args else this


@model("std::iter::operator-", "std::iter::operator+")
def it_arith(I, d, this, args, n):
    v = I.force(rd(I, this))
    k = argv(I, d, args, 0)
    s = 1 if d["short"].endswith("+") else -1
    if is_ptr(k):
        return I.binop("-", v, k, {"lt": "x*", "t": "long"})
    return padd(v, as_int(k) if s > 0 else I.scale(as_int(k), -1))


@model("std::iter::(ctor)")
def it_ctor(I, d, this, args, n):
    I.write(I.loc(this), argv(I, d, args, 0) if args else NULL)
    return VOID


@model("std::iter::base")
def it_base(I, d, this, args, n):
    return this


@model("std::operator!=", "std::operator==", "std::operator<")
def std_rel(I, d, this, args, n):
    op = d["short"].split("operator")[-1]
    return rel(op, I.force(argv(I, d, args, 0)), I.force(argv(I, d, args, 1)))


@model("std::operator-")
def std_minus(I, d, this, args, n):
    return I.binop("-", argv(I, d, args, 0), argv(I, d, args, 1), {"lt": "x*", "t": "long"})


@model("std::distance")
def std_distance(I, d, this, args, n):
    a, b = I.force(args[0]), I.force(args[1])
    if a[0] == "rec":
        return ("distance", I.reify(a), I.reify(b))
    return I.binop("-", b, a, {"lt": "x*", "t": "long"})


@model("std::advance")
def std_advance(I, d, this, args, n):
    l = I.loc(args[0])
    I.write(l, padd(I.force(I.read(l)), as_int(args[1])))
    return VOID


@model("std::next")
def std_next(I, d, this, args, n):
    return padd(I.force(args[0]), as_int(args[1]) if len(args) > 1 else c(1))


@model("std::equal")
def std_equal(I, d, this, args, n):
    ps = [I.force(a) for a in args]
    return ("truth", ("equal",) + tuple(I.reify(a) for a in ps[:2]) + tuple(I.reify(a) if a[0] not in ("fun", "clo") else ("fun",) for a in ps[2:]))


@model("std::copy")
def std_copy(I, d, this, args, n):
    out = I.force(args[2])
    if out[0] == "backins":
        return append_each(I, args[0], args[1], out)
    I.write(I.loc(out), container_value(I, args[0], args[1]))
    return out


@model("std::move")
def std_move_range(I, d, this, args, n):
    if len(args) != 3:
        return args[0]
    out = I.force(args[2])
    if out[0] != "backins":
        raise Unsupported("std::move")
    return append_each(I, args[0], args[1], out, move=True)


@model("std::back_inserter")
def back_inserter(I, d, this, args, n):
    return ("backins", args[0])


@model("std::transform")
def std_transform(I, d, this, args, n):
    return map_range(I, args[0], args[1], args[2], args[3])


def map_range(I, p, q, out, f):
    out = I.force(out)
    call = functor(I, f)
    if out[0] == "backins":
        return append_each(I, p, q, out, call)
    raise Unsupported("std::transform")


@model("std::for_each")
def std_for_each(I, d, this, args, n):
    call = functor(I, args[2])
    for_each(I, args[0], args[1], lambda e: call(e) and None)
    return args[2]


@model("std::any_of", "std::all_of", "std::none_of")
def std_any_of(I, d, this, args, n):
    call = functor(I, args[2])
    every = d["short"] == "std::all_of"
    found = I.loc(I.new_root(c(0)))

    def fn(e):
        if I.decide(truth(call(e))) != every:
            I.write(found, c(1))
            return True
    for_each(I, args[0], args[1], fn)
    v = I.read(found)
    return v if d["short"] == "std::any_of" else lnot(v)


@model("std::find_if", "std::find_if_not")
def std_find_if(I, d, this, args, n):
    call = functor(I, args[2])
    return for_each(I, args[0], args[1], lambda e: I.decide(truth(call(e))) == (d["short"] == "std::find_if"))


@model("std::swap")
def std_swap(I, d, this, args, n):
    return swap(I, args[0], args[1])


def swap(I, a, b):
    la, lb = I.loc(a), I.loc(b)
    x, y = I.read(la), I.read(lb)
    if la != lb:
        I.write(la, y)
        I.write(lb, x)
    return VOID


@model("std::exchange")
def std_exchange(I, d, this, args, n):
    l = I.loc(args[0])
    v = I.read(l)
    I.write(l, argv(I, d, args, 1))
    return v


@model("std::max", "std::min")
def std_max(I, d, this, args, n):
    a, b = I.force(rd(I, args[0])), I.force(rd(I, args[1]))
    mx = d["short"].endswith("max")
    if is_num(as_int(a)) and is_num(as_int(b)):
        return I.new_root(a if (a[1] >= b[1]) == mx else b)
    return I.new_root(("max" if mx else "min",) + tuple(sorted((I.reify(a), I.reify(b)), key=okey)))


@model("std::numeric_limits::max", "std::numeric_limits::min")
def limits(I, d, this, args, n):
    return ("limit", d["short"].split("::")[-1], norm_type(d["ret"]))


@model("std::addressof")
def addressof(I, d, this, args, n):
    return args[0]


# ---------------------------------------------------------------- strings

def cstr(I, p):
    """Contents of the string a character pointer points to."""
    p = I.force(p)
    if p[0] == "ptr" and p[2] and p[2][-1][0] == "i":
        v = I.read((p[1], p[2][:-1]))
        if v[0] == "seq" and len(v[1]) == 1 and v[1][0][0] == "slice" and p[2][-1][1] == ZERO:
            return v[1][0][1]
        if p[2][-1][1] == ZERO:
            return v
    if p[0] == "data":
        return p[1]
    return p


def str_value(I, d, args):
    ps = [norm_type(p) for p in d["params"]]
    n = len([p for p in ps if p != "std::allocator<char>"])
    if n == 0:
        return c("")
    a0 = argv(I, d, args, 0)
    if "basic_string" in ps[0]:
        if n > 1:
            return ("substr", a0) + tuple(args[1:n])
        return a0
    if n == 1:
        return cstr(I, a0)
    if ps[0] == "unsigned long":
        return ("strfill", args[0], args[1])
    if ps[0] == "char*" and ps[1] == "unsigned long":
        s = cstr(I, a0)
        k = args[1]
        if k == ("strlen", s) or s[0] == "c" and k == c(len(s[1])):
            return s
        b, off = pbase(I.force(args[0]))
        if b[0] == "data" or b[0] == "ptr" and b[2] and b[2][-1][0] == "i":
            return slice_of(I, b, off, k)
        return ("substr", s, ZERO, k)
    if n == 2:
        if is_ptr(args[1]) or ps[0] == ps[1]:
            p, q = I.force(args[0]), I.force(args[1])
            v = container_value(I, p, q)
            return v
    return ("substr", cstr(I, a0)) + tuple(args[1:n])


@model("std::string::(ctor)")
def str_ctor(I, d, this, args, n):
    v = str_value(I, d, args)
    I.write(I.loc(this), v)
    if d["kind"] == "movector" and I.loc(args[0])[0][0] == "L":
        I.write(I.loc(args[0]), c(""))
    return VOID


@model("std::string::operator=", "std::string::assign")
def str_assign(I, d, this, args, n):
    a = argv(I, d, args, 0)
    I.write(I.loc(this), a if "basic_string" in d["params"][0] else cstr(I, a))
    return this


@model("std::string::operator+=", "std::string::append", "std::string::push_back")
def str_append(I, d, this, args, n):
    a = argv(I, d, args, 0)
    if norm_type(d["params"][0]) == "char":
        a = c(chr(a[1])) if a[0] == "c" and isinstance(a[1], int) else ("chr", a)
    elif "basic_string" not in d["params"][0]:
        a = cstr(I, a)
    l = I.loc(this)
    I.write(l, cat(I.read(l), a))
    return this


@model("std::operator+")
def str_plus(I, d, this, args, n):
    if "basic_string" not in d["params"][0] + d["params"][1]:
        return I.binop("+", argv(I, d, args, 0), argv(I, d, args, 1), {"lt": "x*", "t": "long"})
    vs = []
    for i, p in enumerate(d["params"]):
        a = argv(I, d, args, i)
        if norm_type(p) == "char":
            a = c(chr(a[1])) if a[0] == "c" else ("chr", a)
        vs.append(a if "basic_string" in p else cstr(I, a) if "*" in p else a)
    return cat(*vs)


@model("std::string::c_str", "std::string::data")
def str_cstr(I, d, this, args, n):
    v = rd(I, this)
    if v[0] == "c" or v[0] == "cat":
        return v
    return ("cstr", I.reify(v)) if False else I.reify(v)


@model("std::to_string")
def to_string(I, d, this, args, n):
    return ("tostr", I.reify(args[0]))


@model("strcmp", "std::strcmp")
def strcmp(I, d, this, args, n):
    a, b = cstr(I, args[0]), cstr(I, args[1])
    if a[0] == "c" and b[0] == "c":
        return c((a[1] > b[1]) - (a[1] < b[1]))
    a, b = I.reify(a), I.reify(b)
    return ("strcmp", a, b)


@model("strncmp", "std::strncmp")
def strncmp(I, d, this, args, n):
    a, b = cstr(I, args[0]), cstr(I, args[1])
    k = args[2]
    if a[0] == "c" and b[0] == "c" and k[0] == "c":
        x, y = a[1][:k[1]], b[1][:k[1]]
        return c((x > y) - (x < y))
    return ("strncmp", I.reify(a), I.reify(b), I.reify(k))


@model("strlen", "std::strlen")
def strlen(I, d, this, args, n):
    s = cstr(I, args[0])
    return c(len(s[1])) if s[0] == "c" else ("strlen", I.reify(s))


# ---------------------------------------------------------------- streams

@model("std::basic_ostringstream::(ctor)", "std::basic_stringstream::(ctor)")
def oss_ctor(I, d, this, args, n):
    I.write(I.loc(this), ("rec", "std::oss", (("s", c("")),)))
    return VOID


@model("std::basic_ostringstream::str", "std::basic_stringstream::str")
def oss_str(I, d, this, args, n):
    v = rd(I, this)
    return v[2][0][1] if v[0] == "rec" else ("str", v)


def stream_out(I, stream, v):
    l = I.loc(stream)
    cur = I.read(l)
    if cur[0] == "rec" and cur[1] == "std::oss":
        I.write(l, ("rec", "std::oss", (("s", cat(cur[2][0][1], v)),)))
    else:
        # consecutive writes are one effect
        t = I.reify(cur)
        ev = I.st.events
        if ev and ev[-1][0][0] == "call" and ev[-1][0][1] == "write" and ev[-1][0][2] == t:
            I.st.events = ev[:-1] + ((("call", "write", t, cat(ev[-1][0][3], v)), 0),)
        else:
            I.event(("call", "write", t, v))
    return stream


@model("std::operator<<", "std::basic_ostream::operator<<")
def shl(I, d, this, args, n):
    ps = list(d["params"])
    if this is not None:
        stream, a, p = this, args[0], ps[0]
    else:
        stream, a, p = args[0], args[1], ps[1]
    if p.rstrip().endswith("&"):
        a = rd(I, a)
    a = I.force(a)
    t = norm_type(p)
    if "(*)" in p or a[0] == "fun":
        v = c("\n") if a[0] == "fun" else I.reify(a)
    elif t in ("char", "unsigned char", "signed char"):
        v = c(chr(a[1])) if a[0] == "c" else ("chr", I.reify(a))
    elif "*" in t:
        v = cstr(I, a)
        v = I.reify(v)
    elif "basic_string" in t:
        v = I.reify(a)
    elif a[0] == "c" and isinstance(a[1], int) and not isinstance(a[1], bool):
        v = c(str(a[1]))
    else:
        v = ("tostr", I.reify(a))
    return stream_out(I, stream, v)


@model("std::endl", "std::flush")
def endl(I, d, this, args, n):
    stream_out(I, args[0], c("\n"))
    return args[0]


@model("fprintf", "fflush", "std::fprintf", "printf")
def fprintf(I, d, this, args, n):
    I.event(("call", d["short"]) + tuple(I.reify(cstr(I, a)) if a[0] == "ptr" else I.reify(a) for a in args))
    return ("c", 0)


# ---------------------------------------------------------------- pairs, tuples

def elems(I, args, params):
    out = []
    for a, p in zip(args, params):
        out.append(rd(I, a) if p.rstrip().endswith("&") else a)
    return out


def pair_value(I, r, args):
    ts = r.get("targs") or ["?", "?"]
    vals = []
    for i, (a, t) in enumerate(zip(args, ts)):
        if t.rstrip().endswith("&"):
            vals.append(a)                      # reference member: address
        else:
            a = I.force(a) if a[0] == "ite" else a
            vals.append(rd(I, a) if a[0] in ("ptr", "addr") or is_ref_arg(I, a) else a)
    while len(vals) < len(ts):
        rr = I.P.recname.get(norm_type(ts[len(vals)])) or I.P.recname.get(ts[len(vals)])
        vals.append(I.zero_of(rr["id"] if rr else None, ts[len(vals)]))
    return ("rec", "std::pair", tuple(zip(("first", "second"), vals)))


def is_ref_arg(I, a):
    return False


@model("std::pair::(ctor)")
def pair_ctor(I, d, this, args, n):
    r = I.P.rec[d["record"]]
    ps = d["params"]
    if len(ps) == 1 and norm_type(ps[0]).startswith("std::pair"):
        I.write(I.loc(this), rd(I, args[0]))
        return VOID
    if any("piecewise" in p for p in ps):
        raise Unsupported("piecewise construction")
    ts = r.get("targs") or ["?", "?"]
    vals = []
    for i, (a, p) in enumerate(zip(args, ps)):
        t = ts[i]
        if t.rstrip().endswith("&"):
            vals.append(a)
        else:
            vals.append(convert(I, rd(I, a) if p.rstrip().endswith("&") else a, norm_type(p), norm_type(t)))
    while len(vals) < 2:
        rr = I.P.recname.get(norm_type(ts[len(vals)])) or I.P.recname.get(ts[len(vals)])
        vals.append(I.zero_of(rr["id"] if rr else None, ts[len(vals)]))
    I.write(I.loc(this), ("rec", "std::pair", tuple(zip(("first", "second"), vals))))
    return VOID


def convert(I, v, frm, to):
    if "basic_string" in to and "basic_string" not in frm:
        return cstr(I, v)
    return v


@model("std::make_pair")
def make_pair(I, d, this, args, n):
    return ("rec", "std::pair", tuple(zip(("first", "second"), (argv(I, d, args, 0), argv(I, d, args, 1)))))


@model("std::tuple::(ctor)")
def tuple_ctor(I, d, this, args, n):
    r = I.P.rec[d["record"]]
    ts = r.get("targs") or []
    vals = []
    ps = d["params"]
    if len(ps) == 1 and norm_type(ps[0]).startswith("std::tuple"):
        I.write(I.loc(this), rd(I, args[0]))
        return VOID
    for i, (a, p) in enumerate(zip(args, ps)):
        vals.append(a if ts[i].rstrip().endswith("&") else (rd(I, a) if p.rstrip().endswith("&") else a))
    I.write(I.loc(this), ("rec", "std::tuple", tuple((str(i), v) for i, v in enumerate(vals))))
    return VOID


@model("std::tie", "std::forward_as_tuple")
def tie(I, d, this, args, n):
    return ("rec", "std::tuple", tuple((str(i), v) for i, v in enumerate(args)))


@model("std::make_tuple")
def make_tuple(I, d, this, args, n):
    return ("rec", "std::tuple", tuple((str(i), rd(I, v)) for i, v in enumerate(args)))


@model("std::get")
def std_get(I, d, this, args, n):
    i = d["name"].split("<", 1)[1].split(",")[0].split(">")[0]
    t = norm_type(d["params"][0])
    l = I.loc(args[0])
    k = {"0": "first", "1": "second"}.get(i, i) if t.startswith("std::pair") else i
    el = I.step(l, ("f", k))
    # elements that are references hold addresses
    r = I.P.recname.get(t)
    ts = (r or {}).get("targs") or []
    if i.isdigit() and int(i) < len(ts) and ts[int(i)].rstrip().endswith("&"):
        return I.read(el)
    return I.addr(el)


# ---------------------------------------------------------------- smart pointers

@model("std::unique_ptr::(ctor)")
def uptr_ctor(I, d, this, args, n):
    ps = [norm_type(p) for p in d["params"]]
    loc = I.loc(this)
    if not ps or ps[0] in ("std::nullptr_t", "nullptr_t"):
        I.write(loc, NULL)
    elif ps[0].startswith("std::unique_ptr"):
        src = I.loc(args[0])
        v = I.read(src)
        I.write(src, NULL)
        I.write(loc, v)
    else:
        I.write(loc, argv(I, d, args, 0))
    return VOID


@model("std::make_unique")
def make_unique(I, d, this, args, n):
    r = I.P.recname.get(norm_type(d["ret"]))
    t = r["targs"][0]
    rr = I.P.recname.get(norm_type(t)) or I.P.recname.get(t)
    v = build(I, t, d, args) if args or not rr else build0(I, rr, d)
    p = I.new_root(v)
    I.st.ext[("heap", p[1])] = True
    return p


def build0(I, rr, d):
    for m in I.P.methods(rr["id"]):
        if m["kind"] == "ctor" and not m["params"]:
            p = I.new_root(I.fresh(rr["id"]))
            I.call_any(m["id"], p, [], {})
            return I.read(I.loc(p))
    return I.zero_of(rr["id"], rr["name"])


@model("std::unique_ptr::operator=")
def uptr_assign(I, d, this, args, n):
    ps = norm_type(d["params"][0])
    new = NULL
    if ps.startswith("std::unique_ptr"):
        src = I.loc(args[0])
        new = I.read(src)
        I.write(src, NULL)
    return uptr_set(I, d, this, new) or this


def uptr_set(I, d, this, new):
    loc = I.loc(this)
    old = I.read(loc)
    I.write(loc, new)
    if old[0] != "uninit":
        I.delete_unique(I.P.rec[d["record"]], old)
    return None


@model("std::unique_ptr::reset")
def uptr_reset(I, d, this, args, n):
    uptr_set(I, d, this, args[0] if args else NULL)
    return VOID


@model("std::unique_ptr::release")
def uptr_release(I, d, this, args, n):
    loc = I.loc(this)
    v = I.read(loc)
    I.write(loc, NULL)
    return v


@model("std::unique_ptr::get")
def uptr_get(I, d, this, args, n):
    return rd(I, this)


@model("std::unique_ptr::operator->", "std::unique_ptr::operator*")
def uptr_arrow(I, d, this, args, n):
    return rd(I, this)


@model("std::unique_ptr::operator bool")
def uptr_bool(I, d, this, args, n):
    return truth(rd(I, this))


@model("std::unique_ptr::swap")
def uptr_swap(I, d, this, args, n):
    return swap(I, this, args[0])


# ---------------------------------------------------------------- function objects

@model("std::function::(ctor)")
def fun_ctor(I, d, this, args, n):
    loc = I.loc(this)
    if not args or norm_type(d["params"][0]) in ("std::nullptr_t",):
        I.write(loc, NULL)
        return VOID
    v = argv(I, d, args, 0)
    I.write(loc, v)
    if d["kind"] == "movector" and I.loc(args[0])[0][0] == "L":
        I.write(I.loc(args[0]), NULL)
    return VOID


@model("std::function::operator=")
def fun_assign(I, d, this, args, n):
    I.write(I.loc(this), argv(I, d, args, 0))
    return this


@model("std::function::operator bool")
def fun_bool(I, d, this, args, n):
    return truth(rd(I, this))


@model("std::function::operator()")
def fun_call(I, d, this, args, n):
    f = I.force(rd(I, this))
    if f == NULL:
        raise Throw("std::bad_function_call", NULL)
    if f[0] in ("fun", "clo") and f[1] in I.P.fn:
        dd = I.P.decl[f[1]]
        a2 = []
        for i, (a, p, q) in enumerate(zip(args, d["params"], dd["params"])):
            if p.rstrip().endswith("&") and not q.rstrip().endswith("&"):
                a = rd(I, a)
            elif q.rstrip().endswith("&") and not p.rstrip().endswith("&"):
                a = I.new_root(a)
            a2.append(a)
        return I.call_fn(f[1], None, a2, clo=f if f[0] == "clo" else None)
    return I.user_call(I.reify(f), args, d, n)


@model("std::ref", "std::cref")
def std_ref(I, d, this, args, n):
    return args[0]


# ---------------------------------------------------------------- forward lists (used as stacks)

@model("std::forward_list::(ctor)", "std::list::(ctor)", "std::deque::(ctor)")
def fl_ctor(I, d, this, args, n):
    I.write(I.loc(this), rd(I, args[0]) if args and norm_type(d["params"][0]).startswith("std::forward_list") else ("seq", ()))
    return VOID


@model("std::forward_list::emplace_front", "std::forward_list::push_front")
def fl_emplace(I, d, this, args, n):
    r = I.P.rec[d["record"]]
    elem = r["targs"][0]
    rr = I.P.recname.get(norm_type(elem)) or I.P.recname.get(elem)
    if rr and rr["name"].startswith("std::pair"):
        v = pair_from(I, rr, d, args)
    else:
        v = build(I, elem, d, args)
    l = I.loc(this)
    p = I.new_root(v)
    I.write(l, ("front", p, I.read(l)))
    return p


def pair_from(I, rr, d, args):
    ts = rr["targs"]
    vals = []
    for i, (a, p) in enumerate(zip(args, d["params"])):
        vals.append(a if ts[i].rstrip().endswith("&") else convert(I, rd(I, a) if p.rstrip().endswith("&") else a, norm_type(p), norm_type(ts[i])))
    return ("rec", "std::pair", tuple(zip(("first", "second"), vals)))


@model("std::forward_list::front")
def fl_front(I, d, this, args, n):
    v = rd(I, this)
    if v[0] == "front":
        return v[1]
    return ("frontptr", v)


@model("std::forward_list::pop_front")
def fl_pop(I, d, this, args, n):
    l = I.loc(this)
    v = I.read(l)
    I.write(l, v[2] if v[0] == "front" else ("rest", v))
    return VOID


# ---------------------------------------------------------------- exceptions

@model("std::current_exception")
def current_exception(I, d, this, args, n):
    if I.handlers:
        t = I.handlers[-1]
        return ("exptr", t.tname or "", t.val)
    return NULL


@model("std::exception_ptr::(ctor)")
def exptr_ctor(I, d, this, args, n):
    if not args or "nullptr" in d["params"][0]:
        I.write(I.loc(this), NULL)
    else:
        v = argv(I, d, args, 0)
        I.write(I.loc(this), v)
        if d["kind"] == "movector" and I.loc(args[0])[0][0] == "L":
            I.write(I.loc(args[0]), NULL)
    return VOID


@model("std::exception_ptr::operator=")
def exptr_assign(I, d, this, args, n):
    v = argv(I, d, args, 0)
    I.write(I.loc(this), v)
    if d["kind"] == "moveassign" and I.loc(args[0])[0][0] == "L" and I.loc(args[0]) != I.loc(this):
        I.write(I.loc(args[0]), NULL)
    return this


@model("std::exception_ptr::operator bool")
def exptr_bool(I, d, this, args, n):
    v = I.force(rd(I, this))
    return T if v[0] == "exptr" else truth(v)


@model("std::rethrow_exception")
def rethrow(I, d, this, args, n):
    v = I.force(args[0])
    if v[0] == "exptr":
        r = I.P.recname.get(v[1])
        raise Throw(v[1] or None, v[2], r["id"] if r else None)
    raise Throw(None, ("rethrown", I.reify(v)))


EXC = ("runtime_error", "logic_error", "bad_alloc", "bad_cast", "exception", "invalid_argument", "out_of_range", "bad_function_call", "length_error", "bad_typeid", "domain_error", "range_error", "overflow_error")


@model(*[f"std::{x}::(ctor)" for x in EXC])
def exc_ctor(I, d, this, args, n):
    v = ("msg", c(""))
    if args and d["kind"] == "ctor":
        a = argv(I, d, args, 0)
        v = ("msg", I.reify(a if "basic_string" in d["params"][0] else cstr(I, a)))
    elif args:
        v = rd(I, args[0])
    I.write(I.loc(this), v)
    return VOID


@model(*[f"std::{x}::what" for x in EXC])
def exc_what(I, d, this, args, n):
    v = rd(I, this)
    if v[0] == "msg":
        return v[1]
    return ("what", I.reify(v))


# ---------------------------------------------------------------- atomics, locks

@model("std::atomic::(ctor)")
def atomic_ctor(I, d, this, args, n):
    I.write(I.loc(this), args[0] if args else ZERO)
    return VOID


@model("std::atomic::operator=", "std::atomic::store")
def atomic_set(I, d, this, args, n):
    I.write(I.loc(this), args[0])
    return args[0]


@model("std::atomic::compare_exchange_strong", "std::atomic::compare_exchange_weak")
def atomic_cas(I, d, this, args, n):
    l, e = I.loc(this), I.loc(args[0])
    cur = I.read(l)
    if I.decide(rel("==", cur, I.read(e))):
        I.write(l, args[1])
        return T
    I.write(e, cur)
    return F


@model("std::atomic::exchange", "std::atomic_flag::test_and_set")
def atomic_exchange(I, d, this, args, n):
    l = I.loc(this)
    v = I.read(l)
    I.write(l, args[0] if args and d["short"].endswith("exchange") else T)
    return v


@model("std::atomic::load")
def atomic_load(I, d, this, args, n):
    return rd(I, this)


def atomic_conv(I, d, this, args, n):
    return rd(I, this)


@model("std::mutex::lock", "std::mutex::unlock", "std::lock_guard::(ctor)", "std::unique_lock::(ctor)", "std::mutex::(ctor)")
def lock(I, d, this, args, n):
    I.event(("call", d["short"]) + tuple(I.reify(a) for a in ([this] if "mutex::" in d["short"] else args)))
    return VOID


@model("std::allocator::(ctor)", "std::integral_constant::(ctor)", "std::ios_base::Init::(ctor)")
def nothing(I, d, this, args, n):
    I.write(I.loc(this), ("c", "alloc"))
    return VOID


@model("std::abort", "abort", "std::terminate")
def std_abort(I, d, this, args, n):
    raise Prune(("terminate", "abort"))


@model("std::hash::operator()")
def std_hash(I, d, this, args, n):
    return ("hash", I.reify(argv(I, d, args, 0)))
