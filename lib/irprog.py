"""LLVM IR (text, as printed by clang -S -emit-llvm) as data: globals, functions, and an abstract executor.

The executor follows every path of an acyclic function.  Values are terms; conditions that fold to a constant select
the branch, all others follow both.  What a call returns is up to an oracle (or unknown)."""
import os, re, subprocess, tempfile
from common import Broken

TOK = re.compile(r'\s+|;[^\n]*|(c?"(?:[^"\\]|\\.)*")|([%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))|(-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+)|(\.\.\.)|([a-zA-Z_][\w.]*)|(![\w.]*|#\d+)|(.)')


def tokens(s):
    out = []
    for m in TOK.finditer(s):
        g = m.lastgroup or m.lastindex
        if g is None:
            continue
        out.append(m.group(m.lastindex))
    return out


def compile_ir(src, includes=(), defines=(), lang=None, opt="-O1"):
    with tempfile.TemporaryDirectory(prefix="vp_ir_") as d:
        out = os.path.join(d, "o.ll")
        cmd = ["clang++" if src.endswith((".cc", ".hh")) or lang == "c++" else "clang", opt, "-fno-inline", "-fno-discard-value-names", "-g0", "-w", "-S", "-emit-llvm"]
        if lang:
            cmd += ["-x", lang]
        if cmd[0] == "clang++":
            cmd += ["-std=c++14"]
        cmd += ["-I" + i for i in includes] + ["-D" + x for x in defines] + [src, "-o", out]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise Broken("cannot compile %s: %s" % (src, p.stderr[:400]))
        return Module(open(out).read())


class Func:
    def __init__(self, name, ret, params, variadic, lines, internal):
        self.name, self.ret, self.params, self.variadic, self.internal = name, ret, params, variadic, internal
        self.blocks, self.order = {}, []
        cur = None
        buf = ""
        for l in lines:
            m = re.match(r"^([-\w.$]+|\"[^\"]*\"):", l)
            if m:
                cur = m.group(1)
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            l = l.strip()
            if not l or l.startswith(";"):
                continue
            if cur is None:
                cur = "entry?"
                self.blocks[cur] = []
                self.order.append(cur)
            if buf:
                buf += " " + l
                if l.startswith("]"):
                    self.blocks[cur].append(buf)
                    buf = ""
                continue
            if l.startswith("switch") and not l.rstrip().endswith("]"):
                buf = l
                continue
            self.blocks[cur].append(l)


class Module:
    def __init__(self, text):
        self.types, self.globals, self.inits, self.funcs, self.decls = {}, {}, {}, {}, {}
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("%") and " = type " in l:
                n, t = l.split(" = type ", 1)
                self.types[n] = t
            elif l.startswith("@") and " = " in l:
                n, t = l.split(" = ", 1)
                self.globals[n] = t
            elif l.startswith("define "):
                body = []
                j = i + 1
                while not lines[j].startswith("}"):
                    body.append(lines[j])
                    j += 1
                self._define(l, body)
                i = j
            elif l.startswith("declare "):
                m = re.search(r"(@[^\s(]+)\(", l)
                if m:
                    self.decls[m.group(1)[1:].strip('"')] = l
            i += 1

    def _define(self, head, body):
        m = re.search(r" (@[^\s(]+|@\"[^\"]+\")\(", head)
        name = m.group(1)[1:].strip('"')
        depth, k = 0, m.end() - 1
        j = k
        while True:
            if head[j] == "(":
                depth += 1
            elif head[j] == ")":
                depth -= 1
                if depth == 0:
                    break
            j += 1
        ps, variadic = [], False
        for p in split(head[k + 1:j]):
            if p == "...":
                variadic = True
                continue
            ps.append((p.split()[0], p.split()[-1]))
        pre = head[:m.start()].split()
        self.funcs[name] = Func(name, pre[-1], ps, variadic, body, "internal" in pre)

    # ------------------------------------------------------------ layout
    def parse_type(self, tk, i):
        t = tk[i]
        if t == "[":
            n = int(tk[i + 1])
            e, j = self.parse_type(tk, i + 3)
            return ("arr", n, e), j + 1
        if t == "{" or (t == "<" and tk[i + 1] == "{"):
            packed = t == "<"
            i += 2 if packed else 1
            fs = []
            while tk[i] != "}":
                if tk[i] == ",":
                    i += 1
                    continue
                f, i = self.parse_type(tk, i)
                fs.append(f)
            i += 2 if packed else 1
            return ("struct", tuple(fs)), i
        if t.startswith("%"):
            if t not in self.types:
                return ("opaque", t), i + 1
            d = self.types[t]
            if isinstance(d, str):
                self.types[t] = ("opaque", t) if d.strip() == "opaque" else self.parse_type(tokens(d), 0)[0]
            return self.types[t], i + 1
        if t == "ptr":
            return ("ptr",), i + 1
        if re.match(r"i\d+$", t):
            return ("i", int(t[1:])), i + 1
        if t in ("double", "float", "void", "metadata", "label", "half", "x86_fp80", "token"):
            return (t,), i + 1
        raise Broken("IR: type " + " ".join(tk[i:i + 5]))

    def size_align(self, t):
        k = t[0]
        if k == "i":
            n = max(1, (t[1] + 7) // 8)
            return n, n
        if k == "ptr" or k == "double":
            return 8, 8
        if k == "float":
            return 4, 4
        if k == "arr":
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == "struct":
            off, al = 0, 1
            for f in t[1]:
                s, a = self.size_align(f)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise Broken("IR: size of %r" % (t,))

    def offset(self, t, idx):
        """Byte offset of a list of constant indices below the first one."""
        off = 0
        for i in idx:
            if t[0] == "arr":
                off += i * self.size_align(t[2])[0]
                t = t[2]
            elif t[0] == "struct":
                o = 0
                for k, f in enumerate(t[1]):
                    s, a = self.size_align(f)
                    o = (o + a - 1) // a * a
                    if k == i:
                        break
                    o += s
                off += o
                t = t[1][i]
            else:
                raise Broken("IR: index into %r" % (t,))
        return off

    # ------------------------------------------------------------ constants
    def const(self, tk, i, t):
        """Parse a constant (or operand) of type t; returns (term, next)."""
        v = tk[i]
        if v.startswith("%"):
            return ("reg", v), i + 1
        if v.startswith("@"):
            return ("global", v[1:].strip('"')), i + 1
        if v in ("null",):
            return ("int", 0), i + 1
        if v in ("true", "false"):
            return ("int", int(v == "true")), i + 1
        if v in ("undef", "poison"):
            return ("undef",), i + 1
        if v == "zeroinitializer":
            return self.zero(t), i + 1
        if re.match(r"-?\d+$", v):
            return ("int", int(v)), i + 1
        if re.match(r"-?\d+\.", v):
            return ("fp", float(v)), i + 1
        if v.startswith("0x"):
            return ("fp", v), i + 1
        if v.startswith('c"'):
            b = re.sub(rb"\\([0-9A-Fa-f]{2})", lambda m: bytes([int(m.group(1), 16)]), v[2:-1].encode("latin1"))
            return ("bytes", b), i + 1
        if v in ("[", "{"):
            close = "]" if v == "[" else "}"
            i += 1
            out = []
            while tk[i] != close:
                if tk[i] == ",":
                    i += 1
                    continue
                et, i = self.parse_type(tk, i)
                e, i = self.const(tk, i, et)
                out.append(e)
            return ("agg", tuple(out)), i + 1
        if v in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext"):
            et, i = self.parse_type(tk, i + 2)
            e, i = self.const(tk, i, et)
            i += 1                                   # to
            _, i = self.parse_type(tk, i)
            return e, i + 1
        if v == "getelementptr":
            i += 1
            while tk[i] != "(":
                i += 1
            st, i = self.parse_type(tk, i + 1)
            idx = []
            base = None
            while tk[i] != ")":
                if tk[i] == ",":
                    i += 1
                    continue
                et, i = self.parse_type(tk, i)
                e, i = self.const(tk, i, et)
                if base is None:
                    base = e
                else:
                    idx.append(e)
            return self.gep(st, base, idx), i + 1
        raise Broken("IR: constant " + " ".join(tk[i:i + 6]))

    def zero(self, t):
        if t[0] == "arr":
            return ("agg", tuple(self.zero(t[2]) for _ in range(t[1]))) if t[1] < 5000 else ("int", 0)
        if t[0] == "struct":
            return ("agg", tuple(self.zero(f) for f in t[1]))
        return ("int", 0)

    def gep(self, st, base, idx):
        if all(x[0] == "int" for x in idx):
            off = idx[0][1] * (self.size_align(st)[0] if idx[0][1] else 0) + self.offset(st, [x[1] for x in idx[1:]])
            return addr(base, off)
        return ("gep", base, tuple(idx), st)

    def init(self, name):
        """Initialiser of a global variable."""
        key = "@" + name
        if key in self.inits:
            return self.inits[key]
        raw = self.globals.get(key)
        if raw is None and '@"%s"' % name in self.globals:
            raw = self.globals['@"%s"' % name]
        if raw is None:
            raise Broken("IR: no global " + name)
        tk = tokens(raw)
        i = 0
        while tk[i] not in ("global", "constant"):
            i += 1
        if "external" in tk[:i]:
            raise Broken("IR: external global " + name)
        t, i = self.parse_type(tk, i + 1)
        v, _ = self.const(tk, i, t)
        self.inits[key] = v
        return v

    def string(self, term):
        """The C string a term points to."""
        if term[0] == "addr":
            base, off = term[1], term[2]
        else:
            base, off = term, 0
        if base[0] != "global":
            return None
        try:
            v = self.init(base[1])
        except Broken:
            return None
        if v[0] == "agg" and not v[1]:
            return ""
        if v == ("int", 0) or (v[0] == "agg" and all(x == ("int", 0) for x in v[1])):
            return ""
        if v[0] != "bytes":
            return None
        return v[1][off:].split(b"\0")[0].decode("utf8", "replace")


def addr(base, off):
    if base[0] == "addr":
        base, off = base[1], base[2] + off
    return ("addr", base, off) if off else base


def split(s):
    out, depth, cur, q = [], 0, "", False
    for c in s:
        if c == '"':
            q = not q
        if not q:
            if c in "([{<":
                depth += 1
            elif c in ")]}>":
                depth -= 1
            elif c == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


ATTRS = {"noundef", "nonnull", "zeroext", "signext", "nocapture", "readonly", "readnone", "writeonly", "noalias", "returned", "inreg", "immarg", "nofree", "nuw", "nsw",
         "inbounds", "exact", "disjoint", "volatile", "noreturn", "fastcc", "ccc", "tail", "musttail", "notail", "nneg"}


class State:
    __slots__ = ("regs", "mem", "events", "steps")

    def __init__(self):
        self.regs, self.mem, self.events = {}, {}, []

    def copy(self):
        s = State()
        s.regs, s.mem, s.events = dict(self.regs), dict(self.mem), list(self.events)
        return s


class Exec:
    """Follows all paths of functions of a module."""

    def __init__(self, mod, oracle=None, opaque=None, limit=4000, throws=False):
        self.m, self.oracle, self.opaque, self.limit, self.throws = mod, oracle, opaque or (lambda n: False), limit, throws
        self.n = 0

    def run(self, name, args=None):
        """List of (state, result); result ("ret", term) | ("unreachable",) | ("unwind",)"""
        self.count = 0
        st = State()
        f = self.m.funcs.get(name)
        if f is None:
            raise Broken("IR: no function " + name)
        return self.call(f, args if args is not None else [("param", i) for i in range(len(f.params))], st, 0)

    def call(self, f, args, st, depth):
        if depth > 12:
            raise Broken("IR: recursion in " + f.name)
        saved = st.regs
        st.regs = {p[1]: a for p, a in zip(f.params, args)}
        out = []
        work = [(f.order[0], None, 0, st, frozenset())]
        while work:
            b, pred, i, st, seen = work.pop()
            self.count += 1
            if self.count > self.limit:
                raise Broken("IR: too many paths in " + f.name)
            if i == 0:
                if b in seen:
                    raise Broken("IR: loop in " + f.name)
                seen = seen | {b}
                vals = {}
                for l in f.blocks[b]:
                    m = re.match(r"(%\S+) = phi (.*)$", l)
                    if not m:
                        break
                    vals[m.group(1)] = self.phi(m.group(2), pred, st)
                    i += 1
                st.regs.update(vals)
            ins = f.blocks[b]
            while i < len(ins):
                l = ins[i]
                i += 1
                r = self.step(f, l, st, depth)
                if r is None:
                    continue
                if r[0] == "goto":
                    for nb in r[1][1:]:
                        work.append((nb, b, 0, st.copy(), seen))
                    work.append((r[1][0], b, 0, st, seen))
                elif r[0] == "cont":            # several states after a call, to be continued here or elsewhere
                    for s2, nxt in r[1]:
                        if nxt is None:
                            work.append((b, pred, i, s2, seen))
                        else:
                            work.append((nxt, b, 0, s2, seen))
                else:
                    s2 = st
                    s2.regs = saved
                    out.append((s2, r))
                break
            else:
                raise Broken("IR: no terminator in " + f.name)
        return out

    def phi(self, s, pred, st):
        tk = tokens(s)
        t, i = self.m.parse_type(tk, 0)
        while i < len(tk):
            if tk[i] == "[":
                v, j = self.m.const(tk, i + 1, t)
                lab = tk[j + 1]
                if lab[1:].strip('"') == pred.strip('"'):
                    return self.val(v, st)
                i = j + 3
            else:
                i += 1
        raise Broken("IR: phi without value for " + str(pred))

    def val(self, v, st):
        if v[0] == "reg":
            if v[1] not in st.regs:
                raise Broken("IR: undefined register " + v[1])
            return st.regs[v[1]]
        if v[0] == "addr":
            return addr(self.val(v[1], st), v[2])
        if v[0] == "gep":
            b = self.val(v[1], st)
            return self.m.gep(v[3], b, [self.val(x, st) for x in v[2]])
        return v

    def operand(self, tk, i, st, t=None):
        while tk[i] in ATTRS:
            i += 1
        if t is None:
            t, i = self.m.parse_type(tk, i)
            i = self.skip(tk, i)
        v, i = self.m.const(tk, i, t)
        return self.val(v, st), i, t

    def skip(self, tk, i):
        while i < len(tk) and (tk[i] in ATTRS or tk[i] in ("align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "allocsize", "range")):
            if tk[i] == "align":
                i += 2
            elif tk[i] in ATTRS:
                i += 1
            else:
                d = 0
                i += 1
                while True:
                    d += (tk[i] == "(") - (tk[i] == ")")
                    i += 1
                    if d == 0:
                        break
        return i

    def step(self, f, l, st, depth):
        dst = None
        m = re.match(r"(%\"[^\"]*\"|%[-\w.$]+) = (.*)$", l)
        if m:
            dst, l = m.group(1), m.group(2)
        tk = tokens(l)
        k = 0
        while tk[k] in ("tail", "musttail", "notail"):
            k += 1
        op = tk[k]
        if op in ("call", "invoke"):
            return self.do_call(f, dst, tk, k + 1, st, depth, op == "invoke")
        if op == "ret":
            if tk[1] == "void":
                return ("ret", None)
            return ("ret", self.operand(tk, 1, st)[0])
        if op == "unreachable":
            return ("unreachable",)
        if op == "resume":
            return ("unwind",)
        if op == "br":
            if tk[1] == "label":
                return ("goto", [tk[2][1:].strip('"')])
            c, i, _ = self.operand(tk, 1, st)
            a, b = tk[i + 2][1:].strip('"'), tk[i + 5][1:].strip('"')
            if c[0] == "int":
                return ("goto", [a if c[1] else b])
            st.events.append(("branch", c))
            return ("goto", [a, b]) if a != b else ("goto", [a])
        if op == "switch":
            c, i, t = self.operand(tk, 1, st)
            dflt = tk[i + 2][1:].strip('"')
            i = tk.index("[", i) + 1
            cases = []
            while tk[i] != "]":
                et, i = self.m.parse_type(tk, i)
                v, i = self.m.const(tk, i, et)
                cases.append((v[1], tk[i + 2][1:].strip('"')))
                i += 3
            if c[0] == "int":
                for v, lab in cases:
                    if v == c[1]:
                        return ("goto", [lab])
                return ("goto", [dflt])
            return ("goto", list(dict.fromkeys([dflt] + [x for _, x in cases])))
        if op == "alloca":
            self.n += 1
            t, i = self.m.parse_type(tk, k + 1)
            st.regs[dst] = ("alloca", dst, self.n)
            return None
        if op == "store":
            i = k + 1
            v, i, t = self.operand(tk, i, st)
            p, i, _ = self.operand(tk, i + 1, st)
            n = self.m.size_align(t)[0]
            base, off = (p[1], p[2]) if p[0] == "addr" else (p, 0)
            self.write(st, base, off, n, v)
            return None
        if op == "load":
            i = k + 1
            while tk[i] in ATTRS:
                i += 1
            t, i = self.m.parse_type(tk, i)
            p, i, _ = self.operand(tk, i + 1, st)
            n = self.m.size_align(t)[0]
            base, off = (p[1], p[2]) if p[0] == "addr" else (p, 0)
            st.regs[dst] = self.read(st, base, off, n)
            return None
        if op == "getelementptr":
            i = k + 1
            while tk[i] in ATTRS:
                i += 1
            t, i = self.m.parse_type(tk, i)
            b, i, _ = self.operand(tk, i + 1, st)
            idx = []
            while i < len(tk) and tk[i] == ",":
                if tk[i + 1].startswith("!"):
                    break
                x, i, _ = self.operand(tk, i + 1, st)
                idx.append(x)
            st.regs[dst] = self.m.gep(t, b, idx)
            return None
        if op in ("icmp", "fcmp"):
            pred = tk[k + 1]
            a, i, t = self.operand(tk, k + 2, st)
            b, i, _ = self.operand(tk, i + 1, st, t)
            st.regs[dst] = cmp(pred, a, b, t)
            return None
        if op == "select":
            c, i, _ = self.operand(tk, k + 1, st)
            a, i, _ = self.operand(tk, i + 1, st)
            b, i, _ = self.operand(tk, i + 1, st)
            if c[0] == "int":
                st.regs[dst] = a if c[1] else b
            elif a == b:
                st.regs[dst] = a
            else:
                st.regs[dst] = ("select", c, a, b)
            return None
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast"):
            a, i, t = self.operand(tk, k + 1, st)
            t2, i = self.m.parse_type(tk, i + 1)
            st.regs[dst] = cast(op, a, t, t2)
            return None
        if op == "freeze":
            st.regs[dst] = self.operand(tk, k + 1, st)[0]
            return None
        if op in ("and", "or", "xor", "add", "sub", "mul", "shl", "lshr", "ashr", "sdiv", "udiv", "urem", "srem"):
            i = k + 1
            while tk[i] in ATTRS:
                i += 1
            a, i, t = self.operand(tk, i, st)
            b, i, _ = self.operand(tk, i + 1, st, t)
            st.regs[dst] = binop(op, a, b, t)
            return None
        if op in ("extractvalue", "insertvalue", "landingpad", "atomicrmw", "cmpxchg", "fence", "sitofp", "uitofp", "fptosi", "fptoui", "fadd", "fsub", "fmul", "fneg",
                  "fpext", "fptrunc"):
            if dst:
                self.n += 1
                st.regs[dst] = ("op", op, self.n)
            return None
        raise Broken("IR: instruction " + l[:80])

    def write(self, st, base, off, n, v):
        for (b, o, m_) in [x for x in st.mem if x[0] == base and x[1] != "*" and x[1] < off + n and off < x[1] + x[2] and x != (base, off, n)]:
            del st.mem[(b, o, m_)]
        st.mem[(base, off, n)] = v
        if base[0] != "alloca":
            st.events.append(("store", addr(base, off), n, v))

    def read(self, st, base, off, n):
        v = st.mem.get((base, off, n))
        if v is not None:
            return v
        if base[0] == "global" and base[1].startswith(".str") is False:
            c = self.constant(base[1], off, n)
            if c is not None:
                return c
        whole = st.mem.get((base, "*"))
        if whole is not None:
            return ("part", whole, off, n)
        return ("load", addr(base, off), n)

    def constant(self, g, off, n):
        return None

    def do_call(self, f, dst, tk, i, st, depth, invoke):
        m = self.m
        # return type (with attributes and calling conventions) up to the callee
        while tk[i] in ATTRS or tk[i] in ("align", "dereferenceable", "dereferenceable_or_null", "range", "fastcc", "nnan", "fast"):
            i2 = self.skip(tk, i)
            i = i2 if i2 > i else i + 1
        rt, i = m.parse_type(tk, i)
        if tk[i] == "(":                                # function type of a variadic callee
            d = 0
            while True:
                d += (tk[i] == "(") - (tk[i] == ")")
                i += 1
                if d == 0:
                    break
        if tk[i] == "asm":
            if dst:
                self.n += 1
                st.regs[dst] = ("op", "asm", self.n)
            return None
        callee, i = m.const(tk, i, ("ptr",))
        callee = self.val(callee, st)
        args = []
        assert tk[i] == "(", tk[:i + 3]
        i += 1
        while tk[i] != ")":
            if tk[i] == ",":
                i += 1
                continue
            if tk[i] == "metadata":
                d = 0
                while not (tk[i] in (",", ")") and d == 0):
                    d += (tk[i] == "(") - (tk[i] == ")")
                    i += 1
                continue
            v, i, t = self.operand(tk, i, st)
            args.append((v, t))
        name = callee[1] if callee[0] == "global" else None
        normal = unwind = None
        if invoke:
            k = tk.index("to", i)
            normal, unwind = tk[k + 2][1:].strip('"'), tk[k + 5][1:].strip('"')
        if name and name.startswith("llvm."):
            if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
                d, s, n = args[0][0], args[1][0], args[2][0]
                self.memcpy(st, d, s, n[1] if n[0] == "int" else None)
            elif name.startswith("llvm.memset"):
                d, v, n = args[0][0], args[1][0], args[2][0]
                base, off = (d[1], d[2]) if d[0] == "addr" else (d, 0)
                if v == ("int", 0) and n[0] == "int":
                    for o in range(off, off + n[1], 8):
                        self.write(st, base, o, min(8, off + n[1] - o), ("int", 0))
            elif dst:
                self.n += 1
                st.regs[dst] = ("op", name, self.n)
            return ("goto", [normal]) if normal else None
        avals = [a for a, _ in args]
        if name in m.funcs and not self.opaque(name):
            outs = []
            for s2, r in self.call(m.funcs[name], avals, self.with_regs(st), depth + 1):
                outs.append((s2, r))
            res = []
            final = []
            for s2, r in outs:
                s2.regs = dict(st.regs)
                if r[0] == "ret":
                    if dst:
                        s2.regs[dst] = r[1]
                    res.append((s2, normal))
                elif r[0] == "unwind" and unwind:
                    res.append((s2, unwind))
                elif r[0] == "unreachable":
                    continue
                else:
                    final.append(s2)
            if final:
                raise Broken("IR: unwinding through " + f.name)
            return ("cont", res)
        self.n += 1
        cid = self.n
        # what the callee can see: the memory of the objects whose address is passed
        snap = {}
        for a in avals:
            b = a[1] if a[0] == "addr" else a
            if b[0] == "alloca":
                for key, v in st.mem.items():
                    if key[0] == b:
                        snap[key] = v
        st.events.append(("call", cid, name if name else callee, tuple(avals), tuple(t for _, t in args), snap))
        for k, (a, t) in enumerate(args):
            b, off = (a[1], a[2]) if a[0] == "addr" else (a, 0)
            if b[0] == "alloca":
                for key in [x for x in st.mem if x[0] == b]:
                    del st.mem[key]
                st.mem[(b, "*")] = ("out", cid, k)
        res = self.oracle(name if name else callee, avals, cid) if self.oracle else None
        if rt[0] != "void" and dst:
            st.regs[dst] = res if res is not None else ("call", cid, name if name else callee, rt)
        if unwind and self.throws:
            s2 = st.copy()
            return ("cont", [(st, normal), (s2, unwind)])
        if normal:
            return ("goto", [normal])
        if name and re.match(r"_?_?(assert_fail|exit|abort|Exit)$", name):
            return ("unreachable",)
        return None

    def with_regs(self, st):
        s = st.copy()
        return s

    def memcpy(self, st, d, s, n):
        db, do = (d[1], d[2]) if d[0] == "addr" else (d, 0)
        sb, so = (s[1], s[2]) if s[0] == "addr" else (s, 0)
        if n is None:
            return
        cells = [(k, v) for k, v in st.mem.items() if k[0] == sb and k[1] != "*" and so <= k[1] < so + n]
        if sb[0] == "global" and not cells:
            try:
                v = self.m.init(sb[1])
                flat = flatten(self.m, v)
                if flat:
                    o = 0
                    for x in flat:
                        self.write(st, db, do + o, 8, x)
                        o += 8
                    return
            except Broken:
                pass
        for k, v in cells:
            self.write(st, db, do + k[1] - so, k[2], v)


def flatten(m, v):
    """Members of a constant structure all of whose members are pointers (or null)."""
    if v[0] != "agg":
        return None
    if all(x[0] in ("global", "addr") or x == ("int", 0) for x in v[1]):
        return list(v[1])
    return None


def mask(v, bits):
    return v & ((1 << bits) - 1)


def signed(v, bits):
    v = mask(v, bits)
    return v - (1 << bits) if v >> (bits - 1) else v


def cmp(pred, a, b, t):
    bits = t[1] if t[0] == "i" else 64
    if a[0] == "int" and b[0] == "int":
        x, y = (signed(a[1], bits), signed(b[1], bits)) if pred.startswith("s") else (mask(a[1], bits), mask(b[1], bits))
        r = {"eq": x == y, "ne": x != y, "gt": x > y, "lt": x < y, "ge": x >= y, "le": x <= y}[pred[-2:]]
        return ("int", int(r))
    if a[0] == "fp" and b[0] == "fp" and isinstance(a[1], float) and isinstance(b[1], float) and pred[-2:] in ("eq", "ne"):
        return ("int", int((a[1] == b[1]) == (pred[-2:] == "eq")))
    nn = lambda x: x[0] in ("alloca", "global", "addr")
    if a == b and pred in ("eq", "ne"):
        return ("int", int(pred == "eq"))
    if pred in ("eq", "ne") and ((nn(a) and b == ("int", 0)) or (nn(b) and a == ("int", 0))):
        return ("int", int(pred == "ne"))
    if t == ("i", 1) and b[0] == "int":
        return a if (pred == "eq") == bool(b[1] & 1) else ("op", "not", a)
    if b == ("int", 0) and pred in ("eq", "ne") and a[0] == "cast" and a[1] == "zext" and a[3] == ("i", 1):
        return a[2] if pred == "ne" else ("op", "not", a[2])
    return ("cmp", pred, a, b)


def cast(op, a, t, t2):
    if op in ("ptrtoint", "inttoptr", "bitcast"):
        return a
    if a[0] == "int":
        if op == "trunc":
            return ("int", signed(a[1], t2[1]) if t2[1] > 1 else a[1] & 1)
        if op == "zext":
            return ("int", mask(a[1], t[1]))
        return ("int", signed(a[1], t[1]))
    if op == "trunc" and a[0] == "cast" and a[1] in ("zext", "sext") and a[3] == t2:
        return a[2]
    return ("cast", op, a, t, t2)


def binop(op, a, b, t):
    if a[0] == "int" and b[0] == "int":
        x, y = a[1], b[1]
        try:
            r = {"and": x & y, "or": x | y, "xor": x ^ y, "add": x + y, "sub": x - y, "mul": x * y, "shl": x << y if 0 <= y < 64 else 0,
                 "lshr": mask(x, t[1]) >> y if 0 <= y < 64 else 0, "ashr": x >> y if 0 <= y < 64 else 0}.get(op)
        except Exception:
            r = None
        if r is not None:
            return ("int", r)
    if op == "xor" and t == ("i", 1) and b[0] == "int" and b[1] & 1:
        return ("op", "not", a)
    if op in ("and", "or") and t == ("i", 1):
        for x, y in ((a, b), (b, a)):
            if x[0] == "int":
                return y if bool(x[1] & 1) == (op == "and") else ("int", int(op == "or"))
    return ("op", op, a, b)
