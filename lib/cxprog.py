"""The resolved program as exported by tools/cxdump: functions, callee descriptions, records, enumerations, variables."""
import json, re

SCALAR = re.compile(r"^(const )?(unsigned |signed )?(bool|char|short|int|long|long long|float|double|unsigned|size_t|u?int\d+_t|__int128)( const)?$")


def strip_targs(n):
    """Qualified name without template arguments (keeps operator names)."""
    i = n.find("operator")
    tail = ""
    if i >= 0 and (i == 0 or n[i - 1] in ":> "):
        d = 0
        for j in range(i):
            d += (n[j] == "<") - (n[j] == ">")
        if d == 0:
            m = re.match(r"operator(\(\)|\[\]|->\*?|<=>|<<=|>>=|<<|>>|<=|>=|\+\+|--|&&|\|\||==|!=|[-+*/%^&|~!=<>,]=?| .*)", n[i:])
            if m:
                op = m.group(0)
                n, tail = n[:i], op
    o, d = "", 0
    for ch in n:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            o += ch
    return o + tail


def norm_type(t):
    t = t.strip()
    t = re.sub(r"\b(const|volatile)\b", "", t)
    t = t.replace("&&", "").replace("&", "")
    t = re.sub(r"\s+", " ", t).strip()
    t = re.sub(r"\s+\*", "*", t)
    return t


BS = "std::basic_string<char, std::char_traits<char>, std::allocator<char>>"


class Prog:
    def __init__(self, path, ours="Clingo::"):
        d = json.load(open(path))
        self.fn = {f["id"]: f for f in d["functions"]}
        self.decl = {x["id"]: x for x in d["decls"]}
        self.rec = {r["id"]: r for r in d["records"]}
        self.recname = {r["name"]: r for r in d["records"]}
        self.enums = d["enums"]
        self.undefined = d.get("undefined", [])
        self.var = {v["id"]: v for v in d["vars"]}
        seen = {}
        for v in d["vars"]:
            if v.get("static_local"):      # named by their type: the name within a function is irrelevant
                k = norm_type(v.get("type", ""))
                seen[k] = seen.get(k, 0) + 1
                v["name"] = f"static {k}" + (f"#{seen[k]}" if seen[k] > 1 else "")
        self.varname = {v["name"]: v for v in d["vars"]}
        self.byname = {}
        for f in d["functions"]:
            self.byname.setdefault(f["name"], []).append(f)
        for r in d["records"]:
            r.setdefault("fields", [])
            r.setdefault("bases", [])
            if r["name"].startswith(ours):
                r["ours"] = True
        self.field_owner = {}
        for r in d["records"]:
            for f in r["fields"]:
                self.field_owner[f["id"]] = (r["id"], f)
        self._all = {}
        self._nt = {}
        for x in d["decls"]:
            x["short"] = strip_targs(x["name"].replace(BS, "std::string"))
        self.enumvals = {}
        for e in d["enums"]:
            for n, v, _ in e["values"]:
                self.enumvals[(e["name"], n)] = v

    def fields(self, rid):
        """All fields including those of bases: list of field dicts."""
        if rid in self._all:
            return self._all[rid]
        r = self.rec.get(rid)
        out = []
        if r:
            for b in r["bases"]:
                out += self.fields(b["id"])
            out += r["fields"]
        self._all[rid] = out
        return out

    def is_std(self, rid):
        r = self.rec.get(rid)
        return bool(r) and (r["name"].startswith("std::") or r["name"].startswith("__gnu_cxx::"))

    def newtype(self, rid):
        """Records of one scalar-like field are represented by the value of the field."""
        if rid in self._nt:
            return self._nt[rid]
        self._nt[rid] = False
        r = self.rec.get(rid)
        ok = False
        if r and r.get("ours") and not r.get("lambda") and not r.get("union"):
            fs = self.fields(rid)
            ok = len(fs) == 1 and not any(m.get("virtual") for m in self.methods(rid))
        self._nt[rid] = ok
        return ok

    def methods(self, rid):
        r = self.rec.get(rid)
        if not r:
            return []
        return [self.decl[i] for i in r.get("methods", []) if i in self.decl]

    def is_base(self, b, d):
        """b is d or a base of d (record ids)"""
        if b == d:
            return True
        r = self.rec.get(d)
        return bool(r) and any(self.is_base(b, x["id"]) for x in r["bases"])

    def complete(self, tname):
        r = self.recname.get(tname)
        return bool(r) and bool(r["fields"])
