"""Model of /repo/libclingo/clingo.h, taken from clang's AST (no text matching)."""
import json, subprocess, functools, os

REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "clang"

# bool-returning functions that are predicates (their result is the answer, not a
# success flag).  Everything else in the API that returns bool is fallible.
PREDICATES = {
    "clingo_signature_is_positive", "clingo_signature_is_negative",
    "clingo_signature_is_equal_to", "clingo_signature_is_less_than",
    "clingo_symbol_is_equal_to", "clingo_symbol_is_less_than",
    "clingo_assignment_has_conflict", "clingo_assignment_has_literal",
    "clingo_assignment_is_total", "clingo_propagate_control_has_watch",
    "clingo_control_is_conflicting",
    "clingo_control_get_enable_enumeration_assumption",
    "clingo_control_get_enable_cleanup",
    "clingo_ast_less_than", "clingo_ast_equal",
}


class Header:
    def __init__(self, path=None):
        path = path or os.path.join(REPO, "libclingo/clingo.h")
        self.path = path
        out = subprocess.run(
            [CLANG, "-x", "c", "-std=c11", "-fsyntax-only", "-Xclang", "-ast-dump=json", path],
            capture_output=True, text=True)
        if out.returncode != 0:
            raise RuntimeError("clingo.h does not parse: " + out.stderr[:500])
        tree = json.loads(out.stdout)
        self.funcs, self.enums, self.enum_groups, self.structs, self.typedefs = {}, {}, {}, {}, {}
        self.enum_groups_order = {}
        for node in tree["inner"]:
            k = node["kind"]
            if k == "FunctionDecl" and node["name"].startswith("clingo"):
                qt = node["type"]["qualType"]
                ret = qt[: qt.index("(")].strip()
                params = [(c.get("name"), c["type"]["qualType"]) for c in node.get("inner", ())
                          if c["kind"] == "ParmVarDecl"]
                self.funcs[node["name"]] = {"ret": ret, "params": params,
                                            "variadic": node.get("variadic", False)}
            elif k == "EnumDecl":
                val, group = -1, []
                for c in node.get("inner", ()):
                    if c["kind"] != "EnumConstantDecl":
                        continue
                    v = self._const(c)
                    val = v if v is not None else val + 1
                    self.enums[c["name"]] = val
                    group.append(c["name"])
                if node.get("name"):
                    self.enum_groups[node["name"]] = group
            elif k == "RecordDecl" and node.get("completeDefinition"):
                fields = [(c["name"], c["type"]["qualType"]) for c in node.get("inner", ())
                          if c["kind"] == "FieldDecl"]
                if node.get("name"):
                    self.structs[node["name"]] = fields
            elif k == "TypedefDecl":
                self.typedefs[node["name"]] = node["type"]["qualType"]
        if len(self.funcs) < 200 or len(self.enums) < 150 or len(self.structs) < 8:
            raise RuntimeError("clingo.h: suspiciously few declarations")

    def _const(self, n):
        if "value" in n and n["kind"] in ("ConstantExpr", "IntegerLiteral"):
            return int(n["value"])
        for c in n.get("inner", ()):
            v = self._const(c)
            if v is not None:
                return v
        return None

    def fallible(self, name):
        f = self.funcs.get(name)
        return bool(f) and f["ret"] in ("bool", "_Bool") and name not in PREDICATES

    def out_params(self, name):
        """Indices of parameters the function writes through (non-const pointer to value)."""
        f = self.funcs[name]
        res = []
        for i, (pn, pt) in enumerate(f["params"]):
            if not pt.endswith("*"):
                continue
            pointee = pt[:-1].strip()
            if pointee.endswith("const") or pointee.startswith("const "):
                if not pointee.endswith("*"):
                    continue
            if pointee == "void":
                continue
            if name in ("clingo_control_load_aspif", "clingo_main"):
                continue          # array of strings, record of callbacks: inputs declared without const
            base = pointee.replace("struct ", "").strip()
            if base in self.opaque():
                continue
            res.append(i)
        return res

    @functools.lru_cache(None)
    def opaque(self):
        # typedef names of struct types without a definition in the header
        res = set()
        for t, q in self.typedefs.items():
            q = q.replace("struct ", "").strip()
            if q == t and t not in self.structs:
                res.add(t)
            elif "struct" in self.typedefs[t] and q not in self.structs:
                res.add(t)
        return frozenset(res)


@functools.lru_cache(None)
def load():
    return Header()


if __name__ == "__main__":
    h = load()
    print(len(h.funcs), len(h.enums), len(h.structs), sorted(h.opaque()))
    for f in ("clingo_symbolic_atoms_next", "clingo_model_symbols", "clingo_control_solve", "clingo_backend_add_atom", "clingo_options_add", "clingo_solve_handle_core","clingo_ast_attribute_get_ast"):
        print(f, h.funcs[f], h.out_params(f))
    print(h.structs.keys()); print(list(h.enum_groups)[:5])
