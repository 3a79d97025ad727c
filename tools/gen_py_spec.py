"""Regenerate spec/py.json from the current tree (only after reviewing the changed summaries)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pysum, summ
M = pysum.PyModel()
d = {}
M.it.seen = set()
for n, f, c, k in M.entries:
    if k != "internal":
        M.paths(n)
inlined = set(M.it.seen)
for n, f, c, k in M.entries:
    # helpers are covered by the operations that use them
    if k == "internal" and f.qual in inlined:
        continue
    d["fun:" + n] = M.summary(n)
    d["sig:" + n] = M.signature(n)
for k, v in M.fields().items():
    d["fields:" + k] = v
for k, v in M.consts().items():
    d["const:" + k] = v
for k, v in M.shapes().items():
    d["class:" + k] = v
# engine calls that can run callbacks registered from Python (every failure must re-raise the callback's exception)
d["notify"] = tuple(sorted({p["out"][2] for n, *_ in M.entries for p in M.paths(n) if p["out"][:2] == ("raise", "EngineError") and p["out"][3] != ("c", None)}))
summ.dump(d, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "py.json"))
print(len(d), "entries", M.it.incomplete, M.it.missing_lib, M.it.arity)
un = [f.qual for f in list(M.pkg.funcs.values()) + [g for c in M.pkg.classes.values() for g in c.values()] if f.qual not in M.it.seen and not f.is_overload]
print("never evaluated:", un)
