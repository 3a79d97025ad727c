"""Regenerate spec/lua.json from the current tree (only after reviewing the changed summaries)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import summ, luacheck
M = luacheck.Model()
d = {}
for n in sorted(M.M.entries):
    for k, v in M.summary(n).items():
        d["fun:" + k] = v
    for p in M.M.problems[n]:
        print("PROBLEM", n, p)
for k, v in M.M.tables.items():
    d["table:" + k] = tuple(sorted((x, "version" if "version" in x.lower() else y) for x, y in v.items()))
for k, v in M.fields().items():
    d["fields:" + k] = v
summ.dump(d, luacheck.SPEC)
print(len(d), "entries")
