"""Regenerate spec/cxx.json from the current tree (only after reviewing the changed summaries)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import summ, cxcheck
M = cxcheck.Model()
if M.error:
    sys.exit(M.error)
d = {}
for n in sorted(M.M.entries):
    s, nested = M.summary(n)
    d["fun:" + n] = s
    if M.M.defaults(n):
        d["def:" + n] = M.M.defaults(n)
    for k, v in nested.items():
        d[f"cb:{n}|{k}"] = v
for k, v in M.fields().items():
    d["fields:" + k] = v
for k, v in M.enums().items():
    d["enum:" + k] = v
summ.dump(d, cxcheck.SPEC)
print(len(d), "entries")
