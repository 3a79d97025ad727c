"""Writes spec/abi.json from the current clingo.h (review the difference before committing)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import glueprops
json.dump(glueprops.describe(), open(glueprops.SPEC, "w"), indent=1, sort_keys=True)
