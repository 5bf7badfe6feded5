"""Writes lib/schema.json: the names of types, fields and functions the checks know (run on the unchanged tree only)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import build, renames
d = build.dump("", [])[0]
s = renames.schema(json.load(open(d + "/s2gpp-lib.json")))
json.dump(s, open(os.path.join(V, "lib", "schema.json"), "w"), indent=0, sort_keys=True)
print(len(s["adts"]), "types", len(s["fns"]), "functions")
