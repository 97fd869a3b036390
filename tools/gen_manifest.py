#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties that have a check in the harness."""
import glob, json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
have = set()
for f in glob.glob(os.path.join(root, "harness", "*.go")):
    have |= set(re.findall(r'register\("([A-Z]\d+)"', open(f).read()))
notes = {}
exec(open(os.path.join(root, "tools", "notes.py")).read())
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": i,
        "quick_cmd": "./check.sh %s quick" % i,
        "thorough_cmd": "./check.sh %s thorough" % i,
        "technique": "property-based testing",
        "level": "exploration",
        "level_note": notes[i],
    } for i in ids if i in have],
    "not_applicable": [],
    "notes": "No instrumentation is compiled into /repo. The harness is a separate module that uses the public interface; random seeds of math/rand are pinned and the network dial of the command line tool is redirected with build overlays of the standard library.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks of", len(ids))
