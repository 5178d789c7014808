#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from propdefs.py and registry.py."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
from propdefs import DEFS
from registry import PROPS
NA = []
with open(V + "/properties.jsonl", "w") as f:
    for d in DEFS:
        if d["id"] not in PROPS: continue
        for x in d["files"]:
            assert os.path.exists("/repo/" + x), (d["id"], x)
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(dict(id=d["id"], title=d["title"], statement=d["statement"],
                quantifier=dict(over=d["over"], text=d["qtext"]), why_tests_cant=d["why"],
                anchors=dict(files=d["files"], mechanism=[dict(name=m[0], where=m[1]) for m in d["mech"]],
                             **({"observe_at": d["observe"]} if d["observe"] else {}), hook_needed=None))) + "\n")
missing = set(PROPS) - {d["id"] for d in DEFS}
assert not missing, missing
m = dict(version=1, setup_cmd="python3 /verif/run.py --setup",
         checks=[dict(property=d["id"], quick_cmd=f"python3 /verif/run.py {d['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 /verif/run.py {d['id']}",
                      evidence_file=f"evidence/{d['id']}.json", technique="property-based testing: " + d["technique"], level="exploration", level_note=d["note"])
                 for d in DEFS if d["id"] in PROPS],
         not_applicable=NA,
         notes="No hooks in /repo: every check builds harnesses in /verif against /repo's working tree. Replay: python3 /verif/run.py --replay FILE.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(V + "/properties.jsonl"): jsonschema.validate(json.loads(l), s)
    print("valid", len(m["checks"]))
except ImportError:
    print("written (run with python3-vt to validate)")
