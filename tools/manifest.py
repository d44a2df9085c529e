"""writes MANIFEST.json from harnesses/index.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from harnesses import index

CMD = "/opt/veriftools/pyvenv/bin/python3 check.py"
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in index.MODULES:
        checks.append({
            "property": i, "quick_cmd": f"{CMD} {i}", "thorough_cmd": f"{CMD} {i} --thorough",
            "technique": "contract-based deductive verification of the real code (pyvc: symbolic execution of /repo's "
                         "source against contracts, obligations discharged by z3/cvc5), bounded replay for the rest",
            "level": index.LEVEL.get(i, "proof"),
            "level_note": index.NOTE.get(i, "") + " " + index.NOTE_ALL})
    else:
        na.append({"property": i, "reason": index.NOT_CLAIMED.get(i, "no contract has been discharged yet")})
m = {"version": 1,
     "setup_cmd": f"{CMD.split()[0]} -m compileall -q pyvc harnesses check.py && /opt/veriftools/pyvenv/bin/python3 -c 'import z3; print(z3.get_version_string())'",
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. No hooks in /repo are needed: all commits there are fixes."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
