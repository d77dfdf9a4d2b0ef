"""Generates MANIFEST.json from the registry of checks."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "sa"))
sys.dont_write_bytecode = True
import props
NA = {
    "C27": "Conformance is relative to the external AsyncAPI and binding specifications, which are not in the sandbox in machine-readable form; a universally quantified acceptance claim has no reference to compare with. The reviewed tables behind C04, C05, C08-C13 state the part that could be written down and these checks also report values that are wrongly rejected.",
}
checks = []
for c in sorted(props.CHECKS):
    checks.append({"property": c, "quick_cmd": f"python3 run.py {c}", "thorough_cmd": f"python3 run.py {c} --tier thorough",
                   "evidence_file": f"evidence/{c}.json", "technique": props.TECHNIQUE[c], "level": props.LEVEL.get(c, "other"),
                   "level_note": props.NOTE})
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; assert sys.version_info >= (3, 11)'", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "Pure-Python static analyser (standard library only) in sa/; reads /repo's source on every run. See DESIGN.md."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
