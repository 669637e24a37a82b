"""Writes MANIFEST.json from vf/run.py's list of claimed properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf import run
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in run.MODULES:
        t = TECH[i]
        checks.append({"property": i, "quick_cmd": "python3 vf/run.py %s --tier quick" % i,
                       "thorough_cmd": "python3 vf/run.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t[0], "level": "model_checking",
                       "level_note": t[1]})
    else:
        na.append({"property": i, "reason": "not claimed yet: its specification is being written"})
m = {"version": 1, "setup_cmd": "python3 vf/run.py setup",
     "hooks": {"guard": "none", "enable": "the checks use the public interface of the crates; /repo has no hook", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, conformance driver in harness/, stand-ins of the unavailable crates in deps/. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
