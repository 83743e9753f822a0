#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import json, re, glob, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
have = set()
for f in glob.glob("harness/h/*.go"):
    have |= set(re.findall(r"^func ([A-Z]\d\d)_", open(f).read(), re.M))
notes = json.load(open("tools/notes.json"))
checks, na = [], []
for l in open("properties.jsonl"):
    p = json.loads(l)["id"]
    if p in have:
        checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
            "technique": "symbolic execution of the Go SSA of the real code, path conditions and assertions decided by z3, counterexamples replayed on the real build",
            "level": "model_checking", "level_note": notes["level"].get(p, "bounded: holds for every input within the bounds stated per harness in the evidence file")})
    else:
        na.append({"property": p, "reason": notes["na"].get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks are needed: harnesses enter through a build overlay", "source_commits": []},
     "notes": "See DESIGN.md. Replay a counterexample with ./replay.sh evidence/replay-<id>-<n>.json"}
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
