#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (the committed file is this script's output)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
ENUM = "stateless model checking: exhaustive enumeration of bounded inputs on the real code against a reference model"
HIST = "explicit-state exploration of every bounded operation history, replayed on the real code against a state-machine model"
C = {}
def c(id, technique, note): C[id] = (technique, note)
exec(open(here + "/tools/checks.py").read())
m = dict(version=1,
  setup_cmd="./setup.sh",
  hooks=dict(guard="none", enable="no hooks are compiled into /repo: instrumentation is generated from its working tree at check time and laid over it with go build -overlay", source_commits=[]),
  checks=[dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}", evidence_file=f"evidence/{i}.json",
               technique=C[i][0], level="model_checking", level_note=C[i][1]) for i in ids if i in C],
  not_applicable=[dict(property=i, reason="check not built yet") for i in ids if i not in C])
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
