#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the check tables."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from models import MODELS, PROPS
NOTES = json.load(open(f"{HERE}/tools/notes.json")) if os.path.exists(f"{HERE}/tools/notes.json") else {}
checks, na = [], []
for line in open(f"{HERE}/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if i in PROPS:
        mods = ", ".join(MODELS[m]["mc"] for m, *_ in PROPS[i])
        daemon = any(MODELS[m].get("bin") == "daemon" for m, *_ in PROPS[i])
        checks.append(dict(
            property=i, quick_cmd=f"python3 tools/check.py {i}", thorough_cmd=f"python3 tools/check.py {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique=f"TLA+ specification ({mods}) model-checked with TLC; every generated transition replayed in the real {'daemon' if daemon else 'contracts'}",
            level="model_checking",
            level_note=NOTES.get(i, ("The property's formulas hold on the whole state graph of the small models and on seeded random behaviours of large "
                       "ones, and the real daemon agrees with the specification on what it broadcasts, signs, persists and returns at every one of those "
                       "transitions. Assumes the stand-ins for the libraries that are missing offline (tonic, tendermint-rpc, cosmrs; see DESIGN.md) answer "
                       "as the real ones do.") if daemon else "The property's formulas hold on the whole state graph of the small models and on seeded random behaviours "
                       "of large ones, and the real contracts agree with the specification on outcome, outputs and observable state at every one "
                       "of those transitions. Assumes the simulated chain (cw-multi-test) executes and reverts messages as the real one does; "
                       "outside the listed constants it is random exploration.")))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, "not claimed yet: its specification module is still being written")))
m = dict(version=1, setup_cmd="python3 tools/check.py --setup",
         hooks=dict(guard="none", enable="No hooks: the harness links the unmodified contracts and uses only their wire messages, queries and events; the daemon is compiled from its unmodified sources against stand-ins for missing libraries.", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Specification language: TLA+ (TLC). See DESIGN.md.")
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
