#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules present in props/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
tp = os.path.join(V, "tools", "techniques.json")
if os.path.exists(tp):
    TECH = json.load(open(tp))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "props", p.lower() + ".py")):
        t = TECH.get(p, {})
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": t.get("technique", "property-based testing (Hypothesis) against a naive reference model"),
                       "level": "exploration",
                       "level_note": t.get("note", "Generated-input search with shrinking against independent naive oracles; nothing is proved outside the generated cases. Trusts the oracle code under props/ and numpy.")})
    else:
        na.append({"property": p, "reason": "No check built yet for this property (work in progress)."})
m = {"version": 1, "setup_cmd": "python3 vlib/build.py && python3 vlib/build.py --asan && python3 vlib/build.py --native",
     "hooks": {"guard": "HG_VERIF_HOOKS", "enable": "no hook is needed: the checks observe the public API of an unmodified build; the guard name is reserved and unused", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks use check.py (see DESIGN.md); each rebuilds /repo/_build (or .build/asan for P26) when the sources changed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
