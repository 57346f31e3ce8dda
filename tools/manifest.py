#!/usr/bin/env python3
"""Write MANIFEST.json from phases.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from phases import PHASES, RULES
checks = []
for p in sorted(PHASES):
    race = any(x["race"] for x in PHASES[p])
    checks.append(dict(
        property=p,
        quick_cmd="python3 tools/check.py %s" % p,
        thorough_cmd="python3 tools/check.py %s --thorough" % p,
        evidence_file="evidence/%s.json" % p,
        technique="runtime monitoring: " + ("reference-model and trace monitors, Go race detector" if race else "reference-model monitors") + " on generated workloads",
        level="exploration",
        level_note="Held on the executions run (" + RULES[p].split(";")[0] + "). "
                   "Says nothing about executions not produced. Trusts the oracles in harness/, the Go toolchain"
                   + (", the race detector" if race else "") + ".",
    ))
json.dump(dict(version=1,
               setup_cmd="python3 tools/setup.py",
               checks=checks, not_applicable=[],
               notes="No hooks in /repo: the harness is an external module that uses the public API and replaces module ustack by /repo. Seeds determine the case lists (VERIF_SEED)."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
