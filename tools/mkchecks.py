#!/usr/bin/env python3
"""Writes checks.json (what the engine runs per property) and MANIFEST.json."""
import itertools
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {}
NOTES = {}


def grid(*axes):
    return [list(p) for p in itertools.product(*axes)]


def run(h, params=None, bounds="", **kw):
    e = {"h": h, "params": params if params is not None else [[]], "bounds": bounds}
    e.update(kw)
    return e


def check(pid, quick, thorough=(), assumptions=(), outside="", note=""):
    CHECKS[pid] = {"quick": list(quick), "thorough": list(thorough), "assumptions": list(assumptions), "outside": outside}
    NOTES[pid] = note


KINDS = range(11)
UTF8 = "texts are valid UTF-8"

exec(open(os.path.join(HERE, "tools", "checks.py")).read())

with open(os.path.join(HERE, "checks.json"), "w") as f:
    f.write("{\n" + ",\n".join('"%s": %s' % (k, json.dumps(v)) for k, v in sorted(CHECKS.items())) + "\n}\n")

manifest = {
    "version": 1,
    "setup_cmd": "./check build",
    "checks": [
        {
            "property": k,
            "quick_cmd": "./check %s quick" % k,
            "thorough_cmd": "./check %s thorough" % k,
            "evidence_file": "evidence/%s.json" % k,
            "technique": "symbolic execution of the Go SSA of /repo with SMT-decided assertions (z3), counterexamples replayed natively",
            "level": "model_checking",
            "level_note": NOTES[k] or "bounded: every value within the sizes listed in the evidence",
        }
        for k in sorted(CHECKS)
    ],
    "not_applicable": [],
    "notes": "see DESIGN.md",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
