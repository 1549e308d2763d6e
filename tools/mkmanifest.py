#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a harness."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "bounded symbolic execution of the package source with z3 (dynamic symbolic execution, all paths), counterexamples replayed"
NOTE = ("The current source is executed symbolically; within the stated bounds every explored path is decided by z3 for all values of its symbolic "
        "characters, numbers and times, and a violation is reported only if the unmodified package reproduces it. Trusted: the executor in symx/ (sampled by "
        "replays), z3, and that numpy/pandas/xarray containers move values without inspecting their digits.")
SPECIAL = {}
NA = {
    "C25": "the decompressors are the external libraries hatanaka (a compiled C program) and ncompress (C); no source of the package takes part, so there is no code of this repository to encode",
}


def main():
    props = [json.loads(ln)["id"] for ln in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        if os.path.exists(os.path.join(HERE, "harness", p.lower() + ".py")):
            checks.append({"property": p, "quick_cmd": f"/opt/venv/bin/python run.py {p} quick", "thorough_cmd": f"/opt/venv/bin/python run.py {p} thorough",
                           "evidence_file": f"evidence/{p}.json", "technique": TECH, "level": "other", "level_note": SPECIAL.get(p, NOTE)})
        else:
            na.append({"property": p, "reason": NA.get(p, "no check built yet")})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import numpy, xarray; import sys; sys.path.insert(0, '.'); import symx.core\"", "checks": checks,
         "not_applicable": na,
         "notes": "No hooks in /repo. Known and fixed defects: known_findings.txt. Replay of a counterexample: /opt/venv/bin/python run.py --replay <path>."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


main()
