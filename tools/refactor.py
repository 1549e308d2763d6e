#!/opt/venv/bin/python
"""
refactor.py [ids]      apply each behaviour-preserving rewrite (tools/refactors/*.py) to a scratch copy of /repo and
                       run the related checks on it: every one must stay quiet and complete.
refactor.py -t         apply all compatible rewrites one by one and run the stable tests on each (slow)
"""
import glob
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
R = []


def ref(id, file, edits, props):
    R.append((id, file, edits, props.split()))


def main(a):
    tests = "-t" in a
    a = [x for x in a if x != "-t"]
    for p in sorted(glob.glob(HERE + "/refactors/*.py")):
        s = importlib.util.spec_from_file_location("r", p)
        m = importlib.util.module_from_spec(s)
        m.ref = ref
        s.loader.exec_module(m)
    cp = "/tmp/refactor_cp"
    shutil.rmtree(cp, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", cp], check=True)
    for id, file, edits, props in R:
        if a and id not in a and not any(x in props or x == file for x in a):
            continue
        p = f"{cp}/src/georinex/{file}"
        s0 = s = open(p).read()
        for old, new in edits:
            if s.count(old) != 1:
                print("EDIT", id, s.count(old), repr(old[:60]))
                break
            s = s.replace(old, new)
        else:
            open(p, "w").write(s)
            if tests:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "src/georinex/tests"], cwd=cp,
                                   env=dict(os.environ, PYTHONPATH=cp + "/src"), capture_output=True, text=True)
                print(id, "tests", r.returncode, r.stdout.strip().splitlines()[-1][:100], flush=True)
            else:
                for c in props:
                    r = subprocess.run(["/opt/venv/bin/python", V + "/run.py", c, "quick"], cwd=V, capture_output=True, text=True,
                                       env=dict(os.environ, SYMX_REPO=cp, SYMX_OUT="/tmp/refactor_out"))
                    L = r.stdout.splitlines()
                    inc = [x for x in L if "INCOMPLETE" in x]
                    bad = [x for x in L if "VIOLATION" in x or "ERROR" in x.upper()]
                    print(id, c, "rc", r.returncode, "incomplete", len(inc), (inc[0][:160] if inc else ""), (bad[0][:200] if bad else ""), flush=True)
        open(p, "w").write(s0)
    shutil.rmtree(cp, ignore_errors=True)


main(sys.argv[1:])
