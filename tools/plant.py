#!/opt/venv/bin/python
"""
plant.py [id ...]: writes /verif/seeded/<id>/ from tools/plants/*.py after confirming in a scratch copy of /repo that the change applies, passes the stable tests,
and that the demonstration passes without it and fails with it; then runs the property's check on the changed copy and records nothing (the result is printed).
plant.py -c [id ...]: only the checks
"""
import json
import os
import shutil
import subprocess as sp
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))


def stable():
    for k in ("passed", "tests", "stable"):
        if k in BASE:
            return BASE[k]
    return BASE


def load():
    ns = {"BUGS": []}
    d = os.path.join(HERE, "plants")
    for f in sorted(os.listdir(d)):
        exec(compile(open(os.path.join(d, f)).read(), f, "exec"), ns)
    return {b["id"]: b for b in ns["BUGS"]}


def env(copy):
    e = dict(os.environ, PYTHONPATH=copy + "/src", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", HOME="/root", TZ="UTC", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    return e


def run(cmd, **k):
    return sp.run(cmd, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, **k)


def one(b, checks_only=False):
    i = b["id"]
    copy = f"/tmp/plant-{i}"
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree("/repo", copy, symlinks=True)
    msg = []
    try:
        out = f"/verif/seeded/{i}"
        if checks_only:
            r = run(["git", "-C", copy, "apply", out + "/patch.diff"])
            if r.returncode:
                return i, "patch does not apply"
        else:
            for f, old, new in b["edits"]:
                p = f"{copy}/src/georinex/{f}"
                s = open(p).read()
                if s.count(old) != b.get("count", 1):
                    return i, f"text found {s.count(old)} times in {f}"
                open(p, "w").write(s.replace(old, new))
            diff = run(["git", "-C", copy, "diff"]).stdout
            new = f"/tmp/plantout-{i}"
            shutil.rmtree(new, ignore_errors=True)
            os.makedirs(new)
            open(new + "/patch.diff", "w").write(diff)
            shutil.copy(HERE + "/mk.py", new + "/mk.py")
            open(new + "/demo.py", "w").write("from mk import *\n\n" + b["demo"].lstrip("\n"))
            open(new + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(new + "/meta.json", "w"), indent=1)
            r = run(["bash", new + "/demo.sh"], env=env("/repo"), cwd="/repo")
            if r.returncode:
                return i, "demo fails on the clean tree: " + r.stdout[-600:]
            r = run(["bash", new + "/demo.sh"], env=env(copy), cwd=copy)
            if r.returncode == 0:
                return i, "demo passes with the change"
            msg.append("demo: " + (r.stdout.strip().splitlines() or [""])[-1][:100])
            r = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "3", "--timeout=300", "--disable-warnings", "-o", "junit_family=xunit2",
                     f"--junitxml=/tmp/plant-{i}.xml", "src/georinex/tests"], env=env(copy), cwd=copy)
            res = json.loads(run(["python3", "-c", "import sys,json,xml.etree.ElementTree as E\nr={}\nfor c in E.parse(sys.argv[1]).iter('testcase'):\n r[c.get('classname')+'::'+c.get('name')]=not any(c.find(k) is not None for k in ('failure','error','skipped'))\nprint(json.dumps(r))", f"/tmp/plant-{i}.xml"]).stdout)
            bad = [t for t, ok in res.items() if not ok and t in CLEAN]
            if bad or len(res) < len(CLEAN):
                return i, f"tests fail: {bad[:4]}"
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(new, out)
            shutil.rmtree(new)
        props = b.get("checks", [b["prop"]])
        for p in props:
            e = dict(os.environ, SYMX_REPO=copy, SYMX_OUT=f"/tmp/plant-ev-{i}", VERIF_SEED="1")
            os.makedirs(f"/tmp/plant-ev-{i}", exist_ok=True)
            r = run([PY, "/verif/run.py", p, "quick"], env=e, cwd="/verif")
            msg.append(f"{p}: {'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout else 'missed rc=' + str(r.returncode)} " + " | ".join(r.stdout.strip().splitlines()[1:4])[:160])
        return i, "; ".join(msg)
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(f"/tmp/plant-ev-{i}", ignore_errors=True)
        if os.path.exists(f"/tmp/plant-{i}.xml"):
            os.unlink(f"/tmp/plant-{i}.xml")


def clean():
    p = "/tmp/plant-clean.json"
    head = run(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()
    if os.path.exists(p):
        d = json.load(open(p))
        if d["head"] == head:
            return set(d["ok"])
    r = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "6", "--timeout=300", "--disable-warnings", "-o", "junit_family=xunit2", "--junitxml=/tmp/plant-clean.xml",
             "src/georinex/tests"], env=env("/repo"), cwd="/repo")
    import xml.etree.ElementTree as E

    ok = [c.get("classname") + "::" + c.get("name") for c in E.parse("/tmp/plant-clean.xml").iter("testcase") if not any(c.find(k) is not None for k in ("failure", "error", "skipped"))]
    json.dump({"head": head, "ok": ok}, open(p, "w"))
    return set(ok)


if __name__ == "__main__":
    a = sys.argv[1:]
    co = bool(a) and a[0] == "-c"
    if co:
        a = a[1:]
    bugs = load()
    if co:
        for d in sorted(os.listdir("/verif/seeded")):
            if d not in bugs and os.path.exists(f"/verif/seeded/{d}/meta.json"):
                bugs[d] = {"id": d, "prop": json.load(open(f"/verif/seeded/{d}/meta.json"))["property"]}
    todo = [bugs[x] for x in a] if a else [b for b in bugs.values() if co == os.path.exists("/verif/seeded/" + b["id"])]
    if not co:
        CLEAN = clean()
        print(len(CLEAN), "tests pass on the clean tree")
    with ThreadPoolExecutor(2) as ex:
        for i, m in ex.map(lambda b: one(b, co), todo):
            print(f"{i}: {m}", flush=True)
