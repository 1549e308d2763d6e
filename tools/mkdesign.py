#!/opt/venv/bin/python
"""Writes /verif/DESIGN.md."""
import glob
import importlib
import json
import os
import runpy
import sys
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, V)
sys.dont_write_bytecode = True
O = runpy.run_path(HERE + "/design/oracles.py")["O"]
out = [open(HERE + "/design/head.md").read().rstrip() + "\n"]
fill = lambda s, ind="  ": textwrap.fill(" ".join(str(s).split()), 118, subsequent_indent=ind)  # noqa: E731
by = {}
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(p))
    by.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(p)), d))
known = [ln.strip() for ln in open(V + "/known_findings.txt") if ln.strip()]
for ln in open(V + "/properties.jsonl"):
    d = json.loads(ln)
    i = d["id"]
    out.append(f"### {i} {d['title']}\n")
    if not os.path.exists(f"{V}/harness/{i.lower()}.py"):
        out.append("Not applicable, see section 2.\n")
        continue
    m = importlib.import_module("harness." + i.lower())
    ex, orc, why = O[i]
    out.append(fill("* *Executed*: " + ex + f" ({len(m.configs('quick'))} configurations quick, {len(m.configs('thorough'))} thorough)."))
    out.append(fill("* *Oracle*: " + orc + "."))
    out.append(fill("* *Bounds*: " + m.BOUNDS + "."))
    out.append(fill("* *Outside*: " + m.OUTSIDE + "."))
    for a in getattr(m, "ASSUMPTIONS", ()):
        out.append(fill("* *Assumed*: " + a + "."))
    out.append(fill("* *Reach*: " + why + "."))
    if i in by:
        out.append(fill("* *Planted bugs caught by this check*: " + ", ".join(k for k, _ in by[i]) + "."))
    out.append("")
out.append(open(HERE + "/design/tail.md").read().rstrip() + "\n")
out.append("## 6. Defects found in the original tree\n")
for k in known:
    kind, _, rest = k.partition(": ")
    out.append(fill(f"* {kind}: {rest}"))
out.append("\n## 7. Planted bugs (`seeded/`, made by `tools/plant.py` from `tools/plants/`)\n")
for i in sorted(by):
    for k, d in by[i]:
        out.append(fill(f"* `{k}` ({i}): {d['what_it_breaks']}. Needs: {d['needs']}."))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
print(len("\n".join(out).splitlines()), "lines")
