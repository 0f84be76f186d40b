#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
B = "blueprint/src/python/"
TECH = "symbolic execution of the library's own Python code + SMT (z3), counterexamples replayed"
NOTE0 = ("Every path of the real Python functions within the stated bounds is executed on symbolic rationals and the "
         "assertion decided by z3 for all values on the path; counterexamples are reported only after replay on the "
         "unmodified library. ")
PROPS = []
NA = []


def prop(id, title, statement, over, text, why, mech, note, files=None, kf=False):
    files = files or sorted({m[1].split(":")[0] for m in mech})
    PROPS.append((dict(id=id, title=title, statement=statement,
                       quantifier=dict(over=over, text=text), why_tests_cant=why,
                       anchors=dict(files=[B + f if "/" not in f or f.startswith("helpers/") else f for f in files],
                                    mechanism=[dict(name=n, where=(B + w if not w.startswith("blueprint/") else w)) for n, w in mech])), note))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _ in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
na = {n[0] for n in NA}
checks = []
for p, note in PROPS:
    if p["id"] in na:
        continue
    if not os.path.exists(os.path.join(ROOT, "checks", p["id"] + ".py")):
        NA.append((p["id"], "no check registered yet"))
        continue
    checks.append(dict(property=p["id"],
                       quick_cmd=f"{PY} run_check.py {p['id']} --tier quick",
                       thorough_cmd=f"{PY} run_check.py {p['id']} --tier thorough",
                       technique=TECH, level="model_checking", level_note=NOTE0 + note))
m = dict(version=1, setup_cmd=f"{PY} run_check.py --selftest", checks=checks,
         not_applicable=[dict(property=a, reason=b) for a, b in NA],
         notes="No hooks in /repo: the checks import the library from /repo's working tree on every run.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")


# ---------------------------------------------------------------- DESIGN.md
import ast
ns = {}
exec(open(os.path.join(ROOT, "tools", "design_props.py")).read(), ns)


def const(pid, name):
    for n in ast.parse(open(os.path.join(ROOT, "checks", pid + ".py")).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == name:
            return ast.literal_eval(n.value)


out = ["## The properties and how each is decided", ""]
for p, _ in PROPS:
    i = p["id"]
    method, oracle, cost, why = ns["P"][i]
    out += [f"### {i} {p['title']}", "", f"*Executed symbolically:* {method}", "", f"*Oracle:* {oracle}", "", f"*Bounds:* {const(i, 'BOUNDS')}.", ""]
    out += ["*Assumptions:* " + "; ".join(const(i, "ASSUMPTIONS") or ["none"]) + ".", "",
            f"*Cost (quick):* {cost}. *Beyond tests:* {why}.", ""]
for a, b in NA:
    out += [f"### {a}: not applicable", "", b, ""]
KF = [l.strip() for l in open(os.path.join(ROOT, "KNOWN_FINDINGS")) if l.startswith(("finding:", "fixed:"))]
defects = ["Recorded, not repaired (`KNOWN_FINDINGS`):", ""] + ["* " + l[9:] for l in KF if l.startswith("finding:")]
defects += ["", "Repaired (one `fix:` commit each in /repo):", ""] + ["* " + l[7:] for l in KF if l.startswith("fixed:")]
seeds = ["| id | property | what it breaks | needs |", "|---|---|---|---|"]
sd = os.path.join(ROOT, "seeded")
if os.path.isdir(sd):
    for s in sorted(os.listdir(sd)):
        j = json.load(open(os.path.join(sd, s, "meta.json")))
        seeds.append(f"| {s} | {j['property']} | {j['what_it_breaks']} | {j['needs']} |")
    h = open(os.path.join(ROOT, "tools", "design_head.md")).read()
    h = h.replace("@@PROPS@@", "\n".join(out)).replace("@@DEFECTS@@", "\n".join(defects)).replace("@@SEEDS@@", "\n".join(seeds))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(h)
