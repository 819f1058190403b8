#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py."""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import catalog

have = {f[:-3] for f in os.listdir(os.path.join(HERE, "checks"))}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in catalog.P:
        f.write(json.dumps(x["prop"], ensure_ascii=False) + "\n")
checks, na = [], []
for x in catalog.P:
    if x["id"] in have:
        checks.append(dict(property=x["id"], quick_cmd=f"python3 harness/run.py {x['id']}",
                           thorough_cmd=f"VERIF_TIER=thorough python3 harness/run.py {x['id']}",
                           technique=x["technique"], level=x["level"], level_note=x["note"]))
    else:
        na.append(dict(property=x["id"], reason=getattr(catalog, "NA", {}).get(x["id"], "check not built yet")))
m = dict(version=1, setup_cmd="python3 harness/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in the repository: every monitor observes public interfaces, stored state and stand-in libraries.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")


def consts(path):
    import ast
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ("RULE", "ASSUME", "REQUIRE", "CASES"):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                out[n.targets[0].id] = [(e.elts[0].value,) + tuple(x.value for x in e.elts[2:4] if isinstance(x, ast.Constant)) for e in n.value.elts] if n.targets[0].id == "CASES" and isinstance(n.value, ast.List) else None
    return out


def between(text, name, body):
    a, b = f"<!-- {name} -->\n", f"<!-- /{name} -->"
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + body + text[j:]


body = ""
for x in catalog.P:
    q = x["prop"]
    body += f"### {x['id']} {q['title']}\n\n"
    if x["id"] in have:
        c = consts(os.path.join(HERE, "checks", x["id"] + ".py"))
        body += f"* Decided by: {x['technique']} (level: {x['level']}). {x['note']}\n"
        if c.get("RULE"):
            body += f"* Workload: {c['RULE']}.\n"
        if c.get("CASES"):
            body += "* Cases quick/thorough: " + ", ".join(f"{k[0]} {'/'.join(map(str, k[1:]))}" for k in c["CASES"]) + "\n"
        body += f"* Observed: {', '.join(q['anchors']['observe_at'])}; {len(c.get('REQUIRE') or [])} counters must be non-zero.\n"
        if c.get("ASSUME"):
            body += f"* Not judged: {'; '.join(c['ASSUME'])}.\n"
        body += f"* Beyond tests: {q['why_tests_cant']}\n\n"
    else:
        body += "Not claimed.\n\n"
d = os.path.join(V, "DESIGN.md")
text = open(d).read()
text = between(text, "properties", body)
rows = "| planted bug | property | needs | check |\n|---|---|---|---|\n"
seeds = os.path.join(V, "seeded")
caught = json.load(open(os.path.join(HERE, "plants.json"))) if os.path.exists(os.path.join(HERE, "plants.json")) else {}
for s in sorted(os.listdir(seeds)):
    mf = os.path.join(seeds, s, "meta.json")
    if os.path.exists(mf):
        k = json.load(open(mf))
        rows += f"| {s} | {k['property']} | {k['needs']} | {caught.get(s, '')} |\n"
text = between(text, "plants", rows)
open(d, "w").write(text)
print(len(checks), "checks", len(na), "not claimed")
