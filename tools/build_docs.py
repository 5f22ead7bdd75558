#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from the META of props/*.py."""
import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def literal(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign):
            t = node.targets[0]
            if isinstance(t, ast.Name) and t.id == "META":
                out["META"] = {k.arg: ast.literal_eval(k.value) for k in node.value.keywords}
            elif isinstance(t, ast.Name) and t.id in ("RULE", "ASSUMPTIONS"):
                out[t.id] = ast.literal_eval(node.value)
            elif isinstance(t, ast.Tuple) and t.elts[0].id == "PROPERTY":
                out["PROPERTY"], out["LEVEL"] = ast.literal_eval(node.value)
    return out


props, checks = [], []
for p in sorted(glob.glob(os.path.join(HERE, "props", "p*.py"))):
    d = literal(p)
    m, pid = d["META"], d["PROPERTY"]
    assert len(m["title"]) <= 80, (pid, len(m["title"]))
    st = m["statement"].strip()
    props.append(dict(
        id=pid, title=m["title"], statement=st,
        quantifier=dict(over=m["over"], text=m["quantifier"]),
        why_tests_cant=m["why"],
        anchors=dict(files=m["files"],
                     mechanism=[dict(name=a, where=b) for a, b in m["mechanism"]],
                     hook_needed=None)))
    note = m.get("note") or (
        "Every violation is an execution of the real code; no violation means none on the "
        "executions listed in the evidence file, not a proof. ")
    if d.get("ASSUMPTIONS"):
        note = note.rstrip() + " Assumes: " + "; ".join(d["ASSUMPTIONS"])
    checks.append(dict(
        property=pid, quick_cmd=f"./run.sh {pid} quick", thorough_cmd=f"./run.sh {pid} thorough",
        technique=m.get("technique", "runtime monitoring: generated and hostile workloads on the "
                                     "real code, verdict by an independent reference oracle"),
        level="exploration", level_note=note.strip()))
na = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
for n in na:
    props.append(n["entry"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(props, key=lambda x: x["id"]):
        f.write(json.dumps(p) + "\n")
man = dict(
    version=1,
    setup_cmd="./setup.sh",
    checks=checks,
    not_applicable=[dict(property=n["entry"]["id"], reason=n["reason"]) for n in na],
    notes="No hooks in /repo: monitors are attached from outside by wrapping public classes and "
          "functions, so there is nothing to guard. See DESIGN.md.",
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
try:
    import jsonschema
except ImportError:
    sys.exit(0)
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props:
    jsonschema.validate(p, sch)
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(props), "properties,", len(checks), "checks: valid")
