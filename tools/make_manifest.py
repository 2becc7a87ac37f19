#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from table.py for the modules present."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from table import NOT_APPLICABLE, P  # noqa: E402

have = {
    f.split("_")[0].upper()
    for f in os.listdir(os.path.join(VERIF, "harness", "props"))
    if f.endswith(".py") and not f.startswith("__")
}
with open(os.path.join(VERIF, "harness", "effort.json")) as fp:
    effort = json.load(fp)
lines, checks, missing = [], [], []
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p["state"]:
        anchors["state"] = p["state"]
    if p["observe"]:
        anchors["observe_at"] = p["observe"]
    anchors["hook_needed"] = None
    lines.append(
        {
            "id": p["id"],
            "title": p["title"],
            "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["tests"],
            "anchors": anchors,
        }
    )
    if p["id"] in have:
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": f"./harness/run.py {p['id']}",
                "thorough_cmd": f"VERIF_TIER=thorough ./harness/run.py {p['id']}",
                "technique": "property-based testing (Hypothesis): " + p["level"],
                "level": "exploration",
                "level_note": "Random generated cases, no exhaustive bound; counts and samples are in the evidence file.",
            }
        )
    else:
        missing.append(
            {
                "property": p["id"],
                "reason": NOT_APPLICABLE.get(p["id"], "check not built yet"),
            }
        )
with open(os.path.join(VERIF, "properties.jsonl"), "w") as fp:
    for l in lines:
        fp.write(json.dumps(l) + "\n")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fp:
    json.dump(
        {
            "version": 1,
            "setup_cmd": "./harness/setup.sh",
            "checks": checks,
            "not_applicable": missing,
            "notes": "All checks run the project's Python sources from /repo/src directly (nothing is compiled); no hooks.",
        },
        fp,
        indent=1,
    )
    fp.write("\n")
import importlib.util  # noqa: E402

print(len(lines), "properties,", len(checks), "checks,", [m["property"] for m in missing])
import ast  # noqa: E402
import re  # noqa: E402

out = []
for p in P:
    files = [f for f in sorted(os.listdir(os.path.join(VERIF, "harness", "props"))) if f.lower().startswith(p["id"].lower() + "_")]
    if not files:
        continue
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"Technique: {p['level']}. Module `harness/props/{files[0]}`.\n")
    tree = ast.parse(open(os.path.join(VERIF, "harness", "props", files[0])).read())
    doc = ast.get_docstring(tree)
    rest = doc.split("\n", 1)[1].strip() if doc and "\n" in doc else ""
    if rest:
        out.append(rest + "\n")
    for node in tree.body:
        if isinstance(node, ast.FunctionDef):
            for d in node.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "attr", "") == "sub":
                    kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords if k.arg in ("quick", "thorough", "rule")}
                    quick = kw.get("quick", 400) * effort.get(p["id"], {}).get(node.name, 1)
                    quick = min(quick, max(kw.get("quick", 400), kw.get("thorough", 8000)))
                    out.append(f"* `{node.name}` ({quick} / {kw.get('thorough', 8000)} cases): {kw.get('rule', '')}")
    out.append("")
path = os.path.join(VERIF, "DESIGN.md")
text = open(path).read()
text = re.sub(r"<!-- begin checks -->.*<!-- end checks -->", lambda m: "<!-- begin checks -->\n" + "\n".join(out) + "\n<!-- end checks -->", text, flags=re.S)
open(path, "w").write(text)
