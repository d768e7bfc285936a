"""Writes MANIFEST.json: every property with a committed check module is claimed, the rest are listed with a reason."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REASON = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    mod = os.path.join(HERE, "checks", p["id"].lower() + ".py")
    if not os.path.exists(mod):
        na.append(dict(property=p["id"], reason=REASON.get(p["id"], "no sound generated-input check has been built for it yet")))
        continue
    tree = ast.parse(open(mod).read())
    const = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                const[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    doc = (ast.get_docstring(tree) or "").split(":", 1)[-1].strip()
    note = "Generated-input search; nothing is proved beyond the cases run. Assumes: " + ("; ".join(const.get("ASSUMPTIONS", [])) or "nothing beyond the generator's bounds") + "."
    checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']}", thorough_cmd=f"./check {p['id']} --tier thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique="property-based testing (Hypothesis): " + doc.rstrip("."),
                       level="exploration", level_note=note))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="All checks are Hypothesis-driven (see DESIGN.md). Known findings: known_findings.json."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not claimed")
