#!/usr/bin/env python3
"""Write DESIGN.md from design_head.md, the checks and the tables."""
import ast
import json
import re
from pathlib import Path

V = Path(__file__).resolve().parent.parent
T = V / "tools"


def describe(path):
    tree = ast.parse(path.read_text())
    doc = ast.get_docstring(tree) or ""
    groups, assume = [], []
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "group":
                    text = " ".join((ast.get_docstring(n) or "").split())
                    groups.append((n.name, text))
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS":
            assume = ast.literal_eval(n.value)
    return doc, groups, assume


def main():
    out = [(T / "design_head.md").read_text(), "## The properties and how each is decided\n"]
    notes = json.loads((T / "design_notes.json").read_text())
    cost = json.loads((T / "cost.json").read_text()) if (T / "cost.json").exists() else {}
    caught = json.loads((T / "caught.json").read_text())
    for line in (V / "properties.jsonl").read_text().splitlines():
        p = json.loads(line)
        pid = p["id"]
        doc, groups, assume = describe(V / "checks" / f"{pid.lower()}.py")
        doc = re.sub(r"^P\d\d: [^\n]*\n+", "", doc)
        out.append(f"### {pid} {p['title']}\n")
        out.append(doc.strip() + "\n")
        if groups:
            out.append("Groups: " + "; ".join(f"`{n}`" + (f" ({t.rstrip('.,')})" if t else "") for n, t in groups) + ".\n")
        out.append(f"Range: {p['quantifier']['text']}. Beyond the tests: {p['why_tests_cant']}\n")
        for k in notes.get(pid, []):
            out.append(f"* {k}")
        for a in assume:
            out.append(f"* assumes: {a}")
        if pid in cost:
            out.append(f"* cost: {cost[pid]}")
        seeds = [s for s, c in caught.items() if pid in c]
        if seeds:
            out.append("* planted bugs caught: " + ", ".join(sorted(seeds)))
        out.append("")
    out.append((T / "design_tail.md").read_text())
    out.append("## Genuine defects left as known findings\n")
    for f in json.loads((T / "open_findings.json").read_text()):
        out.append(f"* **{f['property']}** `{f['mechanism']}`: {f['what_fails']}.")
    fixed = json.loads((V / "known_findings.json").read_text())["fixed"]
    n = len({x.split()[2] for x in fixed})
    out.append(f"\n## Genuine defects repaired ({n} commits in /repo)\n")
    for f in fixed:
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f)
        out.append(f"* {m[1]} {m[2]}: {m[3]}")
    out.append("\n## Planted bugs (seeded/) and what catches them\n")
    for d in sorted((V / "seeded").iterdir()):
        m = json.loads((d / "meta.json").read_text())
        out.append(f"* `{d.name}` ({m['property']}): {m['what_it_breaks'].rstrip('.')}. Needs: {m['needs'].rstrip('.')}. Caught by: {', '.join(caught.get(d.name, ['?']))}.")
    (V / "DESIGN.md").write_text("\n".join(out) + "\n")


main()
