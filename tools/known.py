#!/usr/bin/env python3
"""Write known_findings.json: the open findings below, and the log of repairs
taken from the "fix:" commits in /repo (documentation only: a "fixed" line
suppresses nothing).  Run by hand, never by a check."""
import json
import subprocess
from pathlib import Path

V = Path(__file__).resolve().parent.parent
FINDINGS = json.loads((V / "tools" / "open_findings.json").read_text())
PROPS = json.loads((V / "tools" / "fixed_props.json").read_text())
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    if s not in PROPS:
        print("no property for:", s)
        continue
    for p in PROPS[s].split("/"):
        fixed.append(f"fixed: property={p} {h} {s}")
(V / "known_findings.json").write_text(json.dumps({"findings": FINDINGS, "fixed": fixed}, indent=1) + "\n")
print(len(FINDINGS), "open,", len(fixed), "fixed")
