#!/usr/bin/env python3
"""Regenerate /verif/MANIFEST.json from properties.jsonl and the existing checks."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
TECH = {
    "P09": "runtime monitoring: threaded stress with forced preemption; offline comparison of every thread's event log with its sequential run",
    "P15": "sanitizers: AddressSanitizer+UBSan builds of the native extensions driven by hostile argument workloads; guard-pattern monitors on output arrays",
}
DEFAULT = "runtime monitoring: randomised/hostile workloads on the real code, every call observed by an independent reference-model oracle"
OTHER = {
    "P01": "runtime monitoring: every layer's forward/callback executions observed by a finite-difference (float64) gradient oracle",
    "P02": "runtime monitoring: random compositions executed and compared with an executable model composing the layers' own outputs, plus finite-difference oracle",
    "P03": "runtime monitoring: recording optimizer and gradient ledger (conservation / exactly-once over the recorded event log)",
    "P04": "runtime monitoring: digest monitor over all live arrays at every call boundary, replay of predictions after arbitrary histories",
    "P05": "runtime monitoring: save/load histories observed by a state-snapshot oracle and an aliasing monitor",
    "P06": "runtime monitoring: copy histories observed by a snapshot oracle, aliasing and id-uniqueness monitors",
    "P07": "runtime monitoring: state snapshots at entry/exit of nested blocks with injected exceptions",
    "P08": "runtime monitoring: random graph-edit histories against an executable graph model; invariants checked after each step",
    "P10": "runtime monitoring: update histories against an executable float64 reference optimizer per key",
    "P11": "runtime monitoring: training histories with a shadow moving average per key; aliasing monitor",
    "P12": "runtime monitoring: schedule evaluation histories against independent formulas",
    "P23": "runtime monitoring: differential execution of config-built and code-built objects, round-trip oracle on configurations",
    "P29": "runtime monitoring: recorded training histories replayed in the same and in fresh processes, bit-compared; distribution statistics on initialisers",
    "P31": "runtime monitoring: real mypy runs with the plugin over generated programs, every report compared with an independent type-compatibility oracle",
}
NA = {}


def main():
    props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if (V / "checks" / f"{pid.lower()}.py").exists():
            checks.append({
                "property": pid,
                "quick_cmd": f"python3 run.py {pid}",
                "thorough_cmd": f"python3 run.py {pid} --tier thorough",
                "technique": TECH.get(pid) or OTHER.get(pid) or DEFAULT,
                "level": "exploration",
                "level_note": "held on the executions driven (counts in the evidence file); says nothing about inputs the workload generators do not reach",
            })
        else:
            na.append({"property": pid, "reason": NA.get(pid, "check under construction; not claimed yet")})
    m = {"version": 1, "setup_cmd": "python3 vlib/build.py", "checks": checks, "not_applicable": na}
    (V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
    print(len(checks), "claimed,", len(na), "not claimed")


main()
