#!/usr/bin/env python3
"""run.py PID [--replay FILE] [--tier quick|thorough]: run one property's check."""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF))
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
from vlib import build  # noqa: E402

EVID = VERIF / "evidence"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "6")))
    ap.add_argument("--shard", help=argparse.SUPPRESS)
    ap.add_argument("--out", help=argparse.SUPPRESS)
    ap.add_argument("--only", help=argparse.SUPPRESS)
    a = ap.parse_args()
    pid = a.pid.upper()
    if a.shard:
        from vlib import core

        k, n = map(int, a.shard.split("/"))
        only = json.loads(a.only) if a.only else None
        core.run_shard(pid, a.tier, a.seed, k, n, a.out, only)
        return 0
    t0 = time.time()
    only = None
    if a.replay:
        r = json.loads(Path(a.replay).read_text())
        a.seed, a.tier, only = r["seed"], r["tier"], [r["group"], r["index"]]
    try:
        rebuilt = build.ensure_built()
    except Exception as e:
        print(f"INCONCLUSIVE property={pid}: cannot build the tree: {e}")
        return 2
    EVID.mkdir(exist_ok=True)
    tmp = Path(tempfile.mkdtemp(prefix=f"verif-{pid}-"))
    try:
        return drive(pid, a, only, tmp, t0, rebuilt)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def drive(pid, a, only, tmp, t0, rebuilt):
    env = build.clean_env()
    env["TMPDIR"] = str(tmp)
    env["VERIF_SCRATCH"] = str(tmp)
    env.setdefault("VERIF_SHARD_S", "420" if a.tier == "quick" else "5400")
    pre = VERIF / "checks" / f"{pid.lower()}_setup.py"
    info = {}
    if pre.exists():
        r = subprocess.run([sys.executable, str(pre), str(tmp)], env=env, stdout=subprocess.PIPE, text=True)
        if r.returncode != 0:
            print(r.stdout)
            print(f"INCONCLUSIVE property={pid}: preparation failed")
            return 2
        info = json.loads(r.stdout.strip().splitlines()[-1])
        env.update(info.get("env", {}))
    n = 1 if only else a.jobs
    procs = []
    for k in range(n):
        out = tmp / f"shard{k}.json"
        cmd = [build.PY, str(VERIF / "run.py"), pid, "--shard", f"{k}/{n}", "--out", str(out),
               "--tier", a.tier, "--seed", str(a.seed)]
        if only:
            cmd += ["--only", json.dumps(only)]
        err = open(tmp / f"shard{k}.err", "w")
        procs.append((k, out, subprocess.Popen(cmd, env=env, cwd=str(tmp), stdout=err, stderr=err)))
    limit = t0 + (800 if a.tier == "quick" else 7000)
    results, bad, crashes = [], [], []
    for k, out, p in procs:
        try:
            rc = p.wait(timeout=max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            bad.append(f"shard {k}: watchdog")
            continue
        log = (tmp / f"shard{k}.err").read_text(errors="replace")
        if os.environ.get("VERIF_PROF"):
            print(log[-3000:])
        if out.exists():
            results.append(json.loads(out.read_text()))
            if rc == 0:
                continue
        st = out.with_name(out.name + ".status")
        where = json.loads(st.read_text()) if st.exists() else None
        if where and (rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS, -signal.SIGILL)
                      or "ERROR: AddressSanitizer" in log or "runtime error:" in log):
            crashes.append(
                {"property": pid, "mechanism": crash_mech(log, rc), "message": f"process died (rc={rc})",
                 "group": where[0], "index": where[1], "seed": a.seed, "tier": a.tier, "data": {"log": log[-6000:]},
                 "case": None})
        elif not out.exists():
            bad.append(f"shard {k}: rc={rc}: {log[-3000:]}")
    return verdict(pid, a, only, results, bad, crashes, t0, rebuilt, info)


def crash_mech(log, rc):
    for line in log.splitlines():
        if "SUMMARY: AddressSanitizer" in line:
            return "asan:" + line.split("SUMMARY: AddressSanitizer:")[1].strip().split(" ")[0]
        if "runtime error:" in line:
            return "ubsan:" + line.split("runtime error:")[1].strip()[:60]
    return f"crash:rc{rc}"


def verdict(pid, a, only, results, bad, crashes, t0, rebuilt, info):
    from vlib.core import load_known

    def add(name):
        c = Counter()
        for r in results:
            c.update(r[name])
        return c

    cases, obs, notes = add("cases"), add("obs"), add("notes")
    known_hits, skips, nviol = add("known_hits"), add("skips"), add("nviol")
    evaluations = sum(r["evaluations"] for r in results)
    sigs = set()
    samples, viols, errors = [], list(crashes), []
    for r in results:
        sigs.update(r["sigs"])
        samples += r["samples"]
        viols += r["violations"]
        errors += r["errors"]
    known = load_known(pid)
    viols = [v for v in viols if v["mechanism"] not in known] 
    groups = {g: m for r in results for g, m in r["groups"]}
    unreached = [] if only else [g for g, m in groups.items() if obs.get(g, 0) < m]
    rdir = EVID / "replays"
    code = 0
    if viols:
        rdir.mkdir(exist_ok=True)
        seen = set()
        for v in viols:
            if v["mechanism"] in seen:
                continue
            seen.add(v["mechanism"])
            name = "".join(c if c.isalnum() else "_" for c in v["mechanism"])[:60]
            path = rdir / f"{pid}-{name}.json"
            path.write_text(json.dumps(v, indent=1))
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  mechanism={v['mechanism']} group={v['group']}[{v['index']}] n={nviol.get(v['mechanism'], 1)}")
            print("  " + str(v["message"])[:600].replace("\n", "\n  "))
        code = 1
    elif bad or errors or unreached or not results:
        code = 2
        print(f"INCONCLUSIVE property={pid}")
        for b in (bad + errors)[:5]:
            print("  " + b.replace("\n", "\n  "))
        if unreached:
            print(f"  monitors not reached: {unreached}")
    for mech, what in sorted(known.items()):
        print(f"KNOWN-FINDING: property={pid} {what} [{mech}; seen {known_hits.get(mech, 0)}x this run]")
    wall = time.time() - t0
    if not only:
        ev = {
            "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(sigs),
                "rule": results[0]["rule"] if results else "no shard finished",
                "samples": samples[:12],
                "cases_per_group": dict(sorted(cases.items())),
                "observations_per_monitor": dict(sorted(obs.items())),
                "events_seen": dict(sorted(notes.items())),
                "skipped": dict(sorted(skips.items())),
                "known_finding_hits": dict(known_hits),
                "outcome": {0: "held on everything explored", 1: "violated", 2: "inconclusive"}[code],
                "rebuilt_extensions": rebuilt,
                **info.get("coverage", {}),
            },
            "wall_s": round(wall, 2),
            "violations": sum(nviol.values()) + len(crashes),
            "assumptions": results[0]["assumptions"] if results else [],
        }
        (EVID / f"{pid}.json").write_text(json.dumps(ev, indent=1))
    print(f"{pid} {a.tier} seed={a.seed}: {evaluations} oracle evaluations over {sum(cases.values())} cases, "
          f"{len(sigs)} distinct, {len(viols)} violations, {wall:.1f}s -> exit {code}")
    return code


if __name__ == "__main__":
    sys.exit(main())
