"""Runs the check of one property: `run.py C01 [--replay FILE] [--sub NAME] [--tier T]`.

Exit 0: held on everything explored. Exit 1: violated, with a VIOLATION line.
Exit 2: the check itself could not run.
"""

import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("PBT_REPO", "/repo"))  # set by the developer tools only
FAST = bool(os.environ.get("PBT_FAST"))  # stop at the first violation (developer tools)


X64 = ("C28", "C31")  # properties checked with 64-bit numbers enabled


def child_env(scratch: str, prop: str) -> dict:
    env = {
        k: v
        for k, v in os.environ.items()
        if not k.startswith(("JAX_", "XLA_", "ENABLE_APPROX", "DISABLE_APPROX", "PYTHON", "EQX_", "JAXTYPING", "HYPOTHESIS"))
    }
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONPATH=f"{VERIF}" if str(REPO) == "/repo" else f"{REPO}:{VERIF}",
        PBT_REPO=str(REPO),
        MPLBACKEND="Agg",
        MPLCONFIGDIR="/opt/venv/mpl",
        JAX_PLATFORMS="cpu",
        JAX_TRACEBACK_FILTERING="off",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        HYPOTHESIS_NO_PLUGINS="1",
        HYPOTHESIS_STORAGE_DIRECTORY=f"{scratch}/hypothesis",
        TMPDIR=scratch,
    )
    if prop in X64:
        env["JAX_ENABLE_X64"] = "1"
    return env


PRELUDE = "import sys; sys.path.append({deps!r}); sys.argv = sys.argv[1:]; import runpy; runpy.run_module('pbt.worker', run_name='__main__', alter_sys=False)"


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--sub", action="append")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    prop = a.property.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.monotonic()

    for d in (REPO / "differt2d").rglob("__pycache__"):
        shutil.rmtree(d, ignore_errors=True)

    scratch = tempfile.mkdtemp(prefix=f"pbt-{prop}-")
    try:
        return run(a, prop, seed, tier, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(a, prop, seed, tier, t0, scratch) -> int:
    env = child_env(scratch, prop)
    python = "/opt/venv/bin/python"
    prelude = PRELUDE.format(deps=str(VERIF / "deps"))
    findings = json.loads((VERIF / "known_findings.json").read_text())["findings"]
    known = {f["id"]: f for f in findings if f["status"] == "known" and f["property"] == prop}

    # Ask the module for its sub-checks (a cheap process, so that this one stays pure).
    code = (
        f"import sys; sys.path.append({str(VERIF / 'deps')!r}); import json, importlib; "
        f"m = importlib.import_module('pbt.{prop.lower()}'); "
        "print('SUBS ' + json.dumps([dict(name=s.name, quick=s.quick, thorough=s.thorough, shards=s.shards, weight=s.weight, fresh=s.fresh, more=s.more) for s in m.SUBS]))"
    )
    p = subprocess.run([python, "-c", code], env=env, cwd=scratch, capture_output=True, text=True)
    lines = [x for x in p.stdout.splitlines() if x.startswith("SUBS ")]
    if p.returncode or not lines:
        print(p.stdout[-2000:], p.stderr[-4000:], file=sys.stderr)
        print(f"ERROR property={prop} could not load the check", file=sys.stderr)
        return 2
    subs = json.loads(lines[0][5:])
    if a.sub:
        subs = [s for s in subs if s["name"] in a.sub]

    units = []
    if a.replay:
        r = json.loads(Path(a.replay).read_text())
        units.append({"sub": r["sub"], "case": r["case"], "origin": a.replay, "cost": 1.0})
    else:
        names = {s["name"] for s in subs}
        for f in sorted((VERIF / "corpus" / prop).glob("*.json")):
            r = json.loads(f.read_text())
            if r["sub"] in names:
                units.append({"sub": r["sub"], "case": r["case"], "origin": f.name, "cost": 1.0})
        for i, s in enumerate(subs):
            total = max(1, int(s[tier] * a.scale))
            shards = max(1, min(s["shards"] * (s["more"] if tier == "thorough" else 1), total, 256))
            for j in range(shards):
                n = total // shards + (1 if j < total % shards else 0)
                units.append(
                    {
                        "sub": s["name"],
                        "count": n,
                        "shard": j,
                        "seed": seed * 1_000_003 + i * 1009 + j,
                        "cost": n * s["weight"] + 20,
                    }
                )

    # Longest first onto the least loaded worker.
    jobs = max(1, min(a.jobs, len(units)))
    bins = [{"load": 0.0, "units": []} for _ in range(jobs)]
    for u in sorted(units, key=lambda u: -u["cost"]):
        b = min(bins, key=lambda b: b["load"])
        b["units"].append(u)
        b["load"] += u["cost"]

    budget = 420.0 if tier == "quick" else float(os.environ.get("VERIF_BUDGET_S", "3000"))
    hard = budget + 240.0
    procs = []
    for k, b in enumerate(bins):
        if not b["units"]:
            continue
        spec = {
            "property": prop,
            "units": b["units"],
            "budget_s": budget,
            "shrink_s": 0.0 if FAST else 45.0 if tier == "quick" else 120.0,
            "fast": FAST,
            "known_ids": sorted(known),
        }
        sp, rp, lp = (f"{scratch}/{n}{k}" for n in ("spec", "report", "log"))
        Path(sp).write_text(json.dumps(spec))
        procs.append(
            (
                subprocess.Popen(
                    [python, "-c", prelude, "worker", sp, rp],
                    env=env,
                    cwd=scratch,
                    stdin=subprocess.DEVNULL,
                    stdout=open(lp, "w"),
                    stderr=subprocess.STDOUT,
                ),
                rp,
                lp,
            )
        )
    errors, reports = [], []
    end = time.monotonic() + hard
    while FAST and any(p.poll() is None for p, _, _ in procs) and time.monotonic() < end:
        if any(os.path.exists(rp) and '"case"' in Path(rp).read_text() and json.loads(Path(rp).read_text())["violations"] for p, rp, _ in procs if p.poll() is not None):
            for p, _, _ in procs:
                p.kill()
            break
        time.sleep(0.3)
    for p, rp, lp in procs:
        try:
            p.wait(max(1.0, end - time.monotonic()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append("a worker ran out of time")
            continue
        if os.path.exists(rp):
            reports.append(json.loads(Path(rp).read_text()))
        else:
            errors.append(f"a worker died (status {p.returncode}): {Path(lp).read_text()[-2000:]}")

    merged, violations, knowns, skipped = {}, [], {}, 0
    for r in reports:
        errors += r["errors"]
        violations += r["violations"]
        skipped += r["skipped_for_time"]
        for k, n in r["known"].items():
            knowns[k] = knowns.get(k, 0) + n
        for name, s in r["subs"].items():
            m = merged.setdefault(
                name, {"evaluations": 0, "comparisons": 0, "hashes": set(), "labels": {}, "samples": [], "wall_s": 0.0, "rule": s["rule"]}
            )
            m["evaluations"] += s["evaluations"]
            m["comparisons"] += s["comparisons"]
            m["hashes"] |= set(s["hashes"])
            m["wall_s"] += s["wall_s"]
            m["samples"] += s["samples"]
            for k, n in s["labels"].items():
                m["labels"][k] = m["labels"].get(k, 0) + n

    replays = []
    if violations:
        (VERIF / "replays").mkdir(exist_ok=True)
        violations.sort(key=lambda v: len(json.dumps(v["case"])))
        seen = set()
        for v in violations:
            if v["sub"] in seen:
                continue
            seen.add(v["sub"])
            path = VERIF / "replays" / f"{prop}-{v['sub']}-{seed}.json"
            path.write_text(json.dumps({"property": prop, **v}, indent=1) + "\n")
            replays.append((path, v))

    wall = time.monotonic() - t0
    samples = []
    for name, m in sorted(merged.items()):
        samples += m["samples"][:2]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(m["evaluations"] for m in merged.values()),
            "distinct_nontrivial": sum(len(m["hashes"]) for m in merged.values()),
            "rule": "Cases are drawn by Hypothesis strategies from the seed; non-trivial, per sub-check: "
            + "; ".join(f"{n}: {m['rule']}" for n, m in sorted(merged.items())),
            "samples": samples or [{"sub": "none", "case": None}],
            "comparisons": sum(m["comparisons"] for m in merged.values()),
            "skipped_for_time": skipped,
            "sub_checks": {
                n: {
                    "evaluations": m["evaluations"],
                    "distinct_nontrivial": len(m["hashes"]),
                    "comparisons": m["comparisons"],
                    "labels": dict(sorted(m["labels"].items())),
                    "cpu_s": round(m["wall_s"], 2),
                }
                for n, m in sorted(merged.items())
            },
            "known_findings_met": knowns,
        },
        "assumptions": [
            f"CPU backend, {'64' if prop in X64 else 'default 32'}-bit floats, the JAX, equinox and matplotlib versions of /opt/venv",
            "verdicts closer to a threshold than the rounding error of the computation are not judged (label 'undecided')",
        ],
        "wall_s": round(wall, 2),
        "violations": len(replays),
    }
    if not a.no_evidence:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1) + "\n")

    for name, s in sorted(evidence["coverage"]["sub_checks"].items()):
        print(f"{prop}.{name}: {s['evaluations']} cases, {s['distinct_nontrivial']} distinct non-trivial, {s['cpu_s']} s cpu, {s['labels']}")
    for k, f in sorted(known.items()):
        if knowns.get(k):
            print(f"KNOWN-FINDING: property={prop} {f['what']} [{k}; met by {knowns[k]} cases]")
    for path, v in replays:
        print(f"--- {prop}.{v['sub']} case={json.dumps(v['case'])[:1500]}\n    {v['message'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    if replays:
        return 1
    if errors:
        print("\n".join(errors)[-6000:], file=sys.stderr)
        print(f"ERROR property={prop} the check did not complete", file=sys.stderr)
        return 2
    print(f"{prop}: held on {evidence['coverage']['evaluations']} cases in {wall:.1f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
