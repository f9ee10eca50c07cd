#!/usr/bin/env python3
"""Run the check of one property.

    python3 vp/check.py ID [--replay FILE] [--cases N] [--seed N] [--time SECONDS]

Exit 0: the property held on everything explored. Exit 1, with a line
`VIOLATION property=ID replay=PATH`: it does not hold. VERIF_TIER and VERIF_SEED select tier and seed.
"""

import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
EVIDENCE = os.environ.get("VP_EVIDENCE_DIR", os.path.join(ROOT, "evidence"))
sys.path.insert(0, HERE)

import build  # noqa: E402
import harnesses  # noqa: E402


def scratch_directory():
    for base in ["/dev/shm", "/tmp"]:
        if os.path.isdir(base) and os.access(base, os.W_OK):
            s = os.statvfs(base)
            if s.f_bavail * s.f_frsize > 1 << 30:
                return tempfile.mkdtemp(prefix="vp_", dir=base)
    return tempfile.mkdtemp(prefix="vp_")


def known_findings():
    path = os.path.join(ROOT, "known_findings.json")
    return json.load(open(path))["findings"] if os.path.exists(path) else []


def read_json(path):
    with open(path, encoding="utf-8", errors="replace") as f:
        return json.load(f)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("id")
    parser.add_argument("--replay")
    parser.add_argument("--cases")
    parser.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    parser.add_argument("--time", default=None)
    parser.add_argument("--workers", default="8")
    args = parser.parse_args()

    id = args.id
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(args.seed)
    except ValueError:
        seed = 1
    start = time.time()

    harness = harnesses.HARNESSES[id]
    command, env = harness.prepare(build)
    built = time.time() - start
    scratch = scratch_directory()
    status = 0

    try:
        out = os.path.join(scratch, "out.json")
        env = dict(env)
        env["TMPDIR"] = scratch
        base = command + ["--id", id, "--tier", tier, "--seed", str(seed % 2**64), "--scratch", scratch, "--out", out]

        if args.replay:
            replay = read_json(args.replay)
            choices = os.path.join(scratch, "choices.txt")
            with open(choices, "w") as f:
                f.write(" ".join(str(c) for c in replay["choices"]))
            r = subprocess.run(base + ["--replay", choices], env=env, cwd=scratch)
            result = read_json(out)
            print(result["notes"])
            print(result["kind"] + ": " + result["message"] if r.returncode == 1 else "the case passes")
            return 1 if r.returncode == 1 else 0

        if args.cases:
            base += ["--cases", args.cases]
        base += ["--workers", args.workers]
        base += ["--time", args.time or ("400" if tier == "quick" else "700")]
        r = subprocess.run(base, env=env, cwd=scratch)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print(f"error: the harness of {id} ended with exit code {r.returncode}", file=sys.stderr)
            return 2
        result = read_json(out)

        # Known findings: reproduce each. A finding that no longer reproduces is not mentioned.
        known = []
        for finding in known_findings():
            if finding["property"] != id or finding.get("status") != "known":
                continue
            probe_out = os.path.join(scratch, "probe.json")
            r = subprocess.run(
                command + ["--id", id, "--tier", tier, "--scratch", scratch, "--out", probe_out, "--probe",
                           finding["probe"]],
                env=env, cwd=scratch, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
            )
            if r.returncode == 1:
                known.append(finding["id"])
                print(f"KNOWN-FINDING: property={id} {finding['what']}")

        failure = result["failure"]
        violations = 0
        replay_path = None
        if failure is not None and result["reproduced"]:
            violations = 1
            status = 1
            replays = os.path.join(EVIDENCE, "replay")
            os.makedirs(replays, exist_ok=True)
            replay_path = os.path.join(replays, f"{id}.json")
            with open(replay_path, "w") as f:
                json.dump(
                    dict(property=id, kind=failure["kind"], message=failure["message"], notes=failure["notes"],
                         choices=failure["choices"], batch=result["batch"], seed=seed, tier=tier,
                         how=f"python3 vp/check.py {id} --replay {replay_path}"),
                    f, indent=1,
                )

        evaluations = result["evaluations"]
        coverage = dict(
            evaluations=evaluations,
            distinct_nontrivial=result["distinct_nontrivial"],
            rule=result["rule"],
            samples=result["samples"] or ["(no non-trivial case was completed)"],
            discarded=result["discards"],
            planned=result["planned"],
            classes={k: v for k, v in sorted(result["labels"].items())},
            stopped_by_time=result["out_of_time"],
            build_s=round(built, 1),
        )
        if known:
            coverage["known_findings"] = known
        if failure is not None and not result["reproduced"]:
            coverage["unreproduced"] = failure["message"]
        evidence = dict(
            property=id,
            tier=tier,
            seed=seed,
            level="exploration",
            coverage=coverage,
            wall_s=round(time.time() - start, 2),
            violations=violations,
            assumptions=harness.assumptions,
        )
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, f"{id}.json"), "w") as f:
            json.dump(evidence, f, indent=1)

        print(
            f"{id} {tier} seed={seed}: {evaluations} cases, {result['distinct_nontrivial']} distinct non-trivial, "
            f"{result['discards']} discarded, build {built:.1f} s, run {result['wall_s']:.1f} s"
        )
        if status:
            print(failure["message"])
            print(failure["notes"][-3000:])
            print(f"VIOLATION property={id} replay={replay_path}")
        elif failure is not None:
            print("a failure did not reproduce: " + failure["message"])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    return status


if __name__ == "__main__":
    sys.exit(main())
