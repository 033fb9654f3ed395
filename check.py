#!/usr/bin/env python3
"""Decide one property:  python3 check.py C01 [--tier quick|thorough]

1. proof part: pyded generates the obligations of the property from /repo's
   current source and discharges them (see DESIGN.md);
2. run-time part: the same property is checked on the real code by a bounded
   search (rac/), which also supplies the failing input for a failed obligation.

Exit 0: held.  Exit 1: a line  VIOLATION property=<id> replay=<path> ...
"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/bin/python"

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", PYTHONPATH=HERE, VERIF_REPO=REPO,
           PYTHONHASHSEED="0")

SECONDS = {"quick": 30, "thorough": 400}


def load_known():
    path = os.path.join(HERE, "known_findings.json")
    return json.load(open(path)) if os.path.exists(path) else {"findings": [], "fixed": []}


def run_rac(prop, seed, tier, scratch, seconds=None):
    out = os.path.join(scratch, "rac_{}.json".format(prop))
    if os.path.exists(out):
        os.unlink(out)
    secs = seconds or SECONDS[tier]
    cmd = [VENV, "-W", "ignore", "-m", "rac.run", "--prop", prop, "--seed", str(seed),
           "--seconds", str(secs), "--workers", "8", "--least", "40", "--out", out]
    try:
        res = subprocess.run(cmd, cwd=HERE, env=ENV, stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE, timeout=secs * 4 + 200)
        err = res.stderr.decode(errors="replace")[-2000:]
    except subprocess.TimeoutExpired:
        err = "run-time part: time limit"
    if os.path.exists(out):
        return json.load(open(out)), err
    return None, err


def run_proof(prop, tier, scratch):
    if not os.path.isdir(os.path.join(HERE, "pyded")):
        return None, ""
    out = os.path.join(scratch, "proof_{}.json".format(prop))
    if os.path.exists(out):
        os.unlink(out)
    limit = 420 if tier == "quick" else 3000
    cmd = [VT, "-m", "pyded.run", "--prop", prop, "--repo", REPO, "--tier", tier,
           "--out", out]
    try:
        res = subprocess.run(cmd, cwd=HERE, env=ENV, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, timeout=limit)
        err = res.stdout.decode(errors="replace")[-3000:]
    except subprocess.TimeoutExpired:
        err = "proof part: time limit {} s".format(limit)
    if os.path.exists(out):
        return json.load(open(out)), err
    return None, err


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--no-rac", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in SECONDS else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    ev_dir = os.path.join(HERE, "evidence")
    scratch = os.path.join(ev_dir, "work")
    os.makedirs(scratch, exist_ok=True)
    known = load_known()
    violations = []         # (replay path, suffix)

    proof, perr = (None, "") if a.no_proof else run_proof(a.prop, tier, scratch)
    rac, rerr = (None, "") if a.no_rac else run_rac(a.prop, seed, tier, scratch)

    found = []
    if rac:
        for k, v in enumerate(rac["violations"]):
            path = os.path.join(scratch, "replay_{}_{}.json".format(a.prop, k))
            with open(path, "w") as fh:
                json.dump({"property": a.prop, "case": v["case"], "message": v["message"],
                           "how": "cd /verif && PYTHONPATH=/verif {} -m rac.run --replay "
                                  "{}".format(VENV, path)}, fh, indent=1, default=str)
            found.append((path, v["message"]))
    failed = [] if not proof else proof.get("failed", [])
    if found:
        for path, msg in found[:3]:
            extra = ""
            if failed:
                extra = " obligation=" + failed[0]["name"].replace(" ", "_")
            print("  {}".format(msg[:600]))
            violations.append((path, extra))
    elif failed:
        path = os.path.join(scratch, "obligation_{}.json".format(a.prop))
        with open(path, "w") as fh:
            json.dump({"property": a.prop, "failed_obligations": failed,
                       "verifier_output": perr}, fh, indent=1, default=str)
        for f in failed[:5]:
            print("  failed obligation: {} [{}]".format(f["name"], f.get("where", "")))
        violations.append((path, " obligation=" + failed[0]["name"].replace(" ", "_") +
                           " no-failing-input-found"))

    level, coverage, assumptions = "exploration", {}, []
    if rac:
        coverage.update(evaluations=rac["evaluations"],
                        distinct_nontrivial=rac["distinct_nontrivial"],
                        rule="run-time contracts (bounded): generated cases, see rac/; "
                             "non-trivial as each checker's run() decides",
                        samples=rac["samples"] or [{"note": "none"}])
    if proof:
        level = "proof" if proof["discharged"] else level
        coverage.update(proof.get("coverage", {}))
        coverage.update(obligations=proof["obligations"], discharged=proof["discharged"],
                        checker_cmd=proof["checker_cmd"],
                        trusted_base=proof["trusted_base"])
        assumptions = proof.get("assumptions", [])
    if not coverage:
        coverage = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "nothing ran",
                    "samples": [{"stderr": (perr + rerr)[-500:]}]}
    evidence = {"property": a.prop, "tier": tier, "seed": seed, "level": level,
                "coverage": coverage, "assumptions": assumptions,
                "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(os.path.join(ev_dir, a.prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1, default=str)

    for f in known.get("findings", []):
        if f["property"] == a.prop:
            print("KNOWN-FINDING: property={} {}".format(a.prop, f["what"]))
    if rac is None and not a.no_rac:
        print("note: run-time part gave no result: " + rerr[-500:])
    if rac and rac["errors"]:
        print("note: checker errors: " + rac["errors"][0]["error"][-800:])
    if proof is None and not a.no_proof and os.path.isdir(os.path.join(HERE, "pyded")):
        print("note: proof part gave no result: " + perr[-500:])
    if proof:
        print("{}: {} of {} obligations discharged, {} undecided, {} failed".format(
            a.prop, proof["discharged"], proof["obligations"],
            len(proof.get("undecided", [])), len(failed)))
    if rac:
        print("{}: {} run-time evaluations, {} distinct non-trivial".format(
            a.prop, rac["evaluations"], rac["distinct_nontrivial"]))
    for path, extra in violations:
        print("VIOLATION property={} replay={}{}".format(a.prop, path, extra))
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
