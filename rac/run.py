"""Run one property's run-time contracts on the real code.

usage: python -m rac.run --prop C01 --seed 1 --seconds 40 --workers 6 --out f.json
       python -m rac.run --replay replay.json      (exit 1 if it still fails)
"""
import argparse
import contextlib
import io
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)


class Hang(Exception):
    pass


def _alarm(signum, frame):
    raise Hang()


def props():
    from rac import checks_azp, checks_rest
    out = {}
    for mod in (checks_azp, checks_rest):
        for name in dir(mod):
            if len(name) == 3 and name[0] == "C" and name[1:].isdigit():
                out[name] = getattr(mod, name)
    return out


CPU_LIMIT = 40.0


def run_case(cls, case):
    """('ok', nontrivial) | ('skip', why) | ('violation', msg)"""
    from rac.common import Skip, Violation
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return "ok", bool(cls.run(case))
    except Violation as e:
        return "violation", str(e)
    except Skip as e:
        return "skip", str(e)
    except Hang:
        if getattr(cls, "hang_is_violation", False):
            return "violation", "no result after {} s of CPU time".format(CPU_LIMIT)
        return "skip", "cpu time"
    except ImportError as e:
        if "region" in str(e):
            return "skip", "import: {}".format(e)
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if f.filename.startswith(REPO)]
        if not inside:
            return "error", "".join(traceback.format_exception(e))
        where = inside[-1]
        return "violation", "{}: {} raised at {}:{} ({})".format(
            type(e).__name__, e, os.path.relpath(where.filename, REPO),
            where.lineno, where.name)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def worker(args):
    prop, seed, w, k, seconds, least, most, skip = args
    import rac.common as common
    cls = props()[prop]
    t0 = time.time()
    stats = {"evaluations": 0, "skipped": 0, "nontrivial": set(), "samples": [],
             "violations": [], "errors": [], "first_random": None}
    i = w
    known = set(skip)
    while True:
        el = time.time() - t0
        if el > seconds and (stats["evaluations"] >= least or el > 4 * seconds + 60):
            break
        if most and stats["evaluations"] >= most:
            break
        rng = random.Random("{}-{}-{}".format(prop, seed, i))
        try:
            case = cls.gen(rng, i)
        except common.Skip:
            i += k
            stats["skipped"] += 1
            if stats["skipped"] > 10 ** 6:
                break
            continue
        kind, what = run_case(cls, case)
        i += k
        if kind == "skip":
            stats["skipped"] += 1
            continue
        stats["evaluations"] += 1
        if kind == "error":
            stats["errors"].append({"case": case, "error": what})
            if len(stats["errors"]) > 3:
                break
            continue
        if kind == "violation":
            if common.key(case) in known:
                continue
            stats["violations"].append({"case": case, "message": what})
            break
        if what:
            stats["nontrivial"].add(common.key(case))
            if len(stats["samples"]) < 1:
                stats["samples"].append(case)
    stats["nontrivial"] = sorted(stats["nontrivial"])
    return stats


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=20)
    ap.add_argument("--least", type=int, default=20)
    ap.add_argument("--most", type=int, default=0)
    ap.add_argument("--workers", type=int, default=6)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    if a.replay:
        data = json.load(open(a.replay))
        cls = props()[data["property"]]
        kind, what = run_case(cls, data["case"])
        print(kind, what)
        return 1 if kind == "violation" else 0
    t0 = time.time()
    jobs = [(a.prop, a.seed, w, a.workers, a.seconds, a.least, a.most, [])
            for w in range(a.workers)]
    if a.workers == 1:
        results = [worker(jobs[0])]
    else:
        results = []
        with mp.get_context("fork").Pool(a.workers) as pool:
            for res in pool.imap_unordered(worker, jobs):
                results.append(res)
                if res["violations"]:
                    pool.terminate()
                    break
    out = {"property": a.prop, "seed": a.seed,
           "evaluations": sum(r["evaluations"] for r in results),
           "skipped": sum(r["skipped"] for r in results),
           "distinct_nontrivial": len({k for r in results for k in r["nontrivial"]}),
           "samples": [s for r in results for s in r["samples"]][:3],
           "violations": [v for r in results for v in r["violations"]],
           "errors": [e for r in results for e in r["errors"]][:3],
           "wall_s": round(time.time() - t0, 2)}
    text = json.dumps(out, indent=1, default=str)
    if a.out:
        with open(a.out, "w") as fh:
            fh.write(text)
    else:
        print(text)
    return 1 if out["violations"] else 0


if __name__ == "__main__":
    sys.exit(main())
