"""
search.py PROP [--seed N] [--budget SECONDS] [--deep] [--case SUITE:SEED]

Runs the executable versions of the contracts of one property against the real
code, in forked processes. The last line of the output is a JSON record.
"""
import argparse
import json
import os
import pickle
import random
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("PYVC_REPO", "/repo"))
import logging
logging.disable(logging.CRITICAL)
sys.setrecursionlimit(5000)

import lib
import suites


def describe(e):
    tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
    return f"{type(e).__name__}: {e}\n{tb}"


def run_case(suite, seed):
    """in the child process"""
    rng = random.Random(f"{suite}:{seed}")
    scratch = lib.Scratch()
    # a place that is not a repository
    os.chdir(scratch.dir)
    try:
        sample = suites.SUITES[suite](rng, scratch)
        return {"ok": True, "sample": str(sample)[:300]}
    except lib.Violation as e:
        return {"ok": False, "message": str(e), "finding": e.finding}
    except BaseException as e:
        return {"ok": False, "message": "unexpected exception " + describe(e), "finding": None}
    finally:
        os.chdir("/")
        scratch.remove()


def start(suite, seed):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open("/dev/null", os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            signal.alarm(100)
            res = run_case(suite, seed)
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def finish(pid, r):
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return {"ok": False, "message": f"the case did not end (status {st})", "finding": None, "died": True}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=30)
    ap.add_argument("--deep", action="store_true")
    ap.add_argument("--case")
    ap.add_argument("--workers", type=int, default=6)
    a = ap.parse_args()
    if a.case:
        suite, seed = a.case.split(":", 1)
        res = finish(*start(suite, seed))
        print(json.dumps(res, default=str))
        sys.exit(0 if res["ok"] else 1)
    t0 = time.time()
    out = {"evaluations": 0, "distinct": 0, "suites": {}, "samples": [], "violations": [], "error": None}
    plan = suites.PLAN[a.prop]
    total = sum(n for _, n in plan)
    queue = []
    rounds = 40 if a.deep else 1
    for rnd in range(rounds):
        for s, n in plan:
            queue.extend((s, f"{a.seed}.{rnd}.{i}") for i in range(n))
    # interleave the suites
    order = random.Random(a.seed)
    first, rest = queue[:total], queue[total:]
    order.shuffle(first)
    order.shuffle(rest)
    queue = first + rest
    running = {}
    kinds = set()
    died = {}
    import select
    while queue or running:
        late = time.time() - t0 > a.budget or sum(1 for v in out["violations"] if not v["finding"]) >= 5
        if late:
            queue = []
        while queue and len(running) < a.workers:
            s, seed = queue.pop(0)
            pid, r = start(s, seed)
            running[r] = (pid, s, seed)
        if not running:
            break
        ready, _, _ = select.select(list(running), [], [], 5)
        for r in ready:
            pid, s, seed = running.pop(r)
            res = finish(pid, r)
            if res.get("died"):
                # once more, alone: only a repeatable end of a case counts
                if died.setdefault((s, seed), 0) < 1:
                    died[(s, seed)] += 1
                    queue.append((s, seed))
                    continue
            out["evaluations"] += 1
            st = out["suites"].setdefault(s, 0)
            out["suites"][s] = st + 1
            if res["ok"]:
                kinds.add((s, res["sample"]))
                if len(out["samples"]) < 6 and st == 0:
                    out["samples"].append(f"{s}: {res['sample']}")
            else:
                if not res["finding"] or not any(v["finding"] == res["finding"] for v in out["violations"]):
                  out["violations"].append({"case": f"{s}:{seed}", "message": res["message"], "finding": res["finding"]})
    out["distinct"] = len(kinds)
    out["seconds"] = round(time.time() - t0, 1)
    print(json.dumps(out, default=str))


if __name__ == "__main__":
    main()
