#!/opt/veriftools/pyvenv/bin/python3
"""
check.py <property>: decides one property on the current tree of /repo.

1. The deductive part: every harness (specification) of the property is run by
   pyvc on the current source; all generated obligations must be discharged.
2. The replay part: executable versions of the same contracts are run against
   the real code and the real git (bounded). It turns failed obligations into
   failing inputs, cross-checks the assumed contracts, and stands in (labelled
   bounded) for code that is outside the verified subset.

Exit 0: all obligations discharged (or outside the subset and the bounded
stand-in found nothing). Exit 1: a VIOLATION line was printed.
"""
import concurrent.futures
import importlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("PYVC_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/bin/python3"
PY = "/opt/venv/bin/python"


def harness_list(prop):
    """(module, harness name, fallback name or None, level text)"""
    from harnesses import index
    return index.harnesses(prop)


def run_one(mod, name, limit, timeout_ms, rlimit_gb=6):
    t0 = time.time()
    env = dict(os.environ, PYTHONPATH=HERE, PYVC_TIMEOUT_MS=str(timeout_ms), PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYVC_TRACE", None)
    try:
        p = subprocess.run([VT, "-m", "pyvc.harness", mod, name], cwd=HERE, env=env, timeout=limit,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        out = p.stdout.decode().strip().splitlines()
        rec = json.loads(out[-1])
    except subprocess.TimeoutExpired:
        rec = {"harness": name, "unsupported": f"time limit of {limit} s", "obligations": []}
    except Exception as e:
        err = ""
        try:
            err = p.stderr.decode()[-800:]
        except Exception:
            pass
        rec = {"harness": name, "unsupported": f"internal: {type(e).__name__} {e} {err}", "obligations": []}
    rec["module"] = mod
    rec["seconds"] = round(time.time() - t0, 2)
    return rec


def bad_obligations(rec):
    out = []
    for o in rec.get("obligations", []):
        if o["failed"] or o["unknown"]:
            out.append(o)
    return out


def run_harness(item, limit, timeout_ms, t_end):
    mod, name, fallback = item
    limit = max(20, min(limit, t_end - time.time()))
    rec = run_one(mod, name, limit, timeout_ms)
    rec["bounded"] = name.startswith("bounded_")
    unknown_only = [o for o in bad_obligations(rec)]
    if unknown_only and all(o["failed"] == 0 for o in unknown_only) and time.time() < t_end - 60:
        r2 = run_one(mod, name, max(20, min(2 * limit, t_end - time.time())), timeout_ms * 4)
        r2["bounded"] = rec["bounded"]
        r2["retried"] = True
        rec = r2
    recs = [rec]
    if rec.get("unsupported") and fallback:
        fb = run_one(mod, fallback, max(20, min(limit, t_end - time.time())), timeout_ms)
        fb["bounded"] = True
        fb["stands_in_for"] = name
        recs.append(fb)
    return recs


def run_replay(prop, tier, seed, budget, deep, hints):
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_NOSYSTEM="1")
    cmd = [PY, os.path.join(HERE, "replay", "search.py"), prop, "--seed", str(seed), "--budget", str(budget)]
    if deep:
        cmd.append("--deep")
    try:
        p = subprocess.run(cmd, cwd=HERE, env=env, timeout=budget * 2 + 120,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return json.loads(p.stdout.decode().strip().splitlines()[-1])
    except subprocess.TimeoutExpired:
        return {"evaluations": 0, "violations": [], "samples": [], "error": "replay: time limit"}
    except Exception as e:
        try:
            err = p.stderr.decode()[-1500:]
        except Exception:
            err = ""
        return {"evaluations": 0, "violations": [], "samples": [], "error": f"replay: {type(e).__name__} {e} {err}"}


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(HERE, "known-findings.jsonl")) as f:
            for l in f:
                l = l.strip()
                if not l.startswith("{"):
                    continue
                d = json.loads(l)
                if d.get("kind") == "known" and d["property"] == prop:
                    out.append(d)
    except FileNotFoundError:
        pass
    return out


def run_assumptions(seed):
    """the assumed contracts of git and of the standard library, compared with the installed ones on samples"""
    try:
        p = subprocess.run([PY, os.path.join(HERE, "replay", "assumptions.py"), str(seed)], timeout=120,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8"))
        return json.loads(p.stdout.decode().strip().splitlines()[-1])
    except Exception as e:
        return {"checked": 0, "failed": [f"could not be run: {type(e).__name__} {e}"[:300]]}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    thorough = tier == "thorough"
    t_end = t0 + (2400 if thorough else 560)
    limit = 900 if thorough else 300
    timeout_ms = 30000 if thorough else 10000
    items = harness_list(prop)

    with concurrent.futures.ThreadPoolExecutor(9) as ex:
        budget = 240 if thorough else 60
        rfut = ex.submit(run_replay, prop, tier, seed, budget, thorough, None)
        futs = [ex.submit(run_harness, it, limit, timeout_ms, t_end) for it in items]
        recs = [r for f in futs for r in f.result()]
        replay = rfut.result()
        assumed = run_assumptions(seed)

    failed, undecided, vacuous = [], [], []
    obls = disch = bobls = bdisch = 0
    backends, solver_s, functions, contracts, assumptions = {}, 0.0, set(), set(), set()
    for r in recs:
        if r.get("unsupported"):
            undecided.append({"harness": f"{r['module']}.{r['harness']}", "reason": r["unsupported"][:500]})
        if r.get("error") and not r.get("unsupported"):
            vacuous.append({"harness": f"{r['module']}.{r['harness']}", "reason": r["error"]})
        bad = bad_obligations(r)
        for o in bad:
            failed.append({"harness": f"{r['module']}.{r['harness']}", **o})
        n, m = len(r.get("obligations", [])), len(bad)
        if r.get("bounded"):
            bobls += n
            bdisch += n - m
        elif r.get("unsupported"):
            pass
        else:
            obls += n
            disch += n - m
            functions |= set(r.get("functions", []))
            contracts |= set(r.get("contracts", []))
        assumptions |= set(r.get("assumptions", []))
        for o in r.get("obligations", []):
            solver_s += o["seconds"]
            for b, c in o["backends"].items():
                backends[b] = backends.get(b, 0) + c

    # nothing conclusive from the replay, but something is open: search deeper
    need_deep = (failed or vacuous or undecided) and not replay.get("violations")
    if need_deep and not thorough:
        left = max(40, min(240, 780 - (time.time() - t0)))
        deep = run_replay(prop, tier, seed + 1000, left, True, None)
        deep["evaluations"] = deep.get("evaluations", 0) + replay.get("evaluations", 0)
        deep["first"] = {k: v for k, v in replay.items() if k not in ("samples", "violations")}
        deep["samples"] = replay.get("samples", []) or deep.get("samples", [])
        replay = deep

    known = known_findings(prop)
    knownids = {d["id"] for d in known}
    violations = [v for v in replay.get("violations", []) if v.get("finding") not in knownids]
    kept = [v for v in replay.get("violations", []) if v.get("finding") in knownids]

    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for d in known:
        lines.append(f"KNOWN-FINDING: property={prop} {d['what']}")
    nviol = 0
    if violations:
        path = os.path.join(rdir, f"{prop}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "violations": violations[:20], "failed_obligations": failed,
                       "how": f"cd {HERE} && PYTHONPATH={REPO} {PY} replay/search.py {prop} --seed {seed} "
                              f"--case '<case>'"}, f, indent=1, default=str)
        lines.append(f"VIOLATION property={prop} replay={path}")
        for v in violations[:5]:
            lines.append(f"  failing input ({v.get('case')}): {str(v.get('message'))[:600]}")
        nviol = len(violations)
        for o in failed[:5]:
            lines.append(f"  failed obligation: {o['harness']}: {o['label']}")
    elif failed or vacuous:
        path = os.path.join(rdir, f"{prop}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "failed_obligations": failed, "vacuous": vacuous,
                       "replay_search": {k: v for k, v in replay.items() if k != "samples"}}, f, indent=1, default=str)
        for o in failed[:8]:
            lines.append(f"  failed obligation: {o['harness']}: {o['label']} "
                         f"({'refuted' if o['failed'] else 'not proved'}) {o.get('detail', '')[:200]}")
        for v in vacuous[:4]:
            lines.append(f"  {v['harness']}: {v['reason']}")
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        nviol = len(failed) + len(vacuous)

    from harnesses import index
    level = index.LEVEL.get(prop, "proof")
    coverage = {
        "obligations": obls,
        "discharged": disch,
        "checker_cmd": f"python3 check.py {prop}  (per harness: {VT} -m pyvc.harness <module> <harness>)",
        "trusted_base": index.TRUSTED + sorted(assumptions),
        "back_ends": backends,
        "solver_seconds": round(solver_s, 2),
        "functions_under_contract": sorted(functions),
        "called_by_contract_only": sorted(contracts),
        "harnesses": [{"harness": f"{r['module']}.{r['harness']}", "bounded": bool(r.get("bounded")),
                       "paths": r.get("paths"), "obligations": len(r.get("obligations", [])),
                       "seconds": r["seconds"], "unsupported": r.get("unsupported")} for r in recs],
        "undecided": undecided,
        "assumed_contracts_sampled": assumed,
        "bounded_obligations": bobls,
        "bounded_discharged": bdisch,
        "bounded_note": index.BOUNDED.get(prop, ""),
        "replay": {k: replay.get(k) for k in ("evaluations", "distinct", "seconds", "error", "suites", "first") if k in replay},
        "evaluations": replay.get("evaluations", 0),
        "distinct_nontrivial": replay.get("distinct", 0),
        "rule": "replay part (bounded, never counted as proved): seeded random objects and operation sequences and "
                "exhaustive small cases against the real code and git; distinct: different case descriptions",
        "samples": [str(s)[:300] for s in replay.get("samples", [])[:4]],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
          "assumptions": index.ASSUMPTIONS.get(prop, []) + sorted(assumptions),
          "wall_s": round(time.time() - t0, 1), "violations": nviol}
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for u in undecided:
        print(f"undecided (outside of the verified subset, bounded stand-in used): {u['harness']}: {u['reason'][:200]}")
    for x in assumed["failed"][:3]:
        print("note: an assumed contract does not hold here:", x)
    if replay.get("error"):
        print("note:", replay["error"][:1500])
    print(f"{prop}: {disch}/{obls} obligations discharged, bounded {bdisch}/{bobls}, "
          f"replay {replay.get('evaluations', 0)} cases, {round(time.time() - t0, 1)} s")
    for l in lines:
        print(l)
    sys.exit(1 if nviol else 0)


if __name__ == "__main__":
    main()
