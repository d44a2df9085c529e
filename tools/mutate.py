"""
mutate.py MODULE [NUMBER ...]: small faults in a scratch copy of the repository

Every entry (file, old, new) of tools/mutants/MODULE.py is applied on its own to a copy of /repo, and the
harnesses of harnesses/MODULE.py run against the copy. Prints for each fault
    CAUGHT        an obligation failed (the labels follow)
    unsupported   no obligation failed, a harness left the verified subset (check.py uses the bounded stand-in then)
    MISSED        every obligation was discharged
Environment: H  regular expression for the names of harnesses, J  number of processes, T  limit in seconds
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/bin/python3"


def run(base, mod, h):
    env = dict(os.environ, PYVC_REPO=base, PYTHONPATH=HERE)
    try:
        p = subprocess.run([VT, "-m", "pyvc.harness", mod, h], capture_output=True, text=True, env=env, cwd=HERE,
                           timeout=int(os.environ.get("T", "200")))
        r = json.loads(p.stdout.strip().splitlines()[-1])
    except subprocess.TimeoutExpired:
        return h, "time limit", []
    except Exception as e:
        return h, f"no result: {e}", []
    return h, r["unsupported"] or r["error"], [o["label"] for o in r["obligations"] if o["failed"] or o["unknown"]]


def main():
    mod, only = sys.argv[1], sys.argv[2:]
    ns = {}
    exec(open(f"{HERE}/tools/mutants/{mod}.py").read(), ns)
    out = subprocess.run(
        [VT, "-c", f"import harnesses.{mod} as m; H = m.HARNESSES; H = sum(H.values(), []) if isinstance(H, dict) else H;"
         "print(*dict.fromkeys(h.__name__ for h in H if getattr(m, h.__name__, None) is h))"],
        capture_output=True, text=True, cwd=HERE)
    hs = [h for h in out.stdout.split() if re.search(os.environ.get("H", ""), h)]
    base = tempfile.mkdtemp(prefix="mutate-")
    try:
        shutil.copytree(os.environ.get("PYVC_REPO", "/repo"), base, symlinks=True, dirs_exist_ok=True)
        for n, (f, old, new) in enumerate(ns["M"]):
            if only and str(n) not in only:
                continue
            p = f"{base}/dataladmetadatamodel/{f}"
            t = open(p).read()
            if old not in t:
                print(n, "NOT FOUND", repr(old))
                continue
            open(p, "w").write(t.replace(old, new, 1))
            with ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
                rs = list(ex.map(lambda h: run(base, mod, h), hs))
            open(p, "w").write(t)
            bad = [f"{h}:{','.join(b[:3])}" for h, u, b in rs if b]
            uns = [f"{h}:{str(u)[:90]}" for h, u, b in rs if u]
            print(n, "CAUGHT" if bad else ("unsupported" if uns else "MISSED"), repr(new)[:60], bad[:4], uns[:3],
                  flush=True)
    finally:
        shutil.rmtree(base)


if __name__ == "__main__":
    main()
