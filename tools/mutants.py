"""Regression of the machinery against small planted faults (development tool, no check uses it).

``python3 tools/mutants.py [PID...]`` applies every mutant to a scratch copy of the library and
runs the property's check on it. Prints the mutants that are missed.
"""

import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUTANTS = []


def m(pid, file, old, new, count=1):
    MUTANTS.append((pid, file, old, new, count))


exec(open(f"{ROOT}/tools/mutant_list.py").read())


def run(mut):
    pid, file, old, new, count = mut
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree("/repo/curvlinops", f"{d}/curvlinops",
                        ignore=shutil.ignore_patterns("__pycache__"))
        p = f"{d}/curvlinops/{file}"
        s = open(p).read()
        if s.count(old) < 1:
            return "NOT-APPLICABLE", ""
        s = s.replace(old, new) if count == 0 else s.replace(old, new, count)
        open(p, "w").write(s)
        r = subprocess.run([sys.executable, "-m", "sa.run", pid], cwd=ROOT, text=True,
                           capture_output=True,
                           env={**os.environ, "SA_REPO": d, "SA_JOBS": "2"}, timeout=900)
        out = r.stdout.strip().splitlines()
        if r.returncode == 1 and f"VIOLATION property={pid}" in r.stdout:
            return "caught", next((x for x in out if x.startswith("  [")), "")
        return f"MISSED(rc={r.returncode})", (out[-1] if out else r.stderr[-300:])
    finally:
        shutil.rmtree(d)


def main():
    want = sys.argv[1:]
    todo = [x for x in MUTANTS if not want or x[0] in want]
    with ThreadPoolExecutor(4) as ex:
        for mut, (st, msg) in zip(todo, ex.map(run, todo)):
            show = os.environ.get("SHOW")
            if st != "caught" or show:
                print(f"{st}: {mut[0]} {mut[1]}: {mut[2]!r} -> {mut[3]!r}\n      {msg[:220]}")
    print(len(todo), "mutants")


main()
