"""selftest.py [-c C01,C02] [-j N] PATCH...: runs checks on copies of /repo with each patch applied.

With no -c, a planted bug is run against its own property and a refactoring (tests in
/verif/refactorings) against all."""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analyzer"))


def one(patch, checks, keep=False):
    base = tempfile.mkdtemp(prefix="selftest.", dir="/tmp")
    try:
        tree = os.path.join(base, "repo")
        subprocess.run(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
        os.makedirs(tree)
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {tree}", shell=True, check=True)
        if patch:
            r = subprocess.run(["git", "apply", "--directory=" + os.path.relpath(tree, "/"), patch], cwd="/", capture_output=True, text=True)
            if r.returncode:
                r = subprocess.run(f"patch -p1 < {patch}", shell=True, cwd=tree, capture_output=True, text=True)
                if r.returncode:
                    return patch, {"apply": (9, r.stdout + r.stderr)}
        env = dict(os.environ, VERIF_REPO=tree, VERIF_WORK=os.path.join(base, "work"), VERIF_EVIDENCE=os.path.join(base, "evidence"))
        res = {}
        for c in checks:
            r = subprocess.run([sys.executable, os.path.join(RUN, "analyzer/check.py"), c], cwd=RUN, env=env, capture_output=True, text=True)
            res[c] = (r.returncode, r.stdout + r.stderr)
        return patch, res
    finally:
        shutil.rmtree(base, ignore_errors=True)


def snapshot():
    """a copy of the machinery, so that it can be edited while this runs"""
    global RUN
    RUN = tempfile.mkdtemp(prefix="selftest.verif.", dir="/tmp")
    for d in ("analyzer", "driver", "harness"):
        shutil.copytree(os.path.join(V, d), os.path.join(RUN, d), ignore=shutil.ignore_patterns("target", "__pycache__"))
    shutil.copy(os.path.join(V, "known_findings.txt"), RUN)


def main():
    snapshot()
    try:
        work()
    finally:
        shutil.rmtree(RUN, ignore_errors=True)


def work():
    ap = argparse.ArgumentParser()
    ap.add_argument("-c", default="")
    ap.add_argument("-j", type=int, default=3)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("patches", nargs="*")
    a = ap.parse_args()
    jobs = []
    for p in a.patches or sorted(os.listdir(os.path.join(V, "seeded"))):
        if not p.endswith((".diff", ".patch")):
            d = os.path.join(V, "seeded", os.path.basename(p))
            cs = [json.load(open(os.path.join(d, "meta.json")))["property"]]
            p = os.path.join(d, "patch.diff")
        else:
            from registry import SPECS

            cs = sorted(SPECS)
        jobs.append((os.path.abspath(p), a.c.split(",") if a.c else cs))
    with cf.ThreadPoolExecutor(a.j) as ex:
        for p, res in ex.map(lambda j: one(*j), jobs):
            name = os.path.basename(os.path.dirname(p)) if p.endswith("patch.diff") else os.path.basename(p)
            print(name, " ".join(f"{c}:{'VIOLATION' if r[0] == 1 and 'VIOLATION property=' + c in r[1] else 'ok' if r[0] == 0 else 'ERR' + str(r[0])}" for c, r in res.items()), flush=True)
            if a.v:
                for c, r in res.items():
                    if r[0]:
                        print("   ", c, "\n      ".join(r[1].strip().split("\n")[:6]))


main()
