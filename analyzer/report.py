"""Obligations, findings, evidence and the exit code of a check."""
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import sys
import time
import traceback

import build
from build import VERIF

EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))


class Report:
    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.findings = []
        self.samples = []
        self.notes = {}

    def check(self, ok, rule, where, detail):
        self.obligations += 1
        if ok:
            self.discharged += 1
        else:
            self.findings.append({"rule": rule, "where": where, "detail": detail})
        return bool(ok)

    def fail(self, rule, where, detail):
        return self.check(False, rule, where, detail)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def count(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n


def _task(arg):
    fn, a = arg
    from ctx import Finding

    rep = Report()
    t = time.time()
    try:
        fn(rep, *a)
    except Finding as e:
        rep.fail(e.rule, e.where, e.detail)
    except build.BuildError:
        raise
    except Exception as e:  # an analysis that breaks down has shown nothing
        tb = traceback.extract_tb(e.__traceback__)[-1]
        rep.fail("analysis-error", f"{fn.__name__}{a}", f"{type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})")
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
    return {
        "task": f"{fn.__name__}{a}",
        "obligations": rep.obligations,
        "discharged": rep.discharged,
        "findings": rep.findings,
        "samples": rep.samples,
        "notes": rep.notes,
        "s": round(time.time() - t, 2),
    }


def known(prop):
    out = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith("known: property=" + prop + " "):
                out.append(line.split(" ", 2)[2])
    return out


def _serve(conn, tasks):
    for _ in range(4):  # then a fresh process, for the memory
        i = conn.recv()
        if i is None:
            break
        try:
            conn.send((i, _task(tasks[i])))
        except BaseException as e:
            conn.send((i, e if isinstance(e, build.BuildError) else RuntimeError(repr(e))))
            break
    conn.close()
    os._exit(0)


def parallel(tasks, n):
    """runs the tasks in up to `n` processes. A task whose process was ended from outside (memory
    ran out) is tried again with fewer of them running, and at the end alone."""
    ctx = mp.get_context("fork")
    todo = list(range(len(tasks)))[::-1]
    tries = [0] * len(tasks)
    res = [None] * len(tasks)
    live = {}  # connection -> [process, task under way, tasks served]

    def give(c):
        i = todo.pop()
        live[c][1] = i
        live[c][2] += 1
        c.send(i)

    while todo or any(w[1] is not None for w in live.values()):
        while todo and len(live) < n:
            mine, theirs = ctx.Pipe()
            p = ctx.Process(target=_serve, args=(theirs, tasks), daemon=True)
            p.start()
            theirs.close()
            live[mine] = [p, None, 0]
            give(mine)
        for c in mp.connection.wait(list(live)):
            p, i, k = live[c]
            try:
                i, r = c.recv()
            except (EOFError, OSError):
                del live[c]
                p.join()
                if i is not None:
                    tries[i] += 1
                    if tries[i] > 4:
                        raise RuntimeError(f"{tasks[i][0].__name__}{tasks[i][1]}: ended from outside, again and again")
                    n = max(1, n // 2)
                    todo.append(i)
                continue
            if isinstance(r, BaseException):
                raise r
            res[i] = r
            live[c][1] = None
            if todo and k < 4 and len(live) <= n:
                give(c)
            else:
                del live[c]
                if k < 4:
                    c.send(None)
                c.close()
                p.join()
    return res


def execute(prop, spec, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for k in spec.get("kinds", ["lib"]):
        build.dump(k)
    tasks = spec["tasks"](tier)
    n = max(1, min(len(tasks), int(os.environ.get("VERIF_JOBS", "8"))))
    if n == 1:
        res = [_task(t) for t in tasks]
    else:
        res = parallel(tasks, n)
    obl = sum(r["obligations"] for r in res)
    dis = sum(r["discharged"] for r in res)
    findings = []
    for r in res:
        for f in r["findings"]:
            if f not in findings:
                findings.append(f)
    if obl < spec["floor"]:
        findings.append({"rule": "coverage", "where": "whole check", "detail": f"only {obl} obligations found, at least {spec['floor']} expected"})
    kn = known(prop)
    new, old = [], []
    for f in findings:
        key = f"{f['rule']} @ {f['where']}: {f['detail']}"
        (old if key in kn else new).append(f)
    notes = {}
    for r in res:
        for k, v in r["notes"].items():
            if isinstance(v, (int, float)):
                notes[k] = notes.get(k, 0) + v
            else:
                notes[k] = v
    samples = [s for r in res for s in r["samples"]][:16]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": spec["level"],
        "coverage": {
            "obligations": obl,
            "discharged": dis,
            "explanation": spec["rule"],
            "rule": spec["rule"],
            "samples": samples,
            "tasks": [{"task": r["task"], "obligations": r["obligations"], "discharged": r["discharged"], "s": r["s"]} for r in res],
            "measured": notes,
            "checker_cmd": f"python3 analyzer/check.py {prop}",
            "trusted_base": spec.get("trusted", TRUSTED),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if spec["level"] == "translation_validation":
        ev["coverage"]["programs"] = notes.get("programs", 0)
        ev["coverage"]["disagreements_checked"] = obl
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{prop}: {dis}/{obl} obligations hold, {len(tasks)} parts, {ev['wall_s']} s")
    for f in old:
        print(f"KNOWN-FINDING: property={prop} {f['rule']} @ {f['where']}: {f['detail']}")
    if new:
        rp = os.path.join(EVID, prop + ".violation.txt")
        with open(rp, "w") as fh:
            for f in new:
                fh.write(f"rule:   {f['rule']}\nwhere:  {f['where']}\ndetail: {f['detail']}\n\n")
        for f in new[:20]:
            print(f"  {f['rule']} @ {f['where']}: {f['detail']}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    return 0


TRUSTED = [
    "rustc nightly: type checking, monomorphisation and MIR construction",
    "driver/main.rs: MIR to JSON",
    "analyzer/interp.py, terms.py: value graphs of MIR",
    "analyzer/models.py: meaning of the modelled library operations",
]
