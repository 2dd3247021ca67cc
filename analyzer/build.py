"""Builds the MIR driver and dumps the monomorphised program of /repo's working tree."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, "work"))

KINDS = {
    # name: (cargo directory, arguments, crate dumped)
    "lib": ("harness", [], "vharness"),
    "ff": ("harness", ["--features", "ffmpeg"], "vharness"),
    "tool": (None, ["-p", "av-metrics-tool"], "av_metrics_tool"),
}


class BuildError(Exception):
    pass


def files(root, skip=("target", ".git", "work", "seeded", "evidence")):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                out.append(os.path.join(d, f))
    return out


def digest(*roots):
    h = hashlib.sha256()
    for r in roots:
        for f in files(r):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def run(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(f"{what} failed:\n" + p.stdout[-4000:])


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


def driver(env):
    src = os.path.join(VERIF, "driver", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(WORK, "driver-" + h)
    exe = os.path.join(out, "mirdump")
    if not os.path.exists(exe):
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", os.path.join(tmp, "mirdump")], tmp, env, "building the MIR driver")
        os.rename(tmp, out)
    return exe


def dump(kind):
    """path of the JSON program for this kind; built from the current sources"""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _dump(kind)


def _dump(kind):
    where, extra, crate = KINDS[kind]
    roots = [REPO, os.path.join(VERIF, "driver")] + ([os.path.join(VERIF, where)] if where else [])
    h = digest(*roots)
    out = os.path.join(WORK, f"dump-{kind}-{h}")
    res = os.path.join(out, crate + ".json")
    if os.path.exists(res):
        return res
    # whatever belongs to other states of the sources is of no use any more
    for d in os.listdir(WORK):
        if (d.startswith("dump-" + kind + "-") or d.startswith("target-" + kind + "-")) and not d.endswith(h):
            shutil.rmtree(os.path.join(WORK, d), ignore_errors=True)
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC"):
        env.pop(k, None)
    env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    exe = driver(env)
    target = os.path.join(WORK, f"target-{kind}-{h}")
    shutil.rmtree(target, ignore_errors=True)
    tmp = out + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    env.update(
        MIRDUMP_CRATES=crate,
        MIRDUMP_OUT=tmp,
        RUSTC_WORKSPACE_WRAPPER=exe,
        RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings",
        CARGO_TARGET_DIR=target,
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="0",
    )
    cwd = os.path.join(VERIF, where) if where else REPO
    if where and REPO != "/repo":
        # analyse another tree (used by the self-tests only)
        alt = os.path.join(WORK, "harness-" + h)
        shutil.rmtree(alt, ignore_errors=True)
        shutil.copytree(cwd, alt, ignore=shutil.ignore_patterns("target"))
        t = open(os.path.join(alt, "Cargo.toml")).read().replace('"/repo/', '"' + REPO + "/")
        open(os.path.join(alt, "Cargo.toml"), "w").write(t)
        cwd = alt
    try:
        run(["cargo", "+nightly", "check", "--offline"] + extra, cwd, env, "compiling the sources")
    finally:
        shutil.rmtree(target, ignore_errors=True)
        if cwd.startswith(os.path.join(WORK, "harness-")):
            shutil.rmtree(cwd, ignore_errors=True)
    if not os.path.exists(os.path.join(tmp, crate + ".json")):
        raise BuildError("the driver wrote no program for " + crate)
    shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)
    return res


if __name__ == "__main__":
    for k in sys.argv[1:]:
        print(dump(k))
