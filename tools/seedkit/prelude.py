import json
import random
import subprocess
import sys

TOOL = sys.argv[1]


def y4m(name, w=64, h=64, frames=1, space="420jpeg", seed=1, base=None, change=4):
    """a file of noise, or of `base`'s noise slightly changed"""
    r, n = random.Random(seed), random.Random(base if base is not None else seed)
    c = ((w + 1) // 2) * ((h + 1) // 2) if space.startswith("420") else ((w + 1) // 2) * h if space.startswith("422") else w * h
    with open(name, "wb") as f:
        f.write(f"YUV4MPEG2 W{w} H{h} F25:1 Ip A1:1 C{space}\n".encode())
        for _ in range(frames):
            f.write(b"FRAME\n" + bytes(n.randrange(60, 190) + (r.randrange(change) if base is not None else 0) for _ in range(w * h + 2 * c)))
    return name


def tool(*args):
    p = subprocess.run([TOOL, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return p.returncode, p.stdout


def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)


