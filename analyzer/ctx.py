"""What the rules share: programs, evaluated roots, findings."""
import os
import time

import build
from models import *
from interp import Unsupported

FRAME_METRICS = ["psnr", "apsnr", "psnr_hvs", "ssim", "msssim", "ciede", "ciede_nosimd"]
BOT = raw("bot")


class Finding(Exception):
    """a construct that breaks, or cannot be shown to keep, a property"""

    def __init__(self, rule, where, detail):
        super().__init__(detail)
        self.rule, self.where, self.detail = rule, where, detail

    def key(self):
        return f"{self.rule} @ {self.where}"


_progs = {}


def prog(kind="lib"):
    p = _progs.get(kind)
    if p is None:
        p = _progs[kind] = Prog(build.dump(kind))
    return p


class Res:
    """an evaluated function"""

    def __init__(self, it, fn, args, v, mem, pc):
        self.it, self.fn, self.args, self.v, self.mem, self.pc = it, fn, args, v, mem, pc

    def events(self, *names):
        out = []
        for (kind, site, tag), (cond, data, stack) in self.it.obligations.items():
            if kind.startswith("ev:") and (not names or kind[3:] in names):
                out.append(Event(kind[3:], site, cond, data, stack))
        return out


class Event:
    def __init__(self, name, site, cond, data, stack):
        self.name, self.site, self.cond, self.data, self.stack = name, site, cond, data, stack

    def where(self):
        own = [f for f in self.stack if f.startswith("av_metrics")]
        return (own or list(self.stack) or ["?"])[-1]


_evals = {}


def symargs(p, f):
    args = []
    for i in range(f.nargs):
        t = p.types[f.locals[i + 1]]
        s = sym(f"arg{i}")
        if t["k"] in ("ref", "ptr"):
            args.append(ref(cell("deref", s)))
        else:
            if t["k"] == "int" and not t["s"]:
                nonneg.add(s)
            args.append(s)
    return args


def evaluate(root, kind="lib", opaque=(), args=None, key=None, **kw):
    k = (kind, root if type(root) is str else root.id, tuple(sorted(opaque)), key)
    if args is None and k in _evals:
        r = _evals[k]
        if isinstance(r, Exception):
            raise r
        return r
    p = prog(kind)
    f = root
    if type(root) is str:
        if root not in p.roots:
            raise Finding("anchor", root, "this entry point no longer exists")
        f = p.root(root)
    it = Interp(p, Models(), opaque=opaque, **kw)
    a = symargs(p, f) if args is None else args
    try:
        r = it.inline(f, a, Mem(), TRUE, 0)
        if r is None:
            raise Finding("never-returns", f.short(), "the function never returns")
        res = Res(it, f, a, *r)
    except Unsupported as e:
        where = " < ".join(x.short() for x in it.stack[-3:][::-1])
        res = Finding("not-understood", where or f.short(), f"the analysis cannot follow this code: {e}")
    except RecursionError:
        res = Finding("not-understood", f.short(), "the analysis cannot follow this code: nested too deeply")
    except Finding as e:
        res = e
    if args is None:
        _evals[k] = res
    if isinstance(res, Exception):
        raise res
    return res


def under(v, cond):
    """leaves of v possible when cond holds"""
    return [x for x in leaves(ite(cond, v, BOT)) if x is not BOT]


def is_ok(x):
    return x.op == "agg" and str(x.a[0]).endswith("Result") and x.a[1] == 0


def is_err(x):
    return x.op == "agg" and str(x.a[0]).endswith("Result") and x.a[1] == 1


def deref(s):
    return raw("deref", sym(s))


def plane(frame, i):
    return sel(fld(frame, 0, 0), I(i))


def brief(t, n=160):
    s = show(t, maxd=7)
    return s if len(s) <= n else s[: n - 1] + "…"


def metric_fns(p, name):
    """trait methods of the metric pipeline, by name"""
    return [f for f in p.fns if f.crate == "av_metrics" and f.key[0] == "VideoMetric" and f.key[1] == name]


def skeleton(p):
    """numeric helpers that cannot decide between success and failure"""
    out = []
    for f in p.fns:
        if f.crate != "av_metrics" or f.blocks is None or not f.locals or f.key[1].startswith("{closure"):
            continue
        t = p.types[f.locals[0]]
        if t["k"] == "float":
            out.append(f.id)
    return out
