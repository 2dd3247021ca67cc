"""Rules on the result graph of comparing two frames."""
from ctx import *

A, Bf = deref("arg0"), deref("arg1")
DEPTH = sym("arg2")
CS = sym("arg3")
nonneg.add(DEPTH)


def root(m, w):
    return f"vharness::r_{m}::frame_{w}"


def skel(m, w):
    p = prog()
    return evaluate(root(m, w), opaque=skeleton(p))


def bad_leaves(v, cond, good):
    return [x for x in under(v, cond) if not good(x)]


def pixel_width(rep, m, w):
    """declared depth and pixel storage disagree => error, for every depth"""
    r = skel(m, w)
    cond = ile(I(9), DEPTH) if w == "u8" else ile(DEPTH, I(8))
    bad = bad_leaves(r.v, cond, is_err)
    what = "over 8" if w == "u8" else "of 8 or less"
    if bad:
        # conditions the decision graph cannot relate: one depth at a time
        ds = range(9, 65) if w == "u8" else range(0, 9)
        worst = [d for d in ds if any(not is_err(x) for x in leaves(subst(r.v, {DEPTH: I(d)})))]
        rep.check(not worst, "pixel-width", r.fn.short(), f"{w} frames with a declared bit depth {what} can be given a score" + (f" (for example depth {worst[0]})" if worst else ""))
    else:
        rep.check(True, "", "", "")
    rep.sample({"entry": r.fn.short(), "pixels": w, "depth": what, "all outcomes": "errors"})
    # and the right pairing is not rejected out of hand
    ok = [x for x in leaves(subst(r.v, {DEPTH: I(8 if w == "u8" else 10)})) if is_ok(x)]
    rep.check(ok, "pixel-width-vacuous", r.fn.short(), f"{w} frames of a matching bit depth can never be given a score")


GEOMETRY = (("width", WIDTH), ("height", HEIGHT), ("horizontal decimation", XDEC), ("vertical decimation", YDEC))


def geometry(rep, m, w):
    """a difference in the geometry of any plane => error"""
    r = skel(m, w)
    v = subst(r.v, {DEPTH: I(8 if w == "u8" else 10)})
    for i in range(3):
        for name, f in GEOMETRY:
            c = NOT(eqz(sub(pcfg(plane(A, i), f), pcfg(plane(Bf, i), f))))
            bad = bad_leaves(v, c, is_err)
            rep.check(not bad, "geometry", r.fn.short(), f"plane {i} may differ in {name} and the {w} frames still be given a score")
    rep.sample({"entry": r.fn.short(), "pixels": w, "planes": 3, "fields": [g[0] for g in GEOMETRY]})
    ok = [x for x in leaves(v) if is_ok(x)]
    rep.check(ok, "geometry-vacuous", r.fn.short(), "no frames can be given a score")


def reads_after_checks(rep, m, w):
    """no pixel of frames that differ in geometry is looked at"""
    r = skel(m, w)
