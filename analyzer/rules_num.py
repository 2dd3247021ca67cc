"""Rules on the numeric kernels: what a score is computed from."""
from ctx import *
import rules_agg as ra
from real import Real, equal

F1, F2 = deref("arg0"), deref("arg1")
DEPTH = sym("arg2")
CS = sym("arg3")
CFG_FIELDS = 11


def full(m, w):
    """every score the frame entry point can give"""
    r = evaluate(f"vharness::r_{m}::frame_{w}")
    ok = [x for x in leaves(r.v) if is_ok(x)]
    if not ok:
        raise Finding("never-scores", r.fn.short(), "no score can result")
    return r, ok


def plane_of(x):
    """(frame, plane number) of a plane term"""
    for f in (F1, F2):
        for i in range(3):
            if x is plane(f, i):
                return (1 if f is F1 else 2, i)
    return None


def data_reads(t):
    """(plane, term) of every read of samples in t"""
    out = []
    for x in subterms(t):
        if x.op == "pixel":
            out.append((plane_of(x.a[0]), x))
        elif x.op in ("sel", "slice", "len") and x.op != "len" and x.a[0].op == "fld" and plane_of(x.a[0].a[0]) is not None and not is_cfg(x.a[0]):
            out.append((plane_of(x.a[0].a[0]), x))
    return out


def is_cfg(t):
    return t is cfgof(t.a[0])


def wiring(rep, m, w):
    r, ok = full(m, w)
    where = r.fn.short()
    for v in ok:
        comp = dict(ra.components(v))
        for path, x in comp.items():
            got = {p for p, _ in data_reads(x)}
            name = ra.NAMES.get(path, path)
            if path in ((0,), (1,), (2,)):
                want = {(1, path[0]), (2, path[0])}
                rep.check(got == want, "plane-wiring", where, f"the {name} score is computed from {names(got)} instead of {names(want)}")
            else:
                want = {(f, i) for f in (1, 2) for i in range(3)}
                rep.check(got == want, "plane-wiring", where, f"the {name} is computed from {names(got)} instead of all planes of both frames")
        rep.sample({"entry": where, "samples read": {str(ra.NAMES.get(p, p)): names({q for q, _ in data_reads(x)}) for p, x in comp.items()}})


def names(s):
    return ", ".join("samples of unknown origin" if p is None else f"{'YUV'[p[1]]} of frame {p[0]}" for p in sorted(s, key=str)) or "no samples"


def same_geometry(t):
    """t for frames of equal geometry"""
    cf = {}
    for i in range(3):
        for f in range(CFG_FIELDS):
            cf[pcfg(plane(F2, i), f)] = pcfg(plane(F1, i), f)
    return subst(t, cf)


def identical(rep, m, w):
    r, ok = full(m, w)
    where = r.fn.short()
    for v in ok:
        for path, x in ra.components(v):
            y = subst(same_geometry(x), {F2: F1})
            good = all(z.op == "f" and f_of(z) == 100.0 for z in leaves(y))
            rep.check(good, "identical", where, f"the {ra.NAMES.get(path, path)} of identical frames is {brief(y)}, not 100")


def capped(t, memo=None):
    """no value of t exceeds 100"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    memo[t] = False
    r = False
    if t.op == "f":
        r = f_of(t) <= 100.0
    elif t.op == "ite":
        r = capped(t.a[1], memo) and capped(t.a[2], memo)
        if not r:
            r = guarded(t)
    elif t.op == "ffun" and t.a[0] == "min":
        r = capped(t.a[2], memo) or capped(t.a[3], memo)
    elif t.op == "fdiv":
        # a mean of capped values
        s, n = t.a[1], t.a[2]
        if s.op == "sum" and n.op == "i2f":
            vs, args = open_binder(s)
            k = simple_trip(args[0], vs[0])
            r = k is n.a[-1] and capped(args[2], memo)
    memo[t] = r
    return r


def guarded(t):
    """x < c ? x : y, the hand-written minimum"""
    c, a, b = t.a
    if c.op == "flt":
        x, y = c.a
        if x.op == "f" and f_of(x) <= 100.0 and b is y and capped(a):
            return True
        if y.op == "f" and f_of(y) <= 100.0 and a is x and capped(b):
            return True
    return False


def cap(rep, m, w):
    r, ok = full(m, w)
    for v in ok:
        for path, x in ra.components(v):
            rep.check(capped(x), "cap", r.fn.short(), f"nothing keeps the {ra.NAMES.get(path, path)} at or below 100: {brief(x)}")


def cap_video(rep, m):
    r, it, v = ra.video_call(m)
    g = dict(ra.components(ra.only(ra.oks(ra.frame_call(m)[2]), it.fn.short(), "scores of a frame")))
    for path, x in ra.components(v):
        if ra.M0 is g.get(path):
            # the video's score is the mean of frame scores, which are capped by themselves
            x = fdiv(64, *[ra.unflatten(z) for z in x.a[1:]]) if x.op == "fdiv" else x
            good = x.op == "fdiv" and x is ra.mean_of(ra.M0, None)
        else:
            good = capped(x)
        rep.check(good, "cap", it.fn.short(), f"nothing keeps the {ra.NAMES.get(path, path)} of a video at or below 100: {brief(x)}")


def unsupported(rep, m, w):
    """inputs a metric has no meaning for are an error"""
    p = prog()
    r = evaluate(f"vharness::r_{m}::frame_{w}", opaque=skeleton(p))
    where = r.fn.short()
    n = 0
    if m.startswith("ciede"):
        for d in range(0, 33):
            if d not in (8, 10, 12):
                bad = [x for x in under(r.v, eqz(sub(DEPTH, I(d)))) if not is_err(x)]
                rep.check(not bad, "unsupported-depth", where, f"bit depth {d} can be given a score")
        bad = [x for x in under(r.v, ile(I(33), DEPTH)) if not is_err(x)]
        rep.check(not bad, "unsupported-depth", where, "bit depths over 32 can be given a score")
        t = ra.chroma_type(p)
        for i, v in enumerate(t["v"]):
            if v["n"] == "Cs400":
                c = eqz(sub(discriminant(CS, t), I(i)))
                bad = [x for x in under(r.v, c) if not is_err(x)]
                rep.check(not bad, "unsupported-format", where, "frames without chroma can be given a score")
    need = {"ssim": 1, "msssim": 16, "psnr_hvs": 8}.get(m)
    if need:
        for i in range(3):
            for f, name in ((rf_width(), "wide"), (rf_height(), "high")):
                c = ile(pcfg(plane(F1, i), f), I(need - 1))
                bad = [x for x in under(r.v, c) if not is_err(x)]
                rep.check(not bad, "too-small", where, f"frames whose plane {i} is less than {need} samples {name} can be given a score")
    rep.sample({"entry": where})


def rf_width():
    return cfg_index("width")


def rf_height():
    return cfg_index("height")


def cfg_index(name):
    for t in prog().types:
        if t.get("k") == "adt" and t["def"].split("::")[-1] == "PlaneConfig":
            for i, f in enumerate(t["v"][0]["f"]):
                if f[0] == name:
                    return i
    raise Finding("anchor", "PlaneConfig", f"field {name} not found")


def storage(rep, m):
    """8-bit and 16-bit samples are scored by one formula"""
    r8, o8 = full(m, "u8")
    r16, o16 = full(m, "u16")
    where = r16.fn.short()
    rep.check(len(o8) == len(o16), "sample-type", where, "8-bit and 16-bit samples are scored in different numbers of ways")
    a = [dict(ra.components(x)) for x in o8]
    b = [dict(ra.components(x)) for x in o16]
    for x, y in zip(a, b):
        rep.check(set(x) == set(y), "sample-type", where, "the scores have different parts")
        for path in x:
            rep.check(y.get(path) is x[path], "sample-type", where, f"the {ra.NAMES.get(path, path)} of 16-bit samples is computed unlike that of 8-bit samples")
    seen = set()
    for x in b:
        for path, v in x.items():
            cut = sorted({c for t in subterms(v, seen) for c in narrowed(t)})
            rep.check(not cut, "sample-type", where, f"the {ra.NAMES.get(path, path)} is computed from altered samples: {', '.join(cut)}")
    rep.sample({"entries": [r8.fn.short(), where]})


def lone(t):
    """t is a sample, perhaps shifted or scaled"""
    c, d = lin_parts(t)
    return len(d) == 1 and next(iter(d)).op == "pixel"


def narrowed(t):
    """how t loses part of a single sample's value, if it does"""
    o = t.op
    if o in ("imin", "imax", "satsub", "bitand", "bitor", "mod", "idiv", "shr", "sdiv", "srem"):
        a, b = t.a[:2]
        if b.op in ("pixel", "lin") and lone(b) and a.op == "i":
            a, b = b, a
        if not (type(a) is T and type(b) is T and lone(a)) or b.op != "i":
            return []
        n = b.a[0]
        if o == "imin" and n >= 0xFFFF or o == "imax" and n <= 0 or o == "satsub" and n == 0:
            return []
        if o in ("mod",) and n > 0xFFFF or o == "bitand" and n & 0xFFFF == 0xFFFF or o == "bitor" and n == 0:
            return []
        if o == "idiv" and n == 1 or o == "shr" and n == 0:
            return []
        return [f"{WORDS[o]} {n}"]
    if o in ("ltz", "eqz") and lone(t.a[0]):
        return ["compared with a constant"]
    return []


WORDS = {"imin": "minimum with", "imax": "maximum with", "satsub": "less", "bitand": "masked with", "bitor": "combined with", "mod": "modulo", "idiv": "divided by", "shr": "shifted by", "sdiv": "divided by", "srem": "modulo"}

LAYOUT = ("stride", "alloc_height", "xpad", "ypad", "xorigin", "yorigin")


def padding(rep, m, w):
    """no score depends on samples outside the visible area, or on how planes are laid out"""
    r, ok = full(m, w)
    where = r.fn.short()
    if m.startswith("ciede"):
        # the sizes of chroma planes follow from the chroma sampling
        t = ra.chroma_type(prog())
        for i, v in enumerate(t["v"]):
            c = eqz(sub(discriminant(CS, t), I(i)))
            good = [x for x in under(r.v, c) if is_ok(x)]
            dec = DECIMATION.get(v["n"])
            if dec is None:
                continue
            facts = []
            for f, d in ((rf_width(), dec[0]), (rf_height(), dec[1])):
                y, u = pcfg(plane(F1, 0), f), pcfg(plane(F1, 1), f)
                facts.append(eqz(sub(u, idiv(add(y, I(d)), I(1 << d)))))
            rep.check(bool(good), "visible", where, f"no score for {v['n']}")
            for x in good:
                x = subst(x, {CS: agg(t["def"], i)})
                padding_of(rep, where, x, tuple(facts), v["n"])
    else:
        for x in ok:
            padding_of(rep, where, x, (), "")
    rep.sample({"entry": where, "reads": rep.notes.get("sample reads shown visible")})


DECIMATION = {"Cs420": (1, 1), "Cs422": (1, 0), "Cs444": (0, 0)}


def padding_of(rep, where, v, base, tag):
    import lin

    hidden = {pcfg(plane(f, i), cfg_index(n)): (n, f, i) for f in (F1, F2) for i in range(3) for n in LAYOUT}
    for path, x in ra.components(v):
        name = ra.NAMES.get(path, path) + (f" in {tag}" if tag else "")
        occ = lin.occurrences(x, lambda t: t.op == "pixel")
        todo = {}
        for t, facts in occ:
            todo.setdefault(t, {})[facts] = 1
        bad = []
        n = 0
        for t, fs in todo.items():
            px, X, Y = t.a
            if plane_of(px) is None:
                bad.append((t, "of an unknown plane"))
                continue
            for facts in fs:
                n += 1
                if not visible(base + facts, X, Y, px):
                    bad.append((t, "may lie outside the plane"))
                    break
        rep.check(not bad, "visible", where, f"the {name} reads a sample that {bad[0][1]}: {brief(bad[0][0])}" if bad else "")
        rep.count("sample reads shown visible", n)
        seen = set()
        shallow(x, seen)
        for t in todo:
            for z in by_rows(*t.a):
                shallow(z, seen)
        used = sorted({f"{hidden[t][0]} of plane {hidden[t][2]}" for t in seen if t in hidden})
        rep.check(not used, "layout", where, f"the {name} depends on the {', '.join(used)}")
        raws = [t for p, t in data_reads(x) if t.op != "pixel"]
        rep.check(not raws, "raw-samples", where, f"the {name} reads samples by position in memory: {brief(raws[0])}" if raws else "")


_canon = {}


def canonical(t):
    """t for frames of one geometry whose chroma planes are laid out alike"""
    if not _canon:
        for f in range(CFG_FIELDS):
            for fr, i, j in ((F1, 2, 1), (F2, 0, 0), (F2, 1, 1), (F2, 2, 1)):
                _canon[pcfg(plane(fr, i), f)] = pcfg(plane(F1, j), f)
    return subst(t, _canon)


def shallow(t, seen):
    """subterms, not looking into positions of samples"""
    st = [t]
    while st:
        x = st.pop()
        if type(x) is not T or x in seen:
            continue
        seen.add(x)
        if x.op != "pixel":
            st += x.a


def by_rows(px, X, Y):
    """position of a sample, whole strides turned into rows"""
    X, Y = canonical(X), canonical(Y)
    S = canonical(pcfg(px, cfg_index("stride")))
    c, d = lin_parts(X)
    q, rest = [], [(c, ONE)]
    for t, k in d.items():
        fs = list(t.a) if t.op == "mul" else [t]
        if S in fs:
            fs.remove(S)
            m = ONE
            for z in fs:
                m = mul(m, z)
            q.append((k, m))
        else:
            rest.append((k, t))
    if not q:
        return X, Y
    return lincomb(*rest), lincomb((1, Y), *q)


def visible(facts, X, Y, px):
    import lin

    w, h = canonical(pcfg(px, rf_width())), canonical(pcfg(px, rf_height()))
    X, Y = by_rows(px, X, Y)
    # the n-th visible sample in reading order
    if X.op == "mod" and Y.op == "idiv" and X.a[0] is Y.a[0] and X.a[1] is w and Y.a[1] is w:
        return True
    facts = tuple(canonical(f) for f in facts)
    for x, n in ((X, w), (Y, h)):
        if not lin.entails(facts, x) or not lin.entails(facts, sub(sub(n, ONE), x)):
            return False
    return True
