"""Rules on how plane scores make frame scores and frame scores make the video score."""
from ctx import *
from inst import Inst, Stuck
import rules_pipe as rp
from real import Real, equal

SEQ = deref("results")
N = length(SEQ)
M0 = sym("frame result")
CHROMA = sym("chroma")


def opaqued(r, name):
    ids = r.it.opaqued.get(name, set())
    if len(ids) != 1:
        raise Finding("anchor", r.fn.short(), f"{len(ids)} functions are used as {name}")
    return r.it.p.fns[next(iter(ids))]


def oks(v):
    return [x for x in leaves(v) if is_ok(x)]


def only(xs, where, what):
    if len(xs) != 1:
        raise Finding("not-understood", where, f"{len(xs)} {what}")
    return xs[0]


def chroma_type(p):
    return rp.field_index(p, "VideoDetails", "chroma_sampling")[1]


def frame_call(m, w="u8"):
    """the frame entry point with the plane scores opaque: (Ok value in M0, the call)"""
    p = prog()
    op = metric_fns(p, "process_frame")
    r = evaluate(f"vharness::r_{m}::frame_{w}", opaque=[f.id for f in op])
    cs = set(rp.calls(r.v, "process_frame"))
    c = only(list(cs), r.fn.short(), "comparisons in a frame's score")
    v = subst(subst(r.v, {c: raw("agg", "core::result::Result", 0, M0)}), {M0: expand(p, result_type(p, opaqued(r, "process_frame")), M0)})
    bad = [x for x in leaves(v) if not is_ok(x)]
    if bad:
        raise Finding("not-understood", r.fn.short(), f"the frame has no score although its planes were compared: {brief(bad[0])}")
    return r, c, subst(v, {sym("arg3"): CHROMA})


def root_frame(m, w="u8"):
    return f"vharness::r_{m}::frame_{w}"


def video_call(m):
    """the video's value over the sequence of frame results"""
    p = prog()
    r = rp.video(m)
    cs = set(rp.calls(r.v, "aggregate_frame_results"))
    if not cs:
        raise Finding("anchor", r.fn.short(), "the frame results are not aggregated by the metric")
    fn = opaqued(r, "aggregate_frame_results")
    selfs = {c.a[1] for c in cs}
    c = only(list(selfs), r.fn.short(), "metric configurations")
    a = [ref(cell("val", c)) if p.types[fn.locals[1]]["k"] == "ref" else c, ref(cell("deref", sym("results")))]
    key = ("agg", m)
    it = evaluate(fn, args=a)
    vals = set()
    for x in leaves(r.v):
        inside = [y for y in cs if contains(x, lambda z, y=y: z is y)]
        if not inside or is_err(x):
            continue
        for y in inside:
            x = subst(x, {y: it.v})
        if is_ok(x) or x.op == "ite":
            vals.add(x)
    ci, ct = rp.field_index(p, "VideoDetails", "chroma_sampling")
    out = {subst(x, {rp.chroma_of(p, rp.D1)[0]: CHROMA}) for x in vals}
    out = {y for x in out for y in leaves(x) if not is_err(y)}
    v = only(list(out), r.fn.short(), "ways to score the frames")
    rt = p.types[result_type(p, opaqued(evaluate(root_frame(m), opaque=[f.id for f in metric_fns(p, "process_frame")]), "process_frame"))]
    return r, it, unflatten(restrict(v, ile(ONE, N)), rt["n"] if rt["k"] == "array" else None)


def unflatten(t, width=None):
    """sums over a flattened sequence as sums over its rows; rows of known width"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "len" and width is not None and x.a[0].op == "sel" and x.a[0].a[0] is SEQ:
            r = I(width)
        elif x.op == "sum":
            vs, args = open_binder(x)
            args = [go(y) if type(y) is T else y for y in args]
            r = rows(vs[0], args) or close_binder("sum", vs, args)
        elif x.op in BINDERS:
            vs, args = open_binder(x)
            r = close_binder(x.op, vs, [go(y) if type(y) is T else y for y in args])
        elif x.op in ("bv", "fresh", "cell", "sym") or not x.a:
            r = x
        else:
            a = [go(y) if type(y) is T else y for y in x.a]
            r = x if all(p is q for p, q in zip(a, x.a)) else rebuild(x, a)
        memo[x] = r
        return r

    def rows(k, args):
        cont, body, ty = args[0], args[2], args[3]
        n = simple_trip(cont, k)
        if n is None:
            return None
        c, d = lin_parts(n)
        ws = {x.a[1].a[0] for x in subterms(body) if x.op in ("idiv", "mod") and x.a[0] is k and x.a[1].op == "i"}
        if len(ws) != 1:
            return None
        w = ws.pop()
        if not 2 <= w <= 8 or c % w or any(v % w for v in d.values()):
            return None
        m = from_parts(c // w, {x: v // w for x, v in d.items()})
        i = fresh("row")
        nonneg.add(i)
        parts = [subst(body, {raw("idiv", k, I(w)): i, raw("mod", k, I(w)): I(j)}) for j in range(w)]
        if any(k in b.fv for b in parts):
            return None
        b = parts[0]
        for q in parts[1:]:
            b = add(b, q) if ty == "int" else fadd(ty, b, q)
        return mk_sum(i, ilt(i, m), b, ZERO if ty == "int" else F(0.0, ty), ty)

    return go(t)


def chroma_cases(p):
    t = chroma_type(p)
    return [(d["n"], i) for i, d in enumerate(t["v"])]


def in_chroma(t, i):
    """t for the given chroma sampling"""
    p = prog()
    return restrict_all(t, AND(TRUE, eqz(sub(discriminant(CHROMA, chroma_type(p)), I(i)))), i)


def restrict_all(t, cond, i):
    def oracle(x):
        if x.op == "is" and x.a[0] is CHROMA:
            return B(x.a[1] == i)
        return None

    class Half(Inst):
        def binder(self, t, env, memo):
            vs, args = open_binder(t)
            return close_binder(t.op, vs, [self._ev(x, env, {}) if type(x) is T else x for x in args])

    return Half(oracle).ev(t)


def components(v):
    """the numbers a score consists of"""
    out = []

    def go(x, path):
        if x.op == "agg" and len(x.a) > 2:
            for j, y in enumerate(x.a[2:]):
                if type(y) is T:
                    go(y, path + (j,))
        else:
            out.append((path, x))

    go(v.a[2] if is_ok(v) else v, ())
    return out


NAMES = {(0,): "Y", (1,): "U", (2,): "V", (3,): "average", (): "score"}


def result_type(p, fn):
    """type of a frame's result: Ok payload of what the comparison returns"""
    t = p.types[fn.locals[0]]
    return t["v"][0]["f"][0][1]


def atoms_of(p, tyi, x):
    """scalar places inside a frame result: (term, type)"""
    t = p.types[tyi]
    if t["k"] == "float" or t["k"] == "int":
        return [(x, t)]
    if t["k"] == "adt" and len(t["v"]) == 1:
        return [z for j, f in enumerate(t["v"][0]["f"]) for z in atoms_of(p, f[1], fld(x, 0, j))]
    if t["k"] == "tuple":
        return [z for j, f in enumerate(t["f"]) for z in atoms_of(p, f, fld(x, 0, j))]
    if t["k"] == "array":
        n = t["n"]
        return [z for j in range(n) for z in atoms_of(p, t["e"], sel(x, I(j)))]
    raise Finding("not-understood", "frame result", f"a frame's result holds a {t['k']}")


def expand(p, tyi, x):
    """an opaque value of the type, its array elements named"""
    t = p.types[tyi]
    if t["k"] == "array":
        return raw("agg", "arr", 0, *[expand(p, t["e"], sel(x, I(j))) for j in range(t["n"])])
    return x


def mean_of(x, k):
    """1/n * sum over the frames of a place of the frame result"""
    return fdiv(64, total_of(x, k, 64), i2f(64, N))


def total_of(x, k, w):
    v = fresh("k")
    nonneg.add(v)
    b = subst(x, {M0: sel(SEQ, v)})
    return mk_sum(v, ilt(v, N), b, ZERO if w == "int" else F(0.0, w), w)


def schedule(rep, m):
    """the video's score does not depend on the order of the frame results"""
    p = prog()
    r, it, v = video_call(m)
    w = it.fn.short()
    inv = invariants(m)
    n = 0
    for path, x in components(v):
        bad = None
        for s in subterms(x):
            if SEQ in s.a:
                if s.op in ("len", "length") or s is N:
                    continue
                if s.op == "sel" and s.a[0] is SEQ:
                    continue
                bad = f"uses the frame results as a whole in {brief(s)}"
        n += 1
        rep.check(bad is None, "order", w, f"the {NAMES.get(path, path)} of the video {bad}")
        bad = order_use(x, inv)
        rep.check(bad is None, "order", w, f"the {NAMES.get(path, path)} of the video depends on the order of the frames: {bad}")
    rep.sample({"aggregation": w, "components": n, "fields equal for all frames": sorted(str(i) for i in inv)})


def order_use(x, inv):
    """None, or how a term depends on the order of the sequence"""
    sums = set()
    state = {}

    def go(t):
        if t in state:
            return state[t]
        state[t] = None
        r = None
        if t.op == "sum":
            vs, args = open_binder(t)
            k = vs[0]
            cont, body = args[0], args[2]
            if contains(body, lambda y: y.op == "sel" and y.a[0] is SEQ):
                if not (cont is ilt(k, N) or simple_trip(cont, k) is N):
                    r = f"frames while {brief(cont)}"
                elif not over(body, k):
                    r = f"a sum of {brief(body)}"
                state[t] = r
                return r
        if t.op in BINDERS and contains(t, lambda y: y is SEQ):
            r = f"{t.op} over the frames"
        elif t.op == "sel" and t.a[0] is SEQ:
            r = f"frame {brief(t.a[1])}"
        elif t.op in ("fld", "sel") and base_sel(t) is not None:
            place = subst(t, {base_sel(t): M0})
            if any(place is i for i in inv):
                state[t] = None
                return None
            r = f"{brief(t)}"
        else:
            for y in t.a:
                if type(y) is T:
                    r = r or go(y)
        state[t] = r
        return r

    def over(body, k):
        """body mentions the counter only to pick the frame"""
        b = subst(body, {sel(SEQ, k): M0})
        return k not in b.fv and not contains(b, lambda y: y is SEQ)

    return go(x)


def base_sel(t):
    while t.op in ("fld", "sel") and t.a[0] is not SEQ:
        t = t.a[0]
    return t if t.op == "sel" and t.a[0] is SEQ else None


_inv = {}


def invariants(m):
    """places of a frame result that are the same for all frames of a video"""
    if m in _inv:
        return _inv[m]
    p = prog()
    r, c, g = frame_call(m)
    fn = opaqued(r, "process_frame")
    places = atoms_of(p, result_type(p, fn), M0)
    out = []
    if any(t["k"] == "int" for _, t in places):
        e = evaluate(fn)
        ok = only(oks(e.v), fn.short(), "results of a frame")
        frames = (deref("arg1"), deref("arg2"))
        for x, t in places:
            y = subst(x, {M0: ok.a[2]})
            if not contains(y, lambda z: z in frames):
                out.append(x)
    _inv[m] = out
    return out


def weights(rep, m, w):
    """the average is the planes' conversion applied to their weighted mean"""
    p = prog()
    r, c, g = frame_call(m, w)
    where = r.fn.short()
    g = only(oks(g), where, "scores of a frame")
    comp = dict(components(g))
    if set(comp) != {(0,), (1,), (2,), (3,)}:
        raise Finding("not-understood", where, "the score is not made of three planes and an average")
    fn = opaqued(r, "process_frame")
    places = [x for x, t in atoms_of(p, result_type(p, fn), M0)]
    used = []
    for j in range(3):
        u = [x for x in places if contains(comp[(j,)], lambda z, x=x: z is x)]
        used.append(u)
    ctx = Real()
    ok = all(len(u) == 1 for u in used) and len({u[0] for u in used}) == 3
    rep.check(ok, "plane-scores", where, "a plane's score is not made from that plane's result alone")
    if not ok:
        return
    x = [u[0] for u in used]
    for j in (1, 2):
        rep.check(equal(comp[(j,)], subst(comp[(0,)], {x[0]: x[j]}), ctx), "plane-scores", where, f"the {NAMES[(j,)]} plane is converted unlike the Y plane")
    for name, i in chroma_cases(p):
        cw = {"Cs420": 0.25, "Cs422": 0.5, "Cs444": 1.0, "Cs400": 0.0}.get(name)
        if cw is None:
            raise Finding("not-understood", where, f"chroma sampling {name} has no documented weight")
        cf = F(cw, 64)
        mean = fdiv(64, fadd(64, x[0], fmul(64, cf, fadd(64, x[1], x[2]))), F(1 + 2 * cw, 64))
        want = subst(comp[(0,)], {x[0]: mean})
        got = in_chroma(comp[(3,)], i)
        k = (1 + 2 * cw) ** 2
        if equal(got, want, ctx):
            rep.check(True, "weighted-mean", where, "")
        elif equal(got, subst(comp[(0,)], {x[0]: fmul(64, F(k, 64), mean)}), ctx):
            # multiplied by the sum of the weights instead of divided by it
            rep.fail("weighted-mean", where, f"the average in {name} is the score of {k} times the planes' mean with chroma weight {cw}")
        else:
            rep.fail("weighted-mean", where, f"the average in {name} is not the score of the planes' mean with chroma weight {cw}")
    rep.sample({"entry": where, "average": brief(comp[(3,)], 300)})


def pooled(rep, m, w):
    """the average is the planes' score for their errors and pixels added up"""
    p = prog()
    r, c, g = frame_call(m, w)
    where = r.fn.short()
    g = only(oks(g), where, "scores of a frame")
    comp = dict(components(g))
    fn = opaqued(r, "process_frame")
    tyi = result_type(p, fn)
    inv = invariants(m)
    per = plane_places(p, tyi, where)
    for j in range(3):
        used = [x for i in range(3) for x in per[i] if contains(comp[(j,)], lambda z, x=x: z is x)]
        rep.check(bool(used) and all(x in per[j] for x in used), "plane-scores", where, f"the {NAMES[(j,)]} score is not made from that plane's result alone")
        if j:
            s = subst(comp[(0,)], dict(zip(per[0], per[j])))
            rep.check(s is comp[(j,)], "plane-scores", where, f"the {NAMES[(j,)]} plane is converted unlike the Y plane")
    tot = {}
    for q, x in enumerate(per[0]):
        xs = [per[i][q] for i in range(3)]
        if x in inv:
            tot[x] = x
        elif is_float(p, tyi, x):
            tot[x] = fadd(64, fadd(64, xs[0], xs[1]), xs[2])
        else:
            tot[x] = add(add(xs[0], xs[1]), xs[2])
    want = subst(comp[(0,)], tot)
    rep.check(same_but(comp[(3,)], want, inv, per), "pooled", where, "the average is not the score of all planes' errors over all planes' pixels")
    rep.sample({"entry": where, "average": brief(comp[(3,)], 300)})


def same_but(a, b, inv, per):
    """equal graphs, where places that are the same for all planes may stand for each other"""
    m = {}
    for q, x in enumerate(per[0]):
        if x in inv:
            for i in (1, 2):
                m[per[i][q]] = x
    a, b = subst(a, m), subst(b, m)
    return a is b or alike(a, b)


def alike(a, b, ctx=None):
    """equal decision graphs up to real-number identities in the leaves"""
    if a is b:
        return True
    ctx = ctx or Real()
    if a.op == "ite" and b.op == "ite":
        if a.a[0] is b.a[0] or (a.a[0].op == b.a[0].op and a.a[0].op in ("flt", "feq") and all(equal(x, y, ctx) for x, y in zip(a.a[0].a, b.a[0].a))):
            return alike(a.a[1], b.a[1], ctx) and alike(a.a[2], b.a[2], ctx)
        return False
    if a.op == "ite" or b.op == "ite":
        return False
    return equal(a, b, ctx)


def is_float(p, tyi, x):
    for y, t in atoms_of(p, tyi, M0):
        if y is x:
            return t["k"] == "float"
    return False


def plane_places(p, tyi, where):
    t = p.types[tyi]
    if t["k"] == "array" and t["n"] == 3:
        return [[x for x, _ in atoms_of(p, t["e"], sel(M0, I(j)))] for j in range(3)]
    if t["k"] == "adt" and len(t["v"]) == 1 and len(t["v"][0]["f"]) >= 3:
        return [[x for x, _ in atoms_of(p, t["v"][0]["f"][j][1], fld(M0, 0, j))] for j in range(3)]
    if t["k"] == "tuple" and len(t["f"]) >= 3:
        return [[x for x, _ in atoms_of(p, t["f"][j], fld(M0, 0, j))] for j in range(3)]
    raise Finding("not-understood", where, "a frame's result is not made of three planes")


def mean_rule(rep, m, how):
    """what the video's score is in terms of the frames'"""
    p = prog()
    r, it, v = video_call(m)
    rf_, c, g = frame_call(m)
    w = it.fn.short()
    fn = opaqued(rf_, "process_frame")
    tyi = result_type(p, fn)
    places = atoms_of(p, tyi, M0)
    inv = invariants(m)
    gc, vc = dict(components(only(oks(g), w, "scores of a frame"))), dict(components(v))
    rep.check(set(gc) == set(vc), "video-score", w, "the video's score has other parts than a frame's")
    for path in gc:
        name = NAMES.get(path, path)
        want, got = gc[path], vc.get(path)
        if got is None:
            continue
        if how == "mean of scores":
            want = mean_of(want, None)
        else:
            s = {}
            for x, t in places:
                if x in inv:
                    continue
                s[x] = (mean_of(x, None) if how == "score of means" else total_of(x, None, "int" if t["k"] == "int" else 64))
            want = subst(want, s)
        for cn, i in chroma_cases(p):
            a, b = in_chroma(got, i), in_chroma(want, i)
            a, b = fold_inv(a, inv), fold_inv(b, inv)
            rep.check(alike(a, b), "video-score", w, f"the video's {name} in {cn} is not the {how} of the frames")
    rep.sample({"aggregation": w, "rule": how})


def fold_inv(t, inv):
    """places equal for all frames, written as those of one frame"""
    m = {}
    for s in subterms(t):
        if s.op in ("fld", "sel") and base_sel(s) is not None:
            place = subst(s, {base_sel(s): M0})
            for i in inv:
                if place is i or generic(place) is generic(i):
                    m[s] = generic(i)
        elif any(s is i for i in inv):
            m[s] = generic(s)
    return subst(t, m) if m else t


def generic(place):
    """the place in plane 0 (a value equal for all frames comes from the depth alone)"""
    def go(x):
        if x.op == "sel" and x.a[1].op == "i":
            return raw("sel", go(x.a[0]), ZERO)
        if x.op == "fld":
            return raw("fld", go(x.a[0]), *x.a[1:])
        return x

    return go(place)


def single(rep, m):
    """videos of one frame score like that frame"""
    p = prog()
    r, it, v = video_call(m)
    rf_, c, g = frame_call(m)
    w = it.fn.short()
    gc, vc = dict(components(only(oks(g), w, "scores of a frame"))), dict(components(v))

    def oracle(t):
        return None

    one = raw("agg", "arr", 0, expand(p, result_type(p, opaqued(rf_, "process_frame")), M0))
    for path in gc:
        if path not in vc:
            rep.fail("single-frame", w, "the video's score has other parts than a frame's")
            continue
        for cn, i in chroma_cases(p):
            b = in_chroma(gc[path], i)
            try:
                a = in_chroma(Inst(oracle).ev(subst(vc[path], {SEQ: one})), i)
            except Stuck as e:
                rep.fail("not-understood", w, f"the score of one frame: {e}")
                return
            rep.check(alike(a, b), "single-frame", w, f"the {NAMES.get(path, path)} in {cn} of a one-frame video is not that of the frame")
    # the configurations the two entry points compare frames with lead to the same comparison
    cv = {x.a[1] for x in rp.calls(rp.video(m).v, "process_frame")}
    cf = c.a[1]
    fnv, fnf = opaqued(rp.video(m), "process_frame") if False else None, opaqued(rf_, "process_frame")
    if cv != {cf}:
        e = evaluate(fnf, opaque=skeleton(p))
        dep = [s for s in subterms(e.v) if s is sym("arg0") or (s.op == "deref" and s.a[0] is sym("arg0"))]
        rep.check(not dep, "configuration", fnf.short(), "frames are compared differently in a video and by themselves")
    else:
        rep.check(True, "configuration", fnf.short(), "")
    rep.sample({"entry": rf_.fn.short(), "aggregation": w})
