"""Rules on comparing two whole videos: validation, decoding, pairing, limits, progress, errors."""
from ctx import *
from inst import Inst, Stuck

D1, D2 = ref(cell("deref", sym("arg0"))), ref(cell("deref", sym("arg1")))
LIMIT = sym("arg2")
HAS_LIMIT = atom(raw("is", LIMIT, 1))
LIMITV = fld(LIMIT, 1, 0)
nonneg.add(LIMITV)


def root(m):
    return f"vharness::r_{m}::video"


def video(m):
    """the pipeline around one metric, the metric itself kept opaque"""
    p = prog()
    op = metric_fns(p, "process_frame") + metric_fns(p, "aggregate_frame_results")
    if not op:
        raise Finding("anchor", "VideoMetric", "the per-frame and per-video parts of the metrics cannot be told apart any more")
    r = evaluate(root(m), opaque=[f.id for f in op])
    if not any(k == "process_frame" for k in r.it.unmodelled):
        raise Finding("anchor", r.fn.short(), "the pipeline does not compare frames through the metric")
    return r


def field_index(p, adt, name):
    for t in p.types:
        if t.get("k") == "adt" and t["def"].split("::")[-1] == adt:
            for i, f in enumerate(t["v"][0]["f"]):
                if f[0] == name:
                    return i, p.types[f[1]]
    raise Finding("anchor", adt, f"field {name} not found")


def depth(d):
    t = raw("depth", d)
    nonneg.add(t)
    return t


def details(d):
    return raw("details", d)


def chroma_of(p, d):
    i, t = field_index(p, "VideoDetails", "chroma_sampling")
    return fld(details(d), 0, i), t


def never(cond, assumption):
    return ite(assumption, cond, FALSE) is FALSE


def validation(rep, m):
    p = prog()
    r = video(m)
    dd = NOT(eqz(sub(depth(D1), depth(D2))))
    c1, t = chroma_of(p, D1)
    c2, _ = chroma_of(p, D2)
    w = r.fn.short()
    evs = r.events("read", "send", "progress", "recv")
    rep.check(not [x for x in under(r.v, dd) if not is_err(x)], "depth-mismatch", w, "two videos of different bit depth can be given a score")
    n = len(t["v"])
    cases = [("different bit depths", dd)]
    for i in range(n):
        for j in range(n):
            if i != j:
                e = AND(eqz(sub(discriminant(c1, t), I(i))), eqz(sub(discriminant(c2, t), I(j))))
                names = (t["v"][i]["n"], t["v"][j]["n"])
                bad = [x for x in under(r.v, e) if not is_err(x)]
                rep.check(not bad, "chroma-mismatch", w, f"videos in {names[0]} and {names[1]} can be given a score")
                cases.append((f"{names[0]} and {names[1]}", e))
    for e in evs:
        for name, c in cases:
            rep.check(never(e.cond, c), "work-before-validation", e.where(), f"{e.name} happens although the videos have {name}")
    wide, narrow = ile(I(9), depth(D1)), ile(depth(D1), I(8))
    same = NOT(dd)
    seen = set()
    for e in r.events("read"):
        bits = e.data[2]
        seen.add(bits)
        rep.check(never(e.cond, AND(same, narrow if bits == 16 else wide)), "sample-width", e.where(),
                  f"frames are read with {bits}-bit samples although the depth is {'8 or less' if bits == 16 else 'over 8'}")
    rep.check(seen == {8, 16}, "sample-width", w, f"sample widths used: {sorted(seen)}, expected 8 and 16")
    rep.sample({"entry": w, "mismatches": len(cases), "events checked": [e.name for e in evs]})


def payload_frames(t):
    """decoder frames mentioned in a message"""
    return [x for x in subterms(t) if x.op == "frame"]


def calls(t, name):
    return [x for x in subterms(t) if x.op == "call" and x.a[0] == name]


def deliver(t, sends):
    """t with every received message replaced by what was sent as that message"""
    m = {}
    for x in subterms(t):
        if x.op == "msg":
            ch, i = x.a
            for s in sends:
                if same_channel(s.data[0], ch):
                    m[x] = subst(s.data[2], {s.data[1]: i}) if s.data[1].op == "fresh" else None
    if any(v is None for v in m.values()):
        raise Finding("not-understood", sends[0].where(), "the number of messages sent so far is not known at the send")
    return subst(t, m) if m else t


def same_channel(tx, rx):
    return tx.a and rx.a and tx.a[0] is rx.a[0]


def pairing(rep, m):
    """message k is (k-th frame of the first, k-th frame of the second); they reach the metric in that order"""
    p = prog()
    r = video(m)
    w = r.fn.short()
    sends = r.events("send")
    rep.check(bool(sends), "pairing", w, "no frames are handed over")
    for s in sends:
        ch, n, load = s.data
        fs = payload_frames(load)
        bits = {f.a[2] for f in fs}
        want = {(D1, n), (D2, n)}
        rep.check({(f.a[0], f.a[1]) for f in fs} == want and len(bits) == 1 and len(fs) == 2, "pairing", s.where(),
                  f"message {brief(n)} carries {', '.join(brief(f) for f in fs)} instead of frame {brief(n)} of both videos")
    for rd in r.events("read"):
        # frames are read once each, in order, and none is skipped: the read counter is the loop counter
        ok = any(s.data[1] is rd.data[1] for s in sends)
        rep.check(ok, "read-order", rd.where(), f"frame {brief(rd.data[1])} is read where the messages sent are not that many")
    pcs = []
    roots = [r.v]
    for x in roots:
        pcs += calls(x, "process_frame")
    rep.check(bool(pcs), "compared", w, "no frames reach the metric")
    di, _ = field_index(p, "VideoDetails", "bit_depth")
    depths = {depth(D1), depth(D2), fld(details(D1), 0, di), fld(details(D2), 0, di)}
    chromas = {chroma_of(p, D1)[0], chroma_of(p, D2)[0]}
    for c in pcs:
        a = [deliver(x, sends) for x in c.a[1:]]
        f1, f2 = a[1], a[2]
        good = f1.op == "frame" and f2.op == "frame" and f1.a[0] is D1 and f2.a[0] is D2 and f1.a[1] is f2.a[1]
        rep.check(good, "compared", w, f"the metric compares {brief(f1)} with {brief(f2)}")
        rep.check(a[3] in depths, "metric-depth", w, f"the metric is told bit depth {brief(a[3])}")
        rep.check(a[4] in chromas, "metric-chroma", w, f"the metric is told chroma sampling {brief(a[4])}")
    rep.sample({"entry": w, "messages": [brief(s.data[2]) for s in sends], "comparisons": len(pcs)})


def limit(rep, m):
    """frame k is not read when the limit is k or less; nothing is sized by the limit"""
    r = video(m)
    for e in r.events("read", "send"):
        n = e.data[1]
        c = AND(HAS_LIMIT, ile(LIMITV, n))
        rep.check(never(e.cond, c), "frame-limit", e.where(), f"{e.name} of frame {brief(n)} happens with a frame limit of that or less")
    k = 0
    for (kind, site, tag), (cond, data, stack) in r.it.obligations.items():
        if kind in ("alloc", "channel"):
            k += 1
            own = [f for f in stack if f.startswith("av_metrics")]
            bad = any(type(x) is T and contains(x, lambda y: y is LIMIT) for x in data)
            rep.check(not bad, "limit-allocation", (own or ["?"])[-1], "memory is reserved for the frame limit, which may be far more than the video has")
    rep.check(k >= 1, "limit-allocation", r.fn.short(), "no channel or buffer found")


# ---------------------------------------------------------------- finite instances of the whole pipeline
MAXN = (1 << 64) - 1


class Scene:
    def __init__(self, r, p, n1, n2, lim, threads, err=None, bits=8, panics=()):
        self.n = (n1, n2)
        self.lim = lim
        self.err = err
        m = min(n1, n2)
        self.sent = m if lim is None else min(m, lim)
        ci, ct = field_index(p, "VideoDetails", "chroma_sampling")
        di, _ = field_index(p, "VideoDetails", "bit_depth")
        self.bits = bits
        cs = {chroma_of(p, D1)[0], chroma_of(p, D2)[0]}

        def oracle(t):
            o = t.op
            if o == "threads":
                return I(threads)
            if o == "depth" or (o == "fld" and t.a[0].op == "details" and t.a[2] == di):
                return I(bits)
            if o == "is":
                x, i = t.a
                if x is LIMIT:
                    return B((lim is not None) == (i == 1))
                if x in cs:
                    return B(i == 0)
                if x.op == "call" and x.a[0] == "process_frame":
                    k = frame_no(x)
                    return None if k is None else B((k == err) == (i == 1))
            if o == "fld" and t.a[0] is LIMIT:
                return I(lim if lim is not None else 0)
            if o == "hasframe" and t.a[1].op == "i":
                return B(t.a[1].a[0] < self.n[0 if t.a[0] is D1 else 1])
            if o == "closed" and t.a[1].op == "i":
                return B(t.a[1].a[0] >= self.sent)
            if o == "panicked":
                return B(t.a[0] in panics)
            if o == "disconnected":
                return FALSE
            return None

        self.inst = Inst(oracle)


def frame_no(call):
    """index of the messages a comparison works on"""
    ks = {x.a[1].a[0] if x.a[1].op == "i" else None for x in subterms(call) if x.op in ("msg", "frame")}
    return ks.pop() if len(ks) == 1 else None


SCENES = [(n1, n2, lim) for n1 in range(4) for n2 in range(4) for lim in (None, 0, 1, 2, 5)] + [(5, 5, None), (5, 4, 3), (6, 6, None)]


def protocol(rep, m, threads, tier):
    """which comparisons the video score is made of, for every combination of short videos"""
    p = prog()
    r = video(m)
    w = r.fn.short()
    for n1, n2, lim in SCENES:
        base = min(n1, n2) if lim is None else min(n1, n2, lim)
        for bits in (8, 10):
            for err in [None] + list(range(base)):
                sc = Scene(r, p, n1, n2, lim, threads, err, bits)
                what = f"videos of {n1} and {n2} frames, limit {lim}, {threads} threads" + (f", comparison {err} fails" if err is not None else "")
                try:
                    v = sc.inst.ev(r.v)
                except Stuck as e:
                    rep.fail("not-understood", w, f"the outcome is not determined by the inputs ({what}): {e}")
                    return
                if err is not None or base == 0:
                    rule = "error-lost" if err is not None else "empty-scored"
                    rep.check(is_err(v), rule, w, f"no error results ({what})")
                    continue
                ag = calls(v, "aggregate_frame_results")
                good = len(ag) == 1 and not is_err(v)
                if not good:
                    rep.check(False, "frames-lost", w, f"no score results ({what}): {brief(v)}")
                    continue
                seq = ag[0].a[2]
                nos = []
                if seq.op == "agg":
                    for x in seq.a[2:]:
                        cs = calls(x, "process_frame")
                        nos.append(frame_no(cs[0]) if len(cs) == 1 and x is fld(cs[0], 0, 0) else None)
                rep.check(sorted(-1 if x is None else x for x in nos) == list(range(base)), "frames-lost", w,
                          f"the score is made from frames {nos}, not from the {base} pairs decoded ({what})")
    rep.sample({"entry": w, "threads": threads, "instances": len(SCENES)})


def worker_panic(rep, m):
    """a decoding thread that dies makes the comparison fail"""
    p = prog()
    r = video(m)
    w = r.fn.short()
    kinds = {x.a[0] for x in subterms(r.v) if x.op == "panicked"}
    rep.check("thread" in kinds or "scope" in kinds, "panic-lost", w, "the result does not depend on whether the decoding thread finished")
    for n1, n2, lim in SCENES:
        for k in sorted(kinds):
            sc = Scene(r, p, n1, n2, lim, 4, None, 8, (k,))
            what = f"the {k} panics, videos of {n1} and {n2} frames, limit {lim}"
            try:
                v = sc.inst.ev(r.v)
            except Stuck as e:
                rep.fail("not-understood", w, f"the outcome is not determined by the inputs ({what}): {e}")
                return
            rep.check(is_err(v), "panic-lost", w, f"a score results although {what}")


def progress(rep, m):
    p = prog()
    r = video(m)
    w = r.fn.short()
    evs = r.events("progress")
    rep.check(bool(evs), "progress", w, "the progress callback is never called")
    for n1, n2, lim in SCENES:
        base = min(n1, n2) if lim is None else min(n1, n2, lim)
        for bits in (8, 10):
            sc = Scene(r, p, n1, n2, lim, 4, None, bits)
            what = f"videos of {n1} and {n2} frames, limit {lim}, depth {bits}"
            try:
                got = []
                for e in evs:
                    got += fire(sc, e)
            except Stuck as x:
                rep.fail("not-understood", w, f"the progress reported is not determined by the inputs ({what}): {x}")
                return
            got.sort()
            want = [(k, k + 1) for k in range(base)] + [(base, MAXN)]
            rep.check(got == want, "progress", w, f"progress reported as {[v if v != MAXN else 'end' for _, v in got]} ({what})")
    rep.sample({"entry": w, "instances": 2 * len(SCENES), "callback sites": len(evs)})


def fire(sc, e):
    """the (ordinal, value) pairs an event stands for in an instance"""
    fv = set()
    for x in (e.cond,) + tuple(x for x in e.data if type(x) is T):
        fv |= x.fv
    fv = sorted(fv, key=lambda x: x.id)
    out = []
    if not fv:
        if sc.inst.const_bool(sc.inst.ev(e.cond)):
            out.append(tuple(num(sc.inst.ev(x)) for x in e.data if type(x) is T))
        return out
    if len(fv) > 1 or fv[0].a[0] != "k":
        raise Stuck("an event depends on " + ", ".join(str(x) for x in fv))
    # iterations are entered one after the other while the previous one went through
    for k in range(sc.sent + 1):
        env = {fv[0]: I(k)}
        if sc.inst.const_bool(sc.inst.ev(e.cond, env)):
            out.append(tuple(num(sc.inst.ev(x, env)) for x in e.data if type(x) is T))
    return out


def num(t):
    if t.op != "i":
        raise Stuck("value " + brief(t))
    return t.a[0]
