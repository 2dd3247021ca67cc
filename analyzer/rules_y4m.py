"""Rules on the y4m decoder: what a header declares and where every decoded sample comes from."""
from ctx import *
from rules_num import canonical
from rules_total import holds, goals, WHAT
from rules_ciede import cond_of_var

FRAME, PLANE = "Frame", "Plane"


def library(p):
    """what reads the file and what allocates a frame is taken as given"""
    return [f.id for f in p.fns if f.crate in ("y4m", "v_frame") and f.key[1] in ("read_frame", "new_with_padding")]


class Shape:
    """a frame taken apart into its planes' samples and dimensions"""

    def __init__(self, tag):
        self.data = [sym(f"{tag}.samples{i}") for i in range(3)]
        self.cfg = [[sym(f"{tag}.cfg{i}.{j}") for j in range(10)] for i in range(3)]
        for c in self.cfg:
            nonneg.update(c)
        for d in self.data:
            nonneg.add(raw("len", d))
        planes = [agg("Plane", 0, raw("setraw", sym(f"{tag}.plane{i}"), self.data[i]), agg("PlaneConfig", 0, *self.cfg[i])) for i in range(3)]
        self.term = agg("Frame", 0, agg("arr", 0, *planes))


def parts(t):
    """the slots of a taken-apart value: (path, term)"""
    if t.op == "agg":
        out = []
        for i, x in enumerate(t.a[2:]):
            out += [((i,) + p, v) for p, v in parts(x)]
        return out
    if t.op == "setraw":
        return [(("raw",), t.a[1])]
    return [((), t)]


def put(t, values, at=()):
    if t.op == "agg":
        return agg(t.a[0], t.a[1], *[put(x, values, at + (i,)) for i, x in enumerate(t.a[2:])])
    if t.op == "setraw":
        return raw("setraw", t.a[0], values[at + ("raw",)])
    return values[at]


def explode(t, memo=None):
    """loops over a frame become loops over the samples of its planes"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "mu":
        vs, args = open_binder(t)
        inits = [gathered(explode(x, memo)) for x in args[1::2]]
        if len(inits) == 1 and inits[0].op == "agg" and inits[0].a[0] in (FRAME, PLANE):
            r = split(vs[0], vs[1], args[0], inits[0], args[2])
            memo[t] = r
            return r
        flat = [explode(args[0], memo)]
        for i, n in zip(inits, args[2::2]):
            flat += [i, explode(n, memo)]
        r = close_binder("mu", vs, flat)
    elif t.op in BINDERS:
        vs, args = open_binder(t)
        r = close_binder(t.op, vs, [explode(x, memo) if type(x) is T else x for x in args])
    else:
        a = [explode(x, memo) if type(x) is T else x for x in t.a]
        r = rebuild(t, a) if any(x is not y for x, y in zip(a, t.a)) else t
    memo[t] = r
    return r


def gathered(t):
    """a choice between taken-apart values as one whose slots are chosen"""
    if t.op != "ite":
        return t
    ls = leaves(t)
    like = ls[0]
    if like.op != "agg" or any(x.op != "agg" or x.a[:2] != like.a[:2] for x in ls):
        return t
    try:
        return put(like, slotwise(t, like))
    except Finding:
        return t


def split(k, s, cont, init, step):
    slots = dict(parts(init))
    var = {p: fresh("o") for p in slots}
    whole = put(init, var)
    cont, step = subst(cont, {s: whole}), subst(step, {s: whole})
    step = explode(step)
    cont = explode(cont)
    after = slotwise(step, whole)
    values = {}
    changed = [p for p in slots if after[p] is not var[p]]
    same = {var[p]: slots[p] for p in slots if p not in changed}
    cont = subst(cont, same)
    for p in slots:
        if p not in changed:
            values[p] = slots[p]
            continue
        n = subst(after[p], same)
        others = [var[q] for q in changed if q != p and contains(n, lambda x: x is var[q]) or contains(cont, lambda x: x is var[q])]
        if others:
            raise Finding("not-understood", "decoder", "planes of a frame are computed from one another")
        values[p] = mk_mu(k, cont, [(var[p], slots[p], n)], 0)
    return put(init, values)


def slotwise(t, like, at=()):
    """slots of a frame-valued term, which may depend on conditions"""
    if like.op not in ("agg", "setraw"):
        return {at: t}
    if t.op == "ite":
        a, b = slotwise(t.a[1], like, at), slotwise(t.a[2], like, at)
        return {p: ite(atom(t.a[0]), a[p], b[p]) for p in a}
    if t.op != like.op or len(t.a) != len(like.a) or t.op == "setraw" and t.a[0] is not like.a[0]:
        raise Finding("not-understood", "decoder", "a frame is put together in a way the analysis cannot follow")
    if t.op == "setraw":
        return {at + ("raw",): t.a[1]}
    out = {}
    for i, (x, y) in enumerate(zip(t.a[2:], like.a[2:])):
        out.update(slotwise(x, y, at + (i,)))
    return out


# ------------------------------------------------------------------ what the stream declares
INNER = fld(deref("arg0"), 0, 0)
SPACE = {"Cmono": ("Cs400", "Unknown"), "C420": ("Cs420", "Colocated"), "C420jpeg": ("Cs420", "Bilateral"), "C420paldv": ("Cs420", "Interpolated"), "C420mpeg2": ("Cs420", "Vertical"), "C422": ("Cs422", "Vertical"), "C444": ("Cs444", "Colocated")}
SPACES = tuple(SPACE) + ("Cmono12", "C420p10", "C420p12", "C422p10", "C422p12", "C444p10", "C444p12")


def declared(name):
    """sampling, siting and depth a colour space stands for"""
    for d in (10, 12, 14, 16):
        for suffix in (f"p{d}", str(d)):
            if name.endswith(suffix) and name[: -len(suffix)] in SPACE:
                return SPACE[name[: -len(suffix)]] + (d,)
    return SPACE[name] + (8,) if name in SPACE else None


def adt(p, end, enum=False):
    for t in p.types:
        if t["k"] == "adt" and t["def"].endswith(end) and (t["ak"] == "enum") == enum:
            return t
    raise Finding("anchor", end, "this type no longer exists")


def member(t, x, name):
    for i, (n, _) in enumerate(t["v"][0]["f"]):
        if n == name:
            return fld(x, 0, i)
    raise Finding("anchor", f"{t['def']}.{name}", "this field no longer exists")


def variant(t, name):
    for i, v in enumerate(t["v"]):
        if v["n"] == name:
            return i
    raise Finding("anchor", f"{t['def']}::{name}", "this variant no longer exists")


class Stream:
    """the state of a y4m reader whose header named one colour space"""

    def __init__(self, p, space):
        d = adt(p, "y4m::Decoder")
        self.width = member(d, INNER, "width")
        self.height = member(d, INNER, "height")
        rate = adt(p, "y4m::Ratio")
        r = member(d, INNER, "framerate")
        self.num, self.den = member(rate, r, "num"), member(rate, r, "den")
        c = adt(p, "y4m::Colorspace", True)
        self.given = {member(d, INNER, "colorspace"): agg(c["def"], variant(c, space))}


def header(rep, space):
    """what the decoder says about the video is what the header declared"""
    p = prog()
    st = Stream(p, space)
    sampling, siting, depth = declared(space)
    r = evaluate("vharness::r_y4m::details", opaque=library(p))
    t = adt(p, "VideoDetails")
    got = leaves(subst(r.v, st.given))
    rational = adt(p, "Rational")
    want = {
        "width": lambda x: x is st.width,
        "height": lambda x: x is st.height,
        "bit_depth": lambda x: x is I(depth),
        "chroma_sampling": lambda x: x.op == "agg" and x.a[1] == variant(adt(p, "ChromaSampling", True), sampling),
        "chroma_sample_position": lambda x: x.op == "agg" and x.a[1] == variant(adt(p, "ChromaSamplePosition", True), siting),
        "time_base": lambda x: member(rational, x, "num") is st.den and member(rational, x, "den") is st.num,
    }
    rep.check(len(got) >= 1, "header-vacuous", r.fn.short(), f"a stream of colour space {space} has no details")
    for x in got:
        for n, ok in want.items():
            y = member(t, x, n)
            rep.check(ok(y), "header", r.fn.short(), f"for a stream of colour space {space}, {n} is {brief(y)}")
    d = evaluate("vharness::r_y4m::depth", opaque=library(p))
    for y in leaves(subst(d.v, st.given)):
        rep.check(y is I(depth), "header", d.fn.short(), f"for a stream of colour space {space}, the bit depth is {brief(y)}")
    rep.sample({"colour space": space, "sampling": sampling, "siting": siting, "depth": depth, "entry": [r.fn.short(), d.fn.short()]})


# ------------------------------------------------------------------ where samples come from
class Store:
    """one place that writes samples: the loops around it, what holds there, the index and the value"""

    def __init__(self, loops, facts, index, value):
        self.loops, self.facts, self.index, self.value = loops, facts, index, value


def stores(t, where, facts=(), loops=(), stop=()):
    if t in stop:
        return []
    if t.op == "ite":
        out = []
        for br, val in ((t.a[1], True), (t.a[2], False)):
            c = t.a[0] if t.a[0].op in ("ite", "b") else atom(t.a[0])
            out += stores(br, where, facts + (c if val else NOT(c),), loops, stop)
        return out
    if t.op == "store":
        return stores(t.a[0], where, facts, loops, stop) + [Store(loops, facts, t.a[1], t.a[2])]
    if t.op == "fill":
        vs, a = open_binder(t)
        k = vs[0]
        return stores(a[0], where, facts, loops, stop) + [Store(loops + (k,), facts + (ilt(k, a[2]),), add(a[1], k), a[3])]
    if t.op == "mu" and len(t.a) == 4:
        vs, a = open_binder(t)
        return stores(a[1], where, facts, loops, stop) + stores(a[2], where, facts + (a[0],), loops + (vs[0],), stop + (vs[1],))
    raise Finding("not-understood", where, f"samples are written in a way the analysis cannot follow: {brief(t, 80)}")


MM = ("imin", "imax")


def choice(ts, deep):
    """a minimum, maximum or sign test to decide next: first those that are not about samples"""
    best = None
    for t in ts:
        for x in subterms(t):
            if x.op in MM + ("ltz", "eqz") and (best is None or x.id < best.id) and (deep or not any(y.op == "sel" for y in subterms(x))):
                best = x
    return best


def unified(ts, facts):
    """ts with one name for samples at provably one place"""
    m, seen = {}, []
    for x in sorted({x for t in ts for x in subterms(t) if x.op == "sel"}, key=lambda x: x.id):
        for y in seen:
            d = sub(x.a[1], y.a[1])
            if y.a[0] is x.a[0] and d.op != "i" and holds(facts, d) and holds(facts, neg(d)):
                m[x] = y
                break
        else:
            seen.append(x)
    return [subst(t, m) for t in ts] if m else ts


def ge0(x):
    return NOT(ltz(x))


class Prover:
    """case analysis over the minima, maxima and sign tests in statements about samples"""

    def __init__(self, facts, limit=20000):
        self.base = tuple(facts)
        self.steps = 0
        self.limit = limit

    def split(self, ts, then, facts=None, depth=0, deep=False):
        """then(facts, terms) in every possible case"""
        facts = self.base if facts is None else facts
        self.steps += 1
        if self.steps > self.limit or depth > 60:
            return False
        x = choice(ts, deep)
        if x is None and not deep:
            if any(t is FALSE for t in ts):
                return then(facts, ts)
            deep = True
            ts = unified([narrow(t, facts) for t in ts], facts)
            x = choice(ts, deep)
        if x is None:
            return then(facts, ts)
        if x.op in MM:
            d = sub(x.a[1], x.a[0])
            lo, hi = (x.a[0], x.a[1]) if x.op == "imin" else (x.a[1], x.a[0])
            cases = [((d,), lo), ((sub(I(-1), d),), hi)]
        elif x.op == "ltz":
            cases = [((sub(I(-1), x.a[0]),), TRUE), ((x.a[0],), FALSE)]
        else:
            cases = [((x.a[0], neg(x.a[0])), TRUE), ((sub(x.a[0], ONE),), FALSE), ((sub(I(-1), x.a[0]),), FALSE)]
        for fs, v in cases:
            if any(holds(facts, sub(I(-1), y)) for y in fs):
                continue
            new = facts + tuple(ge0(y) for y in fs if not holds(facts, y))
            if not self.split([subst(t, {x: v}) for t in ts], then, new, depth + 1, deep):
                return False
        return True


def narrow(t, facts):
    """t without conversions that change nothing, and without rows and columns of known positions"""
    t = settled(t, facts)
    m = {}
    for x in subterms(t):
        if x.op == "icast" and not x.a[1]:
            v = x.a[2]
            if holds(facts, v) and holds(facts, sub(I((1 << x.a[0]) - 1), v)):
                m[x] = v
    return subst(t, m) if m else t


_reads = {}


def taken_apart(w, space):
    """(function, stream, what read, ways to end) of reading a frame"""
    k = (w, space)
    if k not in _reads:
        p = prog()
        st = Stream(p, space)
        r = evaluate(f"vharness::r_y4m::read_{w}", opaque=library(p))
        _reads[k] = (p, st, r, subst(r.v, st.given))
    return _reads[k]


def is_read(x):
    return x.op == "call" and str(x.a[0]).endswith("read_frame")


def is_new(x):
    return x.op == "call" and str(x.a[0]).endswith("new_with_padding")


def sizes(st, sampling):
    """columns and rows of each plane, and what is known of them"""
    w, h = st.width, st.height
    # the reader refuses frames without samples, and frames of over a gigabyte
    facts = [ge0(sub(x, ONE)) for x in (w, h)] + [ge0(sub(I(1 << 30), x)) for x in (w, h)]
    rename = {}
    out = [(w, h)]
    for _ in (1, 2):
        d = []
        for x, halved in ((w, sampling in ("Cs420", "Cs422")), (h, sampling == "Cs420")):
            if halved:
                half = sym(("columns" if x is w else "rows") + "/2")
                nonneg.add(half)
                rename[idiv(add(x, ONE), I(2))] = half
                facts += [ge0(sub(half, ONE)), ge0(sub(lincomb((2, half)), x)), ge0(sub(add(x, ONE), lincomb((2, half))))]
                d.append(half)
            else:
                d.append(x)
        out.append(tuple(d) if sampling != "Cs400" else (ZERO, ZERO))
    return out, rename, facts


def divided(t, memo=None):
    """quotients of exact products"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "mu":
        vs, args = open_binder(t)
        r = close_binder("mu", vs, [divided(x, memo) for x in args])
    elif t.op in BINDERS:
        vs, args = open_binder(t)
        r = close_binder(t.op, vs, [divided(x, memo) if type(x) is T else x for x in args])
    else:
        a = [divided(x, memo) if type(x) is T else x for x in t.a]
        r = rebuild(t, a) if any(x is not y for x, y in zip(a, t.a)) else t
        if r.op == "idiv":
            q = quotient(r.a[0], r.a[1])
            r = r if q is None else q
    memo[t] = r
    return r


def settled(t, facts):
    """quotients and remainders of positions in rows of equal length"""
    tried = set()
    while True:
        for x in sorted((x for x in subterms(t) if x.op in ("idiv", "mod") and x not in tried), key=lambda x: x.h):
            tried.add(x)
            q, r = row_and_column(x.a[0], x.a[1])
            y = q is not None and in_row(q, r, x.a[1], facts)
            if y:
                t = subst(t, {x: y[x.op == "mod"]})
                break
        else:
            return t


def bounded(t, n, facts):
    """what holds of the minima and maxima in t, as far as it concerns columns of rows of n"""
    facts = tuple(facts)
    top = sub(n, ONE)
    for x in sorted((x for x in subterms(t) if x.op in MM), key=lambda x: x.h):
        for a in x.a:
            facts += (ge0(sub(a, x) if x.op == "imin" else sub(x, a)),)
        if all(holds(facts, a) for a in x.a):
            facts += (ge0(x),)
        if all(holds(facts, sub(top, a)) for a in x.a):
            facts += (ge0(sub(top, x)),)
    return facts


def arranged(t, facts):
    """t with all positions in rows that can be told before any case is distinguished"""
    tried = set()
    while True:
        for x in sorted((x for x in subterms(t) if x.op in ("idiv", "mod") and x not in tried), key=lambda x: x.h):
            tried.add(x)
            q, r = row_and_column(x.a[0], x.a[1])
            m = q is not None and monomial(x.a[1])
            if not m:
                continue
            n = I(1)
            for f in m[1]:
                n = mul(n, f)
            y = in_row(q, r, x.a[1], bounded(r, n, facts))
            if y:
                t = subst(t, {x: y[x.op == "mod"]})
                break
        else:
            return t


def in_row(q, r, n, facts):
    """the same position with a column that is known to be one of the row's"""
    for q, r in ((q, r), (sub(q, ONE), add(r, n))):
        if holds(facts, r) and holds(facts, sub(sub(n, ONE), r)):
            return q, r
    return None


def row_and_column(a, b):
    m = monomial(b)
    if m is None or not m[1]:
        return None, None
    c, d = lin_parts(a)
    q, r = ZERO, I(c)
    for x, k in d.items():
        p = quotient(lincomb((k, x)), b)
        if p is None:
            r = add(r, lincomb((k, x)))
        else:
            q = add(q, p)
    return q, r


def monomial(t):
    c, d = lin_parts(t)
    if d and c == 0 and len(d) == 1:
        (x, k), = d.items()
        return k, list(x.a) if x.op == "mul" else [x]
    return (c, []) if not d else None


def quotient(a, b):
    m, n = monomial(a), monomial(b)
    if m is None or n is None or n[0] <= 0 or m[0] % n[0] or not n[1]:
        return None
    left = list(m[1])
    for f in n[1]:
        if f not in left:
            return None
        left.remove(f)
    r = I(m[0] // n[0])
    for f in left:
        r = mul(r, f)
    return r


def frame_of(rep, w, space):
    """samples of each plane of the frame that reading gives: Option's Some, exactly when a frame was there"""
    p, st, r, v = taken_apart(w, space)
    where = r.fn.short()
    reads = {x for x in subterms(v) if is_read(x)}
    if len(reads) != 1:
        raise Finding("reads", where, f"{len(reads)} frames are read from the file for one frame")
    read = next(iter(reads))
    after = r.it.load(r.mem, r.args[0])
    if after.op == "setfld" and after.a[1:3] == (0, 0):
        after = after.a[3]
    if subst(after, st.given) is not raw("callout", read.a[0], 0, *read.a[1:]):
        raise Finding("reads", where, f"after one read, the file has not been advanced by exactly one frame: {brief(after)}")
    some = cond_of_var(raw("is", read, 1), False)
    bad = [x for x in under(v, NOT(some)) if not (x.op == "agg" and x.a[1] == 0)] + [x for x in under(v, some) if not (x.op == "agg" and x.a[1] == 1)]
    rep.check(not bad, "end", where, "a frame is given exactly when the file had one: not so here")
    fs = {x.a[2] for x in under(v, some) if x.op == "agg" and x.a[1] == 1}
    if len(fs) != 1:
        raise Finding("not-understood", where, f"{len(fs)} ways to make a frame")
    f = fs.pop()
    news = {x for x in subterms(f) if is_new(x)}
    sampling, siting, depth = declared(space)
    want = (st.width, st.height)
    for n in news:
        a = n.a[1:]
        rep.check(a[:2] == want and a[2].op == "agg" and a[2].a[1] == variant(adt(p, "ChromaSampling", True), sampling) and a[3] is ZERO, "dimensions", where, f"the frame made for a {space} stream is {brief(n)}")
    if len(news) != 1:
        raise Finding("not-understood", where, f"{len(news)} frames are allocated for one frame read")
    g = Given(p, st, read, news, sampling, depth)
    slots = slotwise(g.explode(f), g.shape.term)
    planes = []
    for i in range(3):
        for j in range(len(g.shape.cfg[i])):
            rep.check(slots[(0, i, 1, j)] is g.shape.cfg[i][j], "dimensions", where, f"field {j} of plane {i}'s configuration is changed after the frame was made")
        planes.append(g(slots[(0, i, 0, "raw")]))
    return where, planes, g.source, g.dims, g.facts, [(g.stride[i], g.shape.data[i]) for i in range(3)], depth


class Given:
    """what is known of the file's planes and of a newly made frame's"""

    def __init__(self, p, st, read, news, sampling, depth):
        self.st, self.news = st, news
        self.shape = sh = Shape("out")
        self.dims, self.rename, self.facts = sizes(st, sampling)
        n = I(1 if depth == 8 else 2)
        self.source = [raw("deref", sel(fld(fld(read, 0, 0), 0, 0), I(i))) for i in range(3)]
        c = {f: i for i, (f, _) in enumerate(adt(p, "PlaneConfig")["v"][0]["f"])}
        self.m = m = {}
        self.stride = []
        for i in range(3):
            cf = sh.cfg[i]
            m[cf[c["xorigin"]]] = m[cf[c["yorigin"]]] = ZERO
            m[raw("len", self.source[i])] = mul(mul(*self.dims[i]), n)
            m[raw("len", sh.data[i])] = mul(cf[c["stride"]], cf[c["alloc_height"]])
            self.stride.append(cf[c["stride"]])
            if sampling == "Cs400" and i:
                m[cf[c["width"]]] = m[cf[c["height"]]] = ZERO
            else:
                for big, small_ in ((cf[c["stride"]], cf[c["width"]]), (cf[c["alloc_height"]], cf[c["height"]]), (cf[c["width"]], self.dims[i][0]), (cf[c["height"]], self.dims[i][1])):
                    self.facts.append(ge0(sub(big, small_)))

    def explode(self, t):
        return explode(subst(subst(t, self.st.given), {n: self.shape.term for n in self.news}))

    def __call__(self, t):
        return divided(subst(subst(t, self.rename), self.m))


def sample(src, width, bytes_, x, y):
    """the sample of column x and row y in the file"""
    at = add(mul(y, width), x)
    if bytes_ == 1:
        return sel(src, at)
    return lincomb((1, sel(src, lincomb((2, at)))), (256, sel(src, lincomb((2, at), (1, ONE)))))


def resited(src, width, bytes_, depth, x, y):
    """a chroma sample moved from halfway between two luma rows' columns: taps of a Lanczos window"""

    return filtered(lambda x: sample(src, width, bytes_, x, y), width, depth, x)


def filtered(column, width, depth, x):
    def at(d):
        return column(imin(imax(add(x, I(d)), ZERO), sub(width, ONE)))

    s = lincomb((4, at(-2)), (-17, at(-1)), (114, at(0)), (35, at(1)), (-9, at(2)), (1, at(3)), (64, ONE))
    return imin(imax(idiv(s, I(128)), ZERO), I((1 << depth) - 1))


def columns(idx, stride):
    """(column, row) of an index into a plane"""
    c, d = lin_parts(idx)
    row, col = ZERO, I(c)
    for t, k in d.items():
        fs = list(t.a) if t.op == "mul" else [t]
        if stride in fs:
            fs.remove(stride)
            r = I(k)
            for f in fs:
                r = mul(r, f)
            row = add(row, r)
        else:
            col = add(col, lincomb((k, t)))
    return col, row


def plane_from(rep, where, tag, t, stride, dims, facts, wanted):
    """every visible sample of a plane is written, and only with what is wanted there"""
    width, height = dims
    stride, blank = stride
    ws = stores(t, where, stop=(blank,))
    if not ws:
        rep.fail("unwritten", where, f"no sample is ever written: {tag}")
        return
    for s in ws:
        col, row = columns(s.index, stride)
        visible = [ge0(col), ge0(row), ge0(sub(sub(width, ONE), col)), ge0(sub(sub(height, ONE), row))]
        conds = list(s.facts) + visible[2:]

        def inside(fs, ts):
            return FALSE in ts[:-2] or all(holds(fs, x) for x in (col, row)) and holds(fs, sub(sub(stride, ONE), ts[-1]))

        rep.check(Prover(facts).split(list(s.facts) + [row, col], inside), "outside", where, f"the write at {brief(s.index)} cannot be placed in a row: {tag}")

        def same(fs, ts):
            if FALSE in ts[:-2]:
                return True
            a, b = narrow(ts[-2], fs), narrow(ts[-1], fs)
            return a is b or canonical(a) is canonical(b) or holds(fs, sub(a, b)) and holds(fs, sub(b, a))

        value = arranged(s.value, facts + conds)
        rep.check(Prover(facts).split(conds + [value, wanted(col, row)], same), "wrong-sample", where, f"column {brief(col, 40)}, row {brief(row, 40)} is given {brief(s.value)}: {tag}")
    # every column and row of the visible area is some write's
    x, y = fresh("x"), fresh("y")
    nonneg.update((x, y))
    area = facts + [ge0(sub(sub(width, ONE), x)), ge0(sub(sub(height, ONE), y))]
    groups, flat = [], []
    for s in ws:
        col, row = columns(s.index, stride)
        m = {}
        for at, want in ((row, y), (col, x)):
            c, d = lin_parts(at)
            ks = [k for k in s.loops if d.get(k) == 1 and k not in m]
            if len(ks) == 1:
                m[ks[0]] = sub(want, sub(at, ks[0]))
        conds = [subst(z, m) for z in s.facts] + [ge0(z) for z in m.values()]
        if len(m) < len(s.loops) or any(c.fv & frozenset(s.loops) for c in conds):
            continue
        conds += [eqz(sub(subst(col, m), x)), eqz(sub(subst(row, m), y))]
        groups.append((len(flat), len(flat) + len(conds)))
        flat += conds

    def met(fs, ts):
        return any(all(z is TRUE for z in ts[a:b]) for a, b in groups)

    rep.check(groups and Prover(area).split(flat, met), "unwritten", where, f"some visible samples are not written: {tag}")


def copied(rep, w, space):
    """decoded samples are the file's"""
    sampling, siting, depth = declared(space)
    where, planes, source, dims, facts, strides, depth = frame_of(rep, w, space)
    n = 1 if depth == 8 else 2
    for i in range(3):
        if i and (siting == "Vertical" or sampling == "Cs400"):
            continue
        plane_from(rep, where, f"plane {i} of {space} read as {w}", planes[i], strides[i], dims[i], facts, lambda x, y: sample(source[i], dims[i][0], n, x, y))
    rep.sample({"entry": where, "colour space": space, "planes": 3, "bytes": n})


def realigned(rep, w, space):
    """chroma sited with the left luma column is moved between the columns"""
    sampling, siting, depth = declared(space)
    where, planes, source, dims, facts, strides, depth = frame_of(rep, w, space)
    n = 1 if depth == 8 else 2
    for i in (1, 2):
        plane_from(rep, where, f"plane {i} of {space} read as {w}", planes[i], strides[i], dims[i], facts, lambda x, y: resited(source[i], dims[i][0], n, depth, x, y))
    rep.sample({"entry": where, "colour space": space, "planes": [1, 2], "bytes": n, "filter": "(4 -17 114 35 -9 1)/128"})


# ------------------------------------------------------------------ decoding always succeeds
def total(rep, w, space):
    """no file the reader accepts makes reading a frame panic"""
    sampling, siting, depth = declared(space)
    p, st, r, v = taken_apart(w, space)
    where = r.fn.short()
    read = next(x for x in subterms(v) if is_read(x))
    news = {x for x in subterms(v) if is_new(x)}
    g = Given(p, st, read, news, sampling, depth)
    some = {raw("is", read, 1): FALSE}
    safe(rep, r.it, lambda t: g(g.explode(subst(subst(t, st.given), some))), g.facts, f"when {space} is read as {w}")
    rep.sample({"entry": where, "colour space": space, "pixels": w})


def safe(rep, it, at, facts, tag):
    """the condition of every operation that can panic"""
    for (kind, site, _), (pc, data, stack) in it.obligations.items():
        if kind not in WHAT:
            if kind.startswith("unsafe"):
                rep.fail("unsafe", stack[-1], f"{kind} is not understood")
            continue
        if kind == "assert:overflow:Sub" and (data[0] is TRUE or data[0].op != "ite" or data[0].a[0].op != "ovf" or data[0].a[0].a[2]):
            continue
        pc = at(pc)
        if pc is FALSE:
            continue
        data = tuple(at(x) if type(x) is T else x for x in data)
        want = goals(kind, data)
        if want is None:
            want = [] if kind != "assert:div0" else [data[0]]

        def good(fs, ts):
            if ts[0] is FALSE:
                return True
            if kind == "assert:div0":
                return ts[1] is TRUE
            return bool(want) and all(holds(fs, x) for x in ts[1:]) or holds(fs, I(-1))

        ok = Prover(facts).split([pc] + want, good)
        line = site[2] if len(site) > 2 else 0
        own = [f for f in stack if "av_metrics" in f or "{closure" in f] or list(stack)
        rep.check(ok, "total", own[-1], f"{WHAT[kind]} (line {line}) {tag}")
        rep.count(kind)
