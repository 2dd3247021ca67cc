"""Rules on CIEDE2000: which pixels are compared, and how, with and without vector instructions."""
from ctx import *
import rules_agg as ra
from canon import Canon, TooBig
from rules_num import F1, F2, CS, DEPTH, DECIMATION, canonical, by_rows, rf_width, rf_height
from rules_total import holds, facts_of, plane_facts, sampling_facts, resolve


def pointee(p, t):
    while p.types[t]["k"] in ("ref", "ptr"):
        t = p.types[t]["e"]
    return t


def differences(p):
    """functions that compare two colours: kept opaque, since both ways of scoring share them"""
    out = []
    for f in p.fns:
        if f.crate != "av_metrics" or f.blocks is None or not f.locals or p.types[f.locals[0]]["k"] != "float":
            continue
        adts = [pointee(p, f.locals[i + 1]) for i in range(f.nargs)]
        adts = [x for x in adts if p.types[x]["k"] == "adt" and p.types[x]["def"].endswith("Lab")]
        if len(adts) == 2 and adts[0] == adts[1]:
            out.append(f.id)
    return out


def cases(w):
    t = ra.chroma_type(prog())
    for i, v in enumerate(t["v"]):
        if v["n"] in DECIMATION:
            for d in ((8,) if w == "u8" else (10, 12)):
                yield v["n"], d, {CS: agg(t["def"], i), DEPTH: I(d)}


_scores = {}


def scores(m, w):
    """every score of a pair of frames, the difference of two colours being opaque"""
    k = (m, w)
    if k not in _scores:
        r = evaluate(f"vharness::r_{m}::frame_{w}", opaque=differences(prog()))
        ok = [x for x in leaves(r.v) if is_ok(x)]
        if not ok:
            raise Finding("never-scores", r.fn.short(), "no score can result")
        _scores[k] = (r, ok)
    return _scores[k]


def score(m, w, given, tag):
    r, ok = scores(m, w)
    out = {y for x in ok for y in leaves(subst(x, given)) if y.op == "agg"}
    if len(out) != 1:
        raise Finding("no-single-score", r.fn.short(), f"there are {len(out)} ways to score {tag}")
    return r, minimum(canonical(out.pop().a[2]))


def minimum(t):
    """a minimum or maximum of two numbers, written out as a choice"""
    if t.op == "ite" and t.a[0].op == "flt":
        x, y = t.a[0].a
        a, b = minimum(t.a[1]), minimum(t.a[2])
        if {a, b} == {x, y}:
            return ffun("min" if a is x else "max", 64, a, b)
    return t


# ------------------------------------------------------------------ sequences written piece by piece
def literal_facts(c):
    return tuple(facts_of(c))


def known(cond, facts):
    """facts without what contradicts cond"""
    return facts + literal_facts(cond)


def cond_of_var(v, val):
    a = raw("ite", v, TRUE, FALSE)
    return a if val else NOT(a)


def writes(s, facts, stop=()):
    """(facts, first index, count, variable, element) of every write that makes s; None when not understood"""
    if s in stop or s.op in ("rep",):
        return []
    if s.op == "fill":
        vs, args = open_binder(s)
        rest = writes(args[0], facts, stop)
        return None if rest is None else rest + [(facts, args[1], args[2], vs[0], args[3])]
    if s.op == "store":
        rest = writes(s.a[0], facts, stop)
        k = fresh("o")
        return None if rest is None else rest + [(facts, s.a[1], ONE, k, s.a[2])]
    if s.op == "ite":
        out = []
        for br, val in ((s.a[1], True), (s.a[2], False)):
            x = writes(br, facts + literal_facts(cond_of_var(s.a[0], val)), stop)
            if x is None:
                return None
            out += x
        return out
    if s.op == "mu":
        vs, args = open_binder(s)
        a = writes(args[1], facts, stop)
        b = writes(args[2], facts + literal_facts(args[0]), stop + (vs[1],))
        return None if a is None or b is None else a + b
    return None


def covered(s, x, facts, stop=()):
    """index x of s has been written"""
    if s in stop or s.op == "rep":
        return False
    if s.op == "fill":
        return within(x, s.a[2], s.a[3], facts) or covered(s.a[1], x, facts, stop)
    if s.op == "store":
        return within(x, s.a[1], ONE, facts) or covered(s.a[0], x, facts, stop)
    if s.op == "ite":
        return all(covered(br, x, facts + literal_facts(cond_of_var(s.a[0], val)), stop) for br, val in ((s.a[1], True), (s.a[2], False)))
    if s.op == "mu":
        vs, args = open_binder(s)
        k = vs[0]
        for start in starts(args[2], (vs[1],)):
            c, d = lin_parts(start)
            n = d.get(k)
            if not n or n < 0:
                continue
            rest = sub(start, lincomb((n, k)))
            at = idiv(sub(x, rest), I(n))
            if all(atleast(facts, g) for g in goals_of(subst(args[0], {k: at}))) and covered(subst(args[2], {k: at}), x, facts, stop + (vs[1],)):
                return True
        return covered(args[1], x, facts, stop)
    return False


def starts(s, stop):
    """indices at which writes of s begin"""
    if s in stop or s.op not in ("fill", "store", "ite"):
        return []
    if s.op == "fill":
        return [s.a[2]] + starts(s.a[1], stop)
    if s.op == "store":
        return [s.a[1]] + starts(s.a[0], stop)
    return list(dict.fromkeys(starts(s.a[1], stop) + starts(s.a[2], stop)))


def within(x, start, n, facts):
    return atleast(facts, sub(x, start)) and atleast(facts, sub(sub(add(start, n), ONE), x))


def atleast(facts, goal):
    """facts imply goal >= 0, minima and maxima taken apart"""
    goal = canonical(resolve(goal))
    c, d = lin_parts(goal)
    for t, k in d.items():
        if t.op in ("imin", "imax"):
            rest = sub(goal, lincomb((k, t)))
            each = all if (t.op == "imin") == (k > 0) else any
            return each(atleast(facts, add(rest, lincomb((k, x)))) for x in t.a)
    return holds(facts, goal)


def goals_of(cond):
    """integers that are >= 0 exactly when cond holds"""
    import lin

    out, rest = [], []
    if not lin.conj(cond, out, rest) or rest:
        return [I(-1)]
    r = []
    for v, val in out:
        if v.op != "ltz":
            return [I(-1)]
        r.append(sub(I(-1), v.a[0]) if val else v.a[0])
    return r


# ------------------------------------------------------------------ two ways of computing one score
_rows = {}


def placed(t):
    """t with the samples it reads named by plane, column and row"""
    m = {}
    for x in subterms(t):
        if x.op == "pixel":
            if x not in _rows:
                col, row = by_rows(*x.a)
                _rows[x] = raw("pixel", x.a[0], canonical(col), canonical(row))
            m[x] = _rows[x]
    return subst(t, m)


class Same:
    """compares two graphs of one score"""

    def __init__(self, rep, where, tag, base):
        self.rep, self.where, self.tag, self.base = rep, where, tag, base
        self.canon = Canon()
        self.cells = 0
        self.scale = 1
        self.unlike = "without vector instructions"

    def fail(self, what, detail):
        self.rep.fail(what, self.where, f"{detail} ({self.tag})")

    def facts(self, c):
        return tuple(canonical(x) for x in facts_of(c))

    def same(self, a, b, facts):
        """a: the reference; b: the score in question"""
        if a is b:
            return True
        for x, other in ((b, False), (a, True)):
            if x.op == "ite" and x.a[0].op == "cpu":
                return all(self.same(*((a, y) if not other else (y, b)), facts) for y in x.a[1:])
        if b.op == "ite" and a.op == "ite" and a.a[0] is b.a[0]:
            return self.same(a.a[1], b.a[1], facts) and self.same(a.a[2], b.a[2], facts)
        if self.cell(a) or self.cell(b):
            return self.cell_same(a, b, facts)
        if a.op == "sum" and b.op == "sum":
            va, x = open_binder(a)
            vb, y = open_binder(b)
            y = [subst(t, {vb[0]: va[0]}) if type(t) is T else t for t in y]
            if x[3] != y[3]:
                return False
            here = facts + self.facts(x[0])
            ca, cb = canonical(resolve(x[0])), canonical(resolve(y[0]))
            if not (ca is cb or self.cpu_same(ca, cb, facts)):
                self.fail("rows", f"different ranges are summed: {brief(ca)} and {brief(cb)}")
                return True
            return self.same(x[1], y[1], here) and self.same(x[2], y[2], here) if x[1] is not y[1] else self.same(x[2], y[2], here)
        if a.op == b.op and len(a.a) == len(b.a) and a.op not in BINDERS and a.op not in ("ite",):
            if all(x is y or type(x) is T and type(y) is T for x, y in zip(a.a, b.a)):
                return all(x is y or self.same(x, y, facts) for x, y in zip(a.a, b.a))
        return False

    def cpu_same(self, a, b, facts):
        """conditions that differ in how the length of a row is put"""
        for c in (TRUE, FALSE):
            m = {x: c for t in (a, b) for x in subterms(t) if x.op == "cpu"}
            x, y = canonical(resolve(subst(a, m))), canonical(resolve(subst(b, m)))
            if x is not y and not (self.implies(x, y, facts) and self.implies(y, x, facts)):
                return False
        return True

    def implies(self, a, b, facts):
        return all(atleast(facts + self.facts(a), g) for g in goals_of(b))

    def cell(self, t):
        return t.op == "sel" and t.a[0].op in ("fill", "mu", "store", "ite") or t.op == "call"

    def elements(self, t, facts):
        """(facts, index variable's value, element) for the possible values of a cell"""
        if t.op != "sel":
            return [(facts, None, t)]
        s, x = t.a
        if not covered(s, x, facts):
            self.fail("pixels", f"a pixel's difference may not have been computed: {brief(t)}")
            return None
        ws = writes(s, ())
        if ws is None:
            self.fail("pixels", f"how differences are collected is not understood: {brief(t)}")
            return None
        return [(self.base + tuple(canonical(z) for z in f), (start, n, k), e) for f, start, n, k, e in ws]

    def cell_same(self, a, b, facts):
        ea, eb = self.elements(a, facts), self.elements(b, facts)
        if ea is None or eb is None:
            return True
        if len(ea) != 1 or a.op == "sel" and ea[0][1][0] is not ZERO:
            self.fail("pixels", f"the reference has {len(ea)} ways to compute a difference")
            return True
        ref = ea[0]
        for f, where, e in eb:
            if where is None:
                if b.op == "call" and a.op == "call":
                    self.value_same(a, b, "a pixel")
                else:
                    x = b.a[1] if b.op == "sel" else a.a[1]
                    self.value_same(subst(ref[2], {ref[1][2]: x}) if ref[1] else ref[2], e, "a pixel")
                continue
            start, n, k = where
            steps = [I(j) for j in range(n.a[0])] if n.op == "i" and n.a[0] <= 64 else [k]
            for j in steps:
                at = add(start, j)
                want = subst(ref[2], {ref[1][2]: at}) if ref[1] else subst(ref[2], {a_index(a): at})
                self.value_same(want, subst(e, {k: j}), f"pixel {show(j)} of a group" if j.op == "i" else "a pixel of the rest of a row")
        return True

    def value_same(self, a, b, what):
        self.cells += 1
        a, b = placed(canonical(a)), placed(canonical(b))
        if a is b:
            return self.rep.ok(1) if hasattr(self.rep, "ok") else self.rep.check(True, "difference", self.where, "")
        # one name for the sample of each plane, so that what is the same for all pixels is done once
        px = [x for x in subterms(a) if x.op == "pixel"]
        if len({x.a[0] for x in px}) == len(px):
            m = {x: raw("pixel", x.a[0], ZERO, ZERO) for x in px}
            if all(x in m for x in subterms(b) if x.op == "pixel"):
                a, b = subst(a, m), subst(b, m)
        if self.scale != 1:
            b = subst(b, {x: lincomb((self.scale, x)) for x in subterms(b) if x.op == "pixel"})
        parts_a, parts_b = self.parts(a), self.parts(b)
        good = [k for k, _ in parts_a] == [k for k, _ in parts_b]
        bad = None
        if good:
            for (k, x), (_, y) in zip(parts_a, parts_b):
                try:
                    if x is not y and self.canon(x) is not self.canon(y):
                        bad = k
                        break
                except TooBig:
                    bad = f"{k} (too large to compare)"
                    break
        self.rep.check(good and bad is None, "difference", self.where, f"the colour difference of {what} is computed unlike {self.unlike}{': ' + str(bad) if bad else ''} ({self.tag})")

    def parts(self, t, path=""):
        """the floats of a call or an aggregate"""
        t = self.settle(t)
        if t.op == "call":
            return [z for i, x in enumerate(t.a[1:]) for z in self.parts(x, f"{t.a[0].split('::')[-1]} argument {i + 1}")]
        if t.op == "agg":
            return [z for i, x in enumerate(t.a[2:]) for z in self.parts(x, f"{path} part {i + 1}")]
        return [(path, t)]

    def settle(self, t):
        if t.op == "sel" and t.a[0].op == "agg" and t.a[1].op == "i" and t.a[0].a[0] == "arr":
            return self.settle(t.a[0].a[2 + t.a[1].a[0]])
        if t.op in ("frombits",) and t.a[1].op == "tobits":
            return t.a[1].a[1]
        return t


def a_index(a):
    return a.a[1]


def vector(rep, w, name, depth):
    """CIEDE2000 gives one score with and without vector instructions"""
    for n, d, given in cases(w):
        if (n, d) != (name, depth):
            continue
        tag = f"{name}, {depth} bits"
        _, a = score("ciede_nosimd", w, given, tag)
        r, b = score("ciede", w, given, tag)
        where = r.fn.short()
        base = tuple(canonical(x) for x in plane_facts() + sampling_facts(name))
        s = Same(rep, where, tag, base)
        rep.check(s.same(a, b, base), "formula", where, f"the score is made from the differences in another way than without vector instructions ({tag})")
        rep.count("colour differences compared", s.cells)
        rep.sample({"entry": where, "case": tag})


def scaled(rep, name, depth):
    """the same colours written in more bits score the same"""
    for n, d, given in cases("u16"):
        if (n, d) != (name, depth):
            continue
        tag = f"{name}, {depth} bits"
        _, a = score("ciede_nosimd", "u8", next(g for n8, d8, g in cases("u8") if n8 == name), tag)
        r, b = score("ciede_nosimd", "u16", given, tag)
        where = r.fn.short()
        base = tuple(canonical(x) for x in plane_facts() + sampling_facts(name))
        s = Same(rep, where, tag, base)
        s.scale, s.unlike = 1 << (depth - 8), "in 8 bits"
        rep.check(s.same(a, b, base), "formula", where, f"the score is made from the differences in another way than in 8 bits ({tag})")
        rep.count("colour differences compared", s.cells)
        rep.sample({"entry": where, "case": tag})


# ------------------------------------------------------------------ which pixels are compared
def range_of(cont, k):
    """n when cont is k < n"""
    out, rest = [], []
    import lin

    if not lin.conj(cont, out, rest) or rest or len(out) != 1:
        return None
    v, val = out[0]
    if v.op != "ltz":
        return None
    g = v.a[0] if val else sub(I(-1), v.a[0])  # g < 0
    c, d = lin_parts(g)
    if d.get(k) != 1:
        return None
    return sub(k, g)


def colocated(rep, m, w, name, depth):
    """the score averages over every pixel the difference of its colours, chroma taken from the same place"""
    for n_, d_, given in cases(w):
        if (n_, d_) != (name, depth):
            continue
        tag = f"{name}, {depth} bits"
        r, s = score(m, w, given, tag)
        where = r.fn.short()
        base = tuple(canonical(x) for x in plane_facts() + sampling_facts(name))
        W, H = canonical(pcfg(plane(F1, 0), rf_width())), canonical(pcfg(plane(F1, 0), rf_height()))
        dec = DECIMATION[name]
        for cpu in (TRUE, FALSE):
            cpus = {x: cpu for x in subterms(s) if x.op == "cpu"}
            if cpu is FALSE and not cpus:
                continue
            t = subst(s, cpus)
            tops = outer_sums(t)
            if not rep.check(len(tops) == 1, "mean", where, f"the score is not made from one sum of differences ({tag})"):
                continue
            S = sym("all differences")
            from real import equal

            got = subst(t, {tops[0]: S})
            mean = fdiv(64, S, i2f(64, mul(W, H)))
            want = fadd(64, F(45.0, 64), fmul(64, F(-20.0, 64), ffun("log10", 64, mean)))
            rep.check(capped_equal(got, want), "mean", where, f"the score is not 45 - 20 log10 of the mean difference: {brief(got)} ({tag})")
            (ky,), x = open_binder(tops[0])
            ny = range_of(canonical(resolve(x[0])), ky)
            inner = x[2]
            ks = outer_sums(inner)
            if not rep.check(ny is H and x[1] is ONE and len(ks) == 1 and strip(inner) is ks[0], "mean", where, f"the differences are not summed over all rows ({tag})"):
                continue
            fy = base + tuple(canonical(z) for z in facts_of(x[0]))
            (kx,), y = open_binder(ks[0])
            cx = canonical(resolve(y[0]))
            nx = range_of(cx, kx)
            if not rep.check(nx is not None and y[1] is ONE and exactly(fy, nx, W), "mean", where, f"the differences are not summed over all pixels of a row ({tag})"):
                continue
            fx = fy + tuple(canonical(z) for z in facts_of(y[0]))
            s_ = Same(rep, where, tag, base)
            cell = strip(y[2])
            es = s_.elements(cell, fx + (canonical(NOT(ltz(sub(sub(W, ONE), kx)))),))
            for f, at, e in es or ():
                if at is None:
                    pixel_of(rep, where, tag, e, kx, ky, dec)
                    continue
                start, n, k = at
                for j in [I(q) for q in range(n.a[0])] if n.op == "i" and n.a[0] <= 64 else [k]:
                    pixel_of(rep, where, tag, subst(e, {k: j}), canonical(add(start, j)), ky, dec)
            rep.sample({"entry": where, "case": tag, "vector instructions": cpu is TRUE and bool(cpus)})


def exactly(facts, a, b):
    a = canonical(resolve(a))
    return a is b or atleast(facts, sub(a, b)) and atleast(facts, sub(b, a))


def strip(t):
    """t without conversions between float types"""
    while t.op == "f2f" or t.op == "fadd" and t.a[1].op == "f" and f_of(t.a[1]) == 0 or t.op == "sumfrom" and t.a[0].op == "f" and f_of(t.a[0]) == 0:
        t = t.a[2] if t.op == "fadd" else t.a[1]
    return t


def outer_sums(t):
    """outermost sums of t"""
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if type(x) is not T or x in seen:
            continue
        seen.add(x)
        if x.op == "sum":
            out.append(x)
        else:
            st += x.a
    return out


def capped_equal(got, want):
    from real import equal

    if got.op == "ffun" and got.a[0] == "min":
        a, b = got.a[2:]
        if b.op == "f":
            a, b = b, a
        return a.op == "f" and f_of(a) == 100.0 and equal(b, want)
    return False


def pixel_of(rep, where, tag, e, x, y, dec):
    """e compares the colours of pixel (x, y) of both frames"""
    e = placed(canonical(e))
    if e.op == "ite" or e.op != "call":
        groups = [[e]]
    else:
        groups = [[a] for a in e.a[1:]]
    got = [frozenset(p for g in gs for p in subterms(g) if p.op == "pixel") for gs in groups]
    got = [g for g in got if g]
    want = []
    for fr in (F1, F2):
        want.append(frozenset(raw("pixel", plane(fr, i), canonical(idiv(x, I(1 << dx))), canonical(idiv(y, I(1 << dy)))) for i, dx, dy in ((0, 0, 0), (1, *dec), (2, *dec))))
    if len(groups) == 1:
        want = [want[0] | want[1]]
    good = set(got) == set(want) and len(got) == len(want)
    extra = sorted((show(p, maxd=9) for g in got for p in g if not any(p in q for q in want)))
    rep.check(good, "pixel", where, f"the difference of a pixel is taken between other samples than its own: {extra[0] if extra else 'samples missing or of both frames mixed'} ({tag})")
