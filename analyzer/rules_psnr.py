"""PSNR is what its definition says."""
from ctx import *
import rules_agg as ra
from real import Real, TooBig
from rules_num import F1, F2, CS, DEPTH, full, canonical, by_rows, plane_of, rf_width, rf_height
from rules_ciede import outer_sums, range_of, strip
from rules_total import resolve

A, B_ = sym("sample of frame 1"), sym("sample of frame 2")


def same_planes(t):
    """t for frames of one geometry (planes of a frame may differ)"""
    m = {}
    for i in range(3):
        for f in range(11):
            m[pcfg(plane(F2, i), f)] = pcfg(plane(F1, i), f)
    return subst(t, m)


def visible_sum(t):
    """(plane, body) when t adds body up over every visible sample position of a plane once, body being
    in terms of the two samples there; otherwise a complaint"""
    t = same_planes(t)
    levels = []
    body = t
    while True:
        body = strip(body)
        if body.op == "i2f":
            body = body.a[-1]
            continue
        if body.op != "sum":
            break
        (k,), x = open_binder(body)
        n = range_of(same_planes(resolve(x[0])), k)
        if n is None or x[1] is not ONE:
            return f"a sum over an unclear range: {brief(x[0])}"
        levels.append((k, n))
        body = x[2]
    if not levels:
        return f"no sum: {brief(t)}"
    px = list({p for p in subterms(body) if p.op == "pixel"})
    where = [plane_of(p.a[0]) for p in px]
    if None in where or len({i for _, i in where}) != 1:
        return "samples of several planes are mixed"
    i = where[0][1]
    W, H = pcfg(plane(F1, i), rf_width()), pcfg(plane(F1, i), rf_height())
    for p, (f, _) in zip(px, where):
        X, Y = (same_planes(z) for z in place(p, i))
        if len(levels) == 1:
            k, n = levels[0]
            good = n is mul(W, H) and X is mod(k, W) and Y is idiv(k, W)
        elif len(levels) == 2:
            at = dict(levels)
            good = (X in at and Y in at and X is not Y and at[X] is W and at[Y] is H)
        else:
            good = False
        if not good:
            return f"not every visible sample counts once: {brief(p)}"
    body = subst(body, {p: A if f == 1 else B_ for p, (f, _) in zip(px, where)})
    if any(k in body.fv for k, _ in levels):
        return "the summand depends on the position"
    return i, body


def place(p, i):
    from rules_num import cfg_index

    X, Y = same_planes(p.a[1]), same_planes(p.a[2])
    S = pcfg(plane(F1, i), cfg_index("stride"))
    c, d = lin_parts(X)
    q, rest = [], [(c, ONE)]
    for t, k in d.items():
        fs = list(t.a) if t.op == "mul" else [t]
        if S in fs:
            fs.remove(S)
            m = ONE
            for z in fs:
                m = mul(m, z)
            q.append((k, m))
        else:
            rest.append((k, t))
    return (X, Y) if not q else (lincomb(*rest), lincomb((1, Y), *q))


def squared(body):
    """body is the squared difference of the two samples"""
    d = sub(A, B_)
    want = mul(d, d)
    for x in leaves(body):
        if x is want:
            continue
        try:
            c = Real()
            if not c.eqrat(c.nf(x) if x.op.startswith("f") else c.int(x), c.int(want)):
                return False
        except TooBig:
            return False
    return True


def zero_when(c, total):
    """the value of c that tells that the (whole, nonnegative) total is zero; None if c does not tell"""
    if c.op == "flt":
        x, y = c.a
        if x.op == "f" and 0 <= f_of(x) < 1 and same_real(y, total):
            return FALSE
        if y.op == "f" and 0 < f_of(y) <= 1 and same_real(x, total):
            return TRUE
    if c.op == "feq":
        for x, y in (c.a, c.a[::-1]):
            if x.op == "f" and f_of(x) == 0 and same_real(y, total):
                return TRUE
    if c.op == "eqz" and same_real(i2f(64, c.a[0]), total):
        return TRUE
    if c.op == "ltz":
        if same_real(i2f(64, add(c.a[0], ONE)), total):
            return TRUE
        if same_real(i2f(64, neg(c.a[0])), total):
            return FALSE
    return None


def same_real(a, b):
    c = Real()
    try:
        return a is b or c.eqrat(c.nf(a), c.nf(b))
    except TooBig:
        return False


def hundred(t):
    return t.op == "f" and f_of(t) == 100.0


def matches(t, total, formula):
    """t is min(100, formula), 100 standing for it where the total is zero"""
    if t.op == "ite":
        c, a, b = t.a
        z = zero_when(c, total)
        if z is not None:
            zero, other = (a, b) if z is TRUE else (b, a)
            return (hundred(zero) or matches(zero, total, formula)) and matches(other, total, formula)
        if c.op == "flt":
            # a minimum written out
            x, y = c.a
            if y.op == "f" and f_of(y) == 100.0 and a is x and hundred(b):
                return same_real(x, formula)
            if hundred(x) and hundred(a) and b is y:
                return same_real(y, formula)
        return False
    if t.op == "ffun" and t.a[0] == "min":
        x, y = t.a[2:]
        if hundred(y):
            x, y = y, x
        return hundred(x) and same_real(y, formula)
    return False


def formula(rep, w):
    r, ok = full("psnr", w)
    where = r.fn.short()
    depths = range(1, 9) if w == "u8" else range(9, 17)
    E = [sym(f"squared error of plane {i}") for i in range(3)]
    for v in ok:
        comp = dict(ra.components(v))
        for path, x in comp.items():
            name = ra.NAMES.get(path, path)
            x = same_planes(x)
            m = {}
            for s in outer_sums(x):
                got = visible_sum(s)
                if isinstance(got, str):
                    rep.fail("samples", where, f"the {name} is not made from the squared errors of a plane: {got}")
                    continue
                i, body = got
                if rep.check(squared(body), "samples", where, f"the {name} adds up {brief(body)} instead of squared differences of samples"):
                    m[s] = E[i] if s.a[4] == "int" else i2f(64, E[i])
            x = subst(x, m)
            planes = (path[0],) if path in ((0,), (1,), (2,)) else (0, 1, 2)
            total, count = ZERO, ZERO
            for i in planes:
                total = add(total, E[i])
                count = add(count, mul(pcfg(plane(F1, i), rf_width()), pcfg(plane(F1, i), rf_height())))
            total, count = i2f(64, total), i2f(64, count)
            for d in depths:
                top = F(float((1 << d) - 1), 64)
                want = fmul(64, F(10.0, 64), ffun("log10", 64, fdiv(64, fmul(64, fmul(64, top, top), count), total)))
                y = subst(x, {DEPTH: I(d)})
                rep.check(matches(y, total, want), "formula", where, f"with {d} bits the {name} is not 10 log10 of the squared largest sample times the number of samples over the squared error: {brief(y)}")
    rep.sample({"entry": where, "depths": [depths[0], depths[-1]]})
