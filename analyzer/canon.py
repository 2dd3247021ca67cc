"""A normal form for straight-line floating-point code, as functions of real numbers.

A float term becomes a decision diagram over its comparisons whose leaves are polynomials
with rational coefficients over opaque atoms.  Integers taken from the exponent and the
leading fraction bits of a float range over few values, so that whatever is computed from
one of them (shifts, masks, wrapping additions, table lookups, tests) is a table over its
values, and products of tables multiply point by point.  Terms with one normal form denote
the same function of the reals, rounding aside."""
from fractions import Fraction
import struct

from terms import *


class TooBig(Exception):
    pass


MANT = {32: 23, 64: 52}
EXPN = {32: 9, 64: 12}  # sign and exponent
SIZE = 1 << 13
POLY = 4000


def P(d):
    """leaf: {monomial: coefficient}"""
    if len(d) > POLY:
        raise TooBig()
    return raw("P", tuple(sorted(((m, c) for m, c in d.items() if c), key=lambda z: [(a.id, e) for a, e in z[0]])))


def poly(t):
    return dict(t.a[0])


def const(c):
    return P({(): Fraction(c)} if c else {})


def single(a):
    return P({((a, 1),): Fraction(1)})


def is_const(p):
    return not p.a[0] or len(p.a[0]) == 1 and p.a[0][0][0] == ()


def value(p):
    return p.a[0][0][1] if p.a[0] else Fraction(0)


# tables: atom raw("tab", variable, values); variable raw("exp", w, P) or raw("frac", w, k, P)
def count(v):
    return 1 << EXPN[v.a[0]] if v.op == "exp" else 1 << v.a[1]


def tab(v, vals):
    """table over v as a leaf"""
    vals = tuple(vals)
    if all(x == vals[0] for x in vals):
        return const(vals[0])
    return single(raw("tab", v, vals))


def mmul(a, b):
    """product of monomials: (coefficient, monomial) or None for zero"""
    d = {}
    tabs = {}
    for x, e in a + b:
        if x.op == "tab":
            v = x.a[0]
            cur = tabs.get(v)
            vals = x.a[1]
            for _ in range(e):
                cur = vals if cur is None else tuple(p * q for p, q in zip(cur, vals))
            tabs[v] = cur
        else:
            d[x] = d.get(x, 0) + e
    return d, tabs


def _norm(items):
    """sum of (coefficient, plain factors, tables)"""
    # merge terms that differ in one table only
    out = {}
    for c, d, tabs in items:
        tabs = dict(tabs)
        for v in list(tabs):
            vals = tabs[v]
            if all(x == vals[0] for x in vals):
                c = c * vals[0]
                del tabs[v]
        if not c:
            continue
        # scale: the first nonzero entry of each table is 1
        for v, vals in tabs.items():
            s = next(x for x in vals if x)
            if s != 1:
                tabs[v] = tuple(x / s for x in vals)
                c = c * s
        key = (tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda z: z[0].id)), tuple(sorted(tabs.items(), key=lambda z: z[0].id)))
        out[key] = out.get(key, 0) + c
    changed = True
    while changed:
        changed = False
        groups = {}
        for (d, tabs), c in out.items():
            if not c:
                continue
            for i, (v, vals) in enumerate(tabs):
                k = (d, tabs[:i] + tabs[i + 1:], v)
                groups.setdefault(k, []).append((d, tabs))
            # a term without a table on v merges with those that have one
        for (d, rest, v), ks in groups.items():
            plain = (d, rest)
            if plain in out and out[plain]:
                ks = ks + [plain]
            if len(ks) < 2 or any(not out.get(k) for k in ks):
                continue
            n = count(v)
            tot = [Fraction(0)] * n
            for k in ks:
                vals = dict(k[1]).get(v) or (Fraction(1),) * n
                c = out.pop(k)
                tot = [t + c * x for t, x in zip(tot, vals)]
            if any(tot):
                if all(x == tot[0] for x in tot):
                    key, c = (d, rest), tot[0]
                else:
                    s = next(x for x in tot if x)
                    key = (d, tuple(sorted(rest + ((v, tuple(x / s for x in tot)),), key=lambda z: z[0].id)))
                    c = s
                out[key] = out.get(key, 0) + c
            changed = True
            break
    r = {}
    for (d, tabs), c in out.items():
        if c:
            m = tuple(sorted(d + tuple((raw("tab", v, vals), 1) for v, vals in tabs), key=lambda z: z[0].id))
            r[m] = r.get(m, 0) + c
    return P(r)


def split(m):
    d, tabs = {}, {}
    for a, e in m:
        if a.op == "tab":
            tabs[a.a[0]] = a.a[1]
        else:
            d[a] = e
    return d, tabs


_padd, _pmul = {}, {}


def has_tab(p):
    return any(a.op == "tab" for m, _ in p.a[0] for a, _ in m)


def padd(x, y, k=1):
    key = (x, y, k)
    r = _padd.get(key)
    if r is None:
        if has_tab(x) or has_tab(y):
            items = [(c, *split(m)) for m, c in x.a[0]] + [(k * c, *split(m)) for m, c in y.a[0]]
            r = _norm(items)
        else:
            d = poly(x)
            for m, c in y.a[0]:
                d[m] = d.get(m, 0) + k * c
            r = P(d)
        _padd[key] = r
    return r


def pmul(x, y):
    key = (x, y)
    r = _pmul.get(key)
    if r is None:
        if len(x.a[0]) * len(y.a[0]) > POLY:
            raise TooBig()
        if has_tab(x) or has_tab(y):
            r = _norm([(c * e, *mmul(m, n)) for m, c in x.a[0] for n, e in y.a[0]])
        else:
            d = {}
            for m, c in x.a[0]:
                for n, e in y.a[0]:
                    f, _ = mmul(m, n)
                    k = tuple(sorted(((a, q) for a, q in f.items() if q), key=lambda z: z[0].id))
                    d[k] = d.get(k, 0) + c * e
            r = P(d)
        _pmul[key] = r
    return r


def primitive(p):
    """(scale, p / scale) with the first coefficient 1"""
    c = p.a[0][0][1]
    return c, (p if c == 1 else P({m: k / c for m, k in p.a[0]}))


# ---------------------------------------------------------------- diagrams
def nodeA(c, hi, lo):
    return hi if hi is lo else raw("A", c, hi, lo)


def apply(f, *xs):
    memo = {}
    n = [0]

    def go(xs):
        r = memo.get(xs)
        if r is not None:
            return r
        n[0] += 1
        if n[0] > SIZE:
            raise TooBig()
        top = None
        for x in xs:
            if x.op == "A" and (top is None or x.a[0].id < top.id):
                top = x.a[0]
        if top is None:
            r = f(*xs)
        else:
            hi = go(tuple(x.a[1] if x.op == "A" and x.a[0] is top else x for x in xs))
            lo = go(tuple(x.a[2] if x.op == "A" and x.a[0] is top else x for x in xs))
            r = nodeA(top, hi, lo)
        memo[xs] = r
        return r

    return go(xs)


def bind(f, x):
    """apply f, which may give diagrams, at the leaves of x"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = choose(x.a[0], go(x.a[1]), go(x.a[2])) if x.op == "A" else f(x)
            memo[x] = r
        return r

    return go(x)


def choose(c, x, y):
    """if c then x else y, keeping the order of conditions"""
    if x is y:
        return x
    return apply(lambda b, p, q: p if b is TRUE else q, raw("A", c, TRUE, FALSE), x, y)


def ite3(b, x, y):
    """b: diagram of TRUE, FALSE and 0/1 tables"""

    def f(b, p, q):
        if b is TRUE:
            return p
        if b is FALSE:
            return q
        z = the_bits(p), the_bits(q)
        if all(z) and z[0][0] == z[1][0]:
            return bits(z[0][0], f(b, z[0][1], z[1][1]))
        return padd(pmul(b, p), pmul(padd(const(1), b, -1), q))

    return apply(f, b, x, y)


# ---------------------------------------------------------------- terms
class Canon:
    def __init__(self, leaf=None):
        self.memo = {}
        self.leaf = leaf or (lambda t: t)

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.compute(t)
        return r

    def compute(self, t):
        o, a = t.op, t.a
        if o == "f":
            v = f_of(t)
            if v != v or v in (float("inf"), float("-inf")):
                return single(t)
            return const(Fraction(v))
        if o == "i":
            return const(a[0])
        if o == "fadd":
            return apply(padd, self(a[1]), self(a[2]))
        if o == "fmul":
            return apply(pmul, self(a[1]), self(a[2]))
        if o == "fneg":
            return apply(lambda x: pmul(const(-1), x), self(a[1]))
        if o == "fdiv":
            return apply(lambda x, y: pmul(x, inverse(y)), self(a[1]), self(a[2]))
        if o == "f2f":
            return self(a[1])
        if o == "i2f":
            return self(a[1])
        if o == "lin":
            r = const(a[0])
            for k, x in zip(a[1::2], a[2::2]):
                r = apply(lambda p, q: padd(p, q, k), r, self(x))
            return r
        if o == "mul":
            r = self(a[0])
            for x in a[1:]:
                r = apply(pmul, r, self(x))
            return r
        if o == "ite":
            return ite3(self.cond(a[0]), self(a[1]), self(a[2])) if a[1].op != "b" and a[2].op != "b" else self.boolean(t)
        if o == "tobits":
            w = a[0]
            return apply(lambda p: bits(w, p), self(a[1]))
        if o == "frombits":
            w = a[0]
            return apply(lambda p: unbits(w, p), self(a[1]))
        if o == "idiv" and a[1].op == "i":
            return apply(lambda p: pdiv(p, a[1].a[0]), self(a[0]))
        if o == "mod" and a[1].op == "i":
            return apply(lambda p: pmod(p, a[1].a[0]), self(a[0]))
        if o == "bitand":
            return apply(lambda p, q: band(p, q), self(a[0]), self(a[1]))
        if o == "bitor":
            return apply(lambda p, q: single(raw("or", *sorted((p, q), key=lambda z: z.id))) if not (is_const(p) and is_const(q)) else const(int(value(p)) | int(value(q))), self(a[0]), self(a[1]))
        if o == "icast":
            x = a[-1]
            w, s = a[0], a[1]
            return apply(lambda p: pcast(p, w, s), self(x))
        if o == "sel" and a[0].op == "agg":
            els = [self(x) for x in a[0].a[2:]]
            return bind(lambda ix: pick(els, ix, t), self(a[1]))
        if o == "ffun":
            name = a[0]
            args = [self(x) for x in a[2:]]
            if name == "powi" and a[3].op == "i" and 0 <= a[3].a[0] <= 8:
                r = const(1)
                for _ in range(a[3].a[0]):
                    r = apply(pmul, r, args[0])
                return r
            return apply(lambda *ps: single(raw("fn", name, *(sorted(ps, key=lambda z: z.id) if name in ("min", "max") else ps))), *args)
        if o == "call":
            args = [self.whole(x) for x in a[1:]]
            return apply(lambda *ps: single(raw("callc", a[0], *ps)), *args)
        return single(self.leaf(t))

    def whole(self, t):
        """an aggregate argument: a diagram over tuples of its parts"""
        if t.op == "ite":
            return apply(lambda b, p, q: p if b is TRUE else q, self.cond(t.a[0]), self.whole(t.a[1]), self.whole(t.a[2]))
        if t.op == "agg":
            return apply(lambda *ps: raw("parts", t.a[0], t.a[1], *ps), *[self.whole(x) for x in t.a[2:]])
        if t.op == "sel" and t.a[0].op == "agg" and t.a[1].op == "i":
            return self.whole(t.a[0].a[2 + t.a[1].a[0]])
        return self(t)

    def boolean(self, t):
        if t.op == "b":
            return t
        if t.op == "ite":
            c = self.cond(t.a[0])
            return ite3b(c, self.boolean(t.a[1]), self.boolean(t.a[2]))
        return self.cond(t)

    def cond(self, v):
        """diagram of the truth of an atom"""
        if v.op in ("b", "ite"):
            return self.boolean(v)
        if v.op == "flt":
            d = apply(lambda p, q: padd(q, p, -1), self(v.a[0]), self(v.a[1]))
            return bind(positive, d)
        if v.op == "feq":
            d = apply(lambda p, q: padd(q, p, -1), self(v.a[0]), self(v.a[1]))
            return bind(lambda p: zero(p, "feq"), d)
        if v.op == "eqz":
            return bind(lambda p: zero(p, "eqz"), self(v.a[0]))
        if v.op == "ltz":
            return bind(lambda p: over(p, lambda x: x < 0) or literal(raw("neg", p)), self(v.a[0]))
        if v.op == "signbit":
            return bind(lambda p: over(p, lambda x: int(x) >> 31 & 1) or literal(raw("sign", p)), self(v.a[0]))
        return raw("A", v, TRUE, FALSE)


def literal(c):
    return raw("A", c, TRUE, FALSE)


def ite3b(c, x, y):
    def f(b, p, q):
        if b is TRUE:
            return p
        if b is FALSE:
            return q
        asp = lambda z: const(1) if z is TRUE else const(0) if z is FALSE else z
        r = padd(pmul(b, asp(p)), pmul(padd(const(1), b, -1), asp(q)))
        return TRUE if r is const(1) else FALSE if r is const(0) else r

    return apply(f, c, x, y)


def positive(p):
    r = over(p, lambda x: x > 0)
    if r is not None:
        return r
    c, q = primitive(p)
    if c > 0:
        return literal(raw("pos", q))
    return literal(raw("pos", P({m: -k for m, k in q.a[0]})))


def zero(p, tag):
    r = over(p, lambda x: x == 0)
    return r if r is not None else literal(raw("zero", primitive(p)[1]))


def alone(p):
    """(variable, values) when p is a function of one table variable"""
    v, vals = None, None
    for m, c in p.a[0]:
        for a, e in m:
            if a.op != "tab" or v is not None and a.a[0] is not v:
                return None
            v = a.a[0]
    if v is None:
        return None
    n = count(v)
    tot = [Fraction(0)] * n
    for m, c in p.a[0]:
        cur = [c] * n
        for a, e in m:
            cur = [x * y ** e for x, y in zip(cur, a.a[1])]
        tot = [x + y for x, y in zip(tot, cur)]
    return v, tot


def over(p, f):
    """a test of a constant or of a table"""
    if is_const(p):
        return B(bool(f(value(p))))
    z = alone(p)
    if z is None:
        return None
    r = tab(z[0], [Fraction(1 if f(x) else 0) for x in z[1]])
    return TRUE if r is const(1) else FALSE if r is const(0) else r


def pointwise(p, f):
    """f of a constant or of a table, or None"""
    if is_const(p):
        return const(f(value(p)))
    z = alone(p)
    return None if z is None else tab(z[0], [Fraction(f(x)) for x in z[1]])


def inverse(p):
    if not p.a[0]:
        return single(raw("inv", p))
    if len(p.a[0]) == 1:
        m, c = p.a[0][0]
        d, tabs = split(m)
        if not tabs:
            return P({tuple((a, -e) for a, e in m): 1 / c})
    c, q = primitive(p)
    return P({((raw("inv", q), 1),): 1 / c})


def bits(w, p):
    if is_const(p) and w in (32, 64):
        f = F(float(value(p)), w)
        return const(f.a[0])
    if len(p.a[0]) == 1 and p.a[0][0][1] == 1 and len(p.a[0][0][0]) == 1:
        a, e = p.a[0][0][0][0]
        if a.op == "unbits" and e == 1:
            return a.a[1]
    r = pointwise(p, lambda x: F(float(x), w).a[0])
    return r if r is not None else single(raw("bits", w, p))


def unbits(w, p):
    if len(p.a[0]) == 1 and p.a[0][0][1] == 1 and len(p.a[0][0][0]) == 1:
        a, e = p.a[0][0][0][0]
        if a.op == "bits" and e == 1:
            return a.a[1]

    def f(x):
        v = f_of(raw("f", int(x) & ((1 << w) - 1), w))
        return Fraction(v)

    try:
        r = pointwise(p, f)
    except (ValueError, OverflowError):
        r = None
    return r if r is not None else single(raw("unbits", w, p))


def exponent(w, p):
    v = raw("exp", w, p)
    return tab(v, [Fraction(i) for i in range(count(v))])


def fraction(w, k, p):
    """the leading k bits of the fraction"""
    if k == 0:
        return const(0)
    v = raw("frac", w, k, p)
    return tab(v, [Fraction(i) for i in range(count(v))])


def the_bits(p):
    """(w, p) when the leaf is the bits of a float"""
    if len(p.a[0]) == 1 and p.a[0][0][1] == 1 and len(p.a[0][0][0]) == 1:
        a, e = p.a[0][0][0][0]
        if a.op == "bits" and e == 1:
            return a.a
    return None


def pdiv(p, n):
    b = the_bits(p)
    k = n.bit_length() - 1
    if b is not None and n == 1 << k:
        w, x = b
        m = MANT[w]
        if m - 10 <= k <= m:
            return padd(pmul(const(1 << (m - k)), exponent(w, x)), fraction(w, m - k, x))
    r = pointwise(p, lambda x: x // n)
    return r if r is not None else single(raw("div", p, n))


def integral(p):
    return all(c.denominator == 1 for m, c in p.a[0])


def pmod(p, n):
    # multiples of n vanish
    d = {}
    for m, c in p.a[0]:
        if c.denominator == 1 and all(a.op == "tab" and all(x.denominator == 1 for x in a.a[1]) or a.op in ("bits", "div", "mod", "or", "and", "cast") or a.op not in ("fn", "inv", "unbits", "callc", "tab") for a, e in m):
            c = c % n
        if c:
            d[m] = c
    q = P(d)
    r = pointwise(q, lambda x: x % n)
    return r if r is not None else single(raw("mod", q, n))


def band(p, q):
    if is_const(p) and not is_const(q):
        p, q = q, p
    if is_const(q):
        n = int(value(q))
        if n >= 0 and n & (n + 1) == 0:
            return pmod(p, n + 1)
        r = pointwise(p, lambda x: int(x) & n)
        if r is not None:
            return r
        return single(raw("and", p, n))
    return single(raw("and", *sorted((p, q), key=lambda z: z.id)))


def pcast(p, w, s):
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)

    def f(x):
        x = int(x) & ((1 << w) - 1)
        return x - (1 << w) if s and x >> (w - 1) else x

    r = pointwise(p, f)
    if r is not None:
        return r
    if len(p.a[0]) == 1 and p.a[0][0][1] == 1 and len(p.a[0][0][0]) == 1:
        a, e = p.a[0][0][0][0]
        if e == 1 and a.op == "pixel" and hi >= 0xFFFF:
            return p
    return single(raw("cast", p, w, s))


def pick(els, ix, t):
    """element ix of els"""
    if is_const(ix) and 0 <= value(ix) < len(els):
        return els[int(value(ix))]
    z = alone(ix)
    if z is not None and all(e.op == "P" and is_const(e) for e in els):
        v, vals = z
        out = [value(els[int(x)]) if 0 <= x < len(els) else None for x in vals]
        fill = next((x for x in out if x is not None), Fraction(0))
        return tab(v, [fill if x is None else x for x in out])
    return apply(lambda *ps: single(raw("pick", ix, *ps)), *els)
