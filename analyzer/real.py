"""Equality of floating point graphs as real-number expressions.

A float graph becomes a rational function over opaque atoms, with log10 split over
products and sums of terms that are linear in the bound variable's operands split term by
term.  Two graphs are equal when the rational functions cross-multiply to the same
polynomial.  This identifies re-associated, distributed or factored forms of one formula
and nothing else: there is no numeric evaluation and no search.
"""
from fractions import Fraction
import math

from terms import *


class TooBig(Exception):
    pass


# polynomials: dict monomial -> Fraction; monomial: tuple of (atom index, exponent), sorted
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    d = dict(a)
    for i, e in b:
        d[i] = d.get(i, 0) + e
    return tuple(sorted((i, e) for i, e in d.items() if e))


def pmul(a, b):
    if len(a) * len(b) > 200000:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                del r[k]
    return r


PRIMES = [q for q in range(2, 200) if all(q % d for d in range(2, q))]
P1 = {(): Fraction(1)}


class Real:
    """one normalisation context: atoms are shared by everything normalised in it"""

    def __init__(self, rules=None):
        self.atoms = []  # (op, args) with args terms or normal forms
        self.memo = {}
        self.rules = rules

    # rational functions are (num, den)
    def atom(self, key, args):
        for i, (k, a) in enumerate(self.atoms):
            if k == key and len(a) == len(args) and all(self.same(x, y) for x, y in zip(a, args)):
                return i
        self.atoms.append((key, args))
        return len(self.atoms) - 1

    def same(self, x, y):
        if isinstance(x, tuple) and isinstance(y, tuple):
            return self.eqrat(x, y)
        return x is y

    def eqrat(self, x, y):
        if x[1] == y[1]:
            return x[0] == y[0]
        return pmul(x[0], y[1]) == pmul(y[0], x[1])

    def var(self, key, args=()):
        return ({((self.atom(key, args), 1),): Fraction(1)}, P1)

    def const(self, c):
        return ({(): Fraction(c)} if c else {}, P1)

    def radd(self, x, y, k=1):
        if x[1] == y[1]:
            return (padd(x[0], y[0], k), x[1])
        return (padd(pmul(x[0], y[1]), pmul(y[0], x[1]), k), pmul(x[1], y[1]))

    def rmul(self, x, y):
        return (pmul(x[0], y[0]), pmul(x[1], y[1]))

    def nf(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._nf(t)
        return r

    def _nf(self, t):
        o = t.op
        if o == "f":
            v = f_of(t)
            if math.isinf(v) or math.isnan(v):
                return self.var(("const", t))
            return self.const(Fraction(v))
        if o == "i":
            return self.const(t.a[0])
        if o == "fadd":
            return self.radd(self.nf(t.a[1]), self.nf(t.a[2]))
        if o == "fneg":
            x = self.nf(t.a[1])
            return ({m: -c for m, c in x[0].items()}, x[1])
        if o == "fmul":
            return self.rmul(self.nf(t.a[1]), self.nf(t.a[2]))
        if o == "fdiv":
            x, y = self.nf(t.a[1]), self.nf(t.a[2])
            if not y[0]:
                return self.var(("div0", t))
            return self.rmul(x, (y[1], y[0]))
        if o == "sumfrom":
            return self.radd(self.nf(t.a[0]), self.nf(t.a[1]))
        if o == "ffun":
            name = t.a[0]
            if name == "powi" and t.a[3].op == "i" and abs(t.a[3].a[0]) < 8:
                x = self.nf(t.a[2])
                r = self.const(1)
                for _ in range(abs(t.a[3].a[0])):
                    r = self.rmul(r, x)
                return r if t.a[3].a[0] >= 0 else (r[1], r[0])
            args = tuple(self.nf(x) if type(x) is T else x for x in t.a[2:])
            if name == "log10":
                return self.log10(args[0])
            return self.var((name, t.a[1]), args)
        if o == "i2f":
            return self.int(t.a[-1])
        if o == "sum" and t.a[4] != "int":
            return self.sum(t)
        if o == "ite":
            # a choice: an opaque atom of its condition and normalised branches
            return self.var(("ite", self.cond(t.a[0])), (self.nf(t.a[1]), self.nf(t.a[2])))
        return self.var(("t", t))

    def cond(self, v):
        """canonical name of a float comparison"""
        if v.op in ("flt", "feq"):
            d = self.radd(self.nf(v.a[0]), self.nf(v.a[1]), -1)
            return (v.op, self.atom(("cond",), (d,)))
        return v

    def int(self, t):
        """an integer converted to float, as a polynomial over integer atoms"""
        c, d = lin_parts(t)
        if len(d) == 1 and c == 0:
            (m, k), = d.items()
            if m.op == "mul":
                r = self.const(k)
                for x in m.a:
                    r = self.rmul(r, self.int(x))
                return r
            if m.op == "sum" and m.a[4] == "int":
                s = self.sum(m)
                return self.rmul(self.const(k), s)
            return self.rmul(self.const(k), self.var(("int", m)))
        r = self.const(c)
        for m, k in d.items():
            r = self.radd(r, self.rmul(self.const(k), self.int(m)))
        return r

    def sum(self, t):
        """sum over k of body(k): linear in the body; factors without k come out"""
        h = t.a[0]
        vs, args = open_binder(t)
        k = vs[0] if isinstance(vs, (list, tuple)) else vs
        cont, body = args[0], args[2]
        x = self.int(body) if t.a[4] == "int" else self.nf(body)
        if any(self.mentions(i, k) for m in x[1] for i, e in m):
            return self.var(("t", t))
        total = ({}, P1)
        for m, c in x[0].items():
            dep = tuple((i, e) for i, e in m if self.mentions(i, k))
            ind = tuple((i, e) for i, e in m if not self.mentions(i, k))
            s = self.sumatom(cont, k, dep)
            total = self.radd(total, ({mmul(ind, ((s, 1),)): c}, P1))
        return self.rmul(total, (P1, x[1]))

    def sumatom(self, cont, k, dep):
        """the atom for a sum of a monomial; the bound variable is renamed canonically"""
        prod = [(self.term_of(i), e) for i, e in dep]
        h, (cc, *bs) = close(k, cont, *[p for p, e in prod])
        key = ("sum", cc, tuple(sorted(((b, e) for b, (p, e) in zip(bs, prod)), key=lambda z: z[0].id)))
        return self.atom(key, ())

    def term_of(self, i):
        """some term denoting the atom (used inside sums only)"""
        key, args = self.atoms[i]
        if key[0] in ("t", "int"):
            return key[1]
        if key[0] == "ite":
            c = key[1]
            ct = c if type(c) is T else raw(c[0], self.rat_term(self.atoms[c[1]][1][0]), ZERO)
            return raw("choose", ct, *[self.rat_term(a) for a in args])
        return raw("real", str(key), *[self.rat_term(a) if isinstance(a, tuple) else a for a in args])

    def rat_term(self, x):
        def poly(p):
            out = []
            for m, c in p.items():
                out.append(raw("mono", c, *[z for i, e in m for z in (self.term_of(i), e)]))
            return raw("poly", *sorted(out, key=lambda z: z.id))

        return raw("rat", poly(x[0]), poly(x[1]))

    def mentions(self, i, k):
        key, args = self.atoms[i]
        for z in key:
            if type(z) is T and k in z.fv:
                return True
            if isinstance(z, tuple) and len(z) == 2 and isinstance(z[1], int) and self.mentions(z[1], k):
                return True
        return any(
            (k in a.fv) if type(a) is T else any(self.mentions(j, k) for p in a for m in p for j, e in m) for a in args
        )

    def log10(self, x):
        """log10 of a product is the sum of the logs (positive factors)"""
        r = self.log_poly(x[0])
        return self.radd(r, self.log_poly(x[1]), -1)

    def log_poly(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            r = self.log_const(c)
            for i, e in m:
                r = self.radd(r, self.rmul(self.const(e), self.var(("log10",), (({((i, 1),): Fraction(1)}, P1),))))
            return r
        if not p:
            return self.var(("log10",), (({}, P1),))
        # take out the common constant and the common monomial
        g = abs(next(iter(p.values())))
        first = min(p)
        g = abs(p[first])
        common = dict(first)
        for m in p:
            d = dict(m)
            for i in list(common):
                common[i] = min(common[i], d.get(i, 0))
        common = tuple(sorted((i, e) for i, e in common.items() if e))
        inv = tuple((i, -e) for i, e in common)
        q = {mmul(m, inv): c / g for m, c in p.items()}
        r = self.log_const(g)
        for i, e in common:
            r = self.radd(r, self.rmul(self.const(e), self.var(("log10",), (({((i, 1),): Fraction(1)}, P1),))))
        return self.radd(r, self.var(("log10",), ((q, P1),)))

    def log_const(self, c):
        if c == 1:
            return self.const(0)
        r = self.const(0)
        for v, s in ((c.numerator, 1), (c.denominator, -1)):
            if v < 0:
                r = self.radd(r, self.var(("log10c", -1)), s)
                v = -v
            for q in PRIMES:
                n = 0
                while v and v % q == 0:
                    v //= q
                    n += 1
                if n and q in (2, 5):  # log 2 + log 5 = 1
                    z = self.var(("log10c", 2))
                    z = z if q == 2 else self.radd(self.const(1), z, -1)
                    r = self.radd(r, self.rmul(self.const(n), z), s)
                elif n:
                    r = self.radd(r, self.rmul(self.const(n), self.var(("log10c", q))), s)
            q = 200
            while v < 1 << 33 and q * q <= v:
                while v % q == 0:
                    v //= q
                    r = self.radd(r, self.var(("log10c", q)), s)
                q += 1
            if v != 1:
                r = self.radd(r, self.var(("log10c", v)), s)
        return r


def equal(a, b, ctx=None):
    """the two float graphs denote the same real function"""
    if a is b:
        return True
    c = ctx or Real()
    try:
        return c.eqrat(c.nf(a), c.nf(b))
    except TooBig:
        return False
