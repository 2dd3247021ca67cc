"""Ranges of integer and floating-point terms, given the ranges of samples.

Floating-point operations round to nearest, which is monotone, so the rounded result at the
ends of the operands' ranges bounds the result.  An unknown range is None; a range never
contains a NaN or an infinity."""
import math
import struct

from terms import *


def rnd(x, w):
    if w == 64:
        return x
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.inf


def bits_of(x, w):
    return struct.unpack("<I", struct.pack("<f", x))[0] if w == 32 else struct.unpack("<Q", struct.pack("<d", x))[0]


def of_bits(n, w):
    return struct.unpack("<f", struct.pack("<I", n))[0] if w == 32 else struct.unpack("<d", struct.pack("<Q", n))[0]


def up(x, w):
    """the next larger number"""
    if x < 0:
        return -of_bits(bits_of(-x, w) - 1, w)
    return of_bits(bits_of(x, w) + 1, w) if x > 0 else of_bits(1, w)


class Ranges:
    def __init__(self, known=None, samples=None):
        self.known = dict(known or {})
        self.samples = samples
        self.memo = {}

    def given(self, conds):
        """refined by literals [(atom, truth)]"""
        known = dict(self.known)
        for v, val in conds:
            if v.op == "flt":
                a, b = v.a
                # a < b, or (with no NaN about) b <= a
                for x, y, less in ((a, b, True), (b, a, False)):
                    if y.op != "f" or x.op == "f":
                        continue
                    r = known.get(x) or self(x)
                    if r is None:
                        continue
                    c, w = f_of(y), y.a[1]
                    lo, hi = r
                    if less == val:  # x below c
                        hi = min(hi, c)
                    else:
                        lo = max(lo, up(c, w) if val else c)
                    if lo > hi:
                        return None
                    known[x] = (lo, hi)
        if known == self.known:
            return self
        return Ranges(known, self.samples)

    def __call__(self, t):
        r = self.known.get(t)
        if r is not None:
            return r
        if t in self.memo:
            return self.memo[t]
        r = self.compute(t)
        if r is not None and not all(math.isfinite(x) for x in r if type(x) is float):
            r = None
        self.memo[t] = r
        return r

    def compute(self, t):
        o = t.op
        if o == "i":
            return (t.a[0], t.a[0])
        if o == "f":
            x = f_of(t)
            return (x, x) if math.isfinite(x) else None
        if o == "pixel":
            return (0, self.samples) if self.samples is not None else None
        if o == "ite":
            out = []
            for x, val in ((t.a[1], True), (t.a[2], False)):
                e = self.given([(t.a[0], val)])
                if e is None:
                    continue
                r = e(x)
                if r is None:
                    return None
                out.append(r)
            if not out:
                return None
            return (min(r[0] for r in out), max(r[1] for r in out))
        if o == "lin":
            lo = hi = t.a[0]
            for i in range(1, len(t.a), 2):
                r = self(t.a[i + 1])
                if r is None:
                    return None
                k = t.a[i]
                lo += min(k * r[0], k * r[1])
                hi += max(k * r[0], k * r[1])
            return (lo, hi)
        if o == "mul":
            r = (1, 1)
            for x in t.a:
                s = self(x)
                if s is None:
                    return None
                p = [a * b for a in r for b in s]
                r = (min(p), max(p))
            return r
        if o in ("idiv", "mod") and t.a[1].op == "i" and t.a[1].a[0] > 0:
            n = t.a[1].a[0]
            r = self(t.a[0])
            if o == "mod":
                if r is not None and r[0] >= 0 and r[1] < n:
                    return r
                return (0, n - 1)
            if r is None or r[0] < 0:
                return None
            return (r[0] // n, r[1] // n)
        if o == "icast":
            w, s, x = t.a
            r = self(x)
            if r is None:
                return None
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
            return r if lo <= r[0] and r[1] <= hi else None
        if o == "bitand":
            rs = [self(x) for x in t.a]
            top = [r[1] for r in rs if r is not None and r[0] >= 0]
            if not top:
                return None
            hi = min(top)
            if len(top) == 2 and all(type(x) is int for x in top):
                a, b = [(1 << x.bit_length()) - 1 for x in top]
                for x, other in ((t.a[0], b), (t.a[1], a)):
                    if x.op == "i" and x.a[0] >= 0:
                        hi = min(hi, x.a[0] & other)
            return (0, hi)
        if o == "bitor":
            rs = [self(x) for x in t.a]
            if any(r is None or r[0] < 0 for r in rs):
                return None
            lo = max(r[0] for r in rs)
            m = 0
            for x, r in zip(t.a, rs):
                m |= x.a[0] if x.op == "i" else (1 << r[1].bit_length()) - 1
            return (lo, m)
        if o == "tobits":
            w = t.a[0]
            r = self(t.a[1])
            if r is None or r[0] <= 0:
                return None
            return (bits_of(r[0], w), bits_of(r[1], w))
        if o == "frombits":
            w = t.a[0]
            r = self(t.a[1])
            if r is None or r[0] < 0 or r[1] >= (0x7F800000 if w == 32 else 0x7FF << 52):
                return None
            return (of_bits(r[0], w), of_bits(r[1], w))
        if o == "i2f":
            w = t.a[0]
            r = self(t.a[-1])
            if r is None or abs(r[0]) > 1 << 53 or abs(r[1]) > 1 << 53:
                return None
            return (rnd(float(r[0]), w), rnd(float(r[1]), w))
        if o in ("fadd", "fmul", "fdiv", "fsub"):
            w = t.a[0]
            r = None
            for x in t.a[1:]:
                s = self(x)
                if s is None:
                    return None
                if r is None:
                    r = s
                    continue
                if o == "fadd":
                    r = (rnd(r[0] + s[0], w), rnd(r[1] + s[1], w))
                elif o == "fsub":
                    r = (rnd(r[0] - s[1], w), rnd(r[1] - s[0], w))
                else:
                    if o == "fdiv":
                        if s[0] <= 0 <= s[1]:
                            return None
                        p = [rnd(a / b, w) for a in r for b in s]
                    else:
                        p = [rnd(a * b, w) for a in r for b in s]
                    r = (min(p), max(p))
            return r
        if o == "ffun":
            n, w = t.a[0], t.a[1]
            if n in ("min", "max"):
                a, b = self(t.a[2]), self(t.a[3])
                if a is None or b is None:
                    return None
                f = min if n == "min" else max
                return (f(a[0], b[0]), f(a[1], b[1]))
            if n == "abs":
                a = self(t.a[2])
                if a is None:
                    return None
                return (0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1])), max(abs(a[0]), abs(a[1])))
            if n == "sqrt":
                a = self(t.a[2])
                if a is None or a[0] < 0:
                    return None
                return (rnd(math.sqrt(a[0]), w), rnd(math.sqrt(a[1]), w))
            return None
        if o == "sel" and t.a[0].op == "agg":
            els = t.a[0].a[2:]
            i = self(t.a[1])
            if i is not None and i[0] >= 0 and i[1] < len(els):
                els = els[i[0] : i[1] + 1]
            rs = [self(x) for x in els]
            if any(r is None for r in rs):
                return None
            return (min(r[0] for r in rs), max(r[1] for r in rs))
        return None
