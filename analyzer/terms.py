"""Hash-consed value-graph terms.

Every value the abstract interpreter computes is one of these terms.  Conditions are
kept as reduced ordered decision graphs over opaque boolean atoms ('ite' nodes ordered
by atom), so that two joins of the same values under the same condition are the same
term however the source spells the branching.  Integer arithmetic is kept as a linear
normal form; floating point arithmetic is only rewritten by identities that are exact.
Nothing in here searches or solves: every constructor is a bounded local rewrite.
"""
import math
import struct
import sys

sys.setrecursionlimit(200000)

_tab = {}
_EMPTY = frozenset()


class T:
    __slots__ = ("op", "a", "id", "h", "fv", "__weakref__")

    def __repr__(self):
        return show(self)


def raw(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    t.id = len(_tab)
    h = 0
    fv = _EMPTY
    for x in a:
        if type(x) is T:
            if x.h > h:
                h = x.h
            if x.fv:
                fv = fv | x.fv if fv else x.fv
    if op == "fresh":
        fv = frozenset((t,))
    elif op in BINDERS:
        h = max(h, a[0])
    t.h = h
    t.fv = fv
    _tab[key] = t
    return t


BINDERS = {"sum", "gen", "fgen", "fill", "mu", "trip", "prod", "lam"}


def I(n):
    return raw("i", int(n))


def B(b):
    return TRUE if b else FALSE


TRUE = raw("b", 1)
FALSE = raw("b", 0)
ZERO = I(0)
ONE = I(1)
UNIT = raw("agg", "tuple", 0)
_fresh = [0]


def fresh(tag):
    _fresh[0] += 1
    return raw("fresh", tag, _fresh[0])


def sym(name):
    return raw("sym", name)


# ---------------------------------------------------------------- decision graphs
_itememo = {}


def is_bool_const(t):
    return t.op == "b"


def atom(t):
    """the boolean value of an opaque boolean term"""
    if t.op in ("b", "ite"):
        return t
    return node(t, TRUE, FALSE)


_fammemo = {}


def family(v):
    """atoms of one family constrain each other: variants of one value, bounds of one integer"""
    r = _fammemo.get(v, 0)
    if r != 0:
        return r
    r = None
    if v.op == "is":
        r = (v.a[0],)
    elif v.op in ("ltz", "eqz"):
        a = v.a[0]
        if a.op == "lin":
            s = 1 if a.a[1] > 0 else -1
            r = tuple(s * x if type(x) is int else x for x in a.a[1:])
        else:
            r = (1, a)
    _fammemo[v] = r
    return r


def _bounds(v, val):
    """(relation, constant, sign) of the family's linear part y: y < n, y >= n, y == n, y != n"""
    a = v.a[0]
    if a.op == "lin":
        c, s = a.a[0], (1 if a.a[1] > 0 else -1)
    else:
        c, s = 0, 1
    # s*y + c < 0  or == 0
    if v.op == "eqz":
        return ("==" if val else "!=", -c * s)
    if s > 0:
        return ("<", -c) if val else (">=", -c)
    return (">=", c + 1) if val else ("<", c + 1)


def implied(v, val, w):
    """truth of atom w when atom v of the same family is val, or None"""
    if v.op == "is":
        return False if val and w.a[1] != v.a[1] else None
    r, n = _bounds(v, val)
    for wv in (True, False):
        q, m = _bounds(w, wv)
        # does (r, n) contradict (q, m)?
        bad = False
        if r == "==":
            bad = (q == "==" and m != n) or (q == "!=" and m == n) or (q == "<" and not n < m) or (q == ">=" and not n >= m)
        elif r == "<":
            bad = (q == "==" and m >= n) or (q == ">=" and m >= n)
        elif r == ">=":
            bad = (q == "==" and m < n) or (q == "<" and m <= n)
        elif r == "!=":
            bad = q == "==" and m == n
        if bad:
            return not wv
    return None


_famset = {}


def famset(t):
    if t.op != "ite":
        return _EMPTY
    r = _famset.get(t)
    if r is None:
        f = family(t.a[0])
        r = famset(t.a[1]) | famset(t.a[2])
        if f is not None:
            r = r | {f}
        _famset[t] = r
    return r


_clean = {}


def clean(t, v, val, f):
    if t.op != "ite" or f not in famset(t):
        return t
    key = (t, v, val)
    r = _clean.get(key)
    if r is None:
        w = t.a[0]
        k = implied(v, val, w) if family(w) == f else None
        if k is True:
            r = clean(t.a[1], v, val, f)
        elif k is False:
            r = clean(t.a[2], v, val, f)
        else:
            r = node(w, clean(t.a[1], v, val, f), clean(t.a[2], v, val, f))
        _clean[key] = r
    return r


def node(v, hi, lo):
    if hi is lo:
        return hi
    f = family(v)
    if f is not None:
        hi = clean(hi, v, True, f)
        lo = clean(lo, v, False, f)
        if hi is lo:
            return hi
    if hi.op == "agg" and lo.op == "agg" and hi.a[0] == lo.a[0] and hi.a[1] == lo.a[1] and len(hi.a) == len(lo.a):
        av = raw("ite", v, TRUE, FALSE)
        return raw("agg", hi.a[0], hi.a[1], *[ite(av, x, y) for x, y in zip(hi.a[2:], lo.a[2:])])
    return raw("ite", v, hi, lo)


def _top(*ts):
    m = None
    for t in ts:
        if t.op == "ite":
            v = t.a[0]
            if m is None or v.id < m.id:
                m = v
    return m


def _cof(t, v, side):
    if t.op == "ite" and t.a[0] is v:
        return t.a[1] if side else t.a[2]
    return t


def ite(c, x, y):
    if c.op == "b":
        return x if c.a[0] else y
    if c.op != "ite":
        c = atom(c)
    if x is y:
        return x
    if x is TRUE and y is FALSE:
        return c
    key = (c, x, y)
    r = _itememo.get(key)
    if r is not None:
        return r
    v = _top(c, x, y)
    r = node(
        v,
        ite(_cof(c, v, 1), _cof(x, v, 1), _cof(y, v, 1)),
        ite(_cof(c, v, 0), _cof(x, v, 0), _cof(y, v, 0)),
    )
    _itememo[key] = r
    return r


def NOT(c):
    return ite(c, FALSE, TRUE)


def AND(c, d):
    return ite(c, d, FALSE)


def OR(c, d):
    return ite(c, TRUE, d)


_resmemo = {}


def restrict(f, care):
    """f simplified where care holds (Coudert-Madre)"""
    if care is TRUE or care is FALSE:
        return f
    if f.op == "agg":
        n = [restrict(x, care) if type(x) is T else x for x in f.a]
        return raw("agg", *n)
    if f.op != "ite":
        return f
    key = (f, care)
    r = _resmemo.get(key)
    if r is not None:
        return r
    v = _top(f, care)
    c1, c0 = _cof(care, v, 1), _cof(care, v, 0)
    if c1 is FALSE:
        r = restrict(_cof(f, v, 0), c0)
    elif c0 is FALSE:
        r = restrict(_cof(f, v, 1), c1)
    elif f.a[0] is v:
        r = node(v, restrict(f.a[1], c1), restrict(f.a[2], c0))
    else:
        r = restrict(f, OR(c1, c0))
    _resmemo[key] = r
    return r


def leaves(t, out=None):
    """distinct leaves of a decision graph"""
    if out is None:
        out = {}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.op == "ite":
            if x in seen:
                continue
            seen.add(x)
            st.append(x.a[2])
            st.append(x.a[1])
        else:
            out[x] = 1
    return list(out)


def lift(f, t, memo=None):
    """apply f to every leaf of t"""
    if t.op != "ite":
        return f(t)
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        r = ite(atom(t.a[0]), lift(f, t.a[1], memo), lift(f, t.a[2], memo))
        memo[t] = r
    return r


def lift2(f, x, y):
    return lift(lambda a: lift(lambda b: f(a, b), y), x)


def cond_of(t, leaf):
    """the condition under which t is the given leaf"""
    return lift(lambda x: B(x is leaf), t)


LIFT_MAX = 8


def small(t):
    return t.op != "ite" or len(leaves(t)) <= LIFT_MAX


# ---------------------------------------------------------------- integers
nonneg = set()  # opaque terms known to be unsigned


def lin_parts(t):
    if t.op == "i":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(zip(t.a[2::2], t.a[1::2]))
    return 0, {t: 1}


def from_parts(c, d):
    d = [(k, v) for k, v in d.items() if v]
    if not d:
        return I(c)
    if c == 0 and len(d) == 1 and d[0][1] == 1:
        return d[0][0]
    d.sort(key=lambda kv: kv[0].id)
    args = [c]
    for k, v in d:
        args += [v, k]
    return raw("lin", *args)


def lincomb(*items):
    """sum of (coefficient, term)"""
    c = 0
    d = {}
    for k, t in items:
        tc, td = lin_parts(t)
        c += k * tc
        for x, v in td.items():
            d[x] = d.get(x, 0) + k * v
    return from_parts(c, d)


def _ilift(f, a, b):
    if a.op == "ite" or b.op == "ite":
        if a.op == "ite" and b.op == "ite":
            if len(leaves(a)) * len(leaves(b)) > 4 * LIFT_MAX:
                return None
        elif not (small(a) and small(b)):
            return None
        return lift2(f, a, b)
    return None


def add(a, b):
    r = _ilift(add, a, b)
    return r if r is not None else lincomb((1, a), (1, b))


def sub(a, b):
    r = _ilift(sub, a, b)
    return r if r is not None else lincomb((1, a), (-1, b))


def mul(a, b):
    r = _ilift(mul, a, b)
    if r is not None:
        return r
    if a.op == "i":
        return lincomb((a.a[0], b))
    if b.op == "i":
        return lincomb((b.a[0], a))
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    if len(da) * len(db) > 12:
        return raw("mul", *sorted((a, b), key=lambda x: x.id))
    c = ca * cb
    d = {}

    def acc(t, k):
        tc, td = lin_parts(t)
        nonlocal c
        c += tc * k
        for x, v in td.items():
            d[x] = d.get(x, 0) + v * k

    for x, v in da.items():
        if cb:
            acc(x, v * cb)
    for x, v in db.items():
        if ca:
            acc(x, v * ca)
    for x, v in da.items():
        for y, w in db.items():
            acc(mono(x, y), v * w)
    return from_parts(c, d)


def mono(x, y):
    # |x| * |y| = |x * y|, so a square loses its absolute value
    f = (list(x.a) if x.op == "mul" else [x]) + (list(y.a) if y.op == "mul" else [y])
    ab = [t for t in f if t.op == "iabs"]
    if len(ab) == 2 and ab[0] is ab[1]:
        rest = [t for t in f if t.op != "iabs"]
        r = mul(ab[0].a[0], ab[0].a[0])
        for t in rest:
            r = mul(r, t)
        return r
    if any(t.op == "i" for t in f):
        r = ONE
        for t in f:
            r = mul(r, t)
        return r
    for t in f:
        if x.op == "mul" or y.op == "mul":
            break
    if x in nonneg and y in nonneg:
        pass
    t = raw("mul", *sorted(f, key=lambda z: z.id))
    if all(z in nonneg for z in f) or (len(f) == 2 and f[0] is f[1]):
        nonneg.add(t)
    return t


def neg(a):
    return sub(ZERO, a)


def iabs(a):
    if a.op == "ite" and small(a):
        return lift(iabs, a)
    if a.op == "i":
        return I(abs(a.a[0]))
    if is_nonneg(a):
        return a
    if is_nonneg(neg(a)):
        return neg(a)
    c, d = lin_parts(a)
    if d:
        k = min(d, key=lambda x: x.id)
        if d[k] < 0:
            a = neg(a)
    t = raw("iabs", a)
    nonneg.add(t)
    return t


def is_nonneg(t):
    """syntactic proof that an integer term is never negative"""
    if t.op == "i":
        return t.a[0] >= 0
    if t in nonneg:
        return True
    if t.op == "lin":
        return t.a[0] >= 0 and all(c >= 0 for c in t.a[1::2]) and all(is_nonneg(x) for x in t.a[2::2])
    if t.op == "ite":
        return all(is_nonneg(x) for x in leaves(t))
    if t.op in ("mul",):
        return all(is_nonneg(x) for x in t.a)
    if t.op in ("idiv", "mod", "shr", "shl"):
        return is_nonneg(t.a[0]) and is_nonneg(t.a[1])
    if t.op in ("len", "trip", "iabs", "satsub", "npot"):
        return True
    if t.op == "f2i":
        return t.a[1] == 0
    if t.op in ("imin",):
        return all(is_nonneg(x) for x in t.a)
    if t.op in ("imax",):
        return any(is_nonneg(x) for x in t.a)
    if t.op == "sum":
        return t.a[3] is not None and t.a[4] == "int" and is_nonneg(t.a[3])
    return False


def ltz(a):
    """a < 0 as a condition"""
    if a.op == "i":
        return B(a.a[0] < 0)
    if a.op == "ite" and small(a):
        return lift(ltz, a)
    if is_nonneg(a):
        return FALSE
    na = lincomb((-1, a), (1, I(-1)))  # a < 0  <=>  not (-a - 1 < 0)
    if is_nonneg(na):
        return TRUE
    c, d = lin_parts(a)
    k = min(d, key=lambda x: x.id)
    if d[k] < 0:
        return NOT(ltz(na))
    g = math.gcd(*[abs(v) for v in d.values()])
    if g > 1:
        # g*x + c < 0  <=>  x + floor(c/g) < 0 on integers
        a = from_parts(c // g, {k: v // g for k, v in d.items()})
        return ltz(a)
    return raw("ite", raw("ltz", a), TRUE, FALSE)


def eqz(a):
    if a.op == "ref":
        return FALSE  # the address of a place is never null
    if a.op == "i":
        return B(a.a[0] == 0)
    if a.op == "ite" and small(a):
        return lift(eqz, a)
    c, d = lin_parts(a)
    k = min(d, key=lambda x: x.id)
    g = math.gcd(*[abs(v) for v in d.values()])
    if g and c % g:
        return FALSE
    s = g if d[k] > 0 else -g
    a = from_parts(c // s, {x: v // s for x, v in d.items()})
    if c != 0 and is_nonneg(a) and lin_parts(a)[0] > 0:
        return FALSE
    return raw("ite", raw("eqz", a), TRUE, FALSE)


def ilt(a, b):
    return ltz(sub(a, b))


def ile(a, b):
    return NOT(ltz(sub(b, a)))


def imin(a, b):
    if a is b:
        return a
    d = sub(a, b)
    if d.op == "i":
        return a if d.a[0] < 0 else b
    if is_nonneg(d):
        return b
    if is_nonneg(neg(d)):
        return a
    return raw("imin", *sorted((a, b), key=lambda x: x.id))


def imax(a, b):
    if a is b:
        return a
    d = sub(a, b)
    if d.op == "i":
        return b if d.a[0] < 0 else a
    if is_nonneg(d):
        return a
    if is_nonneg(neg(d)):
        return b
    return raw("imax", *sorted((a, b), key=lambda x: x.id))


def satsub(a, b):
    d = sub(a, b)
    if d.op == "i":
        return I(max(0, d.a[0]))
    if is_nonneg(d):
        return d
    if is_nonneg(neg(d)):
        return ZERO
    return imax(d, ZERO)


def idiv(a, b):
    """floor division (the operands are non-negative wherever it is used for unsigned types)"""
    if (a.op == "ite" or b.op == "ite") and small(a) and small(b):
        return lift2(idiv, a, b)
    if b.op == "i" and b.a[0] == 1:
        return a
    if a.op == "i" and b.op == "i" and b.a[0]:
        return I(a.a[0] // b.a[0])
    if b.op == "i" and b.a[0] > 0:
        n = b.a[0]
        c, d = lin_parts(a)
        g = math.gcd(n, c, *[abs(v) for v in d.values()])
        if g > 1:
            return idiv(from_parts(c // g, {k: v // g for k, v in d.items()}), I(n // g))
        q = {k: v // n for k, v in d.items() if v % n == 0}
        r = {k: v for k, v in d.items() if v % n}
        if q or c >= n or c < 0:
            rest = from_parts(c % n, r)
            base = from_parts(c // n, q)
            if not r:
                return base
            return add(base, idiv_raw(rest, b))
    elif a.op == "lin" or a.op == "mul":
        # x * b / b
        c, d = lin_parts(a)
        q = {}
        ok = c == 0
        for k, v in d.items():
            f = list(k.a) if k.op == "mul" else [k]
            if b in f:
                f.remove(b)
                m = ONE
                for x in f:
                    m = mul(m, x)
                q[m] = v
            else:
                ok = False
        if ok:
            return lincomb(*[(v, k) for k, v in q.items()])
    return idiv_raw(a, b)


UB = None


def idiv_raw(a, b):
    if b.op == "i" and UB is not None and is_nonneg(a):
        u = UB(a)
        if u is not None and u < b.a[0]:
            return ZERO
    if a.op == "idiv" and a.a[1].op == "i" and b.op == "i":
        return idiv(a.a[0], mul(a.a[1], b))
    t = raw("idiv", a, b)
    if is_nonneg(a) and is_nonneg(b):
        nonneg.add(t)
    return t


def mod(a, b):
    if (a.op == "ite" or b.op == "ite") and small(a) and small(b):
        return lift2(mod, a, b)
    if a.op == "i" and b.op == "i" and b.a[0]:
        return I(a.a[0] % b.a[0])
    if b.op == "i" and b.a[0] > 0:
        n = b.a[0]
        c, d = lin_parts(a)
        a = from_parts(c % n, {k: v % n for k, v in d.items()})
        if a.op == "i":
            return a
        u = UB(a) if UB is not None and is_nonneg(a) else None
        if u is not None and u < n:
            return a
        if a.op == "mod" and a.a[1].op == "i" and a.a[1].a[0] % n == 0:
            return mod(a.a[0], b)
    t = raw("mod", a, b)
    nonneg.add(t)
    return t


# ---------------------------------------------------------------- floats
def f_of(t):
    w = t.a[1]
    if w == 64:
        return struct.unpack("<d", struct.pack("<Q", t.a[0]))[0]
    return struct.unpack("<f", struct.pack("<I", t.a[0]))[0]


def F(x, w):
    if w == 64:
        return raw("f", struct.unpack("<Q", struct.pack("<d", x))[0], 64)
    try:
        return raw("f", struct.unpack("<I", struct.pack("<f", x))[0], 32)
    except OverflowError:
        return raw("f", 0x7F800000 if x > 0 else 0xFF800000, 32)


def fbin(op, w, a, b):
    if a.op == "f" and b.op == "f":
        x, y = f_of(a), f_of(b)
        try:
            if op == "add":
                return F(x + y, w)
            if op == "mul":
                return F(x * y, w)
            if op == "div":
                if y == 0:
                    if x == 0 or x != x:
                        return F(math.nan, w)
                    return F(math.copysign(math.inf, x) * math.copysign(1, y), w)
                return F(x / y, w)
        except OverflowError:
            pass
    return None


def _flift(f, w, a, b):
    if a.op == "ite" or b.op == "ite":
        la = len(leaves(a)) if a.op == "ite" else 1
        lb = len(leaves(b)) if b.op == "ite" else 1
        if la * lb <= LIFT_MAX:
            return lift2(lambda x, y: f(w, x, y), a, b)
    return None


def fadd(w, a, b):
    r = _flift(fadd, w, a, b) or fbin("add", w, a, b)
    if r is not None:
        return r
    if a.op == "f" and f_of(a) == 0:
        return b
    if b.op == "f" and f_of(b) == 0:
        return a
    if a is fneg(w, b):
        return F(0.0, w)  # finite operands
    # keep -(a + b) as (-a) + (-b): exact, and x - y is the negation of y - x
    x, y = sorted((a, b), key=lambda z: strip_neg(z).id)
    if x.op == "fneg" or (x.op == "f" and f_of(x) < 0 and y.op == "fneg"):
        return fneg(w, fadd(w, fneg(w, x), fneg(w, y)))
    return raw("fadd", w, x, y)


def strip_neg(z):
    return z.a[1] if z.op == "fneg" else z


def fneg(w, a):
    if a.op == "ite" and small(a):
        return lift(lambda x: fneg(w, x), a)
    if a.op == "f":
        return F(-f_of(a), w)
    if a.op == "fneg":
        return a.a[1]
    if a.op == "fmul" and (a.a[1].op == "f" or a.a[2].op == "f"):
        x, y = a.a[1], a.a[2]
        if x.op == "f":
            return fmul(w, fneg(w, x), y)
        return fmul(w, x, fneg(w, y))
    return raw("fneg", w, a)


def fsub(w, a, b):
    if a is b:
        return F(0.0, w)
    return fadd(w, a, fneg(w, b))


def fmul(w, a, b):
    r = _flift(fmul, w, a, b) or fbin("mul", w, a, b)
    if r is not None:
        return r
    for x, y in ((a, b), (b, a)):
        if x.op == "f":
            v = f_of(x)
            if v == 1:
                return y
            if v == 0:
                return F(0.0, w)  # finite operands
            if v == -1:
                return fneg(w, y)
    s = 0
    if a.op == "fneg":
        a = a.a[1]
        s ^= 1
    if b.op == "fneg":
        b = b.a[1]
        s ^= 1
    if s and (a.op == "f" or b.op == "f"):
        if a.op == "f":
            a = fneg(w, a)
        else:
            b = fneg(w, b)
        s = 0
    x, y = sorted((a, b), key=lambda z: z.id)
    r = raw("fmul", w, x, y)
    return fneg(w, r) if s else r


def fdiv(w, a, b):
    r = _flift(fdiv, w, a, b) or fbin("div", w, a, b)
    if r is not None:
        return r
    if b.op == "f" and f_of(b) == 1:
        return a
    if a.op == "f" and f_of(a) == 0:
        return F(0.0, w)  # non-zero finite divisor
    if b.op == "f":
        m, e = math.frexp(f_of(b))
        if abs(m) == 0.5 and -100 < e < 100:
            return fmul(w, a, F(1.0 / f_of(b), w))  # division by a power of two is exact
    if a.op == "fneg":
        return fneg(w, fdiv(w, a.a[1], b))
    return raw("fdiv", w, a, b)


FUN = {
    "sqrt": math.sqrt,
    "sin": math.sin,
    "cos": math.cos,
    "exp": math.exp,
    "floor": math.floor,
    "ceil": math.ceil,
    "ln": math.log,
}


def ffun(name, w, *a):
    if any(x.op == "ite" for x in a) and all(small(x) for x in a):
        if len(a) == 1:
            return lift(lambda x: ffun(name, w, x), a[0])
        if len(a) == 2:
            return lift2(lambda x, y: ffun(name, w, x, y), a[0], a[1])
    if name == "powi" and a[1].op == "i" and 0 <= a[1].a[0] <= 3:
        n = a[1].a[0]
        if n == 0:
            return F(1.0, w)
        r = a[0]
        for _ in range(n - 1):
            r = fmul(w, r, a[0])
        return r
    if name == "powi" and a[1].op == "i" and a[1].a[0] % 2 == 0 and a[0].op == "fneg":
        return ffun("powi", w, a[0].a[1], a[1])
    if name == "abs":
        x = a[0]
        if x.op == "f":
            return F(abs(f_of(x)), w)
        if x.op == "fneg":
            return ffun("abs", w, x.a[1])
        return raw("ffun", "abs", w, x)
    if name == "cos" and a[0].op == "fneg":
        return ffun("cos", w, a[0].a[1])
    if name == "sin" and a[0].op == "fneg":
        return fneg(w, ffun("sin", w, a[0].a[1]))
    if name in ("min", "max"):
        x, y = a
        if x is y:
            return x
        if x.op == "f" and y.op == "f":
            fx, fy = f_of(x), f_of(y)
            if fx != fx:
                return y
            if fy != fy:
                return x
            return F(min(fx, fy) if name == "min" else max(fx, fy), w)
        if x.op == "ffun" and x.a[0] == name and y in x.a[2:]:
            return x
        x, y = sorted((x, y), key=lambda z: z.id)
        return raw("ffun", name, w, x, y)
    if all(x.op in ("f", "i") for x in a):
        v = [f_of(x) if x.op == "f" else x.a[0] for x in a]
        try:
            if name in FUN:
                return F(float(FUN[name](*v)), w)
            if name == "log10":  # other logarithms stay symbolic
                if v[0] <= 0:
                    return F(-math.inf if v[0] == 0 else math.nan, w)
                r = math.log10(v[0])
                if r == int(r) and 10.0 ** r == v[0]:
                    return F(r, w)
            if name in ("powf", "powi"):
                return F(math.pow(v[0], v[1]), w)
            if name == "log":
                return F(math.log(v[0]) / math.log(v[1]), w)
        except (ValueError, OverflowError, ZeroDivisionError):
            pass
    return raw("ffun", name, w, *a)


def flt(a, b):
    if (a.op == "ite" or b.op == "ite") and small(a) and small(b):
        return lift2(flt, a, b)
    if a.op == "f" and b.op == "f":
        return B(f_of(a) < f_of(b))
    if a is b:
        return FALSE
    return atom(raw("flt", a, b))


def fle(a, b):
    if (a.op == "ite" or b.op == "ite") and small(a) and small(b):
        return lift2(fle, a, b)
    if a.op == "f" and b.op == "f":
        return B(f_of(a) <= f_of(b))
    if a is b:
        return TRUE
    return NOT(flt(b, a))  # operands are not NaN


def feq(a, b):
    if (a.op == "ite" or b.op == "ite") and small(a) and small(b):
        return lift2(feq, a, b)
    if a.op == "f" and b.op == "f":
        return B(f_of(a) == f_of(b))
    if a is b:
        return TRUE
    return atom(raw("feq", *sorted((a, b), key=lambda x: x.id)))


# ---------------------------------------------------------------- aggregates, sequences
def agg(kind, variant, *f):
    return raw("agg", kind, variant, *f)


def tup(*f):
    return raw("agg", "tuple", 0, *f)


def fld(x, variant, i):
    if x.op == "agg":
        if x.a[1] == variant and i + 2 < len(x.a):
            return x.a[2 + i]
        return raw("bad", "field", i)
    if x.op == "ite":
        ls = leaves(x)
        if all(l.op == "agg" and l.a[1] == variant or l.op != "agg" for l in ls):
            return lift(lambda l: fld(l, variant, i), x)

        # leaves of another variant cannot be the ones read: drop them
        def go(t):
            if t.op != "ite":
                return None if t.op == "agg" and t.a[1] != variant else fld(t, variant, i)
            r = memo.get(t, 0)
            if r != 0:
                return r
            p, q = go(t.a[1]), go(t.a[2])
            r = q if p is None else p if q is None else ite(atom(t.a[0]), p, q)
            memo[t] = r
            return r

        memo = {}
        r = go(x)
        return r if r is not None else raw("bad", "field", i)
    if x.op in ("bad", "ref"):
        return x
    return raw("fld", x, variant, i)


def setfld(x, variant, i, v):
    if x.op == "agg" and i + 2 < len(x.a):
        n = list(x.a)
        n[2 + i] = v
        return raw("agg", *n)
    if x.op == "ite":
        ls = leaves(x)
        if len(ls) <= LIFT_MAX:
            return lift(lambda l: setfld(l, variant, i, v) if l.op != "agg" or l.a[1] == variant else l, x)
    return raw("setfld", x, variant, i, v)


# opaque values of array type, and how many elements they have
fixed_len = {}
# loop state that is not simple recurrence: symbol -> (initial value, next value)
recur = {}


def length(s):
    o = s.op
    if o == "agg":
        return I(len(s.a) - 2)
    if o == "rep":
        return s.a[1]
    if o == "gen":
        return s.a[1]
    if o in ("store", "fill"):
        return length(s.a[0] if o == "store" else s.a[1])
    if o == "push":
        return add(length(s.a[0]), ONE)
    if o == "concat":
        return add(length(s.a[0]), length(s.a[1]))
    if o == "slice":
        return sub(s.a[2], s.a[1])
    if o == "ite" and small(s):
        return lift(length, s)
    if s in fixed_len:
        return I(fixed_len[s])
    t = raw("len", s)
    nonneg.add(t)
    return t


def sel(s, i):
    o = s.op
    if o == "agg":
        if i.op == "i" and 0 <= i.a[0] < len(s.a) - 2:
            return s.a[2 + i.a[0]]
        els = s.a[2:]
        if els and all(e is els[0] for e in els):
            return els[0]
        if i.op == "ite" and small(i):
            return lift(lambda x: sel(s, x), i)
        n = len(els)
        if n > 1 and n & (n - 1) == 0 and els[0].op != "agg":
            # in bounds by the check that precedes the access
            return seltab(s, n, i)
        return raw("sel", s, i)
    if o == "rep":
        return s.a[0]
    if o == "gen":
        return inst(s.a[0], s.a[2], i)
    if o == "slice":
        return sel(s.a[0], add(s.a[1], i))
    if o == "store":
        d = sub(i, s.a[1])
        if d.op == "i":
            if d.a[0] == 0:
                return s.a[2]
            return sel(s.a[0], i)
        if i.op == "ite" and small(i):
            return lift(lambda x: sel(s, x), i)
        return raw("sel", s, i)
    if o == "push":
        d = sub(i, length(s.a[0]))
        if d.op == "i":
            return s.a[1] if d.a[0] == 0 else sel(s.a[0], i)
        return raw("sel", s, i)
    if o == "ite":
        if small(s):
            return lift(lambda x: sel(x, i), s)
    if i.op == "ite" and small(i):
        return lift(lambda x: sel(s, x), i)
    if o == "rawdata" and PIXEL is not None:
        r = PIXEL(s.a[0], i)
        if r is not None:
            return r
    return raw("sel", s, i)


PIXEL = None


def seltab(s, n, i):
    j = mod(i, I(n))
    if j.op == "i":
        return s.a[2 + j.a[0]]
    if n > 8:
        h = n // 2
        lo = raw("agg", "arr", 0, *s.a[2 : 2 + h])
        hi = raw("agg", "arr", 0, *s.a[2 + h :])
        bit = eqz(sub(mod(idiv(i, I(h)), I(2)), ONE))
        return ite(bit, seltab(hi, h, i), seltab(lo, h, i))
    return raw("sel", s, j)


def store(s, i, v):
    if s.op == "agg" and i.op == "i" and 0 <= i.a[0] < len(s.a) - 2:
        n = list(s.a)
        n[2 + i.a[0]] = v
        return raw("agg", *n)
    if s.op == "store" and s.a[1] is i:
        return store(s.a[0], i, v)
    if s.op == "store" and i.op == "i" and s.a[1].op == "i" and i.a[0] < s.a[1].a[0]:
        return store(store(s.a[0], i, v), s.a[1], s.a[2])
    if s.op == "rep" and s.a[1].op == "i" and i.op == "i" and s.a[1].a[0] <= 256:
        return store(raw("agg", "arr", 0, *[s.a[0]] * s.a[1].a[0]), i, v)
    if s.op == "ite" and small(s):
        return lift(lambda x: store(x, i, v), s)
    if sel(s, i) is v:
        return s
    return raw("store", s, i, v)


def slice_(s, a, b):
    if a is ZERO and (b is length(s)):
        return s
    if s.op == "slice":
        return slice_(s.a[0], add(s.a[1], a), add(s.a[1], b))
    if s.op == "agg" and a.op == "i" and b.op == "i":
        return raw("agg", "arr", 0, *s.a[2 + a.a[0] : 2 + b.a[0]])
    return raw("slice", s, a, b)


def rep(v, n):
    if n.op == "i" and n.a[0] <= 16:
        return raw("agg", "arr", 0, *[v] * n.a[0])
    return raw("rep", v, n)


def push(s, v):
    if s.op == "agg":
        return raw("agg", "arr", 0, *(list(s.a[2:]) + [v]))
    return raw("push", s, v)


def concat(a, b):
    if a.op == "agg" and len(a.a) == 2:
        return b
    if b.op == "agg" and len(b.a) == 2:
        return a
    if a.op == "agg" and b.op == "agg":
        return raw("agg", "arr", 0, *(a.a[2:] + b.a[2:]))
    return raw("concat", a, b)


EMPTY = raw("agg", "arr", 0)


# ---------------------------------------------------------------- binders
def bv(h, j=0):
    return raw("bv", h, j)


def close(var, *bodies):
    """(height, bodies with var renamed to the canonical bound variable of that height)"""
    h = 1 + max([b.h for b in bodies] + [0])
    m = {var: bv(h)}
    return h, [subst(b, m) for b in bodies]


def inst(h, body, i):
    return subst(body, {bv(h): i})


def mk_gen(n, var, body):
    if n.op == "i" and n.a[0] <= 16:
        return raw("agg", "arr", 0, *[subst(body, {var: I(k)}) for k in range(n.a[0])])
    # eta: [s[k] for k < len s] is s
    if body.op == "sel" and body.a[1] is var and var not in body.a[0].fv and length(body.a[0]) is n:
        return body.a[0]
    h, (b,) = close(var, body)
    return raw("gen", h, n, b)


def mk_fgen(n, var, valid, body):
    """the body(k), k < n, for which valid(k) holds"""
    if valid is TRUE:
        return mk_gen(n, var, body)
    if valid is FALSE or n is ZERO:
        return EMPTY
    h, (v, b) = close(var, valid, body)
    return raw("fgen", h, n, v, b)


def mk_sum(var, cont, body, init, ty):
    """init + sum of body(k) while cont(k)"""
    zero = ZERO if ty == "int" else F(0.0, ty)
    if body is zero or (body.op == "f" and f_of(body) == 0):
        return init
    n = simple_trip(cont, var)
    if n is not None and n.op == "i" and n.a[0] <= 16:
        r = init
        for k in range(n.a[0]):
            b = subst(body, {var: I(k)})
            r = add(r, b) if ty == "int" else fadd(ty, r, b)
        return r
    h, (c, b) = close(var, cont, body)
    if ty == "int":
        t = raw("sum", h, c, ONE, b, "int")
        return add(init, t)
    t = raw("sum", h, c, ONE, b, ty)
    if init.op == "f" and f_of(init) == 0:
        return t
    return raw("sumfrom", init, t)


def simple_trip(cont, var):
    """N when cont is exactly var < N and N does not depend on var"""
    if cont.op == "ite" and cont.a[1] is TRUE and cont.a[2] is FALSE and cont.a[0].op == "ltz":
        c, d = lin_parts(cont.a[0].a[0])
        if d.get(var) == 1:
            n = neg(lincomb((1, cont.a[0].a[0]), (-1, var)))
            if var not in n.fv:
                return n
    # not (N <= var), normalised the other way round
    if cont.op == "ite" and cont.a[1] is FALSE and cont.a[2] is TRUE and cont.a[0].op == "ltz":
        t = lincomb((-1, cont.a[0].a[0]), (1, I(-1)))
        c, d = lin_parts(t)
        if d.get(var) == 1:
            n = neg(lincomb((1, t), (-1, var)))
            if var not in n.fv:
                return n
    return None


def mk_trip(var, cont):
    n = simple_trip(cont, var)
    if n is not None:
        return imax(n, ZERO)
    if cont.op == "b" and not cont.a[0]:
        return ZERO
    h, (c,) = close(var, cont)
    t = raw("trip", h, c)
    nonneg.add(t)
    return t


# ---------------------------------------------------------------- substitution
def rebuild(t, a):
    o = t.op
    if o == "ite":
        return ite(a[0] if a[0].op in ("ite", "b") else atom(a[0]), a[1], a[2])
    if o == "lin":
        return lincomb((a[0], ONE), *[(a[i], a[i + 1]) for i in range(1, len(a), 2)])
    if o == "mul":
        r = a[0]
        for x in a[1:]:
            r = mul(r, x)
        return r
    f = CONS.get(o)
    if f is not None:
        return f(*a)
    return raw(o, *a)


def rawdata(v):
    return lift(lambda x: x.a[1] if x.op == "setraw" else raw("rawdata", x), v)


def setraw(v, new):
    return raw("setraw", v.a[0] if v.op == "setraw" else v, new)


CONS = {
    "rawdata": rawdata,
    "setraw": setraw,
    "agg": agg,
    "fld": fld,
    "setfld": setfld,
    "sel": sel,
    "store": store,
    "len": length,
    "slice": slice_,
    "rep": rep,
    "push": push,
    "concat": concat,
    "iabs": iabs,
    "ltz": ltz,
    "eqz": eqz,
    "imin": imin,
    "imax": imax,
    "idiv": idiv,
    "mod": mod,
    "fadd": fadd,
    "fmul": fmul,
    "fdiv": fdiv,
    "fneg": fneg,
    "ffun": ffun,
    "flt": flt,
    "feq": feq,
}


def subst(t, m):
    """replace terms (fresh symbols, symbols or bound variables) by terms"""
    if not m:
        return t
    fr = all(k.op == "fresh" for k in m) and frozenset(m)
    return _subst(t, m, dict(m), min(k.id for k in m), fr)


def _subst(t, m, memo, minid, fr):
    r = memo.get(t)
    if r is not None:
        return r
    if fr:
        if not (t.fv & fr):
            return t
    elif t.id < minid:
        return t  # no argument is younger than its term
    if t.op in BINDERS:
        r = _subst_binder(t, m, memo, minid, fr)
    else:
        ch = False
        n = []
        for x in t.a:
            if type(x) is T:
                y = _subst(x, m, memo, minid, fr)
                ch = ch or y is not x
                n.append(y)
            else:
                n.append(x)
        r = rebuild(t, n) if ch else t
    memo[t] = r
    return r


def _occurs(t, m, minid, fr, seen):
    if t in m:
        return True
    if fr:
        return bool(t.fv & fr)
    if t.id < minid or t in seen:
        return False
    seen.add(t)
    return any(_occurs(x, m, minid, fr, seen) for x in t.a if type(x) is T)


def _subst_binder(t, m, memo, minid, fr):
    # open the binder with fresh variables, substitute, close again
    if not _occurs(t, m, minid, fr, set()):
        return t
    vs, args = open_binder(t)
    m2 = dict(m)
    if not fr:
        minid = min(k.id for k in m)
    args = [_subst(x, m, m2, minid, fr) if type(x) is T else x for x in args]
    return close_binder(t.op, vs, args)


def open_binder(t):
    h = t.a[0]
    n = 1 + (len(t.a) - 2) // 2 if t.op == "mu" else 1
    vs = [fresh("o") for _ in range(n)]
    nonneg.add(vs[0])  # the iteration counter
    op = {bv(h, j): v for j, v in enumerate(vs)}
    return vs, [subst(x, op) if type(x) is T else x for x in t.a[1:]]


def close_binder(op, vs, args):
    if op == "gen":
        return mk_gen(args[0], vs[0], args[1])
    if op == "sum":
        return mk_sum(vs[0], args[0], args[2], ZERO if args[3] == "int" else F(0.0, args[3]), args[3])
    if op == "fgen":
        return mk_fgen(args[0], vs[0], args[1], args[2])
    if op == "trip":
        return mk_trip(vs[0], args[0])
    if op == "fill":
        return mk_fill(args[0], args[1], args[2], vs[0], args[3])
    if op == "mu":
        return mk_mu(vs[0], args[0], [(vs[1 + j], args[1 + 2 * j], args[2 + 2 * j]) for j in range((len(args) - 1) // 2)], 0)
    if op == "lam":
        return mk_lam(vs[0], args[0])
    raise AssertionError(op)


def mk_lam(var, body):
    h, (b,) = close(var, body)
    return raw("lam", h, b)


def mk_fill(init, start, n, var, body):
    """init with elements start .. start+n replaced by body(k)"""
    if start is ZERO and length(init) is n:
        return mk_gen(n, var, body)
    h, (b,) = close(var, body)
    return raw("fill", h, init, start, n, b)


def mk_mu(k, cont, phis, want):
    """value of phis[want] when cont first fails; phis = [(var, init, next)]"""
    byvar = {p[0]: p for p in phis}
    order = []
    seen = set()

    def visit(t):
        # depth-first, in argument order
        if not (t.fv & allv) or t in seen:
            return
        seen.add(t)
        if t.op == "fresh":
            if t in byvar and t not in order:
                order.append(t)
            return
        for x in t.a:
            if type(x) is T:
                visit(x)

    allv = frozenset(byvar)
    visit(phis[want][0])
    i = 0
    visit(cont)
    while i < len(order):
        visit(byvar[order[i]][2])
        i += 1
    if order[0] is not phis[want][0]:
        order.remove(phis[want][0])
        order.insert(0, phis[want][0])
    flat = []
    for v in order:
        flat += [byvar[v][1], byvar[v][2]]
    h = 1 + max(x.h for x in [cont] + flat)
    m = {k: bv(h, 0)}
    for j, v in enumerate(order):
        m[v] = bv(h, j + 1)
    return raw("mu", h, subst(cont, m), *[subst(x, m) for x in flat])


# ---------------------------------------------------------------- inspection
def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if type(y) is T:
                st.append(y)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def show(t, depth=0, maxd=14):
    if type(t) is not T:
        return str(t)
    o, a = t.op, t.a
    if depth > maxd:
        return "…"
    s = lambda x: show(x, depth + 1, maxd)
    if o == "i":
        return str(a[0])
    if o == "f":
        return repr(f_of(t)) + ("f" if a[1] == 32 else "")
    if o == "b":
        return "true" if a[0] else "false"
    if o == "sym":
        return str(a[0])
    if o == "fresh":
        return f"{a[0]}#{a[1]}"
    if o == "bv":
        return f"k{a[0]}.{a[1]}"
    if o == "lin":
        p = [str(a[0])] if a[0] else []
        for i in range(1, len(a), 2):
            p.append((f"{a[i]}*" if a[i] != 1 else "") + s(a[i + 1]))
        return "(" + " + ".join(p) + ")"
    if o == "mul":
        return "*".join(map(s, a))
    if o == "fadd":
        return f"({s(a[1])} + {s(a[2])})"
    if o == "fmul":
        return f"({s(a[1])} * {s(a[2])})"
    if o == "fdiv":
        return f"({s(a[1])} / {s(a[2])})"
    if o == "fneg":
        return f"-{s(a[1])}"
    if o == "ffun":
        return f"{a[0]}({', '.join(map(s, a[2:]))})"
    if o == "ite":
        if a[1] is TRUE and a[2] is FALSE:
            return s(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return "!" + s(a[0])
        return f"[{s(a[0])} ? {s(a[1])} : {s(a[2])}]"
    if o == "ltz":
        return f"({s(a[0])} < 0)"
    if o == "eqz":
        return f"({s(a[0])} == 0)"
    if o == "fld":
        return f"{s(a[0])}.{a[1]}.{a[2]}" if a[1] else f"{s(a[0])}.{a[2]}"
    if o == "sel":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "agg":
        n = str(a[0]).split("::")[-1]
        return f"{n}#{a[1]}({', '.join(map(s, a[2:]))})"
    return f"{o}({', '.join(map(s, a))})"
