"""Integer facts: linear consequences of loop ranges and path conditions.

`entails(facts, goal)` shows goal >= 0 from integer conditions.  Division, remainder,
minimum, maximum, masks and products are variables with their defining inequalities; the
rest is linear arithmetic over the rationals with integer tightening, decided exactly by
the simplex method.  A failure to show the goal means nothing more than that.
"""
from fractions import Fraction
import math

from terms import *


# ------------------------------------------------------------------ feasibility
def feasible(rows):
    """is there a rational point with every row >= 0?  rows: dict var -> coefficient, None -> constant"""
    rows = [r for r in rows if r]
    vs = sorted({v for r in rows for v in r if v is not None}, key=lambda t: t.id)
    # eliminate variables of one sign, repeatedly: they can satisfy all their rows
    while True:
        sign = {}
        for r in rows:
            for v, c in r.items():
                if v is not None and c:
                    sign[v] = sign.get(v, 0) | (1 if c > 0 else 2)
        free = {v for v, s in sign.items() if s != 3}
        if not free:
            break
        rows = [r for r in rows if not any(v in free and r[v] for v in r if v is not None)]
    vs = [v for v in vs if v in sign]
    for r in rows:
        if all(v is None or not c for v, c in r.items()) and r.get(None, 0) < 0:
            return False
    rows = [r for r in rows if any(v is not None and c for v, c in r.items())]
    if not rows:
        return True
    # phase one on the dual: Farkas multipliers y >= 0 with sum y*coef = 0 and sum y*const < 0.
    # Solved as: sum over rows of y_i * a_ij = 0 for each variable, sum y_i * c_i = -1.
    idx = {v: j for j, v in enumerate(vs)}
    m, n = len(vs) + 1, len(rows)
    T = [[Fraction(0)] * (n + 1) for _ in range(m)]
    for i, r in enumerate(rows):
        for v, c in r.items():
            if v is None:
                T[m - 1][i] = Fraction(-c)
            else:
                T[idx[v]][i] = Fraction(c)
    T[m - 1][n] = Fraction(1)
    # artificial variables n .. n+m-1 (not stored: basis bookkeeping only)
    basis = [n + 1 + j for j in range(m)]
    # reduced cost of column i in phase one: minus the sum over rows that are still artificial
    steps = 0
    while True:
        art = [j for j in range(m) if basis[j] > n]
        if all(T[j][n] == 0 for j in art):
            return False  # multipliers exist: infeasible
        col = None
        for i in range(n):
            s = sum(T[j][i] for j in art)
            if s > 0:
                col = i
                break
        if col is None:
            return True
        best = None
        for j in range(m):
            if T[j][col] > 0:
                q = T[j][n] / T[j][col]
                if best is None or q < best[0] or (q == best[0] and basis[j] < basis[best[1]]):
                    best = (q, j)
        if best is None:
            return True
        j = best[1]
        p = T[j][col]
        R = T[j] = [x / p for x in T[j]]
        nz = [i for i in range(n + 1) if R[i]]
        for k in range(m):
            if k != j:
                f = T[k][col]
                if f:
                    K = T[k]
                    for i in nz:
                        K[i] -= f * R[i]
        basis[j] = col
        steps += 1
        if steps > 4000:
            return True


def row(t):
    c, d = lin_parts(t)
    r = {None: c}
    r.update(d)
    return r


def tight(r):
    """integer tightening of a row"""
    g = 0
    for v, c in r.items():
        if v is not None:
            g = math.gcd(g, abs(c))
    if g > 1:
        r = {v: (c // g) for v, c in r.items()}
    return r


# ------------------------------------------------------------------ facts
class Facts:
    def __init__(self, conds=()):
        self.conds = list(conds)


def _atoms_of(t, out):
    """integer subterms of an integer expression that are not linear structure"""
    c, d = lin_parts(t)
    for x in d:
        if x in out:
            continue
        out[x] = 1
        if x.op == "mul":
            for y in x.a:
                _atoms_of(y, out)
        elif x.op in ("idiv", "mod", "imax", "imin", "iabs", "bitand", "shl", "shr", "npot", "bitor"):
            for y in x.a:
                if type(y) is T:
                    _atoms_of(y, out)
        elif x.op == "ite":
            pass


DEFS = {}


def axioms(x):
    """rows that hold of the opaque term x, and possible splits [(cond rows alternatives)]"""
    rows, splits = [], []
    o = x.op
    if is_nonneg(x):
        rows.append(row(x))
    if o == "idiv":
        a, b = x.a
        if b.op == "i" and b.a[0] > 0:
            n = b.a[0]
            rows.append(row(lincomb((1, a), (-n, x))))
            rows.append(row(lincomb((n, x), (n - 1, ONE), (-1, a))))
        elif is_nonneg(b):
            # b >= 1 wherever the quotient exists
            p = mul(x, b)
            rows.append(row(lincomb((1, a), (-1, p))))
            rows.append(row(lincomb((1, p), (1, b), (-1, ONE), (-1, a))))
            rows.append(row(lincomb((1, b), (-1, ONE))))
            if is_nonneg(a):
                rows.append(row(lincomb((1, a), (-1, x))))
    elif o == "mod":
        a, b = x.a
        rows.append(row(x))
        rows.append(row(lincomb((1, b), (-1, ONE), (-1, x))))
        if is_nonneg(a):
            rows.append(row(lincomb((1, a), (-1, x))))
    elif o == "shl":
        a, b = x.a
        if is_nonneg(a) and is_nonneg(b):
            rows.append(row(lincomb((1, x), (-1, a))))
    elif o == "imax":
        a, b = x.a
        rows += [row(lincomb((1, x), (-1, a))), row(lincomb((1, x), (-1, b)))]
        splits.append(([row(lincomb((1, a), (-1, x)))], [row(lincomb((1, b), (-1, x)))]))
    elif o == "imin":
        a, b = x.a
        rows += [row(lincomb((-1, x), (1, a))), row(lincomb((-1, x), (1, b)))]
        splits.append(([row(lincomb((-1, a), (1, x)))], [row(lincomb((-1, b), (1, x)))]))
    elif o == "iabs":
        a = x.a[0]
        rows += [row(x), row(lincomb((1, x), (-1, a))), row(lincomb((1, x), (1, a)))]
        splits.append(([row(lincomb((-1, x), (1, a)))], [row(lincomb((-1, x), (-1, a)))]))
    elif o == "bitand":
        for a in x.a:
            if is_nonneg(a) or a.op == "lin" and a.a[0] == -1 and len(a.a) == 3 and a.a[1] == 1 and a.a[2].op == "npot":
                rows.append(row(lincomb((1, a), (-1, x))))
                rows.append(row(x))
    elif o == "npot":
        rows += [row(lincomb((1, x), (-1, x.a[0]))), row(lincomb((1, x), (-1, ONE)))]
    elif o == "ite":
        rows_ = []
    return rows, splits


def conj(c, out, rest):
    """atoms forced by condition c into out [(atom, truth)], what is left into rest"""
    while c.op == "ite":
        if c.a[2] is FALSE:
            out.append((c.a[0], True))
            c = c.a[1]
        elif c.a[1] is FALSE:
            out.append((c.a[0], False))
            c = c.a[2]
        else:
            rest.append(c)
            return True
    return c is TRUE or c.op != "b"


def atom_rows(v, val):
    """rows of an integer atom, or a split, or nothing"""
    if v.op == "ltz":
        a = v.a[0]
        return ([row(lincomb((-1, a), (-1, ONE)))] if val else [row(a)]), None
    if v.op == "eqz":
        a = v.a[0]
        if val:
            return [row(a), row(lincomb((-1, a)))], None
        return [], ([row(lincomb((1, a), (-1, ONE)))], [row(lincomb((-1, a), (-1, ONE)))])
    return [], None


def key_terms(rows):
    return {v for r in rows for v in r if v is not None and r[v]}


def products(rows, monos):
    """products of simple facts that say something about a monomial in use"""
    out = []
    lin = [r for r in rows if all(v is None or v.op != "mul" for v in r)]
    byvar = {}
    for r in lin:
        for v in r:
            if v is not None and r[v]:
                byvar.setdefault(v, []).append(r)

    def term(r):
        return lincomb(*[(c, ONE if v is None else v) for v, c in r.items()])

    done = set()
    for m in monos:
        if len(m.a) != 2:
            continue
        x, y = m.a
        for p, q in ((x, y), (y, x)):
            # facts on p times non-negative q, and q - 1 when known
            for r in byvar.get(p, [])[:12]:
                if len(r) > 5:
                    continue
                for s in byvar.get(q, [])[:12]:
                    nv = [v for v in s if v is not None and s[v]]
                    if len(nv) > 2 or s[q] < 0 and len(nv) == 1:
                        continue
                    k = (id(r), id(s))
                    if k in done:
                        continue
                    done.add(k)
                    out.append(row(mul(term(r), term(s))))
                    if len(out) > 160:
                        return out
    return out


def refute(rows, conds, depth=5, done=frozenset()):
    """no integer point satisfies all rows (>= 0) and conditions"""
    rows = [tight(dict(r)) for r in rows]
    atoms, rest = [], []
    for c in conds:
        if not conj(c, atoms, rest):
            return True
    splits = []
    for v, val in atoms:
        rs, sp = atom_rows(v, val)
        rows += [tight(r) for r in rs]
        if sp:
            splits.append(sp)
    # close under definitions
    seen = {}
    itesplits = []
    while True:
        new = {}
        for r in rows:
            for v in r:
                if v is not None and v not in seen:
                    new[v] = 1
                    _atoms_of(v, new)
        new = {v: 1 for v in new if v not in seen}
        if not new:
            break
        for v in new:
            seen[v] = 1
            rs, sp = axioms(v)
            rows += [tight(r) for r in rs]
            splits += sp
            if v.op == "ite" and v not in done:
                itesplits.append(v)
    if not feasible(rows):
        return True
    used = set()
    for _ in range(2):
        monos = [v for v in seen if v.op == "mul" and v not in used]
        if not monos:
            break
        used.update(monos)
        pr = products(rows, monos)
        if pr:
            for r in pr:
                for v in r:
                    if v is not None and v not in seen:
                        seen[v] = 1
                        rs, sp = axioms(v)
                        rows += rs
            rows += [tight(r) for r in pr]
            if not feasible(rows):
                return True
    if depth <= 0:
        return False
    for v in itesplits:
        c = atom(v.a[0])
        ra = rows + [row(lincomb((1, v), (-1, v.a[1]))), row(lincomb((-1, v), (1, v.a[1])))]
        rb = rows + [row(lincomb((1, v), (-1, v.a[2]))), row(lincomb((-1, v), (1, v.a[2])))]
        d = done | {v}
        return refute(ra, rest + [c], depth - 1, d) and refute(rb, rest + [NOT(c)], depth - 1, d)
    # splits one side of which is impossible are no splits
    left = splits
    while True:
        keep = []
        for l, r in left:
            if not feasible(rows + l):
                rows = rows + r
            elif not feasible(rows + r):
                rows = rows + l
            else:
                keep.append((l, r))
        if len(keep) == len(left):
            break
        left = keep
        if not feasible(rows):
            return True
    for l, r in left:
        return refute(rows + l, rest, depth - 1, done) and refute(rows + r, rest, depth - 1, done)
    for j, c in enumerate(rest):
        v = atom(c.a[0])
        o = rest[:j] + rest[j + 1:]
        return refute(rows, o + [v, c.a[1]], depth - 1, done) and refute(rows, o + [NOT(v), c.a[2]], depth - 1, done)
    return False


_memo = {}


def entails(conds, goal, depth=6):
    """conditions imply goal >= 0"""
    conds = relevant(conds, goal) if variables(goal) else tuple(dict.fromkeys(conds))
    key = (conds, goal)
    r = _memo.get(key)
    if r is None:
        if is_nonneg(goal):
            r = True
        elif goal.op == "ite":
            r = all(entails(conds + (cond_of(goal, l),), l, depth) for l in leaves(goal))
        else:
            r = refute([row(lincomb((-1, goal), (-1, ONE)))], conds, depth)
        _memo[key] = r
    return r


_vars = {}


def variables(t):
    """what an integer expression or condition is about"""
    r = _vars.get(t)
    if r is None:
        if t.op in ("i", "b", "f"):
            r = frozenset()
        elif t.op in ("lin", "mul", "idiv", "mod", "imax", "imin", "iabs", "bitand", "bitor", "shl", "shr", "npot", "ite", "ltz", "eqz"):
            r = frozenset().union(*[variables(x) for x in t.a if type(x) is T])
        else:
            r = frozenset((t,))
        _vars[t] = r
    return r


def relevant(conds, goal):
    """the conditions connected to the goal through shared variables"""
    conds = [c for c in dict.fromkeys(conds) if c is not TRUE]
    have = set(variables(goal))
    out = []
    left = conds
    while True:
        hit = [c for c in left if variables(c) & have or not variables(c)]
        if not hit:
            return tuple(c for c in conds if c in out)
        left = [c for c in left if c not in hit]
        out += hit
        for c in hit:
            have |= variables(c)


# ------------------------------------------------------------------ occurrences in a graph
def integer_only(c):
    """c weakened to what its integer atoms force"""
    out, rest = [], []
    if not conj(c, out, rest):
        return [c]
    r = []
    for v, val in out:
        if v.op in ("ltz", "eqz") and not floaty(v):
            a = raw("ite", v, TRUE, FALSE)
            r.append(a if val else NOT(a))
    for c in rest:
        if all(x.a[0].op in ("ltz", "eqz") and not floaty(x.a[0]) for x in itenodes(c)):
            r.append(c)
    return r


_floaty = {}


def floaty(t):
    """does an integer condition depend on a float?"""
    r = _floaty.get(t)
    if r is None:
        if t.op in ("tobits", "f2i", "pixel", "deref"):
            r = t.op in ("tobits", "f2i")
        else:
            r = any(floaty(x) for x in t.a if type(x) is T)
        _floaty[t] = r
    return r


def itenodes(c):
    out, st, seen = [], [c], set()
    while st:
        x = st.pop()
        if x.op == "ite" and x not in seen:
            seen.add(x)
            out.append(x)
            st += [x.a[1], x.a[2]]
    return out


def occurrences(t, pred):
    """(term, facts) for the places in t whose term satisfies pred, with what is known there.
    Bound variables are opened with fresh names."""
    out = []
    memo = set()

    def walk(t, facts):
        if type(t) is not T:
            return
        key = (t, facts)
        if key in memo:
            return
        memo.add(key)
        if pred(t):
            out.append((t, facts))
        o = t.op
        if o == "ite":
            st, seen = [(t, ())], set()
            c = t.a[0]
            walk(c, facts)
            if c.op in ("ltz", "eqz") and not floaty(c):
                a = raw("ite", c, TRUE, FALSE)
                walk(t.a[1], facts + (a,))
                walk(t.a[2], facts + (NOT(a),))
            else:
                walk(t.a[1], facts)
                walk(t.a[2], facts)
            return
        if o in BINDERS:
            vs, args = opened(t)
            k = vs[0]
            if o == "gen":
                walk(args[0], facts)
                walk(args[1], facts + (ilt(k, args[0]),))
            elif o == "fgen":
                walk(args[0], facts)
                f = facts + (ilt(k, args[0]),)
                walk(args[1], f)
                walk(args[2], f + tuple(integer_only(args[1])))
            elif o == "sum":
                walk(args[0], facts)
                walk(args[2], facts + tuple(integer_only(args[0])))
            elif o == "trip":
                walk(args[0], facts)
            elif o == "fill":
                for x in args[:3]:
                    walk(x, facts)
                walk(args[3], facts + (ilt(k, args[2]),))
            elif o == "mu":
                walk(args[0], facts)
                f = facts + tuple(integer_only(args[0]))
                for j in range((len(args) - 1) // 2):
                    walk(args[1 + 2 * j], facts)
                    walk(args[2 + 2 * j], f)
            else:
                for x in args:
                    walk(x, facts)
            return
        for x in t.a:
            if type(x) is T:
                walk(x, facts)

    cache = {}

    def opened(t):
        r = cache.get(t)
        if r is None:
            r = cache[t] = open_binder(t)
        return r

    walk(t, ())
    return out
