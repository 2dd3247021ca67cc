"""Frame comparison is total and memory safe: what could panic or read out of bounds cannot."""
from ctx import *
import lin
from lin import variables
import rules_agg as ra
from ranges import Ranges
from rules_num import full, F1, F2, CS, DEPTH, DECIMATION, CFG_FIELDS, canonical, cfg_index, rf_width, rf_height

# ------------------------------------------------------------------ lengths of sequences in loops


def root(s, busy=frozenset()):
    """a sequence of the same length as s, closer to where it was made"""
    while True:
        if s.op == "store":
            s = s.a[0]
        elif s.op == "fill":
            s = s.a[1]
        elif s.op == "mu":
            vs, args = open_binder(s)
            init, nxt = args[1], args[2]
            if root(nxt, busy) is not vs[1]:
                return s
            s = init
        elif s.op == "fresh" and s in recur and s not in busy:
            init, nxt = recur[s]
            if root(nxt, busy | {s}) is not s:
                return s
            s = init
        elif s.op == "sel":
            e = element(s.a[0], busy)
            if e is None:
                return s
            s = e
        elif s.op == "ite":
            ls = {root(x, busy) for x in leaves(s)}
            if len(ls) != 1:
                return s
            s = ls.pop()
        else:
            return s


def element(s, busy=frozenset()):
    """a term as long as every element of s"""
    if s.op == "rep":
        return s.a[0]
    if s.op == "agg":
        els = s.a[2:]
        if els and all(length(root(e, busy)) is length(root(els[0], busy)) for e in els):
            return els[0]
        return None
    if s.op == "store":
        e = element(s.a[0], busy)
        if e is not None:
            v = root(s.a[2], busy)
            if v is root(e, busy) or length(v) is length(root(e, busy)):
                return e
        return None
    if s.op == "mu":
        vs, args = open_binder(s)
        init, nxt = args[1], args[2]
        return element(init, busy) if keeps(vs[1], nxt, busy) else None
    if s.op == "fresh" and s in recur and s not in busy:
        init, nxt = recur[s]
        return element(init, busy | {s}) if keeps(s, nxt, busy | {s}) else None
    return None


def keeps(s, nxt, busy):
    """nxt is s with elements replaced by elements of the same length"""
    while nxt is not s:
        if nxt.op == "ite":
            return all(keeps(s, x, busy) for x in leaves(nxt))
        if nxt.op == "mu":
            vs, args = open_binder(nxt)
            if not keeps(vs[1], args[2], busy):
                return False
            nxt = args[1]
            continue
        if nxt.op != "store":
            return False
        v = root(nxt.a[2], busy)
        if not (v.op == "sel" and keeps_back(s, v.a[0], busy)):
            return False
        nxt = nxt.a[0]
    return True


def keeps_back(s, x, busy):
    return x is s or (x.op == "store" and keeps(s, x, busy))


_resolved = {}


def resolve(t):
    """t with the lengths of loop-carried sequences spelt out"""
    for _ in range(8):
        m = {}
        for x in arith(t):
            if x.op == "len":
                if x not in _resolved:
                    n = length(root(x.a[0]))
                    _resolved[x] = n
                if _resolved[x] is not x:
                    m[x] = _resolved[x]
        if not m:
            return t
        t = subst(t, m)
    return t


STRUCT = ("lin", "mul", "idiv", "mod", "imax", "imin", "iabs", "bitand", "bitor", "shl", "shr", "npot", "ite", "ltz", "eqz")


def arith(t):
    """subterms of t reached through integer arithmetic and conditions"""
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        if x.op in STRUCT:
            st += [y for y in x.a if type(y) is T]
    return out


# ------------------------------------------------------------------ proving
def facts_of(pc):
    """integer consequences of a path condition, and its other literals"""
    out, rest = [], []
    if not lin.conj(pc, out, rest):
        return [FALSE]
    r = []
    for v, val in out:
        a = raw("ite", v, TRUE, FALSE)
        r.append(a if val else NOT(a))
    for c in rest:
        if len(lin.itenodes(c)) <= 24:
            r.append(c)
    return r


def choices(t, facts):
    """conditions that are not about integers and decide integer expressions of t and the facts"""
    for z in (t,) + facts:
        for x in arith(z):
            if x.op == "ite" and x.a[0].op not in ("ltz", "eqz"):
                return x.a[0]
    return None


def alpha(facts, goal):
    """facts and goal with opened variables numbered in order of appearance"""
    ren = {}
    for t in (goal,) + facts:
        if not t.fv:
            continue
        for x in ordered(t):
            if x.op == "fresh" and x not in ren:
                ren[x] = canon_var(len(ren), x in nonneg)
    return tuple(subst(f, ren) for f in facts), subst(goal, ren)


_canon_vars = {}


def canon_var(i, nn):
    k = (i, nn)
    v = _canon_vars.get(k)
    if v is None:
        v = _canon_vars[k] = sym(f"v{i}{'n' if nn else ''}")
        if nn:
            nonneg.add(v)
    return v


def ordered(t):
    out, seen = [], set()

    def walk(x):
        if type(x) is not T or x in seen:
            return
        seen.add(x)
        out.append(x)
        if x.op in STRUCT:
            for y in x.a:
                walk(y)

    walk(t)
    return out


_proved = {}


def decided(facts, goal):
    """facts and goal without the conditions that the facts decide"""
    for _ in range(12):
        c = None
        for z in (goal,) + facts:
            for x in arith(z):
                if x.op == "ite" and x.a[0].op == "ltz" and x not in (TRUE, FALSE) and x.a[1].op not in ("b", "ite"):
                    g = x.a[0].a[0]
                    own = tuple(f for f in facts if not any(y.op == "ite" and y.a[0] is x.a[0] and y.a[1].op not in ("b", "ite") for y in arith(f)))
                    if lin.entails(own, g, 2):
                        c = (x.a[0], FALSE)
                    elif lin.entails(own, sub(I(-1), g), 2):
                        c = (x.a[0], TRUE)
                    if c:
                        break
            if c:
                break
        if not c:
            break
        goal = subst(goal, {c[0]: c[1]})
        lit = raw("ite", c[0], TRUE, FALSE)
        facts = tuple(f if f in (lit, NOT(lit)) else subst(f, {c[0]: c[1]}) for f in facts)
    return facts, goal


def holds(facts, goal, depth=6):
    """facts imply goal >= 0"""
    if any(f is FALSE for f in facts):
        return True
    goal = canonical(resolve(goal))
    if variables(goal):
        facts = tuple(canonical(resolve(f)) for f in lin.relevant(facts, goal))
        facts = lin.relevant(facts, goal)
    else:
        facts = tuple(canonical(resolve(f)) for f in facts)
    facts, goal = alpha(facts, goal)
    key = (facts, goal)
    r = _proved.get(key)
    if r is None:
        _proved[key] = False
        c = choices(goal, facts) if depth > 0 else None
        if c is not None:
            r = all(holds(tuple(subst(f, {c: v}) for f in facts), subst(goal, {c: v}), depth - 1) for v in (TRUE, FALSE))
        else:
            f2, g2 = decided(facts, goal)
            r = factored(f2, g2, depth) or lin.entails(f2, g2) or enumerated(f2, g2)
        _proved[key] = r
    return r


def factored(facts, goal, depth):
    """goal = S * Q + R with Q >= d and R + d * S >= 0"""
    if depth <= 0:
        return False
    c, d = lin_parts(goal)
    # buffers are at least as long as their rows
    parts = []
    for t, k in d.items():
        if k > 0 and t in ROWS:
            t = canonical(ROWS[t])
        parts.append((k, t))
    g = lincomb((c, ONE), *parts)
    c, d = lin_parts(g)
    cand = {}
    for t in d:
        if t.op == "mul" and len(t.a) == 2:
            for x in t.a:
                cand[x] = cand.get(x, 0) + 1
    for S in sorted(cand, key=lambda x: (-cand[x], x.id)):
        if not is_nonneg(S):
            continue
        q, r = [], [(c, ONE)]
        for t, k in d.items():
            if t.op == "mul" and len(t.a) == 2 and S in t.a:
                q.append((k, t.a[1] if t.a[0] is S else t.a[0]))
            else:
                r.append((k, t))
        Q, R = lincomb(*q), lincomb(*r)
        for n in (1, 0, 2):
            if holds(facts, sub(Q, I(n)), depth - 1) and holds(facts, add(R, mul(I(n), S)), depth - 1):
                return True
    return False


ROWS = {}


def enumerated(facts, goal):
    """goal over variables that range over few values"""
    vs = {}
    for x in arith(goal):
        if x.op in ("sym", "fresh", "fld") or x.op not in STRUCT + ("i", "b"):
            vs[x] = None
    for f in facts:
        if f.op == "ite" and f.a[1] is TRUE and f.a[2] is FALSE and f.a[0].op == "ltz":
            c, d = lin_parts(f.a[0].a[0])
            if len(d) == 1:
                (x, k), = d.items()
                if x in vs and k == 1:
                    vs[x] = -c if vs[x] is None else min(vs[x], -c)
    n = 1
    for x, b in vs.items():
        if b is None or x not in nonneg:
            return False
        n *= max(b, 0)
    if not vs or n > 4096:
        return False
    import itertools

    for vals in itertools.product(*[range(b) for b in vs.values()]):
        g = subst(goal, {x: I(v) for x, v in zip(vs, vals)})
        if g.op != "i" or g.a[0] < 0:
            return False
    return True


def never(facts, c):
    """facts contradict condition c"""
    out, rest = [], []
    if not lin.conj(c, out, rest):
        return True
    if rest:
        v = rest[0]
        a = raw("ite", v.a[0], TRUE, FALSE)
        return never(facts + (a,), AND(a, c)) and never(facts + (NOT(a),), AND(NOT(a), c))
    lits = []
    for v, val in out:
        a = raw("ite", v, TRUE, FALSE)
        lits.append(a if val else NOT(a))
    for i, (v, val) in enumerate(out):
        if v.op == "ltz":
            # the literal's negation follows from the others
            g = v.a[0] if val else sub(I(-1), v.a[0])
            if holds(facts + tuple(lits[:i] + lits[i + 1:]), g):
                return True
    return holds(facts + tuple(lits), I(-1))


# ------------------------------------------------------------------ what v_frame's planes guarantee
def plane_facts():
    """planes are allocated with room for their visible area and padding"""
    out = []
    for i in range(3):
        p = plane(F1, i)
        c = lambda n: pcfg(p, cfg_index(n))
        out.append(ile(add(c("xorigin"), c("width")), c("stride")))
        out.append(ile(add(c("yorigin"), c("height")), c("alloc_height")))
        for fr in (F1, F2):
            n = length(raw("rawdata", fld(plane(fr, i), 0, 0)))
            out.append(ile(mul(c("stride"), c("alloc_height")), n))
            ROWS[n] = mul(c("stride"), c("alloc_height"))
    return tuple(out)


def sampling_facts(v):
    out = []
    dec = DECIMATION.get(v)
    if dec:
        for i in (1, 2):
            for f, d in ((rf_width(), dec[0]), (rf_height(), dec[1])):
                y, u = pcfg(plane(F1, 0), f), pcfg(plane(F1, i), f)
                out.append(eqz(sub(u, idiv(add(y, I((1 << d) - 1)), I(1 << d)))))
    return tuple(out)


def goals(kind, data):
    if kind == "assert:bounds":
        return [data[2], sub(sub(data[1], ONE), data[2])]
    if kind in ("index", "unsafe-index"):
        return [data[0], sub(sub(data[1], ONE), data[0])]
    if kind in ("range", "unsafe-range"):
        return [data[0], sub(data[1], data[0]), sub(data[2], data[1])]
    if kind == "unsafe-load":
        return [sub(data[1], data[0])]
    if kind == "assert:overflow:Sub":
        return [sub(data[1], data[2])]
    return None


WHAT = {
    "assert:bounds": "an index may be out of bounds",
    "index": "an index may be out of bounds",
    "range": "a slice may be out of bounds",
    "unsafe-index": "an unchecked index may be out of bounds",
    "unsafe-range": "an unchecked slice may be out of bounds",
    "unsafe-load": "a vector load may read past the end",
    "assert:overflow:Sub": "an unsigned subtraction may underflow",
    "assert:div0": "a division by zero is possible",
    "diverge": "a panic is reachable",
    "panic": "a panic is reachable",
    "samelen": "slices of different lengths may be copied",
}


def in_range(pc, goal, limit):
    """goal >= 0 by the ranges of what it is computed from"""
    out, rest = [], []
    if not lin.conj(pc, out, rest):
        return True
    r = Ranges(samples=limit).given(out)
    if r is None:
        return True
    todo = [(r, tuple(c for c in rest if any(x.a[0].op == "flt" for x in lin.itenodes(c))))]
    n = 0
    while todo:
        r, rest = todo.pop()
        n += 1
        if n > 20000:
            return False
        while rest and rest[0] is TRUE:
            rest = rest[1:]
        if not rest:
            g = r(goal)
            if g is None or g[0] < 0:
                return False
            continue
        c = rest[0]
        if c is FALSE:
            continue
        for branch, val in ((c.a[1], True), (c.a[2], False)):
            e = r.given([(c.a[0], val)])
            if e is not None and branch is not FALSE:
                todo.append((e, (branch,) + rest[1:]))
    return True


def total(rep, m, w):
    r, ok = full(m, w)
    base = plane_facts()
    # (what is assumed, as a substitution; facts; largest sample)
    cases = [({}, (), TRUE, 255 if w == "u8" else None)]
    if m.startswith("ciede"):
        t = ra.chroma_type(prog())
        cases = []
        for i, v in enumerate(t["v"]):
            c = eqz(sub(discriminant(CS, t), I(i)))
            m_ = {CS: agg(t["def"], i)}
            cases += [({**m_, DEPTH: I(d)}, sampling_facts(v["n"]), AND(c, eqz(sub(DEPTH, I(d)))), (1 << d) - 1) for d in ((8,) if w == "u8" else (10, 12))]
    for (kind, site, tag), (pc, data, stack) in r.it.obligations.items():
        if kind not in WHAT:
            if kind.startswith("unsafe"):
                rep.fail("unsafe", stack[-1], f"{kind} is not understood")
            continue
        if kind == "assert:overflow:Sub" and (data[0] is TRUE or data[0].op != "ite" or data[0].a[0].op != "ovf" or data[0].a[0].a[2]):
            continue
        own = [f for f in stack if "av_metrics" in f or "{closure" in f] or list(stack)
        where = own[-1]
        good = True
        for m_, extra, cond, limit in cases:
            p, d = AND(pc, cond), data
            if m_:
                p = subst(p, m_)
                d = tuple(subst(x, m_) if type(x) is T else x for x in data)
            if p is FALSE:
                continue
            facts = tuple(canonical(x) for x in facts_of(p)) + tuple(canonical(x) for x in base + extra)
            g = goals(kind, d)
            if g is not None:
                good = all(holds(facts, canonical(x)) or limit is not None and in_range(p, x, limit) for x in g)
            elif kind == "assert:div0":
                good = never(facts, NOT(canonical(d[0])))
            else:
                good = holds(facts, I(-1))
            if not good:
                break
        line = site[2] if len(site) > 2 else 0
        rep.check(good, "total", where, f"{WHAT[kind]} (line {line})")
        rep.count(kind)
    rep.sample({"entry": r.fn.short()})
