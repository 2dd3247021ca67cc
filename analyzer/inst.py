"""Finite instances of a value graph.

Given constants for some opaque symbols, folds a graph to its value: closed recurrence
terms are unfolded while their continuation condition folds to true.  The graph itself is
not changed and no program code is executed; what comes out is the constant the graph
denotes in that instance of its symbols.
"""
from terms import *
import terms


class Stuck(Exception):
    pass


class Inst:
    def __init__(self, oracle, limit=64):
        self.oracle = oracle
        self.limit = limit
        self.why = None

    def ev(self, t, env=None):
        return self._ev(t, env or {}, {})

    def _ev(self, t, env, memo):
        o = t.op
        if o in ("i", "b", "f", "sym", "str"):
            if o == "sym":
                r = self.oracle(t)
                return t if r is None else r
            return t
        if o in ("bv", "fresh"):
            r = env.get(t)
            if r is None:
                r = self.oracle(t)
            return t if r is None else r
        r = memo.get(t)
        if r is not None:
            return r
        r = self._ev1(t, env, memo)
        memo[t] = r
        return r

    def _ev1(self, t, env, memo):
        o = t.op
        ev = lambda x: self._ev(x, env, memo)
        if o == "ite":
            c = ev(t.a[0])
            if c.op not in ("b", "ite"):
                c = atom(c)
            if c.op == "b":
                return ev(t.a[1] if c.a[0] else t.a[2])
            return ite(c, ev(t.a[1]), ev(t.a[2]))
        if o in BINDERS:
            return self.binder(t, env, memo)
        if o == "cell":
            return t
        a = [ev(x) if type(x) is T else x for x in t.a]
        if o in ("ltz", "eqz", "flt", "feq", "is"):
            r = rebuild(raw(o, *a), a) if o != "is" else terms.CONS["is"](*a)
        elif o == "muk":
            return a[0]
        else:
            r = rebuild(t, a)
        if r.op not in ("i", "b", "f"):
            q = self.oracle(r)
            if q is not None:
                return q
        return r

    def under(self, env, h, *vals):
        e = dict(env)
        for j, v in enumerate(vals):
            e[bv(h, j)] = v
        return e

    def const_bool(self, c):
        if c.op not in ("b", "ite"):
            c = atom(c)
        if c.op != "b":
            raise Stuck("condition " + show(c, maxd=6)[:200])
        return bool(c.a[0])

    def binder(self, t, env, memo):
        o, h = t.op, t.a[0]
        if o in ("gen", "fgen"):
            n = self._ev(t.a[1], env, memo)
            if n.op != "i":
                raise Stuck("length " + show(n, maxd=6)[:200])
            out = []
            for k in range(min(n.a[0], self.limit)):
                e = self.under(env, h, I(k))
                m = {}
                if o == "fgen" and not self.const_bool(self._ev(t.a[2], e, m)):
                    continue
                out.append(self._ev(t.a[-1], e, m))
            return raw("agg", "arr", 0, *out)
        if o == "trip":
            for k in range(self.limit):
                if not self.const_bool(self._ev(t.a[1], self.under(env, h, I(k)), {})):
                    return I(k)
            raise Stuck("loop does not end in this instance")
        if o == "sum":
            acc = ZERO if t.a[4] == "int" else F(0.0, t.a[4])
            for k in range(self.limit):
                e = self.under(env, h, I(k))
                m = {}
                if not self.const_bool(self._ev(t.a[1], e, m)):
                    return acc
                b = self._ev(t.a[3], e, m)
                acc = add(acc, b) if t.a[4] == "int" else fadd(t.a[4], acc, b)
            raise Stuck("loop does not end in this instance")
        if o == "mu":
            n = (len(t.a) - 2) // 2
            st = [self._ev(t.a[2 + 2 * j], env, memo) for j in range(n)]
            for k in range(self.limit):
                e = self.under(env, h, I(k), *st)
                m = {}
                if not self.const_bool(self._ev(t.a[1], e, m)):
                    return st[0]
                st = [self._ev(t.a[3 + 2 * j], e, m) for j in range(n)]
            raise Stuck("loop does not end in this instance")
        if o == "lam":
            return t
        raise Stuck("binder " + o)
