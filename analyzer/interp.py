"""Abstract interpreter over monomorphised MIR.

Computes, for a function, the value graph of its result and of the memory it can reach:
joins become decision-graph nodes, loops become closed recurrence terms, calls into the
workspace and into generic library code are evaluated in place, and library operations
whose meaning matters (iterators, vectors, channels, scopes) have models in models.py.
No path is enumerated and no input is chosen: every join is merged, every loop summarised.
"""
from terms import *
from mir import Prog

MAXDEPTH = 70
# code that has to be followed: failing to is a failure of the analysis
CLOSED = {"av_metrics", "av_metrics_decoders", "av_metrics_tool", "vharness", "v_frame"}


class Unsupported(Exception):
    pass


class Cell:
    pass


DEBUG = 0
_paths = {}


def path(parent, *key):
    k = (parent,) + key
    r = _paths.get(k)
    if r is None:
        r = len(_paths) + 1
        _paths[k] = r
    return r


def cell(*key):
    return raw("cell", *key)


def ref(c, *proj):
    return raw("ref", c, *proj)


def pf(variant, i):
    return raw("pf", variant, i)


def px(i):
    return raw("px", i)


def ps(a, b):
    return raw("ps", a, b)


def default_of(c):
    """content of a cell nothing has been stored in yet"""
    if c.a[0] == "val":
        return c.a[1]
    if c.a[0] == "deref":
        return raw("deref", c.a[1])
    if c.a[0] in ("world",):
        return raw("start", *c.a)
    if c.a[0] == "ctr":
        return ZERO
    return raw("uninit", c)


class Mem(dict):
    """cell -> value; copied at branches"""

    def copy(self):
        return Mem(self)


class Interp:
    def __init__(self, prog, models, unroll=4, opaque=()):
        self.p = prog
        self.models = models
        self.unroll = unroll
        self.opaque = set(opaque)
        self.hard = set()
        self.base = [TRUE]
        self.obligations = {}
        self.events = {}
        self.stack = []
        self.visited = set()
        self.unmodelled = {}
        self.opaqued = {}
        self.thread = "main"
        self.steps = 0
        self.line = 0
        self.utag = ()
        self.touched = [set()]

    def event(self, name, pth, pc, *data):
        self.oblige("ev:" + name, (pth, 0, self.line, self.stack[-1].short() if self.stack else ""), pc, *data)

    def const_generic(self, fn, i):
        import re

        m = re.search(r"::<(-?[0-9]+(?:, *-?[0-9]+)*)>$", fn.name)
        return int(m.group(1).split(",")[i]) if m else None

    def elem_width(self, mem, p):
        for lf in leaves(p):
            if lf.op == "ref":
                for x in lf.a[1:]:
                    if x.op == "pc":
                        return x.a[0]
        return None

    def reinterpret(self, v, pr):
        frm, to = pr.a[0], pr.a[1]
        n = to // frm
        self.oblige("unsafe-load", (0, 0, self.line, self.stack[-1].short() if self.stack else "", "cast"), TRUE, I(n), length(v), v)
        return agg("arr", 0, *[sel(v, I(i)) for i in range(n)])

    # ------------------------------------------------------------ memory
    def proj_get(self, v, pr):
        o = pr.op
        if o == "pf":
            return fld(v, pr.a[0], pr.a[1])
        if o == "px":
            return sel(v, pr.a[0])
        if o == "ps":
            return slice_(v, pr.a[0], pr.a[1]) if v.op != "ite" else lift(lambda x: slice_(x, pr.a[0], pr.a[1]), v)
        if o == "praw":
            if v.op == "setraw":
                return v.a[1]
            return v if v.op == "ite" and False else lift(lambda x: x.a[1] if x.op == "setraw" else raw("rawdata", x), v)
        if o == "pp":
            return v
        if o == "pc":
            return self.reinterpret(v, pr)
        if o == "pg":
            # elements of a sequence taken in groups
            n, k = pr.a[0], fresh("g")
            return mk_gen(idiv(length(v), I(n)), k, agg("arr", 0, *[sel(v, lincomb((n, k), (i, ONE))) for i in range(n)]))
        raise Unsupported("projection " + o)

    def proj_set(self, v, prs, new):
        if not prs:
            return new
        pr = prs[0]
        o = pr.op
        if o == "pf":
            return setfld(v, pr.a[0], pr.a[1], self.proj_set(fld(v, pr.a[0], pr.a[1]), prs[1:], new))
        if o == "px":
            return store(v, pr.a[0], self.proj_set(sel(v, pr.a[0]), prs[1:], new))
        if o == "ps":
            # a sub-slice: translate the following index
            if len(prs) > 1 and prs[1].op == "px":
                return self.proj_set(v, (px(add(pr.a[0], prs[1].a[0])),) + tuple(prs[2:]), new)
            if len(prs) > 1 and prs[1].op == "ps":
                return self.proj_set(v, (ps(add(pr.a[0], prs[1].a[0]), add(pr.a[0], prs[1].a[1])),) + tuple(prs[2:]), new)
            if len(prs) == 1:
                return raw("setslice", v, pr.a[0], pr.a[1], new)
            return raw("setslice", v, pr.a[0], pr.a[1], self.proj_set(slice_(v, pr.a[0], pr.a[1]), prs[1:], new))
        if o == "praw":
            cur = self.proj_get(v, pr)
            return raw("setraw", v.a[0] if v.op == "setraw" else v, self.proj_set(cur, prs[1:], new))
        if o in ("pp", "pc"):
            return self.proj_set(v, prs[1:], new)
        raise Unsupported("store through " + o)

    def load(self, mem, r):
        if r.op == "ite":
            return lift(lambda x: self.load(mem, x), r)
        if r.op != "ref":
            r = self.as_ref(r)
        v = mem.get(r.a[0])
        if v is None:
            v = default_of(r.a[0])
        for pr in r.a[1:]:
            v = self.proj_get(v, pr)
        return v

    def as_ref(self, t):
        return ref(cell("deref", t))

    def store(self, mem, r, v):
        if r.op == "ite":
            for lf in leaves(r):
                c = cond_of(r, lf)
                self.store(mem, lf, ite(c, v, self.load(mem, lf)))
            return
        if r.op != "ref":
            r = self.as_ref(r)
        c = r.a[0]
        if c.a[0] == "val":
            raise Unsupported("write to a shared value")
        if len(r.a) == 1:
            mem[c] = v
            return
        old = mem.get(c)
        if old is None:
            old = default_of(c)
        mem[c] = self.proj_set(old, r.a[1:], v)

    def extend(self, r, pr):
        """r with one more projection"""
        if r.op == "ite":
            return lift(lambda x: self.extend(x, pr), r)
        if r.op != "ref":
            r = self.as_ref(r)
        if pr.op == "px" and len(r.a) > 1 and r.a[-1].op == "ps":
            return ref(*r.a[:-1], px(add(r.a[-1].a[0], pr.a[0])))
        if pr.op == "ps" and len(r.a) > 1 and r.a[-1].op == "ps":
            b = r.a[-1].a[0]
            return ref(*r.a[:-1], ps(add(b, pr.a[0]), add(b, pr.a[1])))
        return ref(*r.a, pr)

    # ------------------------------------------------------------ functions
    def call(self, fid, args, mem, pc, pth):
        """evaluate a call; returns (value, mem, pc) or None if it cannot return"""
        fn = self.p.fns[fid]
        r = self.models.dispatch(self, fn, args, mem, pc, pth)
        if r is not NotImplemented:
            return r
        if fn.blocks is None or fn.id in self.opaque or fn.short() in self.opaque:
            return self.opaque_call(fn, args, mem, pc)
        if any(f is fn for f in self.stack) and sum(f is fn for f in self.stack) > 2 or len(self.stack) > MAXDEPTH:
            return self.opaque_call(fn, args, mem, pc)
        if fn.crate in CLOSED:
            return self.inline(fn, args, mem, pc, pth)
        # library code this interpreter cannot follow stays an opaque operation
        if fn.id in self.hard:
            return self.opaque_call(fn, args, mem, pc)
        keep = (len(self.base), len(self.stack), len(self.touched), self.utag)
        try:
            return self.inline(fn, args, mem, pc, pth)
        except (Unsupported, RecursionError):
            del self.base[keep[0]:]
            del self.stack[keep[1]:]
            del self.touched[keep[2]:]
            self.utag = keep[3]
            self.hard.add(fn.id)
            return self.opaque_call(fn, args, mem, pc)

    def opaque_call(self, fn, args, mem, pc, name=None):
        name = name or fn.short()
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        self.opaqued.setdefault(name, set()).add(fn.id)
        vals = [self.content(mem, a) for a in args]
        for i, a in enumerate(args):
            if fn.locals is not None and i < fn.nargs:
                t = self.p.types[fn.locals[i + 1]]
                mutable = t["k"] in ("ref", "ptr") and t["m"]
            else:
                mutable = a.op == "ref" and self.is_mut_arg(fn, i)
            if mutable:
                for lf in leaves(a):
                    self.store(mem, lf, raw("callout", name, i, *vals))
        return raw("call", name, *vals), mem, pc

    def is_mut_arg(self, fn, i):
        return False

    def content(self, mem, a, d=0):
        """argument of an opaque call: what a reference points to, rather than where"""
        if a.op == "ite":
            return lift(lambda x: self.content(mem, x, d), a)
        if a.op == "ref":
            if d > 3:
                return a
            return self.content(mem, self.load(mem, a), d + 1)
        if a.op == "agg" and d < 4:
            return raw("agg", a.a[0], a.a[1], *[self.content(mem, x, d + 1) if type(x) is T else x for x in a.a[2:]])
        return a

    def inline(self, fn, args, mem, pc, pth):
        cp = path(pth, fn.id)
        self.visited.add(fn.id)
        self.stack.append(fn)
        self.base.append(AND(self.base[-1], pc))
        frame = Frame(self, fn, cp)
        m = mem.copy()
        if fn.spread is not None and False:
            pass
        for i, a in enumerate(args):
            m[frame.cell(i + 1)] = a
        try:
            outs = frame.region(0, None, m, TRUE)
        finally:
            self.base.pop()
            self.stack.pop()
        rets = [(c, mm) for tgt, c, mm in outs if tgt == "ret"]
        if not rets:
            return None
        c, mm = self.merge(rets)
        v = mm.pop(frame.cell(0), UNIT)
        # the frame's own cells are dead
        for k in [k for k in mm if k.a[0] == "L" and k.a[1] == cp]:
            if not self.escapes(k, mm, v):
                del mm[k]
        return v, mm, AND(pc, c)

    def escapes(self, k, mm, v):
        return False

    def merge(self, items):
        """join of (condition, memory) pairs"""
        if len(items) == 1:
            return items[0]
        pc, m = items[0]
        m = m.copy()
        for c, n in items[1:]:
            tot = OR(pc, c)
            cc = restrict(c, tot)
            for k, v in n.items():
                w = m.get(k)
                if w is None:
                    if k.a[0] == "L":
                        m[k] = v
                    else:
                        m[k] = restrict(ite(cc, v, default_of(k)), tot)
                elif w is not v:
                    m[k] = restrict(ite(cc, v, w), tot)
            for k in m:
                if k not in n and k.a[0] != "L":
                    d = default_of(k)
                    if m[k] is not d:
                        m[k] = restrict(ite(cc, d, m[k]), tot)
            pc = tot
        return pc, m

    # ------------------------------------------------------------ loops
    def loop(self, mem0, body, tag, pth):
        """body(mem) -> (backs [(pc, mem)], exits [(target, pc, mem)]); returns exits after the loop"""
        keys = {}
        k = fresh("k")
        nonneg.add(k)
        rounds = 0
        self.touched.append(set())
        while True:
            rounds += 1
            if rounds > 24:
                raise Unsupported("loop does not stabilise: " + tag)
            mh = mem0.copy()
            for (c, pth2), s in keys.items():
                mh[c] = set_path(mh.get(c, default_of(c)), pth2, s)
            mark = len(recur)
            backs, exits = body(mh.copy())
            backs = [b for b in backs if b[0] is not FALSE]
            if not backs:
                # the body never repeats
                self.touched.pop()
                return exits
            bpc, mb = self.merge(backs)
            mb = Mem({c: (v if mh.get(c) is v else restrict(v, bpc)) for c, v in mb.items()})
            new = False
            for c, v in mb.items():
                if c.a[0] == "L" and c not in mh:
                    continue
                h = mh.get(c)
                if h is None:
                    h = default_of(c)
                if h is v:
                    continue
                for p in diff_paths(h, v):
                    if self.add_key(keys, c, p):
                        new = True
                        if DEBUG:
                            print("KEY", tag, rounds, c, p, "::", show(get_path(h, p), maxd=6)[:200], "=>", show(get_path(v, p), maxd=6)[:300])
            if not new:
                break
        # state at the back edge
        syms = {s: key for key, s in keys.items()}
        phis = {}
        for (c, p), s in keys.items():
            init = get_path(mem0.get(c, default_of(c)), p)
            nxt = get_path(mb.get(c, default_of(c)), p)
            phis[s] = [init, nxt]
        tot = bpc
        for _, c, _ in exits:
            tot = OR(tot, c)
        ex = [(t, restrict(c, tot), m) for t, c, m in exits]
        cont = TRUE
        for _, c, _ in ex:
            cont = AND(cont, NOT(c))
        # invariants, induction variables, congruences
        sub = {}

        def apply(m):
            nonlocal cont, ex
            for s in m:
                phis.pop(s, None)
            for s in phis:
                phis[s][1] = subst(phis[s][1], m)
            for x in sub:
                sub[x] = subst(sub[x], m)
            sub.update(m)
            cont = subst(cont, m)
            ex = [(t, subst(c, m), mm) for t, c, mm in ex]

        changed = True
        while changed:
            changed = False
            allv = frozenset(phis)
            for s, (init, nxt) in list(phis.items()):
                if nxt is s or nxt is init:
                    apply({s: init})
                    changed = True
                    break
                d = sub_safe(nxt, s)
                if d is not None and not (d.fv & allv) and k not in d.fv:
                    apply({s: add(init, mul(k, d))})
                    changed = True
                    break
            if changed:
                continue
            m = congruent(phis)
            if m:
                apply(m)
                changed = True
        # bounded loops are unrolled when that is asked for
        n = self.bound(cont, k)
        touched = self.touched.pop()
        if n is not None and n <= self.unroll:
            for key in touched:
                self.obligations.pop(key, None)
            return self.unrolled(mem0, body, n)
        for key in touched:
            ob = self.obligations.get(key)
            if ob is not None and sub:
                self.obligations[key] = (subst(ob[0], sub), tuple(subst(x, sub) if type(x) is T else x for x in ob[1]), ob[2])
        for s in list(recur)[mark:]:
            if sub:
                recur[s] = tuple(subst(x, sub) for x in recur[s])
        for s, (init, nxt) in phis.items():
            recur[s] = (init, nxt)
        # closed forms
        allv = frozenset(phis)
        contfree = not (cont.fv & allv)
        K = mk_trip(k, cont) if contfree else None
        if K is None:
            kk = fresh("kk")
            ph = [(s, i, x) for s, (i, x) in phis.items()] + [(kk, ZERO, add(kk, ONE))]
            K = mk_mu(k, subst(cont, {k: kk}), [(s, i, subst(x, {k: kk})) for s, i, x in ph], len(ph) - 1)
            K = raw("muk", K)
            nonneg.add(K)
        final = {k: K}
        todo = dict(phis)
        prog = True
        while prog and todo:
            prog = False
            for s, (init, nxt) in list(todo.items()):
                others = frozenset(todo) - {s}
                M = None
                if contfree:
                    M = self.closed(s, init, nxt, k, cont, frozenset(todo))
                if M is not None:
                    # as a function of k for the other recurrences: only valid as a final value
                    final[s] = M
                    del todo[s]
                    prog = True
                    break
        for s in todo:
            ph = [(x, i, nx) for x, (i, nx) in phis.items()]
            final[s] = mk_mu(k, cont, ph, [x[0] for x in ph].index(s))
        for s in sub:
            final[s] = subst(sub[s], {x: y for x, y in final.items() if x not in sub})
        out = []
        changed_cells = None
        for t, c, m in ex:
            nm = Mem()
            for cc, v in m.items():
                nm[cc] = subst(v, final) if v.fv else v
            out.append((t, subst(c, final), nm))
        if len(out) == 1:
            out = [(out[0][0], TRUE, out[0][2])]
        return out

    def bound(self, cont, k):
        """smallest constant N such that cont implies k < N"""
        best = None
        for x in subterms(cont):
            if x.op == "ltz":
                a = raw("ite", x, TRUE, FALSE)
                for c in (a, NOT(a)):
                    n = simple_trip(c, k)
                    if n is not None and n.op == "i" and AND(cont, NOT(c)) is FALSE:
                        if best is None or n.a[0] < best:
                            best = n.a[0]
        return best

    def unrolled(self, mem0, body, n):
        exits = []
        pc, mem = TRUE, mem0
        tag = self.utag
        for i in range(n + 2):
            self.utag = tag + (i,)
            self.base.append(AND(self.base[-1], pc))
            try:
                b, e = body(mem.copy())
            finally:
                self.utag = tag
                self.base.pop()
            exits += [(t, AND(pc, c), m) for t, c, m in e if AND(pc, c) is not FALSE]
            b = [(c, m) for c, m in b if AND(pc, c) is not FALSE]
            if not b:
                break
            c, mem = self.merge(b)
            pc = AND(pc, c)
        else:
            raise Unsupported("unrolling does not end")
        return exits

    def closed(self, s, init, nxt, k, cont, allv):
        others = allv - {s}
        ls = leaves(nxt)
        if not (nxt.fv & allv):
            # only the last round counts
            n = simple_trip(cont, k)
            if n is not None and not (n.fv & allv):
                return ite(ile(ONE, n), subst(nxt, {k: sub(n, ONE)}), init)
        if nxt.op == "store" and nxt.a[0] is s and not (nxt.a[1].fv & allv):
            d = sub_(nxt.a[1], k)
            v = subst(nxt.a[2], {raw("sel", s, nxt.a[1]): sel(init, nxt.a[1])})
            n = simple_trip(cont, k)
            if k not in d.fv and not (v.fv & allv) and n is not None:
                return mk_fill(init, d, imax(n, ZERO), k, v)
            return None
        if nxt.op == "push" and nxt.a[0] is s and not (nxt.a[1].fv & allv):
            n = simple_trip(cont, k)
            n = imax(n, ZERO) if n is not None else mk_trip(k, cont)
            return concat(init, mk_gen(n, k, nxt.a[1]))
        if nxt.op == "concat" and nxt.a[0] is s and not (nxt.a[1].fv & allv):
            # as many elements each round
            m = length(nxt.a[1])
            n = simple_trip(cont, k)
            if n is not None and k not in m.fv:
                n, j = imax(n, ZERO), fresh("e")
                nonneg.add(j)
                return concat(init, mk_gen(mul(n, m), j, subst(sel(nxt.a[1], mod(j, m)), {k: idiv(j, m)})))
        pushes = [x for x in ls if x.op == "push" and x.a[0] is s]
        if len(pushes) == 1 and len(ls) == 2 and s in ls and not (pushes[0].a[1].fv & allv):
            valid = cond_of(nxt, pushes[0])
            if not (valid.fv & allv):
                n = simple_trip(cont, k)
                n = imax(n, ZERO) if n is not None else mk_trip(k, cont)
                return concat(init, mk_fgen(n, k, valid, pushes[0].a[1]))
        for w in ("int", 32, 64):
            parts = [delta(x, s, w) for x in ls]
            if all(p is not None and not (p.fv & allv) for p in parts):
                dd = dict(zip(ls, parts))
                body = lift(lambda x: dd[x], nxt)
                if not (body.fv & allv):
                    return mk_sum(k, cont, body, init, w)
        return None

    def add_key(self, keys, c, p):
        for (c2, p2) in list(keys):
            if c2 is c:
                if p == p2[: len(p)]:
                    if len(p2) > len(p):
                        del keys[(c2, p2)]
                    else:
                        return False
                elif p2 == p[: len(p2)]:
                    return False
        keys[(c, p)] = fresh("phi")
        return True

    # ------------------------------------------------------------ notes for the rules
    def oblige(self, kind, site, pc, *data):
        key = (kind, site, self.utag)
        self.obligations[key] = (AND(self.base[-1], pc), data, tuple(f.short() for f in self.stack))
        for t in self.touched:
            t.add(key)


def sub_(a, b):
    return lincomb((1, a), (-1, b))


def sub_safe(n, s):
    """n - s when n is an integer expression linear in s with coefficient one"""
    if n.op == "lin":
        c, d = lin_parts(n)
        if d.get(s) == 1:
            return sub_(n, s)
    return None


def delta(x, s, w):
    """d with x = s + d"""
    if x is s:
        return ZERO if w == "int" else F(0.0, w)
    if w == "int":
        if x.op == "lin":
            c, d = lin_parts(x)
            if d.get(s) == 1:
                return sub_(x, s)
        return None
    if x.op == "fadd" and x.a[0] == w:
        if x.a[1] is s:
            return x.a[2]
        if x.a[2] is s:
            return x.a[1]
    return None


def diff_paths(h, v, pre=()):
    if h is v:
        return []
    if (
        h.op == "agg"
        and v.op == "agg"
        and h.a[0] == v.a[0]
        and h.a[0] != "arr"
        and h.a[1] == v.a[1]
        and len(h.a) == len(v.a)
    ):
        out = []
        for i in range(2, len(h.a)):
            out += diff_paths(h.a[i], v.a[i], pre + (i,))
        return out
    return [pre]


def get_path(v, p):
    for i in p:
        if v.op != "agg":
            raise Unsupported("loop state changes shape")
        v = v.a[i]
    return v


def set_path(v, p, s):
    if not p:
        return s
    n = list(v.a)
    n[p[0]] = set_path(n[p[0]], p[1:], s)
    return raw("agg", *n)


def congruent(phis):
    """merge loop variables that start equal and stay equal (optimistic partition)"""
    groups = {}
    for s, (i, _) in phis.items():
        groups.setdefault(i, []).append(s)
    part = [g for g in groups.values()]
    if all(len(g) == 1 for g in part):
        return None
    while True:
        rep = {}
        for g in part:
            for s in g[1:]:
                rep[s] = g[0]
        if not rep:
            return None
        new = []
        ch = False
        for g in part:
            by = {}
            for s in g:
                by.setdefault(subst(phis[s][1], rep), []).append(s)
            if len(by) > 1:
                ch = True
            new += list(by.values())
        part = new
        if not ch:
            return rep


class Frame:
    def __init__(self, it, fn, cp):
        self.it = it
        self.fn = fn
        self.cp = cp
        self.cfg = fn.cfg()
        if not self.cfg.reducible:
            raise Unsupported("irreducible control flow in " + fn.name)
        self.p = it.p

    def cell(self, l):
        return cell("L", self.cp, l)

    def ty(self, i):
        return self.p.types[i]

    # -------------------------------------------------------- control flow
    def region(self, entry, header, mem, pc):
        """evaluate from entry; returns [(target | 'ret' | 'back', pc, mem)]"""
        cfg = self.cfg
        inside = cfg.loops[header] if header is not None else None
        inc = {entry: [(pc, mem)]}
        outs = []
        skip = set()
        start = cfg.num[entry]
        for b in cfg.rpo[start:]:
            if b in skip or b not in inc:
                continue
            if inside is not None and b not in inside:
                continue
            c, m = self.it.merge(inc.pop(b))
            if c is FALSE:
                continue
            if b in cfg.loops and b != header:
                skip |= cfg.loops[b]
                for t, ec, em in self.run_loop(b, m, c):
                    self.route(t, AND(c, ec), em, header, inside, inc, outs)
                continue
            for t, ec, em in self.block(b, c, m):
                self.route(t, ec, em, header, inside, inc, outs)
        return outs

    def route(self, t, c, m, header, inside, inc, outs):
        if c is FALSE:
            return
        if t == "ret":
            outs.append((t, c, m))
        elif t == header:
            outs.append(("back", c, m))
        elif inside is not None and t not in inside:
            outs.append((t, c, m))
        else:
            inc.setdefault(t, []).append((c, m))

    def run_loop(self, b, mem, pc):
        it = self.it
        it.base.append(AND(it.base[-1], pc))
        try:

            def body(m):
                outs = self.region(b, b, m, TRUE)
                return [(c, mm) for t, c, mm in outs if t == "back"], [o for o in outs if o[0] != "back"]

            return it.loop(mem, body, f"{self.fn.short()}:bb{b}", self.cp)
        finally:
            it.base.pop()

    # -------------------------------------------------------- places
    def place(self, pl, mem):
        """reference to a place"""
        l, proj = pl
        r = ref(self.cell(l))
        variant = 0
        tyi = self.fn.locals[l]
        for e in proj:
            k = e[0]
            if k == "*":
                r = self.deref(r, mem, tyi)
                t = self.ty(tyi)
                tyi = t.get("e")
                variant = 0
            elif k == "f":
                r = self.it.extend(r, pf(variant, e[1]))
                tyi = e[2]
                variant = 0
                if tyi is not None and self.ty(tyi)["k"] == "array":
                    self.fixed(r, tyi, mem)
            elif k == "v":
                variant = e[1]
            elif k == "i":
                idx = self.get(self.cell(e[1]), mem)
                r = self.it.extend(r, px(idx))
                tyi = self.ty(tyi).get("e")
            elif k == "c":
                off = I(e[1])
                if e[3]:
                    off = sub(length(self.it.load(mem, r)), off)
                r = self.it.extend(r, px(off))
                tyi = self.ty(tyi).get("e")
            elif k == "s":
                n = length(self.it.load(mem, r))
                end = sub(n, I(e[2])) if e[3] else I(e[2])
                r = self.it.extend(r, ps(I(e[1]), end))
            elif k == "o":
                tyi = e[1]
            else:
                raise Unsupported("place " + k)
        return r

    def fixed(self, r, tyi, mem):
        n = self.ty(tyi).get("n")
        if n is None or r.op != "ref":
            return
        v = self.it.load(mem, r)
        while v.op == "store":
            v = v.a[0]
        if v.op in ("fld", "sel", "deref", "sym", "call"):
            fixed_len[v] = n

    def deref(self, r, mem, tyi):
        v = self.it.load(mem, r)
        return lift(lambda x: x if x.op == "ref" else self.it.as_ref(x), v)

    def get(self, c, mem):
        v = mem.get(c)
        return v if v is not None else default_of(c)

    def operand(self, o, mem):
        k = o[0]
        if k in ("cp", "mv"):
            l, proj = o[1]
            if not proj:
                return self.get(self.cell(l), mem)
            return self.it.load(mem, self.place(o[1], mem))
        if k == "k":
            return self.const(o[1], o[2])
        if k == "rt":
            return TRUE if o[1] != "ContractChecks" else FALSE
        raise Unsupported("operand " + k)

    def const(self, tyi, v):
        return const_term(self.p, tyi, v)

    # -------------------------------------------------------- statements
    def block(self, b, pc, mem):
        it = self.it
        it.steps += 1
        if it.steps > 3000000:
            raise Unsupported("too much work")
        st, term = self.fn.blocks[b]
        for s in st:
            if s[0] == "=":
                v = self.rvalue(s[2], mem, b, pc)
                self.assign(s[1], v, mem)
            elif s[0] == "dead":
                pass
            elif s[0] == "setd":
                raise Unsupported("set discriminant")
            elif s[0] == "copy":
                raise Unsupported("copy_nonoverlapping")
        k = term[0]
        live = self.cfg.live
        if k == "goto":
            return [(term[1], pc, mem)]
        if k == "return":
            return [("ret", pc, mem)]
        if k == "drop":
            it.models.drop(it, self, term, mem, pc)
            return [(term[2], pc, mem)]
        if k == "assert":
            c = self.operand(term[1], mem)
            if not term[2]:
                c = NOT(c)
            ops = [self.operand(o, mem) for o in term[4]]
            it.oblige("assert:" + term[3], (self.cp, b, term[7], self.fn.short()), pc, c, *ops)
            return [(term[5], pc, mem)]
        if k == "switch":
            return self.switch(term, b, pc, mem)
        if k == "call":
            return self.callterm(term, b, pc, mem)
        if k in ("unreachable", "resume", "abort"):
            return []
        raise Unsupported("terminator " + k)

    def switch(self, term, b, pc, mem):
        it = self.it
        d = self.operand(term[1], mem)
        live = self.cfg.live
        t = self.ty(term[4])
        rest = TRUE
        outs = []
        for val, tgt in term[2]:
            c = self.cmp_const(d, int(val), t)
            outs.append((tgt, AND(rest, c)))
            rest = AND(rest, NOT(c))
        outs.append((term[3], rest))
        res = {}
        dead = FALSE
        for tgt, c in outs:
            if c is FALSE:
                continue
            if tgt not in live:
                # run it for its record (panic message, obligations), then forget it
                if self.fn.blocks[tgt][1][0] != "unreachable" or self.fn.blocks[tgt][0]:
                    it.oblige("diverge", (self.cp, b, term[5], self.fn.short()), AND(pc, c), c)
                dead = OR(dead, c)
                continue
            res[tgt] = OR(res[tgt], c) if tgt in res else c
        if dead is not FALSE and dead is not TRUE:
            care = NOT(dead)
            res = {t: restrict(c, care) for t, c in res.items()}
        return [(t, AND(pc, c), mem if i == 0 else mem.copy()) for i, (t, c) in enumerate(res.items())]

    def cmp_const(self, d, val, t):
        if t["k"] == "bool":
            d = d if d.op in ("b", "ite") else atom(d)
            return d if val else NOT(d)
        w = t.get("w", 64)
        if t["k"] == "int" and t.get("s") and val >= 1 << (w - 1):
            val -= 1 << w

        def f(x):
            if x.op == "b":
                return B(x.a[0] == val)
            return eqz(sub_(x, I(val)))

        return lift(f, d)

    def assign(self, pl, v, mem):
        l, proj = pl
        t = self.ty(self.fn.locals[l])
        if not proj:
            self.note(v, t)
            mem[self.cell(l)] = v
        else:
            self.it.store(mem, self.place(pl, mem), v)

    def note(self, v, t):
        if t["k"] == "int" and not t["s"]:
            for x in leaves(v) if v.op == "ite" else (v,):
                if x.op not in ("lin", "i", "ite"):
                    nonneg.add(x)
        elif t["k"] == "ref" and v.op not in ("ref", "ite"):
            pass

    def optype(self, o):
        k = o[0]
        if k == "k":
            return self.ty(o[1])
        l, proj = o[1]
        tyi = self.fn.locals[l]
        for e in proj:
            if e[0] in ("*", "i", "c"):
                tyi = self.ty(tyi).get("e")
            elif e[0] == "f":
                tyi = e[2]
            if tyi is None:
                return None
        return self.ty(tyi)

    def rvalue(self, r, mem, b, pc):
        it = self.it
        k = r[0]
        if k == "use":
            return self.operand(r[1], mem)
        if k == "ref":
            return self.place(r[2], mem)
        if k in ("addr", "reborrow"):
            return self.place(r[1], mem)
        if k == "agg":
            ops = [self.operand(o, mem) for o in r[3]]
            if r[1] == "tuple":
                return agg("tuple", 0, *ops)
            if r[1] == "array":
                return agg("arr", 0, *ops)
            if r[1] == "closure":
                t = self.ty(r[4])
                return agg(("closure", t["fn"]), 0, *ops)
            if r[1] == "adt":
                return agg(self.ty(r[4])["def"], r[2], *ops)
            if r[1] == "rawptr":
                return ops[0]
            raise Unsupported("aggregate " + r[1])
        if k == "bin":
            return self.binop(r[1], self.operand(r[2], mem), self.operand(r[3], mem), self.ty(r[4]))
        if k == "cbin":
            x, y = self.operand(r[2], mem), self.operand(r[3], mem)
            v = self.binop(r[1], x, y, self.ty(r[4]))
            t = self.ty(r[4])
            return tup(v, atom(raw("ovf", r[1], t["w"], t["s"], x, y)))
        if k == "un":
            x = self.operand(r[2], mem)
            t = self.ty(r[3])
            if r[1] == "Not":
                if t["k"] == "bool":
                    return NOT(x if x.op in ("b", "ite") else atom(x))
                if x.op == "i":
                    return I(~x.a[0] if t["s"] else (1 << t["w"]) - 1 - x.a[0])
                return raw("bitnot", t["w"], x)
            if r[1] == "Neg":
                if t["k"] == "float":
                    return fneg(t["w"], x)
                return neg(x)
            if r[1] == "PtrMetadata":
                return length(it.load(mem, x))
            raise Unsupported("unop " + r[1])
        if k == "cast":
            return self.cast(r[1], self.operand(r[2], mem), self.ty(r[4]), self.ty(r[3]), mem)
        if k == "discr":
            v = it.load(mem, self.place(r[1], mem))
            t = self.place_type(r[1])
            return self.discr(v, t)
        if k == "len":
            return length(it.load(mem, self.place(r[1], mem)))
        if k == "repeat":
            return rep(self.operand(r[1], mem), I(r[2]))
        raise Unsupported("rvalue " + k)

    def place_type(self, pl):
        return self.optype(["cp", pl])

    def discr(self, v, t):
        return discriminant(v, t)

    def binop(self, op, x, y, t):
        return binop(op, x, y, t)

    def cast(self, kind, x, frm, to, mem):
        if kind == "PtrToPtr":
            a, b = self.p.types[frm["e"]] if frm.get("e") is not None else {}, self.p.types[to["e"]] if to.get("e") is not None else {}
            if b.get("k") == "array" and a.get("k") == "int" and a.get("size") and self.p.types[b["e"]].get("size") == a["size"] and self.p.types[b["e"]]["k"] == "int":
                return self.it.extend(x, raw("pg", b["size"] // a["size"]))
            if a.get("size") and b.get("size") and a["size"] != b["size"] and a["k"] == "int":
                return self.it.extend(x, raw("pc", a["size"], b["size"]))
            return x
        return cast(kind, x, frm, to, self.p)

    # -------------------------------------------------------- calls
    def callterm(self, term, b, pc, mem):
        it = self.it
        f, ops, dest, tgt = term[1], term[2], term[3], term[4]
        args = [self.operand(o, mem) for o in ops]
        if f[0] == "k" and "fn" in f[2]:
            fv = raw("fn", f[2]["fn"])
        else:
            fv = self.operand(f, mem)
        pth = path(self.cp, "c", b)
        if tgt is None:
            name = self.p.fns[fv.a[0]].short() if fv.op == "fn" and isinstance(fv.a[0], int) else str(fv)
            it.oblige("panic", (self.cp, b, term[6], self.fn.short()), pc, name)
            return []
        it.line = term[6]
        if fv.op == "fn" and isinstance(fv.a[0], int) and len(args) == 2:
            cf = self.p.fns[fv.a[0]]
            if cf.key[1].startswith("{closure#") and cf.kind == "item" and args[1].op == "agg" and args[1].a[0] == "tuple":
                args = [args[0]] + list(args[1].a[2:])
        r = it.apply(fv, args, mem, pc, pth)
        if r is None:
            return []
        v, m, c = r
        t = self.place_type(dest)
        if t is not None and not dest[1]:
            self.note(v, t)
        self.assign(dest, v, m)
        return [(tgt, c, m)]


def is_closure(x):
    return x.op == "agg" and type(x.a[0]) is tuple


def apply(self, fv, args, mem, pc, pth):
    """call a function value; conditional callees are evaluated under their condition"""
    if fv.op == "ite":
        outs = []
        for lf in leaves(fv):
            c = AND(pc, cond_of(fv, lf))
            if c is FALSE:
                continue
            r = self.apply(lf, args, mem.copy(), c, pth)
            if r is not None:
                v, m, c2 = r
                m = m.copy()
                m[cell("L", "ret", 0)] = v
                outs.append((c2, m))
        if not outs:
            return None
        c, m = self.merge(outs)
        m = m.copy()
        return m.pop(cell("L", "ret", 0)), m, c
    if fv.op == "fn":
        if isinstance(fv.a[0], int):
            return self.call(fv.a[0], args, mem, pc, pth)
        vals = [self.content(mem, a) for a in args]
        return raw("call", str(fv.a[0]), *vals), mem, pc
    if is_closure(fv):
        # called by value: put the environment somewhere
        fid = fv.a[0][1]
        fn = self.p.fns[fid]
        if self.p.types[fn.locals[1]]["k"] == "ref":
            c = cell("H", pth, "env")
            mem = mem.copy()
            mem[c] = fv
            r = self.call(fid, [ref(c)] + args, mem, pc, pth)
            if r is not None:
                m = r[1].copy()
                if m.pop(c, fv) is not fv:
                    raise Unsupported("closure with state of its own")
                r = (r[0], m, r[2])
            return r
        return self.call(fid, [fv] + args, mem, pc, pth)
    if fv.op == "ref":
        g = self.load(mem, fv)
        if is_closure(g):
            fid = g.a[0][1]
            fn = self.p.fns[fid]
            if self.p.types[fn.locals[1]]["k"] == "ref":
                return self.call(fid, [fv] + args, mem, pc, pth)
        return self.apply(g, args, mem, pc, pth)
    vals = [self.content(mem, a) for a in args]
    if DEBUG:
        print("INDIRECT", show(fv)[:300])
    self.unmodelled["indirect call"] = self.unmodelled.get("indirect call", 0) + 1
    return raw("call", "indirect", fv, *vals), mem, pc


Interp.apply = apply


# ---------------------------------------------------------------- shared semantics
def const_term(p, tyi, v):
    if "i" in v:
        return I(int(v["i"]))
    if "f" in v:
        return raw("f", int(v["f"]), v["w"])
    if "b" in v:
        return B(v["b"])
    if "s" in v:
        return ref(cell("val", raw("str", v["s"])))
    if "fn" in v:
        return raw("fn", v["fn"])
    t = p.types[tyi] if tyi is not None else {}
    if "zst" in v:
        if t.get("k") == "fndef":
            return raw("fn", t["fn"])
        if t.get("k") == "closure":
            return agg(("closure", t["fn"]), 0)
        if t.get("k") == "adt":
            return agg(t["def"], 0, *[const_term(p, f[1], {"zst": 1}) for f in (t["v"][0]["f"] if t["v"] else [])])
        if t.get("k") == "tuple":
            return agg("tuple", 0, *[const_term(p, f, {"zst": 1}) for f in t.get("f", [])])
        if t.get("k") == "array":
            return EMPTY
        return agg("tuple", 0)
    if "agg" in v:
        vi = v.get("v", 0)
        if t.get("k") == "adt":
            fs = t["v"][vi]["f"] if vi < len(t["v"]) else []
            return agg(t["def"], vi, *[const_term(p, f[1] if i < len(fs) else None, x)
                                       for i, (f, x) in enumerate(zip(fs, v["agg"]))])
        return agg("tuple", 0, *[const_term(p, f, x) for f, x in zip(t.get("f", []), v["agg"])])
    if "arr" in v:
        e = t.get("e")
        return agg("arr", 0, *[const_term(p, e, x) for x in v["arr"]])
    if "ref" in v:
        return ref(cell("val", const_term(p, t.get("e"), v["ref"])))
    if "static" in v:
        return ref(cell("val", raw("static", v["static"])))
    return raw("const", str(v))


def discriminant(v, t):
    vs = t.get("v") if t else None

    def f(x):
        if x.op == "agg":
            vi = x.a[1]
            return I(int(vs[vi]["d"])) if vs and vi < len(vs) else I(vi)
        if not vs:
            return raw("disc", x)
        r = I(int(vs[0]["d"]))
        for i in range(len(vs) - 1, 0, -1):
            r = ite(atom(raw("is", x, i)), I(int(vs[i]["d"])), r)
        return r

    return lift(f, v)


def is_variant(v, i):
    """condition that enum value v is variant i (two-variant enums)"""
    def f(x):
        if x.op == "agg":
            return B(x.a[1] == i)
        a = atom(raw("is", x, 1))
        return a if i == 1 else NOT(a)

    return lift(f, v)


def boolify(x):
    return x if x.op in ("b", "ite") else atom(x)


def binop(op, x, y, t):
    k = t["k"]
    if op.endswith("Unchecked"):
        op = op[:-9]
    if k == "float":
        w = t["w"]
        if op == "Add":
            return fadd(w, x, y)
        if op == "Sub":
            return fsub(w, x, y)
        if op == "Mul":
            return fmul(w, x, y)
        if op == "Div":
            return fdiv(w, x, y)
        if op == "Lt":
            return flt(x, y)
        if op == "Le":
            return fle(x, y)
        if op == "Gt":
            return flt(y, x)
        if op == "Ge":
            return fle(y, x)
        if op == "Eq":
            return feq(x, y)
        if op == "Ne":
            return NOT(feq(x, y))
        if op == "Rem":
            return raw("frem", w, x, y)
        raise Unsupported("float " + op)
    if k == "bool":
        x, y = boolify(x), boolify(y)
        if op == "BitAnd":
            return AND(x, y)
        if op == "BitOr":
            return OR(x, y)
        if op in ("BitXor", "Ne"):
            return ite(x, NOT(y), y)
        if op == "Eq":
            return ite(x, y, NOT(y))
        if op == "Lt":
            return AND(NOT(x), y)
        if op == "Gt":
            return AND(x, NOT(y))
        if op == "Le":
            return OR(NOT(x), y)
        if op == "Ge":
            return OR(x, NOT(y))
        raise Unsupported("bool " + op)
    if k in ("int", "char"):
        if op == "Add":
            return add(x, y)
        if op == "Sub":
            return sub(x, y)
        if op == "Mul":
            return mul(x, y)
        if op in ("Div", "Rem"):
            if t.get("s") and not (is_nonneg(x) and is_nonneg(y)):
                if x.op == "i" and y.op == "i" and y.a[0]:
                    q = abs(x.a[0]) // abs(y.a[0]) * (1 if (x.a[0] < 0) == (y.a[0] < 0) else -1)
                    return I(q) if op == "Div" else I(x.a[0] - q * y.a[0])
                return raw("sdiv" if op == "Div" else "srem", x, y)
            return idiv(x, y) if op == "Div" else mod(x, y)
        if op == "Shl":
            if y.op == "i":
                return mul(x, I(1 << y.a[0])) if x.op != "i" else I(wrap(x.a[0] << y.a[0], t))
            if y.op == "ite" and small(y):
                return lift(lambda z: binop("Shl", x, z, t), y)
            return raw("shl", x, y)
        if op == "Shr":
            if y.op == "i":
                return idiv(x, I(1 << y.a[0]))
            if y.op == "ite" and small(y):
                return lift(lambda z: binop("Shr", x, z, t), y)
            r = raw("shr", x, y)
            return r
        if op == "BitAnd":
            return bitand(x, y)
        if op in ("BitOr", "BitXor"):
            if x.op == "i" and y.op == "i":
                return I(x.a[0] | y.a[0] if op == "BitOr" else x.a[0] ^ y.a[0])
            if x is ZERO:
                return y
            if y is ZERO:
                return x
            if op == "BitOr":
                return bitor(x, y)
            return raw("bitxor", *sorted((x, y), key=lambda z: z.id))
        if op == "Lt":
            return ilt(x, y)
        if op == "Le":
            return ile(x, y)
        if op == "Gt":
            return ilt(y, x)
        if op == "Ge":
            return ile(y, x)
        if op == "Eq":
            return eqz(sub(x, y))
        if op == "Ne":
            return NOT(eqz(sub(x, y)))
        if op == "Cmp":
            return ite(ilt(x, y), agg("std::cmp::Ordering", 0), ite(eqz(sub(x, y)), agg("std::cmp::Ordering", 1), agg("std::cmp::Ordering", 2)))
        raise Unsupported("int " + op)
    if op in ("Eq", "Ne"):
        r = TRUE if x is y else atom(raw("same", *sorted((x, y), key=lambda z: z.id)))
        return r if op == "Eq" else NOT(r)
    if op == "Offset":
        return raw("ptroff", x, y)
    return raw("ptrop", op, x, y)


def wrap(n, t):
    w = t["w"]
    n &= (1 << w) - 1
    if t.get("s") and n >= 1 << (w - 1):
        n -= 1 << w
    return n


def bitand(x, y):
    if (x.op == "ite" or y.op == "ite") and small(x) and small(y):
        return lift2(bitand, x, y)
    if x.op == "i" and y.op == "i":
        return I(x.a[0] & y.a[0])
    if x.op == "i":
        x, y = y, x
    if y.op == "i":
        m = y.a[0]
        if m == 0:
            return ZERO
        if m > 0 and m & (m + 1) == 0:
            return mod(x, I(m + 1))
        # a contiguous run of ones: mod and divide
        if m > 0:
            lo = (m & -m).bit_length() - 1
            if ((m >> lo) & ((m >> lo) + 1)) == 0:
                return mul(mod(idiv(x, I(1 << lo)), I((m >> lo) + 1)), I(1 << lo))
        return raw("bitand", x, y)
    return raw("bitand", *sorted((x, y), key=lambda z: z.id))


def lowzeros(t):
    """number of low bits known to be zero"""
    if t.op == "i":
        return (t.a[0] & -t.a[0]).bit_length() - 1 if t.a[0] else 64
    if t.op == "lin":
        return min([lowzeros(I(t.a[0]))] + [lowzeros(I(c)) + lowzeros(x) for c, x in zip(t.a[1::2], t.a[2::2])])
    if t.op == "mul":
        return sum(lowzeros(x) for x in t.a)
    if t.op == "ite":
        return min(lowzeros(x) for x in leaves(t))
    return 0


def bitor(x, y):
    for a, b in ((x, y), (y, x)):
        u = ub(b)
        if u is not None and u < (1 << min(lowzeros(a), 64)) and is_nonneg(b):
            return add(a, b)  # disjoint bits
    return raw("bitor", *sorted((x, y), key=lambda z: z.id))


_ubm = {}


def ub(t):
    """an upper bound of a non-negative integer term, or None"""
    if t.op == "i":
        return t.a[0]
    if t.op == "mod" and t.a[1].op == "i":
        return t.a[1].a[0] - 1
    if t.op == "idiv" and t.a[1].op == "i":
        u = ub(t.a[0])
        return None if u is None else u // t.a[1].a[0]
    if t.op == "tobits":
        return (1 << t.a[0]) - 1
    if t.op == "lin":
        s = t.a[0]
        for c, x in zip(t.a[1::2], t.a[2::2]):
            if c < 0:
                if is_nonneg(x):
                    continue
                return None
            u = ub(x)
            if u is None:
                return None
            s += c * u
        return s
    if t.op == "ite":
        us = [ub(x) for x in leaves(t)]
        return None if any(u is None for u in us) else max(us)
    if t.op == "imin":
        us = [u for u in map(ub, t.a) if u is not None]
        return min(us) if us else None
    if t.op == "icast" and not t.a[1]:
        return (1 << t.a[0]) - 1
    return _ubm.get(t)


def set_ub(t, n):
    _ubm[t] = n


def icast(x, frm, to):
    """integer to integer"""
    if x.op == "ite" and small(x):
        return lift(lambda z: icast(z, frm, to), x)
    if x.op == "i":
        return I(wrap(x.a[0], to))
    w1, s1, w2, s2 = frm.get("w", 8), frm.get("s", 0), to["w"], to["s"]
    if frm["k"] == "char":
        w1, s1 = 32, 0
    # value preserving conversions are the identity
    if (not s1 and (w2 > w1 or (w2 == w1 and not s2))) or (s1 and s2 and w2 >= w1):
        if not s1:
            if x.op not in ("lin",):
                nonneg.add(x)
                if x not in _ubm and w1 <= 32:
                    _ubm[x] = (1 << w1) - 1
        return x
    u = ub(x)
    if u is not None and is_nonneg(x) and u < 1 << (w2 - (1 if s2 else 0)):
        return x
    if s1 and not s2 and w2 >= w1 and is_nonneg(x):
        return x
    if not s1 and s2 and w2 == w1 == 64:
        return x  # lengths and sizes stay below 2^63
    r = raw("icast", w2, s2, x)
    if not s2:
        nonneg.add(r)
    return r


def i2f(w, x):
    if x.op == "ite" and small(x):
        return lift(lambda z: i2f(w, z), x)
    if x.op == "i":
        return F(float(x.a[0]), w)
    return raw("i2f", w, x)


def f2i(to, x):
    if x.op == "ite" and small(x):
        return lift(lambda z: f2i(to, z), x)
    if x.op == "f":
        v = f_of(x)
        if v != v:
            return ZERO
        lo, hi = (-(1 << (to["w"] - 1)), (1 << (to["w"] - 1)) - 1) if to["s"] else (0, (1 << to["w"]) - 1)
        if v in (math.inf, -math.inf):
            return I(hi if v > 0 else lo)
        return I(max(lo, min(hi, int(v))))
    r = raw("f2i", to["w"], to["s"], x)
    if not to["s"]:
        nonneg.add(r)
    return r


def f2f(w, x):
    if x.op == "ite" and small(x):
        return lift(lambda z: f2f(w, z), x)
    if x.op == "f":
        return F(f_of(x), w)
    return raw("f2f", w, x)


def tobits(w, x):
    if x.op == "f":
        return I(x.a[0])
    if x.op == "frombits":
        return x.a[1]
    if x.op == "ite" and small(x):
        return lift(lambda z: tobits(w, z), x)
    r = raw("tobits", w, x)
    nonneg.add(r)
    return r


def frombits(w, x):
    if x.op == "i":
        return raw("f", x.a[0] & ((1 << w) - 1), w)
    if x.op == "tobits":
        return x.a[1]
    if x.op == "ite" and small(x):
        return lift(lambda z: frombits(w, z), x)
    return raw("frombits", w, x)


def transmute(p, frm, to, x):
    """the bytes of x as another type: vectors hold the bits of their lanes"""

    def inner(t):
        # lane type, if this is a float or a vector or array of numbers
        if t["k"] in ("float", "int"):
            return t
        if t["k"] == "adt" and t.get("simd"):
            return {"k": "bits", "w": 32}
        if t["k"] == "array":
            return inner(p.types[t["e"]])
        return None

    a, b = inner(frm), inner(to)
    if a is None or b is None or (frm["k"] in ("float", "int")) != (to["k"] in ("float", "int")):
        return x
    if a["k"] == "float" and b["k"] != "float":
        f = lambda z: tobits(a["w"], z)
    elif b["k"] == "float" and a["k"] != "float":
        f = lambda z: frombits(b["w"], z)
    else:
        return x
    if frm["k"] in ("float", "int"):
        return f(x)
    n = {"float": 32}.get(a["k"], a["w"])
    count = (frm.get("size") or 32) // (n // 8)
    return lift(lambda v: agg("arr", 0, *[f(sel(v, I(i))) for i in range(count)]), x) if count <= 64 else raw("transmute", x)


def cast(kind, x, frm, to, p):
    if kind == "IntToInt":
        if frm["k"] == "bool":
            return lift(lambda z: I(z.a[0]), boolify(x))
        if to["k"] == "char":
            return x
        if frm["k"] == "adt":
            return raw("adt2int", x)
        return icast(x, frm, to)
    if kind == "IntToFloat":
        return i2f(to["w"], x)
    if kind == "FloatToInt":
        return f2i(to, x)
    if kind == "FloatToFloat":
        return f2f(to["w"], x)
    if kind.startswith("ReifyFnPointer") or kind.startswith("UnsafeFnPointer"):
        return x
    if kind.startswith("ClosureFnPointer"):
        return x
    if kind in ("Unsize", "MutToConstPointer", "ArrayToPointer"):
        return x
    if kind in ("PtrToPtr",):
        return x
    if kind == "FnPtrToPtr":
        return x
    if kind in ("Transmute", "Subtype", "BoxDerefTransmute"):
        return transmute(p, frm, to, x)
    if "ExposeAddress" in kind or "ExposedProvenance" in kind or "Provenance" in kind:
        return raw("addr", x)
    raise Unsupported("cast " + kind)


for _n, _f in (
    ("icast", lambda w, s, x: icast(x, {"k": "int", "w": 128, "s": 1}, {"w": w, "s": s})),
    ("i2f", i2f),
    ("f2i", lambda w, s, x: f2i({"w": w, "s": s}, x)),
    ("f2f", f2f),
    ("tobits", tobits),
    ("frombits", frombits),
    ("bitand", bitand),
    ("bitor", bitor),
    ("shl", lambda x, y: binop("Shl", x, y, {"k": "int", "w": 64, "s": 0})),
    ("shr", lambda x, y: binop("Shr", x, y, {"k": "int", "w": 64, "s": 0})),
    ("sdiv", lambda x, y: binop("Div", x, y, {"k": "int", "w": 64, "s": 1})),
    ("srem", lambda x, y: binop("Rem", x, y, {"k": "int", "w": 64, "s": 1})),
    ("is", lambda x, i: lift(lambda z: (B(z.a[1] == i) if z.op == "agg" else raw("is", z, i)), x)),
):
    CONS[_n] = _f
