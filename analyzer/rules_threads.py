"""Ownership of channel ends across threads: who can still keep the other side waiting.

A forward may-be-initialised analysis over MIR move paths finds, at every call, which
channel ends the calling frame still owns by value.  A frame that waits for the sending
thread must not own the receiving end, and one that receives until the channel closes must
not own the sending end.  Unwinding needs no case of its own: what a frame owns is dropped
when it unwinds, and what it does not own is covered in the frame that does.
"""
from ctx import *
import rules_pipe as rp

OWN = {"av_metrics"}


def ends(p, name):
    """holds(ty): does a value of the type own such a channel end"""
    memo = {}

    def holds(i, d=0):
        if i is None:
            return False
        if i in memo:
            return memo[i]
        memo[i] = False
        t = p.types[i]
        k = t["k"]
        r = False
        if k == "adt":
            if t["def"].split("::")[-1] == name and ("channel" in t["def"] or "mpsc" in t["def"]):
                r = True
            elif t["def"].split("::")[-1] in ("PhantomData",):
                r = False
            elif t["def"].split("::")[-1] in ("Vec", "Box", "Rc", "Arc", "VecDeque"):
                r = any(holds(a, d + 1) for a in t["a"])
            else:
                r = any(holds(f[1], d + 1) for v in t["v"] for f in v["f"])
        elif k in ("tuple", "closure"):
            r = any(holds(f, d + 1) for f in t.get("f", []))
        elif k == "array":
            r = holds(t["e"], d + 1)
        memo[i] = r
        return r

    return holds


def paths_of(p, holds, tyi, pre=(), d=0):
    """move paths inside a value of the type that own a channel end"""
    if not holds(tyi):
        return []
    t = p.types[tyi]
    fs = None
    if t["k"] in ("tuple", "closure"):
        fs = t.get("f", [])
    elif t["k"] == "adt" and len(t["v"]) == 1 and t["def"].split("::")[-1] not in ("Receiver", "Sender", "Vec", "Box", "Rc", "Arc", "IntoIter"):
        fs = [f[1] for f in t["v"][0]["f"]]
    if fs is None or d > 6:
        return [pre]
    out = []
    for i, f in enumerate(fs):
        out += paths_of(p, holds, f, pre + (i,), d + 1)
    return out


def place_path(pl):
    """(local, fields) of a place, or None when it goes through a pointer"""
    l, proj = pl
    fs = []
    for e in proj:
        if e[0] == "f":
            fs.append(e[1])
        elif e[0] == "*":
            return None
        else:
            break
    return l, tuple(fs)


class Owned:
    """channel ends of one kind a frame may own, before every terminator"""

    def __init__(self, p, fn, holds):
        self.p, self.fn, self.holds = p, fn, holds
        self.all = {}
        for l, t in enumerate(fn.locals):
            self.all[l] = [(l,) + x for x in paths_of(p, holds, t)]
        self.any = any(self.all.values())
        self.before = {}
        if self.any:
            self.solve()

    def under(self, l, fs):
        n = (l,) + tuple(fs)
        return [x for x in self.all[l] if x[: len(n)] == n or n[: len(x)] == x]

    def kill(self, st, pl):
        q = place_path(pl)
        if q is None:
            return st
        return st - set(self.under(*q))

    def gen(self, st, pl):
        q = place_path(pl)
        if q is None:
            return st
        n = (q[0],) + q[1]
        return st | {x for x in self.all[q[0]] if x[: len(n)] == n or n[: len(x)] == x}

    def operand(self, st, o):
        if o[0] == "mv":
            return self.kill(st, o[1])
        return st

    def operands(self, r):
        if type(r) is list:
            if len(r) == 2 and r[0] in ("mv", "cp") and type(r[1]) is list:
                yield r
                return
            for x in r:
                yield from self.operands(x)

    def stmt(self, st, s):
        if s[0] == "=":
            for o in self.operands(s[2]):
                st = self.operand(st, o)
            st = self.gen(st, s[1])
        elif s[0] == "dead":
            st = self.kill(st, [s[1], []])
        return st

    def solve(self):
        cfg = self.fn.cfg()
        init = frozenset(x for l in range(1, self.fn.nargs + 1) for x in self.all[l])
        inn = {0: init}
        work = [0]
        while work:
            b = work.pop()
            st = inn[b]
            stmts, term = self.fn.blocks[b]
            for s in stmts:
                st = frozenset(self.stmt(st, s))
            k = term[0]
            pre = st
            if k == "call":
                for o in term[2]:
                    st = self.operand(st, o)
                pre = st
                st = self.gen(st, term[3])
            elif k == "drop":
                st = self.kill(st, term[1])
            self.before[b] = pre
            for s in cfg.succ[b]:
                n = inn.get(s, frozenset()) | frozenset(st)
                if s not in inn or n != inn[s]:
                    inn[s] = n
                    work.append(s)


class Graph:
    """call graph with the closures a call is given"""

    def __init__(self, p):
        self.p = p
        self.out = {}
        self.tyclos = {}
        self.reachmemo = {}

    def closures(self, tyi, d=0):
        """closures and function items mentioned anywhere in a type"""
        r = self.tyclos.get(tyi)
        if r is not None:
            return r
        self.tyclos[tyi] = frozenset()
        t = self.p.types[tyi]
        out = set()
        if t["k"] in ("closure", "fndef") and t.get("fn") is not None:
            out.add(t["fn"])
        for x in t.get("a", []) or []:
            if x is not None:
                out |= self.closures(x, d + 1)
        for x in t.get("f", []) or []:
            out |= self.closures(x, d + 1)
        if t.get("e") is not None:
            out |= self.closures(t["e"], d + 1)
        if t["k"] == "adt" and d < 4:
            for v in t["v"]:
                for f in v["f"]:
                    if f[1] is not None:
                        out |= self.closures(f[1], d + 1)
        r = frozenset(out)
        self.tyclos[tyi] = r
        return r

    def optype(self, fn, o):
        if o[0] == "k":
            return o[1]
        l, proj = o[1]
        t = fn.locals[l]
        for e in proj:
            if e[0] == "f":
                t = e[2]
            elif e[0] in ("*", "i", "c"):
                t = self.p.types[t].get("e")
            if t is None:
                return None
        return t

    def callee(self, fn, term):
        f = term[1]
        if f[0] == "k" and "fn" in f[2]:
            return f[2]["fn"]
        t = self.optype(fn, f)
        if t is not None and self.p.types[t]["k"] == "fndef":
            return self.p.types[t]["fn"]
        return None

    def given(self, fn, term):
        """closures handed to this call"""
        out = set()
        for o in term[2]:
            t = self.optype(fn, o)
            if t is not None:
                out |= self.closures(t)
        return out

    def calls(self, fn):
        if fn.blocks is None:
            return
        for b, (st, term) in enumerate(fn.blocks):
            if term[0] == "call":
                yield b, term

    def is_spawn(self, fid):
        f = self.p.fns[fid]
        return f.key[1] in ("spawn", "spawn_unchecked") and f.crate in ("crossbeam_utils", "std")

    def reaches(self, fid, pred, tag, through_spawn=True):
        """can executing fid execute a function satisfying pred (tag names pred)"""
        key = (fid, tag, through_spawn)
        if key in self.reachmemo:
            return self.reachmemo[key]
        seen = {fid}
        st = [fid]
        res = False
        while st:
            x = st.pop()
            f = self.p.fns[x]
            if pred(f):
                res = True
                break
            for b, term in self.calls(f):
                c = self.callee(f, term)
                if c is not None and not through_spawn and self.is_spawn(c):
                    continue
                n = set(self.given(f, term)) if f.crate in OWN else set()
                if c is not None:
                    n.add(c)
                for y in n:
                    if y is not None and y not in seen:
                        seen.add(y)
                        st.append(y)
        self.reachmemo[key] = res
        return res


def is_join(f):
    return f.crate in ("crossbeam_utils", "std") and f.key in (("ScopedJoinHandle", "join"), ("JoinHandle", "join"))


def is_scope(f):
    return f.crate in ("crossbeam_utils", "std") and f.key[1] == "scope" and f.key[0] in ("thread", "scoped", "scope")


def is_recv(f):
    return f.key[0] in ("Receiver", "Iter", "IntoIter") and f.key[1] in ("recv", "next") and ("channel" in f.defn or "mpsc" in f.defn)


def is_send(f):
    return f.key[0] in ("Sender", "SyncSender") and f.key[1] == "send"


def ownership(rep):
    p = prog()
    g = Graph(p)
    rx, tx = ends(p, "Receiver"), ends(p, "Sender")
    waits = joins = recvs = 0
    for fn in p.fns:
        if fn.crate not in OWN or fn.blocks is None:
            continue
        orx = otx = None
        for b, term in g.calls(fn):
            c = g.callee(fn, term)
            tgt = set(g.given(fn, term))
            if c is not None:
                tgt.add(c)
            # waits for another thread: joining it, or a scope that does so on its way out
            if c is not None and (is_join(p.fns[c]) or is_scope(p.fns[c])) or any(g.reaches(x, lambda f: is_join(f) or is_scope(f), "wait") for x in tgt if p.fns[x].crate in OWN):
                orx = orx or Owned(p, fn, rx)
                live = orx.before.get(b, ()) if orx.any else ()
                waits += 1
                rep.check(not live, "receiver-kept", fn.short(),
                          f"the receiving end of the channel can still be held here while {p.fns[c].short() if c is not None else 'a closure'} waits for the sending thread, which then never gets unblocked")
            if any(g.reaches(x, is_recv, "recv") for x in tgt) and not (c is not None and g.is_spawn(c)):
                otx = otx or Owned(p, fn, tx)
                live = otx.before.get(b, ()) if otx.any else ()
                recvs += 1
                rep.check(not live, "sender-kept", fn.short(),
                          f"a sending end of the channel can still be held here while {p.fns[c].short() if c is not None else 'a closure'} receives until the channel closes, which then never happens")
            if c is not None:
                f = p.fns[c]
                if f.crate.startswith("rayon") and any(g.reaches(x, is_send, "send", False) for x in g.given(fn, term)):
                    rep.fail("sender-thread", fn.short(), "frames are sent from the thread pool the comparisons run in; a full channel then blocks the threads meant to empty it")
                if f.key[1] in ("forget", "leak", "into_raw") or f.key == ("ManuallyDrop", "new"):
                    for o in term[2]:
                        t = g.optype(fn, o)
                        rep.check(t is None or not (rx(t) or tx(t)), "end-leaked", fn.short(), "a channel end is leaked, so the other side never learns that it is gone")
                if g.is_spawn(c) and any(g.reaches(x, is_send, "send") for x in g.given(fn, term)):
                    joins += 1
    rep.check(joins >= 1, "anchor", "process_video", "no thread that decodes and sends frames was found")
    rep.check(waits >= 1, "anchor", "process_video", "no place that waits for the sending thread was found")
    rep.check(recvs >= 1, "anchor", "process_video", "no place that receives frames was found")
    rep.count("waits", waits)
    rep.count("receives", recvs)
    rep.sample({"waiting calls": waits, "receiving calls": recvs, "sending threads": joins})


def loops_end(rep, m):
    """the decoding loop ends when the receiver is gone, however long the videos are"""
    p = prog()
    r = rp.video(m)
    w = r.fn.short()
    for s in r.events("send"):
        n = s.data[1]
        loops = [x for x in subterms(r.v) if x.op in ("trip", "mu") and contains(x.a[1], lambda y: y.op == "disconnected" and y.a[0] is s.data[0])]
        rep.check(bool(loops), "send-failure", s.where(), "decoding does not stop when the receiver is gone")
        for t in loops:
            vs, args = open_binder(t)
            for d in [x for x in subterms(args[0]) if x.op == "disconnected"]:
                rep.check(never(args[0], d), "send-failure", s.where(), "decoding goes on after the receiver is gone")
    rep.sample({"entry": w})


def never(cond, d):
    return AND(cond, atom(d)) is FALSE
