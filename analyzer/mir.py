"""Loads the JSON written by the driver and answers structural questions about it."""
import json
import re


def strip_generics(p):
    out = []
    d = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">" and p[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return re.sub(r"(::)+", "::", "".join(out)).strip(":")


def simple(ty):
    ty = ty.strip()
    ty = re.sub(r"^&('\w+ )?(mut )?", "", ty)
    if ty.startswith("["):
        return "array" if ";" in ty else "slice"
    if ty.startswith("*"):
        return "ptr"
    ty = strip_generics(ty)
    t = ty.split("::")[-1]
    if re.fullmatch(r"[iu](8|16|32|64|128|size)", t):
        return "int"
    if t in ("f32", "f64"):
        return "float"
    return t


def match_close(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == "<":
            d += 1
        elif s[j] == ">" and s[j - 1] != "-":
            d -= 1
            if d == 0:
                return j
    return -1


def split_top(s, sep):
    d = 0
    for i in range(len(s)):
        c = s[i]
        if c in "<([":
            d += 1
        elif c in ")]" or (c == ">" and s[i - 1] != "-"):
            d -= 1
        elif d == 0 and s.startswith(sep, i):
            return s[:i], s[i + len(sep):]
    return None


def keyof(d):
    """(owner, method) for a definition path; owner is the trait for trait methods"""
    if d.startswith("<"):
        j = match_close(d, 0)
        inner, rest = d[1:j], d[j + 1:].lstrip(":")
        sp = split_top(inner, " as ")
        m = strip_generics(rest).split("::")[-1]
        if sp:
            return strip_generics(sp[1]).split("::")[-1], m
        return simple(inner), m
    i = d.find("<impl ")
    if i >= 0:
        j = match_close(d, i)
        inner, rest = d[i + 6:j], d[j + 1:].lstrip(":")
        m = strip_generics(rest).split("::")[-1]
        if rest == "" or not m:
            return "", strip_generics(d).split("::")[-1]
        sp = split_top(inner, " for ")
        if sp:
            return strip_generics(sp[0]).split("::")[-1], m
        return simple(inner), m
    p = strip_generics(d).split("::")
    return (p[-2] if len(p) > 1 else ""), p[-1]


class Fn:
    __slots__ = ("id", "j", "name", "defn", "crate", "kind", "key", "args", "file", "line", "blocks", "locals",
                 "nargs", "_cfg", "intr", "spread", "vars")

    def __init__(self, i, j):
        self.id = i
        self.j = j
        self.name = j["name"]
        self.defn = j["def"]
        self.crate = j["crate"]
        self.kind = j["kind"]
        self.args = j["args"]
        self.file = j["file"]
        self.line = j["line"]
        self.intr = j["intr"]
        self.blocks = j.get("blocks")
        self.locals = j.get("locals")
        self.nargs = j.get("nargs")
        self.spread = j.get("spread")
        self.vars = dict(j.get("vars", []))
        self.key = keyof(self.defn)
        self._cfg = None

    def __repr__(self):
        return f"<fn {self.id} {self.name}>"

    def short(self):
        return strip_generics(self.defn)

    def cfg(self):
        if self._cfg is None:
            self._cfg = CFG(self)
        return self._cfg


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[5]]
    if k == "drop":
        return [t[2]]
    return []


class CFG:
    def __init__(self, fn):
        bl = fn.blocks
        n = len(bl)
        self.succ = [succs(b[1]) for b in bl]
        seen = set()
        post = []

        # iterative DFS
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        self.rpo = post[::-1]
        self.num = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # which blocks can reach a return
        live = {b for b in self.rpo if bl[b][1][0] == "return"}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                if b not in live and any(s in live for s in self.succ[b]):
                    live.add(b)
                    ch = True
        self.live = live
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x != y:
                        while self.num[x] > self.num[y]:
                            x = idom[x]
                        while self.num[y] > self.num[x]:
                            y = idom[y]
                    d = x
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True
        self.idom = idom
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.pred[x])
        # retreating edges that are not back edges would make the graph irreducible
        self.reducible = all(
            self.num[s] > self.num[b] or self.dom(s, b) for b in self.rpo for s in self.succ[b]
        )

    def dom(self, a, b):
        while b != a and b != 0:
            b = self.idom[b]
        return a == b


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d["crate"]
        self.roots = dict(d["roots"])
        self.types = d["types"]
        self.fns = [Fn(i, j) for i, j in enumerate(d["fns"])]

    def root(self, name):
        return self.fns[self.roots[name]]

    def ty(self, i):
        return self.types[i]
