"""Readable rendering of a value graph with its shared parts named."""
from terms import *
import terms


def pretty(t, minsize=40, out=None):
    cnt = {}
    size = {}
    order = []

    def walk(x):
        st = [(x, 0)]
        while st:
            y, ph = st.pop()
            if ph == 0:
                if y in cnt:
                    cnt[y] += 1
                    continue
                cnt[y] = 1
                st.append((y, 1))
                for z in y.a:
                    if type(z) is T:
                        st.append((z, 0))
            else:
                order.append(y)
                size[y] = 1 + sum(min(size.get(z, 1), 10**6) for z in y.a if type(z) is T)

    walk(t)
    names = {}
    lines = []
    for y in order:
        if y is not t and cnt[y] > 1 and size[y] >= minsize:
            s = _show(y, names)
            names[y] = sym(f"#{len(names)}")
            lines.append(f"#{len(names)-1} = {s}")
    lines.append(_show(t, names))
    return "\n".join(lines)


def _show(y, names):
    def go(x, d):
        if x in names and x is not y:
            return names[x]
        return x

    memo = {}

    def rep(x):
        if x in names and x is not y:
            return names[x]
        r = memo.get(x)
        if r is None:
            r = terms.raw(x.op, *[rep(z) if type(z) is T else z for z in x.a]) if any(type(z) is T for z in x.a) else x
            memo[x] = r
        return r

    return show(rep(y), maxd=60)
