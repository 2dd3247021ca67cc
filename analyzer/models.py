"""Meaning of the library operations the analysed code is built from.

Everything not listed here is evaluated from its own MIR, or kept opaque when it has none.
Iterators are positional whenever they can be (element as a function of its index), so that
adaptor chains and hand-written index loops over the same data give the same terms.
"""
from terms import *
from interp import *
import interp as _i
import mir

SOME = lambda x: agg("std::option::Option", 1, x)
NONE = agg("std::option::Option", 0)
OK = lambda x: agg("std::result::Result", 0, x)
ERR = lambda x: agg("std::result::Result", 1, x)

STRIDE, ALLOCH, WIDTH, HEIGHT, XDEC, YDEC, XPAD, YPAD, XORIGIN, YORIGIN = range(10)


def cfgof(p):
    return fld(p, 0, 1)


def pcfg(p, i):
    t = fld(cfgof(p), 0, i)
    if t.op not in ("lin", "i", "ite"):
        nonneg.add(t)
    return t


def has_factor(m, s):
    return m is s or (m.op == "mul" and s in m.a)


def without(m, s):
    if m is s:
        return ONE
    f = list(m.a)
    f.remove(s)
    r = ONE
    for x in f:
        r = mul(r, x)
    return r


def split_index(idx, stride):
    """idx = y * stride + x"""
    c, d = lin_parts(idx)
    ys, xs = [], [(c, ONE)]
    for m, v in d.items():
        if has_factor(m, stride):
            ys.append((v, without(m, stride)))
        else:
            xs.append((v, m))
    return lincomb(*ys), lincomb(*xs)


def pixel_read(data, idx):
    """data[idx] of an unmodified plane as pixel (x, y) relative to the plane origin"""
    if data.op != "fld":
        return None
    p = data.a[0]
    y, x = split_index(idx, pcfg(p, STRIDE))
    xo, yo = pcfg(p, XORIGIN), pcfg(p, YORIGIN)
    x2, y2 = sub(x, xo), sub(y, yo)
    for t in (x2, y2):
        if any(z is xo or z is yo for z in subterms(t)):
            return None
    return raw("pixel", p, x2, y2)


import terms as _t

_t.PIXEL = pixel_read
_t.UB = ub


def is_it(t):
    return t.op == "agg" and t.a[0] in ("iter", "itf")


def mkiter(count, d):
    return agg("iter", 0, ZERO, count, d)


class Models:
    def __init__(self):
        self.table = {}
        self.by_name = {}
        self.events_on = True
        install(self)

    # -------------------------------------------------------------- dispatch
    def dispatch(self, it, fn, args, mem, pc, pth):
        f = HARNESS.get(fn.key[1]) if fn.crate == "vharness" else None
        if f is None:
            f = self.table.get((fn.crate,) + fn.key) or self.table.get(("",) + fn.key)
        if f is None and fn.key[1].startswith("_mm"):
            f = avx
        if f is None and fn.kind == "intrinsic":
            f = intrinsic
        if f is None:
            return NotImplemented
        r = f(it, fn, args, mem, pc, pth)
        if r is NotImplemented or r is None:
            return r
        if type(r) is T:
            return r, mem, pc
        return r

    def drop(self, it, frame, term, mem, pc):
        h = getattr(self, "on_drop", None)
        if h:
            h(it, frame, term, mem, pc)


TABLE = {}


def model(*keys):
    def deco(f):
        for k in keys:
            k = k.split(".")
            if len(k) == 2:
                TABLE[("",) + tuple(k)] = f
            else:
                TABLE[tuple(k)] = f
        return f

    return deco


def install(m):
    m.table.update(TABLE)


# ---------------------------------------------------------------- helpers
def seqlen(it, mem, r):
    return length(it.load(mem, r))


def index_range(it, mem, r, ix):
    """(lo, hi) for an index value, or None for a plain integer"""
    if ix.op == "agg":
        n = str(ix.a[0]).split("::")[-1]
        f = ix.a[2:]
        if n == "Range":
            return f[0], f[1]
        if n == "RangeFrom":
            return f[0], seqlen(it, mem, r)
        if n == "RangeTo":
            return ZERO, f[0]
        if n == "RangeFull":
            return ZERO, seqlen(it, mem, r)
        if n == "RangeInclusive":
            return f[0], add(f[1], ONE)
        if n == "RangeToInclusive":
            return ZERO, add(f[0], ONE)
    return None


@model("Index.index", "IndexMut.index_mut", "SliceIndex.index", "SliceIndex.index_mut")
def m_index(it, fn, args, mem, pc, pth):
    r, ix = args
    if fn.key[0] == "SliceIndex":
        ix, r = args
    site = (pth, 0, it.line, it.stack[-1].short() if it.stack else "")
    rg = index_range(it, mem, r, ix)
    if rg is None:
        if ix.op == "agg":
            return NotImplemented
        n = seqlen(it, mem, r)
        it.oblige("index", site, pc, ix, n, it.load(mem, r))
        return it.extend(r, px(ix))
    lo, hi = rg
    n = seqlen(it, mem, r)
    it.oblige("range", site, pc, lo, hi, n, it.load(mem, r))
    if lo is ZERO and hi is n:
        return r
    return it.extend(r, ps(lo, hi))


@model("slice.get", "slice.get_unchecked", "slice.get_unchecked_mut", "slice.get_mut")
def m_get(it, fn, args, mem, pc, pth):
    r, ix = args
    rg = index_range(it, mem, r, ix)
    site = (pth, 0, it.line, it.stack[-1].short() if it.stack else "")
    n = seqlen(it, mem, r)
    if rg is None:
        if fn.key[1].startswith("get_unchecked"):
            it.oblige("unsafe-index", site, pc, ix, n, it.load(mem, r))
            return it.extend(r, px(ix))
        return ite(ilt(ix, n), SOME(it.extend(r, px(ix))), NONE)
    if fn.key[1].startswith("get_unchecked"):
        it.oblige("unsafe-range", site, pc, rg[0], rg[1], n, it.load(mem, r))
        return it.extend(r, ps(*rg))
    return ite(AND(ile(rg[0], rg[1]), ile(rg[1], n)), SOME(it.extend(r, ps(*rg))), NONE)


@model("slice.first", "slice.last")
def m_first(it, fn, args, mem, pc, pth):
    n = seqlen(it, mem, args[0])
    i = ZERO if fn.key[1] == "first" else sub(n, ONE)
    return ite(ilt(ZERO, n), SOME(it.extend(args[0], px(i))), NONE)


@model("slice.len", "Vec.len", "slice.is_empty", "Vec.is_empty", "ExactSizeIterator.len")
def m_len(it, fn, args, mem, pc, pth):
    n = seqlen(it, mem, args[0])
    return n if fn.key[1] == "len" else eqz(n)


@model("Deref.deref", "DerefMut.deref_mut", "Vec.as_slice", "Vec.as_mut_slice", "AsRef.as_ref", "Borrow.borrow", "slice.as_mut")
def m_deref(it, fn, args, mem, pc, pth):
    if fn.locals is None:
        return NotImplemented
    t = it.p.types[fn.locals[1]]
    e = it.p.types[t["e"]] if t.get("e") is not None else {}
    n = e.get("def", "").split("::")[-1]
    if n == "PlaneData":
        return it.extend(args[0], raw("praw"))
    if n in ("Vec", "String"):
        return args[0]
    if n == "Box":
        return it.load(mem, args[0])
    if e.get("k") in ("slice", "array", "str"):
        return args[0]
    return NotImplemented


@model("Vec.new", "Vec.with_capacity", "Default.default")
def m_vecnew(it, fn, args, mem, pc, pth):
    if fn.key[1] == "default":
        t = it.p.types[fn.locals[0]]
        if t.get("def", "").split("::")[-1] != "Vec":
            return NotImplemented
    if fn.key[1] == "with_capacity":
        it.oblige("alloc", (pth, 0, it.line, it.stack[-1].short()), pc, args[0])
    return EMPTY


@model("Vec.reserve", "Vec.reserve_exact", "Vec.try_reserve")
def m_reserve(it, fn, args, mem, pc, pth):
    it.oblige("alloc", (pth, 0, it.line, it.stack[-1].short()), pc, args[1])
    return UNIT


@model("Vec.shrink_to_fit")
def m_nop(it, fn, args, mem, pc, pth):
    return UNIT


@model("vec.from_elem")
def m_fromelem(it, fn, args, mem, pc, pth):
    it.oblige("alloc", (pth, 0, it.line, it.stack[-1].short()), pc, args[1])
    return rep(args[0], args[1])


@model("Vec.push")
def m_push(it, fn, args, mem, pc, pth):
    mem = mem.copy()
    it.store(mem, args[0], push(it.load(mem, args[0]), args[1]))
    return UNIT, mem, pc


@model("Vec.clear")
def m_clear(it, fn, args, mem, pc, pth):
    mem = mem.copy()
    it.store(mem, args[0], EMPTY)
    return UNIT, mem, pc


@model("Vec.append")
def m_append(it, fn, args, mem, pc, pth):
    mem = mem.copy()
    it.store(mem, args[0], concat(it.load(mem, args[0]), it.load(mem, args[1])))
    it.store(mem, args[1], EMPTY)
    return UNIT, mem, pc


@model("slice.to_vec", "slice.into_vec", "Vec.into_boxed_slice", "slice.to_owned")
def m_tovec(it, fn, args, mem, pc, pth):
    v = args[0]
    return it.load(mem, v) if v.op in ("ref", "ite") else v


@model("slice.copy_from_slice", "slice.clone_from_slice")
def m_copyfrom(it, fn, args, mem, pc, pth):
    mem = mem.copy()
    src = it.load(mem, args[1])
    dst = args[0]
    it.oblige("samelen", (pth, 0, it.line, it.stack[-1].short()), pc, seqlen(it, mem, dst), length(src))
    it.store(mem, dst, src)
    return UNIT, mem, pc


@model("slice.fill")
def m_fill(it, fn, args, mem, pc, pth):
    mem = mem.copy()
    it.store(mem, args[0], rep(args[1], seqlen(it, mem, args[0])))
    return UNIT, mem, pc


@model("slice.as_ptr", "slice.as_mut_ptr", "Vec.as_ptr", "Vec.as_mut_ptr")
def m_asptr(it, fn, args, mem, pc, pth):
    return it.extend(args[0], raw("pp"))


@model("Box.new")
def m_box(it, fn, args, mem, pc, pth):
    return ref(cell("val", args[0]))


@model("hint.must_use", "hint.black_box", "Clone.clone_ref", "From.from_same")
def m_id(it, fn, args, mem, pc, pth):
    return args[0]


@model("Clone.clone", "ToOwned.to_owned")
def m_clone(it, fn, args, mem, pc, pth):
    t = it.p.types[fn.locals[1]]
    e = it.p.types[t["e"]] if t.get("e") is not None else {}
    n = e.get("def", "").split("::")[-1]
    if fn.crate in ("core", "alloc", "std"):
        if e.get("k") in ("ref", "int", "float", "bool", "char", "tuple", "array", "closure") or n in (
            "Vec", "Range", "Box", "Option", "String"):
            return it.load(mem, args[0])
        if is_it(it.load(mem, args[0])):
            return it.load(mem, args[0])
    return NotImplemented


@model("ToString.to_string", "fmt.format", "Argument.new_display", "Argument.new_debug", "Arguments.new",
       "Arguments.new_const", "Arguments.new_v1", "Arguments.from_str")
def m_fmt(it, fn, args, mem, pc, pth):
    return raw("call", fn.key[0] + "::" + fn.key[1], *[it.content(mem, a) for a in args])


# ---------------------------------------------------------------- closures
@model("core.Fn.call", "core.FnMut.call_mut", "core.FnOnce.call_once", "alloc.FnOnce.call_once", "alloc.FnMut.call_mut", "alloc.Fn.call")
def m_call(it, fn, args, mem, pc, pth):
    f, t = args
    a = list(t.a[2:]) if t.op == "agg" else None
    if a is None:
        return NotImplemented
    return it.apply(f, a, mem, pc, pth)


# ---------------------------------------------------------------- arrays
@model("array.map", "array.from_fn")
def m_arrmap(it, fn, args, mem, pc, pth):
    """each element, first to last"""
    n = it.p.types[fn.locals[0]].get("n") if fn.locals else None
    if type(n) is not int or n > 64:
        return NotImplemented
    out = []
    for i in range(n):
        x = I(i) if fn.key[1] == "from_fn" else sel(it.content(mem, args[0]) if args[0].op == "ref" else args[0], I(i))
        r = it.apply(args[-1], [x], mem, pc, path(pth, f"e{i}"))
        if r is None:
            return None
        v, mem, pc = r
        out.append(v)
    return agg("arr", 0, *out), mem, pc


# ---------------------------------------------------------------- iterators
def lam1(it, f, x, mem, pc, pth):
    return it.apply(f, [x], mem, pc, pth)


def as_iter(it, v, mem, tyname=""):
    """iterator for a value given to into_iter"""
    if is_it(v):
        return v
    if v.op == "agg":
        n = str(v.a[0]).split("::")[-1]
        if n == "Range":
            return mkiter(satsub(v.a[3], v.a[2]), agg("d:range", 0, v.a[2], ONE))
        if n == "RangeInclusive":
            return mkiter(satsub(add(v.a[3], ONE), v.a[2]), agg("d:range", 0, v.a[2], ONE))
        if n == "RangeFrom":
            return agg("iter", 0, ZERO, raw("inf"), agg("d:range", 0, v.a[2], ONE))
        if n == "Option":
            return mkiter(I(v.a[1]), agg("d:val", 0, agg("arr", 0, *v.a[2:])))
        if n == "arr":
            return mkiter(I(len(v.a) - 2), agg("d:val", 0, v))
    return None


def elem_at(it, d, k, mem, pc, pth):
    """(element, mem, pc) of descriptor d at index k"""
    o = d.a[0]
    f = d.a[2:]
    if o == "d:range":
        return add(f[0], mul(k, f[1])), mem, pc
    if o == "d:ref":
        return it.extend(f[0], px(k)), mem, pc
    if o == "d:val":
        return sel(f[0], k), mem, pc
    if o == "d:chunks":
        lo = mul(k, f[1])
        return it.extend(f[0], ps(lo, imin(add(lo, f[1]), f[2]))), mem, pc
    if o == "d:chunksx":
        lo = mul(k, f[1])
        return it.extend(f[0], ps(lo, add(lo, f[1]))), mem, pc
    if o == "d:windows":
        return it.extend(f[0], ps(k, add(k, f[1]))), mem, pc
    if o == "d:plane":
        w = pcfg(f[0], WIDTH)
        return raw("pixel", f[0], mod(k, w), idiv(k, w)), mem, pc
    if o == "d:rows":
        p = f[0]
        data = it.extend(f[1], raw("praw"))
        lo = add(mul(add(pcfg(p, YORIGIN), k), pcfg(p, STRIDE)), pcfg(p, XORIGIN))
        return it.extend(data, ps(lo, add(lo, pcfg(p, WIDTH)))), mem, pc
    if o == "d:map":
        r = elem_at(it, f[0], k, mem, pc, pth)
        if r is None:
            return None
        x, mem, pc = r
        return it.apply(f[1], [x], mem, pc, path(pth, "map"))
    if o == "d:zip":
        r = elem_at(it, f[0], k, mem, pc, path(pth, "z0"))
        if r is None:
            return None
        x, mem, pc = r
        r = elem_at(it, f[1], k, mem, pc, path(pth, "z1"))
        if r is None:
            return None
        y, mem, pc = r
        return tup(x, y), mem, pc
    if o == "d:enum":
        r = elem_at(it, f[0], k, mem, pc, pth)
        if r is None:
            return None
        return tup(k, r[0]), r[1], r[2]
    if o == "d:copied":
        r = elem_at(it, f[0], k, mem, pc, pth)
        if r is None:
            return None
        return it.load(r[1], r[0]), r[1], r[2]
    if o == "d:rev":
        return elem_at(it, f[0], sub(sub(f[1], ONE), k), mem, pc, pth)
    if o == "d:skip":
        return elem_at(it, f[0], add(k, f[1]), mem, pc, pth)
    if o == "d:step":
        return elem_at(it, f[0], mul(k, f[1]), mem, pc, pth)
    if o == "d:flat":
        r = elem_at(it, f[0], idiv(k, f[1]), mem, pc, pth)
        if r is None:
            return None
        x, mem, pc = r
        j = mod(k, f[1])
        if x.op == "ref":
            return it.extend(x, px(j)), mem, pc
        return sel(x, j), mem, pc
    if o == "d:rowwise":
        r = elem_at(it, f[0], idiv(k, f[1]), mem, pc, pth)
        if r is None:
            return None
        w = row_of(it, r[0], r[1])
        return None if w is None else elem_at(it, w.a[4], mod(k, f[1]), r[1], r[2], path(pth, "row"))
    if o == "d:inter":
        even = eqz(mod(k, I(2)))
        h = idiv(k, I(2))
        if f[0] is f[1]:
            return elem_at(it, f[0], h, mem, pc, pth)
        a = elem_at(it, f[0], h, mem, pc, path(pth, "i0"))
        b = elem_at(it, f[1], h, mem, pc, path(pth, "i1"))
        if a is None or b is None:
            return None
        return ite(even, a[0], b[0]), mem, pc
    if o == "d:chain":
        c = ilt(k, f[1])
        a = elem_at(it, f[0], k, mem, pc, path(pth, "c0"))
        b = elem_at(it, f[2], sub(k, f[1]), mem, pc, path(pth, "c1"))
        if a is None or b is None:
            return None
        return ite(c, a[0], b[0]), mem, pc
    raise Unsupported("descriptor " + o)


def it_step(it, mem, r, pc, pth):
    """one step of the iterator stored at r: (continues, valid, element, mem after an element)"""
    v = it.load(mem, r)
    if v.op != "agg":
        raise Unsupported("iterator " + v.op)
    if v.a[0] == "iter":
        k, n, d = v.a[2:]
        cont = TRUE if n.op == "inf" else ilt(k, n)
        if cont is FALSE:
            return FALSE, FALSE, UNIT, mem
        m2 = mem.copy()
        e = elem_at(it, d, k, m2, AND(pc, cont), pth)
        if e is None:
            return cont, FALSE, raw("bad", "never"), mem
        x, m2, _ = e
        m2 = m2.copy()
        it.store(m2, it.extend(r, pf(0, 0)), add(k, ONE))
        return cont, TRUE, x, m2
    if v.a[0] == "itf":
        kind = v.a[2]
        cont, valid, x, m2 = it_step(it, mem, it.extend(r, pf(0, 1)), pc, pth)
        f = v.a[4]
        c = AND(AND(pc, cont), valid)
        if kind == "take":
            k = f
            cont2 = AND(cont, ilt(ZERO, k))
            m2 = m2.copy()
            it.store(m2, it.extend(r, pf(0, 2)), sub(k, ONE))
            return cont2, valid, x, m2
        if kind == "copied":
            return cont, valid, it.load(m2, x), m2
        if kind == "enum":
            m2 = m2.copy()
            it.store(m2, it.extend(r, pf(0, 2)), ite(valid, add(f, ONE), f))
            return cont, valid, tup(f, x), m2
        if kind == "filter":
            c2 = cell("H", pth, "fl")
            m2 = m2.copy()
            m2[c2] = x
            y = it.apply(f, [ref(c2)], m2.copy(), c, path(pth, "flt"))
            if y is None:
                return cont, FALSE, UNIT, m2
            b, m3, _ = y
            m3 = join(it, valid, m3, m2)
            m3.pop(c2, None)
            return cont, AND(valid, b), x, m3
        y = it.apply(f, [x], m2.copy(), c, path(pth, "flt"))
        if y is None:
            return cont, FALSE, UNIT, m2
        y, m3, _ = y
        m3 = join(it, valid, m3, m2)
        if kind == "map":
            return cont, valid, y, m3
        if kind == "filter_map":
            return cont, AND(valid, is_variant(y, 1)), fld(y, 1, 0), m3
        if kind == "map_while":
            s = is_variant(y, 1)
            return AND(cont, OR(NOT(valid), s)), valid, fld(y, 1, 0), m3
        if kind == "take_while":
            raise Unsupported("take_while")
        raise Unsupported("iterator " + kind)
    n = str(v.a[0]).split("::")[-1]
    if n == "Range":
        cont = ilt(v.a[2], v.a[3])
        m2 = mem.copy()
        it.store(m2, it.extend(r, pf(0, 0)), add(v.a[2], ONE))
        return cont, TRUE, v.a[2], m2
    raise Unsupported("iterator " + str(v.a[0]))


def join(it, c, ma, mb):
    if c is TRUE:
        return ma
    if c is FALSE:
        return mb
    return it.merge([(c, ma), (NOT(c), mb)])[1].copy()


raw_itf = lambda kind, inner, f: raw("agg", "itf", 0, kind, inner, f)


@model("IntoIterator.into_iter", "rayon.IntoParallelIterator.into_par_iter", "Iterator.by_ref", "rayon.IntoParallelRefIterator.par_iter",
       "rayon.IntoParallelRefMutIterator.par_iter_mut")
def m_into_iter(it, fn, args, mem, pc, pth):
    v = args[0]
    if fn.key[1] == "by_ref":
        return v
    r = as_iter(it, v, mem)
    if r is not None:
        return r
    if v.op == "ref":
        x = it.load(mem, v)
        if is_it(x):
            return v
        return mkiter(length(x), agg("d:ref", 0, v))
    t = it.p.types[fn.locals[1]] if fn.locals else {}
    if t.get("def", "").split("::")[-1] in ("Vec",) or t.get("k") == "array" or v.op in ("gen", "push", "concat", "rep", "fgen", "mu", "store", "fill"):
        return mkiter(length(v), agg("d:val", 0, v))
    if v.op == "ite":
        # a conditional iterator over sequences
        return mkiter(length(v), agg("d:val", 0, v))
    if t.get("k") == "ref" or t.get("k") == "ptr":
        v = it.as_ref(v)
        return mkiter(seqlen(it, mem, v), agg("d:ref", 0, v))
    return NotImplemented


@model("slice.iter", "slice.iter_mut", "Vec.iter", "Vec.iter_mut")
def m_iter(it, fn, args, mem, pc, pth):
    return mkiter(seqlen(it, mem, args[0]), agg("d:ref", 0, args[0]))


@model("slice.chunks", "slice.chunks_mut", "rayon.ParallelSlice.par_chunks", "rayon.ParallelSliceMut.par_chunks_mut")
def m_chunks(it, fn, args, mem, pc, pth):
    n = seqlen(it, mem, args[0])
    cnt = idiv(sub(add(n, args[1]), ONE), args[1])
    nonneg.add(cnt) if cnt.op not in ("i", "lin", "ite") else None
    return mkiter(cnt, agg("d:chunks", 0, args[0], args[1], n))


@model("slice.chunks_exact", "slice.chunks_exact_mut", "slice.as_chunks")
def m_chunksx(it, fn, args, mem, pc, pth):
    if fn.key[1] == "as_chunks":
        return NotImplemented
    n = seqlen(it, mem, args[0])
    return mkiter(idiv(n, args[1]), agg("d:chunksx", 0, args[0], args[1]))


@model("slice.windows")
def m_windows(it, fn, args, mem, pc, pth):
    n = seqlen(it, mem, args[0])
    return mkiter(satsub(add(n, ONE), args[1]), agg("d:windows", 0, args[0], args[1]))


def plane_of(it, mem, r):
    return it.load(mem, r)


@model("v_frame.Plane.iter")
def m_planeiter(it, fn, args, mem, pc, pth):
    p = it.load(mem, args[0])
    if p.op == "agg":
        return NotImplemented
    return mkiter(mul(pcfg(p, WIDTH), pcfg(p, HEIGHT)), agg("d:plane", 0, p))


@model("v_frame.Plane.rows_iter")
def m_rowsiter(it, fn, args, mem, pc, pth):
    p = it.load(mem, args[0])
    return mkiter(pcfg(p, HEIGHT), agg("d:rows", 0, p, it.extend(args[0], pf(0, 0))))


def adapt(name):
    def deco(f):
        TABLE[("", "Iterator", name)] = f
        TABLE[("", "ParallelIterator", name)] = f
        TABLE[("", "IndexedParallelIterator", name)] = f
        return f

    return deco


def self_iter(it, v, mem):
    r = as_iter(it, v, mem)
    if r is not None:
        return r
    if v.op == "ref":
        x = it.load(mem, v)
        if is_it(x):
            return None
    return None


@adapt("map")
def m_map(it, fn, args, mem, pc, pth):
    v = self_iter(it, args[0], mem)
    if v is None:
        return NotImplemented
    if v.a[0] == "iter":
        return agg("iter", 0, v.a[2], v.a[3], agg("d:map", 0, v.a[4], args[1]))
    return raw_itf("map", v, args[1])


def adaptor(name, kind):
    @adapt(name)
    def f(it, fn, args, mem, pc, pth):
        v = self_iter(it, args[0], mem)
        if v is None:
            return NotImplemented
        return raw_itf(kind, v, args[1])


adaptor("filter_map", "filter_map")
adaptor("filter", "filter")
adaptor("map_while", "map_while")


@adapt("copied")
def m_copied(it, fn, args, mem, pc, pth):
    v = self_iter(it, args[0], mem)
    if v is None:
        return NotImplemented
    if v.a[0] == "iter":
        return agg("iter", 0, v.a[2], v.a[3], agg("d:copied", 0, v.a[4]))
    return raw_itf("copied", v, UNIT)


TABLE[("", "Iterator", "cloned")] = m_copied


@adapt("enumerate")
def m_enum(it, fn, args, mem, pc, pth):
    v = self_iter(it, args[0], mem)
    if v is None:
        return NotImplemented
    if v.a[0] == "iter" and v.a[2] is ZERO:
        return agg("iter", 0, v.a[2], v.a[3], agg("d:enum", 0, v.a[4]))
    return raw_itf("enum", v, ZERO)


@adapt("zip")
def m_zip(it, fn, args, mem, pc, pth):
    v = self_iter(it, args[0], mem)
    w = args[1]
    w2 = as_iter(it, w, mem)
    if w2 is None and w.op == "ref":
        w2 = mkiter(seqlen(it, mem, w), agg("d:ref", 0, w))
    if w2 is None and w.op in ("gen", "rep", "push", "concat", "store", "fill", "mu"):
        w2 = mkiter(length(w), agg("d:val", 0, w))
    if w2 is None and w.op not in ("ite",):
        w2 = mkiter(seqlen(it, mem, it.as_ref(w)), agg("d:ref", 0, it.as_ref(w)))
    if v is None or w2 is None or v.a[0] != "iter" or w2.a[0] != "iter":
        return NotImplemented
    if v.a[2] is not ZERO or w2.a[2] is not ZERO:
        return NotImplemented
    n1, n2 = v.a[3], w2.a[3]
    n = n2 if n1.op == "inf" else n1 if n2.op == "inf" else imin(n1, n2)
    return mkiter(n, agg("d:zip", 0, v.a[4], w2.a[4]))


@adapt("take")
def m_take(it, fn, args, mem, pc, pth):
    v = self_iter(it, args[0], mem)
    if v is None:
        return NotImplemented
    if v.a[0] == "iter":
        n = args[1] if v.a[3].op == "inf" else imin(v.a[3], add(v.a[2], args[1]))
        return agg("iter", 0, v.a[2], n, v.a[4])
    return raw_itf("take", v, args[1])


@adapt("skip")
def m_skip(it, fn, args, mem, pc, pth):
    v = self_iter(it, args[0], mem)
    if v is None or v.a[0] != "iter" or v.a[2] is not ZERO:
        return NotImplemented
    return mkiter(satsub(v.a[3], args[1]) if v.a[3].op != "inf" else v.a[3], agg("d:skip", 0, v.a[4], args[1]))


@adapt("rev")
def m_rev(it, fn, args, mem, pc, pth):
    v = self_iter(it, args[0], mem)
    if v is None or v.a[0] != "iter" or v.a[2] is not ZERO:
        return NotImplemented
    return mkiter(v.a[3], agg("d:rev", 0, v.a[4], v.a[3]))


@adapt("step_by")
def m_stepby(it, fn, args, mem, pc, pth):
    v = self_iter(it, args[0], mem)
    if v is None or v.a[0] != "iter" or v.a[2] is not ZERO:
        return NotImplemented
    s = args[1]
    cnt = idiv(sub(add(v.a[3], s), ONE), s)
    d = v.a[4]
    if d.a[0] == "d:range":
        d = agg("d:range", 0, d.a[2], mul(d.a[3], s))
    else:
        d = agg("d:step", 0, d, s)
    return mkiter(cnt, d)


@adapt("chain")
def m_chain(it, fn, args, mem, pc, pth):
    v = self_iter(it, args[0], mem)
    w = as_iter(it, args[1], mem)
    if v is None or w is None or v.a[0] != "iter" or w.a[0] != "iter" or v.a[2] is not ZERO or w.a[2] is not ZERO:
        return NotImplemented
    return mkiter(add(v.a[3], w.a[3]), agg("d:chain", 0, v.a[4], v.a[3], w.a[4]))


@adapt("flatten")
def m_flatten(it, fn, args, mem, pc, pth):
    v = self_iter(it, args[0], mem)
    if v is None or v.a[0] != "iter" or v.a[2] is not ZERO:
        return NotImplemented
    e = elem_at(it, v.a[4], fresh("probe"), mem.copy(), pc, path(pth, "probe"))
    if e is None:
        return NotImplemented
    x = e[0]
    n = None
    if x.op == "ref":
        # element type: array of known length
        n = array_len_of_item(it, fn)
    elif x.op == "agg" and x.a[0] == "arr":
        n = len(x.a) - 2
    if n is None:
        return rows_of(it, v, v.a[4], mem, pc, pth)
    return mkiter(mul(v.a[3], I(n)), agg("d:flat", 0, v.a[4], I(n)))


def rows_of(it, v, d, mem, pc, pth):
    """the elements of what d gives, which is equally long each time"""
    seen, k = dict(it.obligations), fresh("probe")
    nonneg.add(k)
    try:
        e = elem_at(it, d, k, mem.copy(), pc, path(pth, "probe"))
    finally:
        it.obligations = seen
    if e is None:
        return NotImplemented
    w = row_of(it, e[0], e[1])
    if w is None or k in w.a[3].fv:
        return NotImplemented
    return mkiter(mul(v.a[3], w.a[3]), agg("d:rowwise", 0, d, w.a[3]))


def row_of(it, x, mem):
    if x.op == "ref":
        w = mkiter(seqlen(it, mem, x), agg("d:ref", 0, x))
    else:
        w = as_iter(it, x, mem)
    return w if w is not None and w.a[0] == "iter" and w.a[2] is ZERO and w.a[3].op != "inf" else None


@adapt("flat_map")
def m_flat_map(it, fn, args, mem, pc, pth):
    v = self_iter(it, args[0], mem)
    if v is None or v.a[0] != "iter" or v.a[2] is not ZERO:
        return NotImplemented
    return rows_of(it, v, agg("d:map", 0, v.a[4], args[1]), mem, pc, pth)


def array_len_of_item(it, fn):
    """N when the iterated item type mentions exactly one array type [_; N] as its item"""
    t = it.p.types[fn.args[0]]
    for _ in range(6):
        a = [x for x in t.get("a", []) if x is not None]
        if not a:
            return None
        u = it.p.types[a[0] if t.get("def", "").split("::")[-1] != "Map" else a[-1]]
        if u["k"] == "array":
            return u.get("n")
        t = u
    return None


@model("adaptors.interleave", "itertools.interleave", "free.interleave", "Itertools.interleave")
def m_interleave(it, fn, args, mem, pc, pth):
    vs = []
    for a in args:
        v = as_iter(it, a, mem)
        if v is None:
            r = a if a.op == "ref" else it.as_ref(a)
            v = mkiter(seqlen(it, mem, r), agg("d:ref", 0, r))
        vs.append(v)
    a, b = vs
    if a.a[0] != "iter" or b.a[0] != "iter" or a.a[3] is not b.a[3]:
        return NotImplemented
    return mkiter(mul(I(2), a.a[3]), agg("d:inter", 0, a.a[4], b.a[4]))


@model("Iterator.next")
def m_next(it, fn, args, mem, pc, pth):
    r = args[0]
    v = it.load(mem, r)
    # iterating through a reference to an iterator
    n = 0
    while v.op == "ref" and n < 4:
        r = v
        v = it.load(mem, r)
        n += 1
    if not (is_it(v) or (v.op == "agg" and str(v.a[0]).split("::")[-1] == "Range")):
        return NotImplemented
    if v.a[0] == "itf" and v.a[2] in ("filter", "filter_map"):
        return next_filtered(it, r, mem, pc, pth)
    cont, valid, x, m2 = it_step(it, mem, r, pc, pth)
    if valid is not TRUE and cont is not FALSE:
        raise Unsupported("next of a filter")
    m = join(it, cont, m2, mem)
    return ite(cont, SOME(x), NONE), m, pc


def next_filtered(it, r, mem, pc, pth):
    """skip to the next element a filter lets through"""
    res = cell("H", pth, "found")
    m0 = mem.copy()
    m0[res] = NONE

    def body(m):
        cont, valid, x, m2 = it_step(it, m, r, TRUE, pth)
        m2 = m2.copy()
        exits = [("none", NOT(cont), m.copy())]
        mf = m2.copy()
        mf[res] = SOME(x)
        exits.append(("some", AND(cont, valid), mf))
        backs = [(AND(cont, NOT(valid)), m2)]
        return [b for b in backs if b[0] is not FALSE], [e for e in exits if e[1] is not FALSE]

    outs = it.loop(m0, body, "filter", pth)
    c, m = it.merge([(c, m) for _, c, m in outs])
    m = m.copy()
    return m.pop(res), m, pc


def consume(it, v, mem, pc, pth, init, f, tag):
    """run the iterator value v to its end; f(acc, elem, mem, pc) -> (acc, mem)"""
    ci, ca = cell("H", pth, "it"), cell("H", pth, "acc")
    m0 = mem.copy()
    byref = v.op == "ref"
    if byref:
        r = v
    else:
        m0[ci] = v
        r = ref(ci)
    m0[ca] = init
    it.base.append(AND(it.base[-1], pc))
    try:

        def body(m):
            cont, valid, x, m2 = it_step(it, m, r, TRUE, pth)
            m2 = m2.copy()
            exits = [("end", NOT(cont), m.copy())] if cont is not TRUE else []
            if cont is FALSE:
                return [], exits
            acc = m2[ca]
            z = f(acc, x, m2.copy(), AND(cont, valid))
            if z is None:
                return [], exits
            a2, m3 = z
            m3 = m3.copy()
            m3[ca] = a2
            m3 = join(it, valid, m3, m2)
            return [(cont, m3)], exits

        outs = it.loop(m0, body, tag, pth)
    finally:
        it.base.pop()
    c, m = it.merge([(c, m) for _, c, m in outs])
    m = m.copy()
    m.pop(ci, None)
    return m.pop(ca), m


def conv_iter(it, v, mem):
    r = as_iter(it, v, mem)
    if r is not None:
        return r
    if v.op == "ref" and is_it(it.load(mem, v)):
        return v
    return None


def consumer(*names):
    def deco(f):
        for n in names:
            TABLE[("", "Iterator", n)] = f
            TABLE[("", "ParallelIterator", n)] = f
            TABLE[("", "IndexedParallelIterator", n)] = f
        return f

    return deco


@consumer("sum")
def m_sum(it, fn, args, mem, pc, pth):
    v = conv_iter(it, args[0], mem)
    if v is None:
        return NotImplemented
    t = it.p.types[fn.args[-1]]
    isref = False
    if t["k"] == "float":
        w = t["w"]
        init, op = F(0.0, w), lambda a, x: fadd(w, a, x)
    elif t["k"] == "int":
        init, op = ZERO, add
    else:
        return NotImplemented

    site = (pth, 0, it.line, it.stack[-1].short())

    def f(a, x, m, c):
        if x.op == "ref":
            x = it.load(m, x)
        if t["k"] == "int":
            it.oblige("overflow:Add", site, c, a, x, t["w"])
        return op(a, x), m

    acc, m = consume(it, v, mem, pc, pth, init, f, "sum")
    return acc, m, pc


@consumer("fold")
def m_fold(it, fn, args, mem, pc, pth):
    v = conv_iter(it, args[0], mem)
    if v is None or fn.key[0] != "Iterator":
        return NotImplemented

    def f(a, x, m, c):
        r = it.apply(args[2], [a, x], m, c, path(pth, "f"))
        return None if r is None else (r[0], r[1])

    acc, m = consume(it, v, mem, pc, pth, args[1], f, "fold")
    return acc, m, pc


@consumer("for_each")
def m_foreach(it, fn, args, mem, pc, pth):
    v = conv_iter(it, args[0], mem)
    if v is None:
        return NotImplemented

    def f(a, x, m, c):
        r = it.apply(args[1], [x], m, c, path(pth, "f"))
        return None if r is None else (UNIT, r[1])

    acc, m = consume(it, v, mem, pc, pth, UNIT, f, "for_each")
    return UNIT, m, pc


@consumer("collect")
def m_collect(it, fn, args, mem, pc, pth):
    v = conv_iter(it, args[0], mem)
    if v is None:
        return NotImplemented
    t = it.p.types[fn.args[-1]]
    n = t.get("def", "").split("::")[-1]
    if n not in ("Vec", "Box", "VecDeque"):
        if n in ("Result", "Option"):
            return collect_try(it, fn, v, mem, pc, pth, n)
        return NotImplemented

    def f(a, x, m, c):
        return push(a, x), m

    acc, m = consume(it, v, mem, pc, pth, EMPTY, f, "collect")
    return acc, m, pc


def collect_try(it, fn, v, mem, pc, pth, n):
    good = 0 if n == "Result" else 1
    init = tup(EMPTY, agg("std::option::Option", 0))

    def f(a, x, m, c):
        seq, bad = fld(a, 0, 0), fld(a, 0, 1)
        g = is_variant(x, 1)
        if good == 0:
            g = NOT(g)
        alive = NOT(is_variant(bad, 1))
        s2 = ite(AND(alive, g), push(seq, fld(x, good, 0)), seq)
        b2 = ite(AND(alive, NOT(g)), SOME(x), bad)
        return tup(s2, b2), m

    acc, m = consume(it, v, mem, pc, pth, init, f, "collect")
    seq, bad = fld(acc, 0, 0), fld(acc, 0, 1)
    r = ite(is_variant(bad, 1), (ERR(fld(fld(bad, 1, 0), 1, 0)) if good == 0 else NONE), OK(seq) if good == 0 else SOME(seq))
    return r, m, pc


@model("Extend.extend", "Vec.extend_from_slice", "rayon.ParallelExtend.par_extend")
def m_extend(it, fn, args, mem, pc, pth):
    t = it.p.types[fn.locals[1]] if fn.locals else {}
    if it.p.types[t["e"]].get("def", "").split("::")[-1] != "Vec":
        return NotImplemented
    src = args[1]
    if not is_it(src):
        s = as_iter(it, src, mem)
        if s is None:
            seq = it.load(mem, src) if src.op == "ref" else src
            mem = mem.copy()
            it.store(mem, args[0], concat(it.load(mem, args[0]), seq))
            return UNIT, mem, pc
        src = s
    acc, m = consume(it, src, mem, pc, pth, EMPTY, lambda a, x, m, c: (push(a, x), m), "extend")
    m = m.copy()
    it.store(m, args[0], concat(it.load(m, args[0]), acc))
    return UNIT, m, pc


@consumer("all", "any")
def m_all(it, fn, args, mem, pc, pth):
    v = conv_iter(it, args[0], mem)
    if v is None:
        return NotImplemented
    isall = fn.key[1] == "all"

    def f(a, x, m, c):
        r = it.apply(args[1], [x], m, c, path(pth, "f"))
        if r is None:
            return None
        b = boolify(r[0])
        return (AND(a, b) if isall else OR(a, b)), m

    acc, m = consume(it, v, mem, pc, pth, TRUE if isall else FALSE, f, fn.key[1])
    return boolify(acc), m, pc


@consumer("count")
def m_count(it, fn, args, mem, pc, pth):
    v = conv_iter(it, args[0], mem)
    if v is None:
        return NotImplemented
    acc, m = consume(it, v, mem, pc, pth, ZERO, lambda a, x, m, c: (add(a, ONE), m), "count")
    return acc, m, pc


@consumer("max", "min")
def m_maxmin(it, fn, args, mem, pc, pth):
    v = conv_iter(it, args[0], mem)
    if v is None:
        return NotImplemented
    mx = fn.key[1] == "max"

    def f(a, x, m, c):
        y = it.load(m, x) if x.op == "ref" else x
        cur = fld(a, 1, 0)
        nv = imax(cur, y) if mx else imin(cur, y)
        return ite(is_variant(a, 1), SOME(nv), SOME(y)), m

    acc, m = consume(it, v, mem, pc, pth, NONE, f, fn.key[1])
    return acc, m, pc


@consumer("product")
def m_product(it, fn, args, mem, pc, pth):
    v = conv_iter(it, args[0], mem)
    if v is None:
        return NotImplemented
    t = it.p.types[fn.args[-1]]
    if t["k"] == "float":
        w = t["w"]
        init, op = F(1.0, w), lambda a, x: fmul(w, a, x)
    elif t["k"] == "int":
        init, op = ONE, mul
    else:
        return NotImplemented
    acc, m = consume(it, v, mem, pc, pth, init, lambda a, x, m, c: (op(a, it.load(m, x) if x.op == "ref" else x), m), "product")
    return acc, m, pc


@model("RangeInclusive.new")
def m_rinew(it, fn, args, mem, pc, pth):
    return agg("std::ops::RangeInclusive", 0, args[0], args[1], FALSE)


@model("RangeInclusive.contains", "Range.contains")
def m_rcontains(it, fn, args, mem, pc, pth):
    r = it.load(mem, args[0])
    x = it.load(mem, args[1])
    lo, hi = fld(r, 0, 0), fld(r, 0, 1)
    t = it.p.types[it.p.types[fn.locals[2]]["e"]]
    lo_ok = binop("Ge", x, lo, t)
    hi_ok = binop("Le" if fn.key[0] == "RangeInclusive" else "Lt", x, hi, t)
    return AND(lo_ok, hi_ok)


# ---------------------------------------------------------------- integers and floats
@model("int.pow")
def m_pow(it, fn, args, mem, pc, pth):
    x, n = args
    if n.op == "i" and 0 <= n.a[0] <= 4:
        r = ONE
        for _ in range(n.a[0]):
            r = mul(r, x)
        it.oblige("overflow:Pow", (pth, 0, it.line, it.stack[-1].short()), pc, r, it.p.types[fn.locals[1]])
        return r
    return raw("ipow", x, n)


@model("int.abs", "int.unsigned_abs", "int.wrapping_abs")
def m_iabs(it, fn, args, mem, pc, pth):
    return iabs(args[0])


@model("int.abs_diff")
def m_absdiff(it, fn, args, mem, pc, pth):
    return iabs(sub(args[0], args[1]))


@model("int.saturating_sub")
def m_satsub(it, fn, args, mem, pc, pth):
    t = it.p.types[fn.locals[1]] if fn.locals else {"s": 0}
    if t.get("s"):
        return NotImplemented
    return satsub(*args)


@model("int.saturating_add", "int.wrapping_add", "int.saturating_mul", "int.wrapping_mul", "int.wrapping_sub")
def m_wrap(it, fn, args, mem, pc, pth):
    x, y = args
    o = {"add": add, "mul": mul, "sub": sub}[fn.key[1].split("_")[1]]
    if x.op == "i" and y.op == "i":
        return NotImplemented
    return raw(fn.key[1], it.p.types[fn.locals[1]].get("w", 0), o(x, y))


@model("int.next_power_of_two")
def m_npot(it, fn, args, mem, pc, pth):
    x = args[0]

    def f(t):
        if t.op == "i":
            n = 1
            while n < t.a[0]:
                n *= 2
            return I(n)
        return raw("npot", t)

    return lift(f, x)


@model("int.rem_euclid", "int.div_euclid", "int.div_ceil", "int.is_multiple_of", "int.is_power_of_two", "int.leading_zeros",
       "int.trailing_zeros", "int.count_ones", "int.isqrt")
def m_intmisc(it, fn, args, mem, pc, pth):
    n = fn.key[1]
    if n == "div_ceil":
        return idiv(sub(add(args[0], args[1]), ONE), args[1])
    if n == "is_multiple_of":
        return eqz(mod(args[0], args[1]))
    return raw("ifun", n, *args) if n not in ("is_power_of_two",) else atom(raw("ifun", n, *args))


@model("int.from_le_bytes", "int.from_ne_bytes", "int.from_be_bytes")
def m_fromle(it, fn, args, mem, pc, pth):
    a = args[0]
    t = it.p.types[fn.locals[0]]
    n = t["w"] // 8
    r = ZERO
    for j in range(n):
        b = sel(a, I(j if "be" not in fn.key[1] else n - 1 - j))
        if b.op not in ("i", "lin"):
            nonneg.add(b)
            if b not in _i._ubm:
                set_ub(b, 255)
        r = add(r, mul(b, I(1 << (8 * j))))
    if t["s"]:
        r = icast(r, {"k": "int", "w": t["w"], "s": 0}, t)
    return r


@model("int.to_le_bytes", "int.to_ne_bytes")
def m_tole(it, fn, args, mem, pc, pth):
    t = it.p.types[fn.locals[1]]
    if t["s"]:
        return NotImplemented
    x = args[0]
    return agg("arr", 0, *[mod(idiv(x, I(1 << (8 * j))), I(256)) for j in range(t["w"] // 8)])


@model("cmp.min", "cmp.max", "Ord.min", "Ord.max")
def m_minmax(it, fn, args, mem, pc, pth):
    t = it.p.types[fn.locals[1]] if fn.locals else it.p.types[fn.args[0]]
    if t["k"] != "int":
        return NotImplemented
    return (imin if fn.key[1] == "min" else imax)(*args)


@model("Ord.clamp")
def m_clamp(it, fn, args, mem, pc, pth):
    t = it.p.types[fn.locals[1]]
    if t["k"] != "int":
        return NotImplemented
    return imin(imax(args[0], args[1]), args[2])


@model("PartialEq.eq", "PartialEq.ne", "PartialOrd.lt", "PartialOrd.le", "PartialOrd.gt", "PartialOrd.ge")
def m_cmp(it, fn, args, mem, pc, pth):
    if not fn.locals:
        return NotImplemented
    t = it.p.types[fn.locals[1]]
    e = it.p.types[t["e"]] if t.get("e") is not None else {}
    op = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[fn.key[1]]
    if e.get("k") in ("int", "float", "bool", "char"):
        return binop(op, it.load(mem, args[0]), it.load(mem, args[1]), e)
    if e.get("k") == "str":
        a, b = it.load(mem, args[0]), it.load(mem, args[1])
        r = TRUE if a is b else FALSE if a.op == "str" and b.op == "str" else atom(raw("same", *sorted((a, b), key=lambda z: z.id)))
        return r if op == "Eq" else NOT(r)
    return NotImplemented


@model("PartialOrd.partial_cmp")
def m_pcmp(it, fn, args, mem, pc, pth):
    return NotImplemented


FFUN1 = ("sqrt", "sin", "cos", "exp", "floor", "ceil", "abs", "log10", "ln", "log2", "round", "trunc", "cbrt", "tan", "atan", "exp2", "tanh", "recip", "asin", "acos")
FFUN2 = ("min", "max", "powf", "powi", "atan2", "log", "hypot", "copysign")


@model(*["float." + n for n in FFUN1 + FFUN2])
def m_ffun(it, fn, args, mem, pc, pth):
    w = it.p.types[fn.locals[1]]["w"] if fn.locals else 64
    if fn.key[1] == "recip":
        return fdiv(w, F(1.0, w), args[0])
    return ffun(fn.key[1], w, *args)


@model("float.clamp")
def m_fclamp(it, fn, args, mem, pc, pth):
    w = it.p.types[fn.locals[1]]["w"]
    return ffun("min", w, ffun("max", w, args[0], args[1]), args[2])


@model("float.mul_add")
def m_fma(it, fn, args, mem, pc, pth):
    w = it.p.types[fn.locals[1]]["w"]
    return raw("ffun", "fma", w, *args)


@model("float.to_bits", "float.from_bits")
def m_bits(it, fn, args, mem, pc, pth):
    if fn.key[1] == "to_bits":
        return tobits(it.p.types[fn.locals[1]]["w"], args[0])
    return frombits(it.p.types[fn.locals[0]]["w"], args[0])


@model("float.is_nan", "float.is_finite", "float.is_infinite", "float.is_sign_negative", "float.is_sign_positive", "float.is_normal")
def m_isnan(it, fn, args, mem, pc, pth):
    x = args[0]

    def f(t):
        if t.op == "f":
            v = f_of(t)
            n = fn.key[1]
            if n == "is_nan":
                return B(v != v)
            if n == "is_finite":
                return B(math.isfinite(v))
            if n == "is_infinite":
                return B(math.isinf(v))
            if n == "is_sign_negative":
                return B(math.copysign(1, v) < 0)
            if n == "is_sign_positive":
                return B(math.copysign(1, v) > 0)
        return atom(raw("fpred", fn.key[1], t))

    return lift(f, x)


@model("float.total_cmp", "float.partial_cmp")
def m_ftotal(it, fn, args, mem, pc, pth):
    return NotImplemented


@model("mem.size_of")
def m_sizeof(it, fn, args, mem, pc, pth):
    return I(it.p.types[fn.args[0]]["size"])


@model("mem.drop", "mem.forget")
def m_memdrop(it, fn, args, mem, pc, pth):
    h = getattr(it.models, "on_memdrop", None)
    if h:
        h(it, fn, args, mem, pc)
    return UNIT


@model("mem.swap")
def m_swap(it, fn, args, mem, pc, pth):
    mem = mem.copy()
    a, b = it.load(mem, args[0]), it.load(mem, args[1])
    it.store(mem, args[0], b)
    it.store(mem, args[1], a)
    return UNIT, mem, pc


@model("mem.replace", "mem.take")
def m_replace(it, fn, args, mem, pc, pth):
    if len(args) < 2:
        return NotImplemented
    mem = mem.copy()
    old = it.load(mem, args[0])
    it.store(mem, args[0], args[1])
    return old, mem, pc


def intrinsic(it, fn, args, mem, pc, pth):
    n = fn.intr
    if n in ("size_of",):
        return I(it.p.types[fn.args[0]]["size"])
    if n == "saturating_sub":
        return satsub(*args)
    if n in FFUN1 + FFUN2:
        w = it.p.types[fn.args[0]]["w"] if fn.args else 64
        return ffun({"fabs": "abs"}.get(n, n), w, *args)
    if n in ("integer_min", "integer_max"):
        return (imin if n.endswith("min") else imax)(*args)
    if n.startswith("minimum_number_nsz"):
        return ffun("min", int(n[-2:]), *args)
    if n.startswith("maximum_number_nsz"):
        return ffun("max", int(n[-2:]), *args)
    if n == "transmute":
        return transmute(it.p, it.p.types[fn.args[0]], it.p.types[fn.args[1]], args[0]) if len(fn.args) > 1 else args[0]
    if n == "cold_path":
        return UNIT
    if n == "ctpop" and args[0].op == "i" and args[0].a[0] >= 0:
        return I(bin(args[0].a[0]).count("1"))
    if n == "is_val_statically_known":
        return FALSE
    return NotImplemented


# ---------------------------------------------------------------- threads, channels
@model("rayon_core.scope.scope", "rayon_core.rayon_core.scope", "crossbeam_utils.thread.scope", "std.thread.scope", "rayon_core.rayon_core.join", "rayon_core.join.join")
def m_scope(it, fn, args, mem, pc, pth):
    if fn.key[1] == "join":
        r = it.apply(args[0], [], mem, pc, path(pth, "j0"))
        if r is None:
            return None
        a, m, c = r
        r = it.apply(args[1], [], m, c, path(pth, "j1"))
        if r is None:
            return None
        return tup(a, r[0]), r[1], r[2]
    s = ref(cell("val", raw("scope", fn.crate)))
    r = it.apply(args[0], [s], mem, pc, path(pth, "scope"))
    if r is None:
        return None
    v, m, c = r
    if fn.crate == "crossbeam_utils":
        p = atom(raw("panicked", "scope"))
        return ite(p, ERR(raw("panic-payload")), OK(v)), m, c
    return v, m, c


@model("rayon_core.Scope.spawn", "crossbeam_utils.Scope.spawn", "std.Scope.spawn")
def m_spawn(it, fn, args, mem, pc, pth):
    s = args[0]
    old = it.thread
    it.thread = path(pth, "thread")
    try:
        n = [] if fn.crate == "std" else [s]
        r = it.apply(args[1], n, mem, pc, path(pth, "spawn"))
    finally:
        it.thread = old
    if r is None:
        return None
    v, m, c = r
    if fn.crate == "rayon_core":
        return UNIT, m, c
    return raw("agg", "joinhandle", 0, v), m, c


@model("crossbeam_utils.ScopedJoinHandle.join", "std.ScopedJoinHandle.join")
def m_join(it, fn, args, mem, pc, pth):
    h = args[0]
    p = atom(raw("panicked", "thread"))
    return ite(p, ERR(raw("panic-payload")), OK(fld(h, 0, 0)))


@model("crossbeam_channel.channel.bounded", "crossbeam_channel.channel.unbounded")
def m_bounded(it, fn, args, mem, pc, pth):
    it.oblige("channel", (pth, 0, it.line, it.stack[-1].short()), pc, *(args or []))
    ch = raw("chan", pth)
    return tup(raw("tx", ch), raw("rx", ch))


def counter(it, mem, *key):
    c = cell("ctr", *key)
    v = mem.get(c)
    return c, (v if v is not None else default_of(c))


@model("crossbeam_channel.Sender.send", "crossbeam_channel.Sender.try_send", "crossbeam_channel.Sender.send_timeout")
def m_send(it, fn, args, mem, pc, pth):
    mem = mem.copy()
    ch = it.content(mem, args[0])
    c, n = counter(it, mem, "send", ch)
    mem[c] = add(n, ONE)
    it.event("send", pth, pc, ch, n, it.content(mem, args[1]))
    return ite(atom(raw("disconnected", ch, n)), ERR(agg("SendError", 0, args[1])), OK(UNIT)), mem, pc


@model("crossbeam_channel.SendError.into_inner")
def m_into_inner(it, fn, args, mem, pc, pth):
    return fld(args[0], 0, 0)


@model("crossbeam_channel.Receiver.recv", "crossbeam_channel.Receiver.try_recv", "crossbeam_channel.Receiver.recv_timeout")
def m_recv(it, fn, args, mem, pc, pth):
    mem = mem.copy()
    ch = it.content(mem, args[0])
    c, n = counter(it, mem, "recv", ch)
    mem[c] = add(n, ONE)
    it.event(fn.key[1], pth, pc, ch, n)
    return ite(atom(raw("closed", ch, n)), ERR(raw("recverr")), OK(raw("msg", ch, n))), mem, pc


@model("rayon_core.rayon_core.current_num_threads", "rayon_core.registry.current_num_threads")
def m_threads(it, fn, args, mem, pc, pth):
    t = raw("threads")
    nonneg.add(t)
    return t


@model("__is_feature_detected.avx2", "std_detect.__is_feature_detected.avx2")
def m_avx2(it, fn, args, mem, pc, pth):
    return atom(raw("cpu", "avx2"))


for _f in ("avx", "sse2", "sse41", "sse4_1", "ssse3", "fma", "avx512f", "sse42", "sse4_2"):
    def _mk(n):
        def f(it, fn, args, mem, pc, pth):
            return atom(raw("cpu", n))
        return f
    TABLE[("", "__is_feature_detected", _f)] = _mk(_f)


# ---------------------------------------------------------------- the harness' own opaque parts
def h_read(it, fn, args, mem, pc, pth):
    mem = mem.copy()
    d = args[0]
    c, n = counter(it, mem, "read", d)
    mem[c] = add(n, ONE)
    w = it.p.types[fn.args[0]]["w"]
    it.event("read", pth, pc, d, n, w)
    fr = raw("frame", d, n, w)
    return ite(atom(raw("hasframe", d, n)), SOME(fr), NONE), mem, pc


def h_depth(it, fn, args, mem, pc, pth):
    t = raw("depth", args[0])
    nonneg.add(t)
    return t


def h_details(it, fn, args, mem, pc, pth):
    return raw("details", args[0])


def h_progress(it, fn, args, mem, pc, pth):
    mem = mem.copy()
    c, n = counter(it, mem, "progress")
    mem[c] = add(n, ONE)
    it.event("progress", pth, pc, n, args[0])
    return UNIT, mem, pc


HARNESS = {"opaque_read": h_read, "opaque_depth": h_depth, "opaque_details": h_details, "opaque_progress": h_progress}


# ---------------------------------------------------------------- AVX2
def lanes(n, f):
    return agg("arr", 0, *[f(i) for i in range(n)])


def lane(v, i):
    return sel(v, I(i))


def mask_cond(bits):
    """condition that the sign bit of a 32 bit lane is set"""
    def f(t):
        if t.op == "i":
            return B(t.a[0] >> 31 & 1)
        return atom(raw("signbit", t))

    return lift(f, bits)


def vload(it, p, n, ew, mem, pc, pth, name):
    """n elements of ew bits read through pointer p"""
    site = (pth, 0, it.line, it.stack[-1].short())
    refs = p if p.op in ("ref", "ite") else it.as_ref(p)

    def f(r):
        if r.op != "ref":
            r = it.as_ref(r)
        base = ref(*[x for x in r.a if not (x.op in ("pp", "pc"))])
        seq = it.load(mem, base)
        it.oblige("unsafe-load", site + (name,), pc, I(n), length(seq), seq)
        return lanes(n, lambda i: sel(seq, I(i)))

    return lift(f, refs)


def avx(it, fn, args, mem, pc, pth):
    n = fn.key[1]
    fa = lambda f: lanes(8, f)
    if n in ("_mm256_set1_ps", "_mm256_set1_epi32"):
        x = args[0]
        if n.endswith("ps"):
            x = tobits(32, x)
        elif x.op == "i":
            x = I(x.a[0] & 0xFFFFFFFF)
        return fa(lambda i: x)
    if n == "_mm256_setr_ps":
        return agg("arr", 0, *[tobits(32, x) for x in args])
    if n == "_mm256_set_ps":
        return agg("arr", 0, *[tobits(32, x) for x in reversed(args)])
    if n in ("_mm256_add_ps", "_mm256_sub_ps", "_mm256_mul_ps", "_mm256_div_ps", "_mm256_min_ps", "_mm256_max_ps"):
        op = {"add": fadd, "sub": fsub, "mul": fmul, "div": fdiv}.get(n[7:10])
        if op is None:
            return fa(lambda i: raw("tobits", 32, raw("vfun", n, frombits(32, lane(args[0], i)), frombits(32, lane(args[1], i)))))
        return fa(lambda i: tobits(32, op(32, frombits(32, lane(args[0], i)), frombits(32, lane(args[1], i)))))
    if n in ("_mm256_sqrt_ps",):
        return fa(lambda i: tobits(32, ffun("sqrt", 32, frombits(32, lane(args[0], i)))))
    if n in ("_mm256_castps_si256", "_mm256_castsi256_ps"):
        return args[0]
    if n in ("_mm256_and_ps", "_mm256_and_si256"):
        return fa(lambda i: bitand(lane(args[0], i), lane(args[1], i)))
    if n in ("_mm256_or_ps", "_mm256_or_si256"):
        return fa(lambda i: binop("BitOr", lane(args[0], i), lane(args[1], i), {"k": "int", "w": 32, "s": 0}))
    if n == "_mm256_add_epi32":
        return fa(lambda i: wrap32(add(lane(args[0], i), lane(args[1], i))))
    if n == "_mm256_sub_epi32":
        return fa(lambda i: wrap32(sub(lane(args[0], i), lane(args[1], i))))
    if n in ("_mm256_srli_epi32", "_mm256_slli_epi32"):
        k = it.const_generic(fn, 0)
        if k is None:
            return NotImplemented
        if n == "_mm256_srli_epi32":
            return fa(lambda i: idiv(lane(args[0], i), I(1 << k)))
        return fa(lambda i: wrap32(mul(lane(args[0], i), I(1 << k))))
    if n == "_mm256_cvtepi32_ps":
        # lanes hold two's complement bits; small non-negative values convert exactly
        return fa(lambda i: tobits(32, i2f(32, signed32(lane(args[0], i)))))
    if n in ("_mm256_cvtepu8_epi32", "_mm256_cvtepu16_epi32"):
        return fa(lambda i: lane(args[0], i))
    if n == "_mm256_permutevar8x32_ps" or n == "_mm256_permutevar8x32_epi32":
        t, ix = args
        return fa(lambda i: seltab(t, 8, lane(ix, i)))
    if n == "_mm256_blendv_ps":
        a, b, m = args
        return fa(lambda i: ite(mask_cond(lane(m, i)), lane(b, i), lane(a, i)))
    if n == "_mm256_cmp_ps":
        k = it.const_generic(fn, 0)
        a, b = args

        def c(i):
            x, y = frombits(32, lane(a, i)), frombits(32, lane(b, i))
            if k in (0x1E, 0x0E):
                r = flt(y, x)
            elif k in (0x11, 0x01):
                r = flt(x, y)
            elif k in (0x1D, 0x0D):
                r = fle(y, x)
            elif k in (0x12, 0x02):
                r = fle(x, y)
            else:
                r = atom(raw("vcmp", k, x, y))
            return ite(r, I(0xFFFFFFFF), ZERO)

        return fa(c)
    if n == "_mm_loadu_si128" or n == "_mm_loadl_epi64" or n == "_mm_cvtsi32_si128" or n == "_mm_loadu_si64" or n == "_mm_loadu_si32":
        return NotImplemented if n == "_mm_cvtsi32_si128" and args[0].op not in ("ref", "agg") else vloadn(it, fn, args, mem, pc, pth)
    if n in ("_mm_unpacklo_epi8", "_mm_unpacklo_epi16"):
        a, b = args
        w = min(vlen(a), vlen(b))
        out = []
        for i in range(w):
            out += [lane(a, i), lane(b, i)]
        return agg("arr", 0, *out)
    return NotImplemented


def vlen(t):
    return len(t.a) - 2 if t.op == "agg" else 8


def vloadn(it, fn, args, mem, pc, pth):
    n = fn.key[1]
    p = args[0]
    if n == "_mm_cvtsi32_si128":
        return p
    nbytes = {"_mm_loadu_si128": 16, "_mm_loadl_epi64": 8, "_mm_loadu_si64": 8, "_mm_loadu_si32": 4}[n]
    ew = it.elem_width(mem, p)
    if ew is None:
        return NotImplemented
    return vload(it, p, nbytes // ew, ew * 8, mem, pc, pth, n)


def wrap32(x):
    if x.op == "i":
        return I(x.a[0] & 0xFFFFFFFF)
    u = ub(x)
    if u is not None and is_nonneg(x) and u < 1 << 32:
        return x
    return icast(x, {"k": "int", "w": 64, "s": 1}, {"w": 32, "s": 0})


def signed32(x):
    if x.op == "i":
        return I(x.a[0] - (1 << 32) if x.a[0] >= 1 << 31 else x.a[0])
    u = ub(x)
    if u is not None and u < 1 << 31:
        return x
    return icast(x, {"k": "int", "w": 32, "s": 0}, {"w": 32, "s": 1})
