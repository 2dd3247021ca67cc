"""Rules on the decoder that uses FFmpeg: what a stream's parameters mean, which frames are given, and their samples."""
import itertools

from ctx import *
from rules_cli import Straight
import rules_y4m as ry
from rules_y4m import adt, ge0, member, variant

# pixel format: sampling, siting, depth
FORMATS = {}
for _d, _end in ((8, ""), (10, "10LE"), (12, "12LE")):
    for _n in ("420", "422", "444"):
        FORMATS[f"YUV{_n}P{_end}"] = (f"Cs{_n}", "Vertical" if _n == "422" else "Colocated", _d)
        if _d == 8:
            FORMATS[f"YUVJ{_n}P"] = (f"Cs{_n}", "Colocated", _d)

W, H, NUM, DEN, INDEX = (sym(x) for x in ("width", "height", "rate.num", "rate.den", "stream index"))
nonneg.update((W, H, NUM, DEN, INDEX))
OPENING = ("init", "input", "best", "from_parameters", "video", "set_parameters")
KINDS = ("one", "none", "late", "two", "bad", "before", "after", "unread")
ELSEWHERE = {"before": I(-1), "after": I(1)}
CRATE = "ffmpeg_the_third"


class Library(Models):
    """FFmpeg, given the packets of a file and what the codec makes of them

    one: a packet that gives a frame; two: a packet that gives two; none: a packet that gives none;
    late: a packet whose frame is held back until the end; bad: one that the codec refuses;
    before, after: a packet of another stream, before or after the chosen one; unread: an error while reading"""

    def __init__(self, p, fmt="YUV420P", script=(), fails=None):
        super().__init__()
        self.p, self.fmt, self.script, self.fails = p, fmt, script, fails
        self.taken = 0
        self.sent = []  # packets given to the codec, in order
        self.ready, self.held = [], []
        self.received = 0
        self.made = 0
        self.ended = False
        self.fresh = None  # the packet last read
        self.problems = []

    def logs(self):
        return (self.sent, self.problems)

    def dispatch(self, it, fn, args, mem, pc, pth):
        if fn.crate == CRATE:
            h = getattr(self, "f_" + fn.key[1], None)
            if h is not None:
                r = h(it, fn, args, mem, pc)
                return (r, mem, pc) if type(r) is T else r
        return super().dispatch(it, fn, args, mem, pc, pth)

    def answer(self, what, v):
        return ERR(raw("error", what)) if self.fails == what else OK(v)

    # opening
    def f_init(self, it, fn, args, mem, pc):
        return self.answer("init", UNIT)

    def f_input(self, it, fn, args, mem, pc):
        if fn.key[0] != "format":
            return it.opaque_call(fn, args, mem, pc)
        return self.answer("input", raw("file", it.content(mem, args[0])))

    def f_eq(self, it, fn, args, mem, pc):
        a, b = (it.content(mem, x) for x in args)
        if a.op == b.op == "agg" and a.a[0] == b.a[0] and len(a.a) == len(b.a) == 2:
            return B((a.a[1] == b.a[1]) == (fn.key[1] == "eq"))
        return it.opaque_call(fn, args, mem, pc)

    f_ne = f_eq

    def f_deref(self, it, fn, args, mem, pc):
        return args[0]

    f_deref_mut = f_deref

    def f_streams(self, it, fn, args, mem, pc):
        return raw("streams", it.content(mem, args[0]))

    def f_best(self, it, fn, args, mem, pc):
        kind = args[1]
        t = adt(self.p, "::Type", True)
        if not (kind.op == "agg" and kind.a[1] == variant(t, "Video")):
            self.problems.append(f"the stream asked for is {brief(kind)}, not the video")
        return NONE if self.fails == "best" else SOME(raw("best", it.content(mem, args[0])))

    def f_index(self, it, fn, args, mem, pc):
        return INDEX if it.content(mem, args[0]).op == "best" else it.opaque_call(fn, args, mem, pc)

    def f_parameters(self, it, fn, args, mem, pc):
        return raw("parameters", it.content(mem, args[0]))

    def f_from_parameters(self, it, fn, args, mem, pc):
        return self.answer("from_parameters", raw("context", *[it.content(mem, a) for a in args]))

    def f_decoder(self, it, fn, args, mem, pc):
        return raw("decoder", it.content(mem, args[0]))

    def f_video(self, it, fn, args, mem, pc):
        return self.answer("video", raw("codec", it.content(mem, args[0])))

    def f_set_parameters(self, it, fn, args, mem, pc):
        return self.answer("set_parameters", UNIT)

    def f_avg_frame_rate(self, it, fn, args, mem, pc):
        return raw("frame rate", it.content(mem, args[0]))

    def f_numerator(self, it, fn, args, mem, pc):
        return NUM if it.content(mem, args[0]).op == "frame rate" else it.opaque_call(fn, args, mem, pc)

    def f_denominator(self, it, fn, args, mem, pc):
        return DEN if it.content(mem, args[0]).op == "frame rate" else it.opaque_call(fn, args, mem, pc)

    def of(self, it, mem, a, what, v, fn, args, pc):
        x = it.content(mem, a)
        return v if x.op == what or x.op == "frame" else it.opaque_call(fn, args, mem, pc)

    def f_width(self, it, fn, args, mem, pc):
        return self.of(it, mem, args[0], "codec", W, fn, args, pc)

    def f_height(self, it, fn, args, mem, pc):
        return self.of(it, mem, args[0], "codec", H, fn, args, pc)

    def f_format(self, it, fn, args, mem, pc):
        t = adt(self.p, "pixel::Pixel", True)
        return self.of(it, mem, args[0], "codec", agg(t["def"], variant(t, self.fmt)), fn, args, pc)

    # reading
    def f_packets(self, it, fn, args, mem, pc):
        return raw("packets", it.content(mem, args[0]))

    def f_next(self, it, fn, args, mem, pc):
        k = self.taken
        if k > len(self.script) + 60:
            raise Finding("endless", it.stack[-1].short(), f"packets are asked for without end ({self})")
        self.taken += 1
        if self.fresh is not None:
            self.problems.append(f"packet {self.fresh} is read and never given to the codec")
        self.fresh = None
        if k >= len(self.script):
            return NONE
        if self.script[k] == "unread":
            return SOME(ERR(raw("error", "reading")))
        if self.script[k] not in ELSEWHERE:
            self.fresh = k
        return SOME(OK(tup(raw("stream of", I(k)), raw("packet", I(k)))))

    def packet(self, it, mem, a):
        x = it.content(mem, a)
        return int(x.a[0].a[0]) if x.op == "packet" else None

    def f_stream(self, it, fn, args, mem, pc):
        k = self.packet(it, mem, args[0])
        if k is None:
            return ZERO if it.content(mem, args[0]).op == "no packet" else it.opaque_call(fn, args, mem, pc)
        return add(INDEX, ELSEWHERE.get(self.script[k], ZERO))

    def f_empty(self, it, fn, args, mem, pc):
        if fn.key[0] != "Packet":
            return raw("frame", sym("blank"))
        return raw("no packet")

    def f_set_pts(self, it, fn, args, mem, pc):
        return UNIT

    f_set_dts = f_set_duration = f_set_position = f_set_pts

    def f_send_packet(self, it, fn, args, mem, pc):
        k = self.packet(it, mem, args[1])
        if it.content(mem, args[0]).op != "codec":
            return it.opaque_call(fn, args, mem, pc)
        if k is None:
            if it.content(mem, args[1]).op == "no packet":
                return self.f_send_eof(it, fn, args, mem, pc)
            return it.opaque_call(fn, args, mem, pc)
        what = self.script[k]
        if what in ELSEWHERE:
            self.problems.append(f"packet {k}, of another stream, is given to the codec")
        if k in self.sent:
            self.problems.append(f"packet {k} is given to the codec twice")
        elif self.sent and k < self.sent[-1]:
            self.problems.append(f"packet {k} is given to the codec after packet {self.sent[-1]}")
        if self.fresh == k:
            self.fresh = None
        self.sent.append(k)
        if self.ended:
            self.problems.append(f"packet {k} is given to the codec after the end")
        if what == "bad":
            return ERR(raw("error", "codec"))
        for _ in range({"one": 1, "two": 2, "late": 1}.get(what, 0)):
            (self.held if what == "late" else self.ready).append(self.made)
            self.made += 1
        return OK(UNIT)

    def f_send_eof(self, it, fn, args, mem, pc):
        if it.content(mem, args[0]).op != "codec":
            return it.opaque_call(fn, args, mem, pc)
        if self.ended:
            return ERR(raw("error", "eof"))
        if self.taken <= len(self.script):
            self.problems.append(f"the codec is told that the video ends when {self.taken} of {len(self.script)} packets are read")
        self.ended = True
        self.ready += self.held
        return OK(UNIT)

    def f_receive_frame(self, it, fn, args, mem, pc):
        if it.content(mem, args[0]).op != "codec":
            return it.opaque_call(fn, args, mem, pc)
        if not self.ready:
            return ERR(raw("error", "eof" if self.ended else "again"))
        k = self.ready.pop(0)
        mem = mem.copy()
        it.store(mem, args[1], raw("frame", I(k)))
        self.received += 1
        return OK(UNIT), mem, pc

    def f_new(self, it, fn, args, mem, pc):
        return raw("frame", sym("blank"))

    def f_data(self, it, fn, args, mem, pc):
        return ref(cell("val", raw("data", it.content(mem, args[0]), args[1])))

    def f_stride(self, it, fn, args, mem, pc):
        s = raw("stride", it.content(mem, args[0]), args[1])
        nonneg.add(s)
        return s

    def __str__(self):
        return f"{self.fmt}, packets: {' '.join(self.script) or 'none'}"


class Session:
    """opening a file and reading its frames"""

    def __init__(self, fmt="YUV420P", script=(), fails=None):
        self.p = p = prog("ff")
        self.m = Library(p, fmt, script, fails)
        self.it = Straight(p, self.m, opaque=[f.id for f in p.fns if f.crate == "v_frame" and f.key[1] == "new_with_padding"])
        self.mem, self.pc = Mem(), TRUE
        self.v = self.call("open", [ref(cell("val", sym("path")))])

    def fn(self, name):
        n = "vharness::r_ffmpeg::" + name
        if n not in self.p.roots:
            raise Finding("anchor", n, "this entry point no longer exists")
        return self.p.root(n)

    def call(self, name, args):
        f = self.fn(name)
        try:
            r = self.it.inline(f, args, self.mem, TRUE, 0)
        except Unsupported as e:
            where = " < ".join(x.short() for x in self.it.stack[-3:][::-1])
            raise Finding("not-understood", where or f.short(), f"the analysis cannot follow this code: {e} ({self.m})")
        if r is None:
            raise Finding("never-returns", f.short(), f"never returns ({self.m})")
        v, self.mem, self.pc = r
        return v

    def decoder(self):
        if not is_ok(self.v):
            raise Finding("opening", self.fn("open").short(), f"a file that FFmpeg opens gives {brief(self.v)} ({self.m})")
        d = self.v.a[2]
        c = cell("dec", sym("decoder"))
        self.self = ref(c)
        self.mem = self.mem.copy()
        self.it.store(self.mem, self.self, d)
        return self.self


# -------------------------------------------------------------------- opening
def opened(rep, fmt):
    """what the decoder says about the video is what the stream declares"""
    s = Session(fmt)
    d = s.decoder()
    sampling, siting, depth = FORMATS[fmt]
    p, where = s.p, s.fn("open").short()
    for x in s.m.problems:
        rep.fail("opening", where, x)
    v = s.call("details", [d])
    t, rational = adt(p, "VideoDetails"), adt(p, "video::decode::Rational") if any(x["k"] == "adt" and x["def"].endswith("video::decode::Rational") for x in p.types) else None
    if rational is None:
        rational = next(x for x in p.types if x["k"] == "adt" and x["def"].startswith("av_metrics") and x["def"].endswith("::Rational"))
    want = {
        "width": lambda x: x is W,
        "height": lambda x: x is H,
        "bit_depth": lambda x: x is I(depth),
        "chroma_sampling": lambda x: x.op == "agg" and x.a[1] == variant(adt(p, "ChromaSampling", True), sampling),
        "chroma_sample_position": lambda x: x.op == "agg" and x.a[1] == variant(adt(p, "ChromaSamplePosition", True), siting),
        "time_base": lambda x: member(rational, x, "num") is DEN and member(rational, x, "den") is NUM,
    }
    for n, ok in want.items():
        y = member(t, v, n)
        rep.check(ok(y), "details", where, f"for a stream of format {fmt}, {n} is {brief(y)}")
    y = s.call("depth", [d])
    rep.check(y is I(depth), "details", s.fn("depth").short(), f"for a stream of format {fmt}, the bit depth is {brief(y)}")
    rep.sample({"format": fmt, "sampling": sampling, "siting": siting, "depth": depth})


def refused(rep, part, parts):
    """other formats, and every failure of FFmpeg, are errors"""
    p = prog("ff")
    where = "vharness::r_ffmpeg::open"
    names = [v["n"] for v in adt(p, "pixel::Pixel", True)["v"] if v["n"] not in FORMATS]
    for n in names[part::parts]:
        s = Session(n)
        rep.check(is_err(s.v), "accepted", where, f"a stream of format {n}, which is read wrongly, is opened: {brief(s.v)}")
        rep.count("formats refused")
    if part == 0:
        for f in OPENING:
            s = Session(fails=f)
            rep.check(is_err(s.v), "accepted", where, f"{f} fails, and opening gives {brief(s.v)}")


# -------------------------------------------------------------------- which frames
def frames(rep, scripts, w="u8"):
    """every frame of the codec is given once, in order, and then there are no more"""
    for script in scripts:
        s = Session("YUV420P", script)
        d = s.decoder()
        where = s.fn("read_" + w).short()
        # in the order in which the codec releases them
        now = [n for n, k in enumerate(k for k in script for _ in range({"one": 1, "two": 2, "late": 1}.get(k, 0))) if k != "late"]
        late = [n for n, k in enumerate(k for k in script for _ in range({"one": 1, "two": 2, "late": 1}.get(k, 0))) if k == "late"]
        want = now + late
        got = []
        for i in range(len(want) + 3):
            v = s.call("read_" + w, [d])
            if not (v.op == "agg" and v.a[1] in (0, 1)):
                raise Finding("not-understood", where, f"reading gives {brief(v)} ({s.m})")
            if v.a[1] == 1:
                src = {x.a[0] for x in subterms(v) if x.op == "data"}
                got.append([x.a[0].a[0] if x.op == "frame" and x.a[0].op == "i" else brief(x) for x in src])
            else:
                got.append(None)
        rep.check(got == [[x] for x in want] + [None] * 3, "frames", where, f"frames {want} are decoded, and reading gives {got} ({s.m})")
        for x in s.m.problems:
            rep.fail("packets", where, f"{x} ({s.m})")
        rep.check(s.m.ended, "packets", where, f"the codec is never told that the video ends ({s.m})")
        rep.count("packet sequences")
    rep.sample({"packets": [" ".join(x) for x in scripts[:3]]})


def scripts(tier):
    out = []
    for n in range(4):
        out += list(itertools.product(KINDS, repeat=n))
    out += [("none",) * 6 + ("one",), ("before",) * 4 + ("after",) * 3 + ("late", "one"), ("unread",) * 3 + ("one",), ("bad",) * 5 + ("two", "before", "late", "none"), ("late",) * 5, ("one",) * 6, ("two",) * 3 + ("before", "after", "one")]
    return out


def tasks_frames(tier):
    a = scripts(tier)
    n = 16
    return [(frames, (a[i::n],)) for i in range(n)] + [(frames, ([(), ("one", "after", "late"), ("two", "one")], "u16"))]


# -------------------------------------------------------------------- their samples
class Given(ry.Given):
    """what is known of a decoded frame's rows and of a newly made frame's"""

    def __init__(self, p, news, sampling, depth):
        self.width, self.height, self.given = W, H, {}
        super().__init__(p, self, raw("no read"), news, sampling, depth)
        n = I(1 if depth == 8 else 2)
        self.source = [raw("data", raw("frame", ZERO), I(i)) for i in range(3)]
        self.rows = [raw("stride", raw("frame", ZERO), I(i)) for i in range(3)]
        for i in range(3):
            r = self.rows[i]
            nonneg.add(r)
            # a decoded plane has whole rows, none shorter than its samples
            self.m[raw("len", self.source[i])] = mul(r, self.dims[i][1])
            self.facts.append(ge0(sub(r, mul(self.dims[i][0], n))))


def at_row(src, row, bytes_, x, y):
    at = add(mul(y, row), mul(x, I(bytes_)))
    if bytes_ == 1:
        return sel(src, at)
    return lincomb((1, sel(src, at)), (256, sel(src, add(at, ONE))))


def samples(rep, w, fmt):
    """samples are those of the decoded planes, whatever lies between their rows"""
    sampling, siting, depth = FORMATS[fmt]
    s = Session(fmt, ("one",))
    p, d = s.p, s.decoder()
    where = s.fn("read_" + w).short()
    v = s.call("read_" + w, [d])
    if not (v.op == "agg" and v.a[1] == 1):
        raise Finding("samples", where, f"a decoded frame gives {brief(v)}")
    f = v.a[2]
    news = {x for x in subterms(f) if ry.is_new(x)}
    for n in news:
        a = n.a[1:]
        rep.check(a[:2] == (W, H) and a[2].op == "agg" and a[2].a[1] == variant(adt(p, "ChromaSampling", True), sampling) and a[3] is ZERO, "dimensions", where, f"the frame made for a {fmt} stream is {brief(n)}")
    if len(news) != 1:
        raise Finding("not-understood", where, f"{len(news)} frames are allocated for one frame read")
    g = Given(p, news, sampling, depth)
    slots = ry.slotwise(g.explode(f), g.shape.term)
    n = 1 if depth == 8 else 2
    for i in range(3):
        for j in range(len(g.shape.cfg[i])):
            rep.check(slots[(0, i, 1, j)] is g.shape.cfg[i][j], "dimensions", where, f"field {j} of plane {i}'s configuration is changed after the frame was made")
        t = g(slots[(0, i, 0, "raw")])
        width = g.dims[i][0]

        def wanted(x, y, i=i, width=width):
            at = lambda x: at_row(g.source[i], g.rows[i], n, x, y)
            if i and siting == "Vertical":
                return ry.filtered(at, width, depth, x)
            return at(x)

        ry.plane_from(rep, where, f"plane {i} of {fmt} read as {w}", t, (g.stride[i], g.shape.data[i]), g.dims[i], g.facts, wanted)
    rep.sample({"entry": where, "format": fmt, "planes": 3, "bytes": n})


def total(rep, w, fmt):
    """no decoded frame makes reading it panic"""
    sampling, siting, depth = FORMATS[fmt]
    s = Session(fmt, ("one",))
    d = s.decoder()
    before = set(s.it.obligations)
    where = s.fn("read_" + w).short()
    v = s.call("read_" + w, [d])
    news = {x for x in subterms(v) if ry.is_new(x)}
    g = Given(s.p, news, sampling, depth)
    for k in before:
        s.it.obligations.pop(k, None)
    ry.safe(rep, s.it, lambda t: g(g.explode(t)), g.facts, f"when {fmt} is read as {w}")
    rep.sample({"entry": where, "format": fmt, "pixels": w})
