"""Reading a specific frame: which frame is given, and how far the video is read for it."""
from ctx import *
from rules_cli import Straight
from rules_y4m import adt, variant
import rules_ff as rff

FAR = tuple(1 << k for k in (8, 16, 32)) + ((1 << 64) - 1,)


class Video(Models):
    """a video of so many frames, given one by one"""

    def __init__(self, p, length):
        super().__init__()
        self.length = length
        self.reads = []
        self.space = variant(adt(p, "y4m::Colorspace", True), "C444")

    def logs(self):
        return (self.reads,)

    def read(self):
        k = len(self.reads)
        self.reads.append(k)
        return raw("frame", I(k)) if k < self.length else None

    def dispatch(self, it, fn, args, mem, pc, pth):
        r = None
        if fn.crate == "vharness" and fn.key[1] == "opaque_read":
            f = self.read()
            r = NONE if f is None else SOME(f)
        elif fn.crate == "y4m":
            if fn.key[1] == "read_frame":
                f = self.read()
                r = ERR(raw("error", "eof")) if f is None else OK(f)
            elif fn.key[1] == "get_colorspace":
                r = agg("Colorspace", self.space)
            elif fn.key[1] == "get_bit_depth":
                r = I(8)
            elif fn.key[1] == "get_bytes_per_sample":
                r = ONE
        return super().dispatch(it, fn, args, mem, pc, pth) if r is None else (r, mem, pc)


ROOTS = {"any decoder": "vharness::specific_", "the y4m decoder": "vharness::r_y4m::specific_"}


class Reader:
    def __init__(self, which, w, length):
        self.p = p = prog()
        name = ROOTS[which] + w
        if name not in p.roots:
            raise Finding("anchor", name, "this entry point no longer exists")
        self.f = p.root(name)
        self.which, self.length = which, length
        self.m = Video(p, length)
        self.it = Straight(p, self.m, opaque=[f.id for f in p.fns if f.crate == "v_frame" and f.key[1] == "new_with_padding"])
        self.mem = Mem()
        self.d = ref(cell("dec", sym("decoder")))

    def specific(self, n):
        """(index of the frame given or None, frames tried to read)"""
        before = len(self.m.reads)
        at = f"{self.which}, {self.length} frames, {n} asked for"
        try:
            r = self.it.inline(self.f, [self.d, I(n)], self.mem, TRUE, 0)
        except Unsupported as e:
            where = " < ".join(x.short() for x in self.it.stack[-3:][::-1])
            raise Finding("not-understood", where or self.f.short(), f"the analysis cannot follow this code: {e} ({at})")
        if r is None:
            raise Finding("never-returns", self.f.short(), f"never returns ({at})")
        v, self.mem, _ = r
        if not (v.op == "agg" and v.a[1] in (0, 1)):
            raise Finding("not-understood", self.f.short(), f"reading gives {brief(v)} ({at})")
        got = sorted({x.a[0].a[0] for x in subterms(v) if x.op == "frame" and x.a[0].op == "i"}) if v.a[1] == 1 else None
        return got, len(self.m.reads) - before


def specific(rep, which, w, lengths, numbers):
    for length in lengths:
        for first in numbers:
            for second in (0,) if first in FAR else numbers:
                r = Reader(which, w, length)
                at = 0
                for n in (first, second):
                    got, reads = r.specific(n)
                    there = at + n < length
                    where = r.f.short()
                    ctx = f"({which}; {length} frames, {at} of them read)"
                    rep.check(got == ([at + n] if there else None), "frame", where, f"frame {n} asked for: {'the end' if got is None else got} instead of {at + n if there else 'the end'} {ctx}")
                    most = n + 1 if there else max(length - at, 0) + 1
                    rep.check(reads <= most, "reads", where, f"frame {n} asked for: {reads} frames are read instead of {most} {ctx}")
                    at += reads
                    if at > length:
                        break
                rep.count("pairs of requests")
    rep.sample({"decoder": which, "lengths": list(lengths), "frames asked for": list(numbers)})


def through_ffmpeg(rep, length, numbers):
    """the same for the decoder that uses FFmpeg"""
    for first in numbers:
        for second in (0,) if first in FAR else numbers:
            s = rff.Session("YUV420P", ("one",) * length)
            d = s.decoder()
            where = s.fn("specific_u8").short()
            at = 0
            for n in (first, second):
                v = s.call("specific_u8", [d, I(n)])
                if not (v.op == "agg" and v.a[1] in (0, 1)):
                    raise Finding("not-understood", where, f"reading gives {brief(v)} ({s.m})")
                got = sorted({x.a[0].a[0].a[0] for x in subterms(v) if x.op == "data" and x.a[0].op == "frame"}) if v.a[1] == 1 else None
                there = at + n < length
                rep.check(got == ([at + n] if there else None), "frame", where, f"frame {n} asked for: {'the end' if got is None else got} instead of {at + n if there else 'the end'} ({length} frames, {at} of them read)")
                if not there:
                    break
                rep.check(s.m.received == at + n + 1, "reads", where, f"frame {n} asked for: {s.m.received - at} frames are read instead of {n + 1} ({length} frames, {at} of them read)")
                at = s.m.received
            rep.count("pairs of requests")
    rep.sample({"decoder": "FFmpeg", "length": length, "frames asked for": list(numbers)})


def tasks(tier):
    n = 5 if tier == "quick" else 9
    numbers = (0, 1, 2, 3, n) + FAR
    return [(specific, (d, w, (k,), numbers)) for d in ROOTS for w in ("u8", "u16") for k in range(n) if d == "any decoder" or w == "u8"] + [(through_ffmpeg, (k, numbers)) for k in range(n)]
