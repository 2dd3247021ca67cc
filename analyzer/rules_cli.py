"""The command line tool (C27-C30): `main` is evaluated on command lines whose options, file count
and library results are given, with clap, the file system and the formatting machinery replaced
by what they do to a value. What every output has been given when `main` returns, and what `main`
returns, is then compared with what the option's name and the report's columns promise."""
import json
import re

from ctx import *
import terms as T_

TOOL = "av_metrics_tool"
MAIN = TOOL + "::main"
METRICS = {  # name on the command line -> (library function, label of the text report)
    "psnr": ("calculate_video_psnr", "PSNR"),
    "apsnr": ("calculate_video_apsnr", "APSNR"),
    "psnrhvs": ("calculate_video_psnr_hvs", "PSNR HVS"),
    "ssim": ("calculate_video_ssim", "SSIM"),
    "msssim": ("calculate_video_msssim", "MSSSIM"),
    "ciede2000": ("calculate_video_ciede", "CIEDE2000"),
}
COLUMN = {"psnr": "psnr", "apsnr": "apsnr", "psnrhvs": "psnr_hvs", "ssim": "ssim", "msssim": "msssim", "ciede2000": "ciede2000"}
OUTS = {"export-file": "text", "export-json": "json", "export-csv": "csv", "export-markdown": "markdown"}
PARTS = ("y", "u", "v", "avg")


class Case:
    """a command line, and how the library and the system answer"""

    def __init__(self, files=1, metric=None, outs=(), quiet=True, frames=False, attended=False, fails=(), io=None, unreadable=None):
        fails = tuple((n, i) for f in fails for n, i in ([f] if type(f) is tuple else [(f, i) for i in range(files)]))
        self.files, self.metric, self.outs, self.quiet = files, metric, tuple(outs), quiet
        self.frames, self.attended, self.fails, self.io, self.unreadable = frames, attended, tuple(fails), io, unreadable

    def __str__(self):
        o = [f"--metric {self.metric}"] if self.metric else []
        o += [f"--{x} FILE" for x in self.outs] + ["--quiet"] * self.quiet + ["--frames"] * self.frames
        s = f"{self.files} file{'s' * (self.files > 1)}" + (", " + " ".join(o) if o else "")
        if self.attended:
            s += ", at a terminal"
        if self.fails:
            s += ", where " + ", ".join(f"{n} on FILES[{i}]" for n, i in self.fails) + " fail"
        if self.io:
            s += f", where {' '.join(map(str, self.io))} fails"
        if self.unreadable is not None:
            s += f", where {self.unreadable} cannot be opened"
        return s


def path_of(i):
    return raw("path", "BASE" if i < 0 else f"FILES[{i}]")


def result_of(name, i):
    """what the library finds for the i-th file"""
    if name == "ciede2000":
        return sym(f"{name} of FILES[{i}]")
    return agg("av_metrics::video::PlanarMetrics", 0, *[sym(f"{name}.{p} of FILES[{i}]") for p in PARTS])


def S(text):
    return raw("str", text)


def piece(*a):
    return raw("piece", *a)


def shown(v):
    return piece("display", v, 0, None, None)


def decode(template, args):
    """the pieces of a `format_args!`"""
    if template.op == "str":
        return [S(template.a[0])]
    b = [as_int(x) for x in (template.a[2:] if template.op == "agg" else template.a)]
    if any(x is None for x in b):
        raise Finding("format", MAIN, "a format string that is not a constant")
    out, lit, i, n = [], bytearray(), 0, 0

    def le(k):
        nonlocal i
        v = int.from_bytes(bytes(b[i : i + k]), "little")
        i += k
        return v

    def flush():
        if lit:
            out.append(S(lit.decode()))
            lit.clear()

    while b[i]:
        c = b[i]
        i += 1
        if c < 128:
            lit += bytes(b[i : i + c])
            i += c
        elif c == 128:
            k = le(2)
            lit += bytes(b[i : i + k])
            i += k
        else:
            flush()
            flags = le(4) if c & 1 else None
            width = le(2) if c & 2 else None
            prec = le(2) if c & 4 else None
            n = le(2) if c & 8 else n
            if n >= len(args):
                raise Finding("format", MAIN, "a format string without its argument")
            a = args[n]
            n += 1
            out.append(piece(a.a[0], a.a[1], flags or 0, width if not c & 16 else -1, prec if not c & 32 else -1))
    flush()
    return out


def as_int(x):
    return x.a[0] if x.op == "i" else None


def log(prev, pieces):
    return raw("log", prev, *pieces)


def unlog(l):
    out = []
    while l.op == "log":
        out[:0] = list(l.a[1:])
        l = l.a[0]
    return out


START = raw("start")


class Cli(Models):
    def __init__(self, case):
        super().__init__()
        self.case = case
        self.longs = {}
        self.states = []  # every state an output has been in
        self.printed = []  # what went to the terminal behind the outputs' back
        self.runs = []  # calls of the library's metrics
        self.opened = []
        self.ops = set()

    def logs(self):
        return (self.states, self.printed, self.runs, self.opened)

    # ---------------------------------------------------------------- dispatch
    def dispatch(self, it, fn, args, mem, pc, pth):
        k, m = fn.key
        h = getattr(self, f"x_{k}_{m}", None) or getattr(self, "y_" + m, None)
        if h is None:
            if fn.crate in ("clap_builder", "console", "indicatif"):
                h = getattr(self, "z_" + fn.crate, None)
        if h is None and (fn.crate == "av_metrics_decoders" or fn.key[0] == "Decoder" or any(fn.key[1] == f for f, _ in METRICS.values())):
            h = self.library
        if h is not None:
            r = h(it, fn, args, mem, pc, pth)
            if r is not NotImplemented:
                return (r, mem, pc) if type(r) is T else r
        return super().dispatch(it, fn, args, mem, pc, pth)

    # ---------------------------------------------------------------- the command line
    def z_clap_builder(self, it, fn, args, mem, pc, pth):
        k, m = fn.key
        if k in ("Iterator", "IntoIterator", "ExactSizeIterator"):
            return NotImplemented
        v = [it.content(mem, a) for a in args]
        if m == "get_one":
            return self.get_one(v)
        if m == "get_flag":
            o = self.option(v)
            if o in ("quiet", "frames"):
                return B(getattr(self.case, o))
            raise Finding("options", MAIN, f"the flag {show(v[1])} belongs to no option that is known here")
        if m == "contains_id":
            o = self.option(v)
            if o in ("quiet", "frames"):
                return TRUE  # a flag always has a value
            if o in (1, 2):
                return TRUE
            return B(bool(self.case.metric) if o == "metric" else o in self.case.outs)
        if m == "get_many":
            if self.option(v) != 2:
                raise Finding("options", MAIN, f"{show(v[1])} is not the list of files to compare")
            return SOME(mkiter(I(self.case.files), agg("d:val", 0, agg("arr", 0, *[ref(cell("val", path_of(i))) for i in range(self.case.files)]))))
        return raw("call", fn.short(), *v)

    def option(self, v):
        """the option or position an identifier stands for"""
        if not self.longs:
            for x in subterms(v[0]):
                if x.op == "call" and x.a[0] in ("clap::Arg::long", "clap::Arg::index"):
                    ids = [y for y in subterms(x) if y.op == "call" and y.a[0] == "clap::Arg::new"]
                    if len(ids) == 1 and x.a[2].op in ("str", "i"):
                        self.longs[ids[0].a[1]] = x.a[2].a[0]
            self.command = v[0]
        return self.longs.get(v[1])

    def get_one(self, v):
        o = self.option(v)
        if o == 1:
            return SOME(ref(cell("val", path_of(-1))))
        if o == "metric":
            return SOME(ref(cell("val", S(self.case.metric)))) if self.case.metric else NONE
        if o in OUTS:
            return SOME(ref(cell("val", raw("path", o)))) if o in self.case.outs else NONE
        raise Finding("options", MAIN, f"{show(v[1])} belongs to no option that is known here")

    # ---------------------------------------------------------------- strings
    def _same(self, it, fn, args, mem, pc, pth):
        v = it.load(mem, args[0])
        while v.op == "ref":
            v = it.load(mem, v)
        if v.op in ("str", "path", "text"):
            return v
        return NotImplemented

    x_ToOwned_to_owned = x_Clone_clone = x_From_from = x_ToString_to_string = x_String_clone = x_SpecToString_spec_to_string = x_Into_into = _same

    def _view(self, it, fn, args, mem, pc, pth):
        v = it.load(mem, args[0])
        return args[0] if v.op in ("str", "path", "text") else NotImplemented

    x_String_as_str = x_AsRef_as_ref = x_Deref_deref = x_str_as_ref = x_String_as_ref = _view

    def x_PartialEq_eq(self, it, fn, args, mem, pc, pth):
        v = [it.content(mem, a) for a in args]
        if all(x.op in ("str", "path", "text") for x in v):
            # two paths may or may not be the same
            return TRUE if v[0] is v[1] else FALSE if all(x.op == "str" for x in v) else atom(raw("same", *sorted(v, key=lambda z: z.id)))
        return NotImplemented

    def x_String_new(self, it, fn, args, mem, pc, pth):
        return raw("text")

    x_String_with_capacity = x_String_new

    def grow(self, it, mem, r, pieces):
        v = it.load(mem, r)
        if v.op not in ("text", "str", "path"):
            return NotImplemented
        mem = mem.copy()
        it.store(mem, r, raw("text", *(list(v.a) if v.op == "text" else [v] if v.op == "str" else [shown(v)]), *pieces))
        return mem

    def x_String_push_str(self, it, fn, args, mem, pc, pth):
        m = self.grow(it, mem, args[0], self.text(it, mem, args[1]))
        return m if m is NotImplemented else (UNIT, m, pc)

    def x_String_push(self, it, fn, args, mem, pc, pth):
        c = args[1]
        if c.op != "i":
            return NotImplemented
        m = self.grow(it, mem, args[0], [S(chr(c.a[0]))])
        return m if m is NotImplemented else (UNIT, m, pc)

    def x_Add_add(self, it, fn, args, mem, pc, pth):
        if args[0].op not in ("text", "str"):
            return NotImplemented
        return raw("text", *self.text(it, mem, ref(cell("val", args[0]))), *self.text(it, mem, args[1]))

    x_str_as_bytes = x_String_as_bytes = x_String_into_bytes = x_String_as_mut_str = x_String_into_boxed_str = lambda self, it, fn, args, mem, pc, pth: args[0]

    def x_Join_join(self, it, fn, args, mem, pc, pth):
        v = it.load(mem, args[0])
        n = length(v)
        if n.op != "i":
            return NotImplemented
        out = []
        for i in range(n.a[0]):
            if i and len(args) > 1:
                out += self.text(it, mem, args[1])
            out += self.text(it, mem, it.extend(args[0], px(I(i))))
        return raw("text", *out)

    x_slice_join = x_slice_concat = x_Concat_concat = x_Join_join

    # ---------------------------------------------------------------- the terminal
    def z_console(self, it, fn, args, mem, pc, pth):
        k, m = fn.key
        if m == "user_attended":
            return B(self.case.attended)
        if m == "style" or k == "StyledObject":
            return args[0]
        return NotImplemented

    def z_indicatif(self, it, fn, args, mem, pc, pth):
        if fn.key[1] == "template":
            return OK(args[0])
        return NotImplemented

    def _print(self, it, fn, args, mem, pc, pth):
        self.printed.append((fn.short(), it.stack[-1].short()))
        return UNIT

    y__print = _print

    # ---------------------------------------------------------------- formatting
    def x_Argument_new_display(self, it, fn, args, mem, pc, pth):
        return raw("farg", fn.key[1][4:], it.content(mem, args[0]))

    x_Argument_new_debug = x_Argument_new_lower_exp = x_Argument_new_upper_exp = x_Argument_new_lower_hex = x_Argument_new_display

    def x_Arguments_new(self, it, fn, args, mem, pc, pth):
        a = it.content(mem, args[1])
        return raw("fmt", *decode(it.content(mem, args[0]), list(a.a[2:])))

    def x_Arguments_from_str(self, it, fn, args, mem, pc, pth):
        return raw("fmt", it.content(mem, args[0]))

    x_Arguments_new_const = x_Arguments_from_str

    def x_fmt_format(self, it, fn, args, mem, pc, pth):
        return raw("text", *args[0].a) if args[0].op == "fmt" else NotImplemented

    # ---------------------------------------------------------------- outputs
    def x_File_create(self, it, fn, args, mem, pc, pth):
        d = it.content(mem, args[0])
        d = d.a[0] if d.op == "path" else show(d)
        self.ops.add(("create", d))
        if self.case.io == ("create", d):
            return ERR(raw("ioerror"))
        return OK(self.state(d, START))

    def y_stdout(self, it, fn, args, mem, pc, pth):
        return self.state("stdout", START)

    y_stderr = _print

    def state(self, dest, l):
        t = raw("out", dest, l)
        self.states.append(t)
        return t

    def x_BufWriter_new(self, it, fn, args, mem, pc, pth):
        return args[-1]

    x_BufWriter_with_capacity = x_LineWriter_new = x_BufWriter_new

    def _inner(self, it, fn, what):
        """the implementation of the tool's own writers"""
        t = it.p.types[fn.locals[1]] if fn.locals else None
        t = it.p.types[t["e"]] if t and t.get("e") is not None else None
        name = (t or {}).get("def") or ""
        return [f for f in it.p.fns if f.crate == TOOL and f.key == ("Write", what) and f.blocks is not None and f.locals and self.target(it, f) is t] if t else []

    def target(self, it, f):
        t = it.p.types[f.locals[1]]
        return it.p.types[t["e"]] if t.get("e") is not None else None

    def emit(self, it, fn, w, pieces, mem, pc, pth):
        while True:
            v = it.load(mem, w)
            if v.op != "ref":
                break
            w = v
        if v.op == "out":
            d, l = v.a
            n = len(unlog(l))
            self.ops.add(("write", d, n))
            if self.case.io == ("write", d, n):
                return ERR(raw("ioerror")), mem, pc
            mem = mem.copy()
            it.store(mem, w, self.state(d, log(l, pieces)))
            return OK(UNIT), mem, pc
        if v.op in ("text", "str"):
            m = self.grow(it, mem, w, pieces)
            return OK(UNIT), m, pc
        if v.op == "bytes":
            mem = mem.copy()
            it.store(mem, w, raw("bytes", log(v.a[0], pieces)))
            return OK(UNIT), mem, pc
        own = self._inner(it, fn, "write")
        if not own:
            raise Finding("outputs", it.stack[-1].short(), f"written to something that is no output: {brief(v)}")
        r = it.call(own[0].id, [w, ref(cell("val", raw("fmt", *pieces)))], mem, pc, pth)
        if r is None:
            return None
        x, mem, pc = r
        return lift(lambda y: OK(UNIT) if is_ok(y) else y, x), mem, pc

    def x_Write_write_fmt(self, it, fn, args, mem, pc, pth):
        f = args[1]
        if f.op != "fmt":
            raise Finding("format", it.stack[-1].short(), f"written text that is not understood: {brief(f)}")
        return self.emit(it, fn, args[0], list(f.a), mem, pc, pth)

    def text(self, it, mem, a):
        t = it.content(mem, a)
        if t.op in ("fmt", "text"):
            return list(t.a)
        if t.op == "str":
            return [t]
        if t.op == "path":
            return [shown(t)]
        if t.op == "agg" and t.a[0] in ("arr", "array") and all(as_int(x) is not None for x in t.a[2:]):
            return [S(bytes(as_int(x) for x in t.a[2:]).decode())]
        if t.op == "bytes":
            return unlog(t.a[0])
        raise Finding("format", it.stack[-1].short(), f"written text that is not understood: {brief(t)}")

    def x_Write_write_all(self, it, fn, args, mem, pc, pth):
        return self.emit(it, fn, args[0], self.text(it, mem, args[1]), mem, pc, pth)

    def x_Write_write(self, it, fn, args, mem, pc, pth):
        if fn.crate == TOOL:
            return NotImplemented
        r = self.emit(it, fn, args[0], self.text(it, mem, args[1]), mem, pc, pth)
        if r is None:
            return None
        return lift(lambda y: OK(raw("written")) if is_ok(y) else y, r[0]), r[1], r[2]

    def x_Write_flush(self, it, fn, args, mem, pc, pth):
        if fn.crate == TOOL:
            return NotImplemented
        w = args[0]
        v = it.load(mem, w)
        while v.op == "ref":
            w, v = v, it.load(mem, v)
        if v.op != "out":
            return NotImplemented
        d, l = v.a
        self.ops.add(("flush", d, len(unlog(l))))
        if self.case.io and self.case.io[:2] == ("flush", d):
            return ERR(raw("ioerror")), mem, pc
        mem = mem.copy()
        it.store(mem, w, self.state(d, log(l, [raw("flushed")])))
        return OK(UNIT), mem, pc

    def y_ptr_offset_from_unsigned(self, it, fn, args, mem, pc, pth):
        return I(args[0].a[0] - args[1].a[0]) if all(x.op == "i" for x in args) else NotImplemented

    # ---------------------------------------------------------------- JSON
    def x_Vec_with_capacity(self, it, fn, args, mem, pc, pth):
        if any(f.crate == "serde_json" for f in it.stack[-1:]):
            return raw("bytes", START)
        return NotImplemented

    def x_ser_format_escaped_str(self, it, fn, args, mem, pc, pth):
        return self.emit(it, fn, args[0], [raw("jstr", it.content(mem, args[2]))], mem, pc, pth)

    def x_Formatter_write_f64(self, it, fn, args, mem, pc, pth):
        return self.emit(it, fn, args[1], [raw("jnum", args[2])], mem, pc, pth)

    def x_Serializer_serialize_f64(self, it, fn, args, mem, pc, pth):
        s = args[0]
        return self.emit(it, fn, it.extend(s, pf(0, 0)), [raw("jnum", args[1])], mem, pc, pth)

    def y_from_utf8_unchecked(self, it, fn, args, mem, pc, pth):
        return raw("text", *unlog(args[0].a[0])) if args[0].op == "bytes" else NotImplemented

    # ---------------------------------------------------------------- the library
    def library(self, it, fn, args, mem, pc, pth):
        v = [it.content(mem, a) for a in args]
        for n, (f, _) in METRICS.items():
            if fn.key[1] == f:
                return self.metric(n, it, fn, args, v, mem, pc)
        if fn.key[1] == "new_decoder_from_file" or (fn.key == ("FfmpegDecoder", "new")):
            self.opened.append(v[0])
            d = v[0].a[0] if v[0].op == "path" else None
            if d is None:
                raise Finding("inputs", it.stack[-1].short(), f"opens {brief(v[0])}, which is no input")
            if self.case.unreadable == d:
                return ERR(S("cannot be opened"))
            return OK(raw("dec", d))
        return it.opaque_call(fn, args, mem, pc)

    def metric(self, n, it, fn, args, v, mem, pc):
        self.runs.append((n, v[0], v[1], v[2]))
        mem = mem.copy()
        for a in args[:2]:
            it.store(mem, a, raw("used", it.load(mem, a)))
        d = v[1].a[0] if v[1].op == "dec" else ""
        i = int(re.sub(r"\D", "", d) or 0)
        if (n, i) in self.case.fails:
            return ERR(raw("error", n)), mem, pc
        return OK(result_of(n, i)), mem, pc


class Straight(Interp):
    """follows a loop round by round as long as it is known whether there is another one"""

    def loop(self, mem0, body, tag, pth):
        m = self.models
        mark = [len(x) for x in m.logs()]
        ops, utag = set(getattr(m, "ops", ())), self.utag
        mem, pc = mem0, TRUE  # pc: nothing in the rounds so far has panicked
        for i in range(200):
            self.utag = utag + (i,)
            try:
                b, e = body(mem.copy())
            finally:
                self.utag = utag
            b = [x for x in b if x[0] is not FALSE]
            e = [x for x in e if x[1] is not FALSE]
            if not b:
                return [(t, AND(pc, c), x) for t, c, x in e]
            if e:
                break
            c, mem = self.merge(b)
            pc = AND(pc, c)
        for x, n in zip(m.logs(), mark):
            del x[n:]
        m.ops = ops
        return super().loop(mem0, body, tag, pth)


class Run:
    """what `main` did with a command line"""

    def __init__(self, case):
        self.case = case
        p = prog("tool")
        if MAIN not in p.roots:
            raise Finding("anchor", MAIN, "the command line tool has no `main` any more")
        self.m = Cli(case)
        it = Straight(p, self.m)
        self.it = it
        try:
            r = it.inline(p.root(MAIN), [], Mem(), TRUE, 0)
        except Unsupported as e:
            where = " < ".join(x.short() for x in it.stack[-3:][::-1])
            raise Finding("not-understood", where or MAIN, f"the analysis cannot follow this code: {e} ({case})")
        self.v, self.pc = (None, FALSE) if r is None else (r[0], r[2])

    def outputs(self):
        """for each output, everything it was given, in order"""
        out = {}
        for x in self.m.states:
            d, l = x.a[0], unlog(x.a[1])
            old = out.setdefault(d, l)
            if l[: len(old)] == old:
                out[d] = l
            elif old[: len(l)] != l:
                raise Finding("outputs", MAIN, f"what is written to {d} is not one sequence ({self.case})")
        return out


# -------------------------------------------------------------------- what was written
MARK = ("\ue000", "\ue001")


class Written:
    """the text given to an output, with the values in it as marks"""

    def __init__(self, dest, pieces):
        self.dest = dest
        self.vals = []
        pieces = list(pieces)
        self.flushed = bool(pieces) and pieces[-1].op == "flushed"
        self.text = "".join(self.render(x) for x in pieces if x.op != "flushed")

    def mark(self, v, prec=None, kind="display"):
        self.vals.append((v, prec, kind))
        return f"{MARK[0]}{len(self.vals) - 1}{MARK[1]}"

    def render(self, x):
        if x.op == "str":
            return x.a[0]
        if x.op == "jstr":
            v = x.a[0]
            return json.dumps(v.a[0]) if v.op == "str" else json.dumps(self.mark(v, None, "json"), ensure_ascii=False)
        if x.op == "jnum":
            return json.dumps(self.mark(x.a[0], None, "json"), ensure_ascii=False)
        if x.op == "piece":
            how, v, flags, width, prec = x.a
            if how == "display" and v.op == "text":
                return "".join(self.render(y) for y in v.a)
            if how == "display" and v.op == "str":
                return v.a[0].ljust(width or 0)
            return self.mark(v, prec, how)
        if x.op == "text":
            return "".join(self.render(y) for y in x.a)
        raise Finding("format", MAIN, f"{self.dest} is given something that is not understood: {brief(x)}")

    def value(self, s):
        """the value a text consists of"""
        m = re.fullmatch(f"{MARK[0]}(\\d+){MARK[1]}", s.strip())
        return self.vals[int(m[1])] if m else None


def selected(case):
    return [case.metric] if case.metric else list(METRICS)


def want(case, n, i):
    """the result to be reported for a metric, or None"""
    return result_of(n, i) if n in selected(case) and (n, i) not in case.fails else None


def average(n, v):
    return v if n == "ciede2000" else v.a[2 + PARTS.index("avg")]


def check_json(rep, case, w):
    where = f"--export-json ({case})"
    try:
        d = json.loads(w.text)
    except ValueError as e:
        rep.fail("json", where, f"not a JSON document: {e}")
        return

    def val(x):
        v = w.value(x) if type(x) is str else None
        return v and v[0]

    rep.check(type(d) is dict and val(d.get("base")) is path_of(-1), "json", where, "`base` is not the base file")
    cs = d.get("comparisons") if type(d) is dict else None
    if not rep.check(type(cs) is list and len(cs) == case.files, "json", where, "`comparisons` does not have one entry per file"):
        return
    for i, c in enumerate(cs):
        rep.check(type(c) is dict and val(c.get("filename")) is path_of(i), "json", where, f"`comparisons[{i}].filename` is not the {i + 1}. file")
        for n in METRICS:
            x, v = c.get(COLUMN[n]), want(case, n, i)
            if v is None:
                rep.check(x is None, "json", where, f"`comparisons[{i}].{COLUMN[n]}` is there without a result")
            elif n == "ciede2000":
                rep.check(val(x) is v, "json", where, f"`comparisons[{i}].{COLUMN[n]}` is not the metric's result: {show(val(x))[:80] if val(x) else x}")
            else:
                for j, q in enumerate(PARTS):
                    y = val(x.get(q)) if type(x) is dict else None
                    rep.check(y is v.a[2 + j], "json", where, f"`comparisons[{i}].{COLUMN[n]}.{q}` is not the metric's result: {show(y)[:80] if y else y}")
        extra = set(c) - {"filename", *COLUMN.values()}
        rep.check(not [k for k in extra if val(c[k]) is not None], "json", where, f"values under other names: {sorted(extra)}")


def check_table(rep, case, w, sep, what):
    where = f"--export-{what} ({case})"
    if not rep.check(w.text.endswith("\n"), what, where, "does not end with a line break"):
        return
    rows = [x for x in w.text.split("\n")[:-1]]

    def cells(r):
        r = r.strip()
        if sep == "|" and r.startswith("|") and r.endswith("|"):
            r = r[1:-1]
        return [x.strip() for x in r.split(sep)]

    head = cells(rows[0])
    body = rows[1:]
    if sep == "|":
        if not rep.check(body and len(cells(body[0])) == len(head) and all(re.fullmatch(":?-+:?", x) for x in cells(body[0])), what, where, "no row of dashes with as many columns as the header"):
            return
        body = body[1:]
    if not rep.check(sorted(head) == sorted(["filename", *COLUMN.values()]), what, where, f"the columns are {head}"):
        return
    if not rep.check(len(body) == case.files, what, where, f"{len(body)} rows for {case.files} files"):
        return
    for i, r in enumerate(body):
        c = cells(r)
        if not rep.check(len(c) == len(head), what, where, f"row {i + 1} has {len(c)} cells, the header {len(head)}"):
            continue
        for h, x in zip(head, c):
            v = w.value(x)
            if h == "filename":
                rep.check(v is not None and v[0] is path_of(i), what, where, f"row {i + 1} does not name the {i + 1}. file")
                continue
            n = [n for n in METRICS if COLUMN[n] == h][0]
            r = want(case, n, i)
            if r is None:
                rep.check(v is None or not v[0].fv and not [y for y in subterms(v[0]) if y.op == "sym"], what, where, f"row {i + 1}, column {h}: a value without a result, {show(v[0])[:80] if v else x}")
            else:
                ok = v is not None and v[0] is average(n, r)
                rep.check(ok, what, where, f"row {i + 1}, column {h}: not the metric's average but {show(v[0])[:80] if v else repr(x)}")
                rep.check(not ok or v[1] is None or v[1] >= 4, what, where, f"row {i + 1}, column {h}: cut to {v[1] if v else 0} decimals")


LINE = {"y": "Y:", "u": "U/Cb:", "v": "V/Cr:", "avg": "Avg value:"}


def check_text(rep, case, w, what):
    where = f"{what} ({case})"
    rest = w.text
    parts = rest.split("Results")
    rep.check(len(parts) == case.files + 1, "text", where, f"{len(parts) - 1} sections for {case.files} files")
    marks = [v[0] for v in Written.marks(w, parts[0])]
    rep.check(marks == [path_of(-1)], "text", where, "does not begin with the base file")
    for i, sec in enumerate(parts[1 : case.files + 1]):
        lines = sec.split("\n")
        m = Written.marks(w, lines[0])
        rep.check([v[0] for v in m] == [path_of(i)], "text", where, f"section {i + 1} does not name the {i + 1}. file")
        got = {}
        for l in lines[1:]:
            if not l.strip():
                continue
            label = l.split("\u2192")[0].strip()
            if not rep.check(label not in got, "text", where, f"section {i + 1}: two lines for {label}"):
                continue
            got[label] = l
        for n, (_, label) in METRICS.items():
            r = want(case, n, i)
            l = got.pop(label, None)
            if not rep.check((l is None) == (r is None), "text", where, f"section {i + 1}: " + (f"{label} has a line without a result" if r is None else f"no line for {label}")) or r is None:
                continue
            if n == "ciede2000":
                fields = {"Delta:": r}
            else:
                fields = {LINE[q]: r.a[2 + j] for j, q in enumerate(PARTS)}
            for f, v in fields.items():
                k = re.search(re.escape(f) + rf"\s*{MARK[0]}(\d+){MARK[1]}", l)
                x = w.vals[int(k[1])] if k else None
                ok = x is not None and x[0] is v
                rep.check(ok, "text", where, f"section {i + 1}, {label}: `{f}` is not {show(v)} but {show(x[0])[:80] if x else 'missing'}")
                rep.check(not ok or x[1] is None or x[1] >= 4, "text", where, f"section {i + 1}, {label}: `{f}` is cut to {x[1] if x else 0} decimals")
        rep.check(not got, "text", where, f"section {i + 1}: lines that belong to no metric: {sorted(got)[:3]}")


def _marks(w, s):
    return [w.vals[int(k)] for k in re.findall(f"{MARK[0]}(\\d+){MARK[1]}", s)]


Written.marks = _marks


def check_output(rep, case, dest, w):
    kind = "text" if dest == "stdout" else OUTS[dest]
    if kind == "json":
        check_json(rep, case, w)
    elif kind == "csv":
        check_table(rep, case, w, ",", "csv")
    elif kind == "markdown":
        check_table(rep, case, w, "|", "markdown")
    else:
        check_text(rep, case, w, dest if dest == "stdout" else "--export-file")


def succeeded(rep, r, rule):
    """main returns Ok, and only panics where the progress bar's frame count overflows"""
    v = r.v
    return rep.check(v is not None and all(is_ok(x) for x in leaves(v)), rule, MAIN, f"does not succeed with {r.case}: {brief(v) if v is not None else 'panics'}")


def outs(r):
    return {d: Written(d, l) for d, l in r.outputs().items()}


# -------------------------------------------------------------------- C27
def routing(rep, metric, opts):
    case = Case(metric=metric, outs=["export-json"], **dict(opts))
    r = Run(case)
    rep.count("command lines")
    succeeded(rep, r, "routing")
    sel = selected(case)
    wanted = [(n, i) for i in range(case.files) for n in sel]
    got = []
    for n, a, b, lim in r.m.runs:
        i = next((i for i in range(case.files) if b is raw("dec", path_of(i).a[0])), None)
        f = METRICS[n][0]
        rep.check(a is raw("dec", "BASE"), "routing", f"{f} ({case})", f"the first video is not the base file, unread, but {brief(a)}")
        rep.check(i is not None, "routing", f"{f} ({case})", f"the second video is not a file to compare, unread, but {brief(b)}")
        rep.check(lim is NONE, "routing", f"{f} ({case})", f"the comparison is limited to {brief(lim)} frames")
        got.append((n, i))
    rep.check(sorted(got, key=str) == sorted(wanted, key=str), "selection", MAIN, f"{case}: the metrics computed are {got}")
    o = outs(r)
    if rep.check("export-json" in o, "routing", MAIN, f"{case}: nothing is written to the file of --export-json"):
        check_json(rep, case, o["export-json"])
    rep.sample({"command": str(case), "library calls": len(got)})


def accepted(rep):
    """--metric takes the six names"""
    r = Run(Case(outs=["export-json"]))
    vp = [x for x in subterms(r.m.command) if x.op == "call" and x.a[0] == "clap::Arg::value_parser"]
    if vp:
        names = {y.a[0] for x in vp for y in subterms(x.a[2]) if y.op == "str"}
        rep.check(set(METRICS) <= names, "selection", MAIN, f"--metric takes {sorted(names)}")
        rep.check(names <= set(METRICS), "selection", MAIN, f"--metric takes {sorted(names)}")
    else:
        rep.check(True, "selection", MAIN, "")


def tasks27(tier):
    t = [(accepted, ())]
    for m in (None, *METRICS):
        t.append((routing, (m, (("files", 1),))))
        t.append((routing, (m, (("files", 2), ("quiet", False)))))
    for q in (False, True):
        for f in (False, True):
            for a in (False, True):
                t.append((routing, (None, (("quiet", q), ("frames", f), ("attended", a)))))
                t.append((routing, ("msssim", (("quiet", q), ("frames", f), ("attended", a), ("files", 2)))))
    t.append((routing, (None, (("files", 3),))))
    for m in METRICS:
        t.append((routing, (None, (("files", 2), ("fails", ((m, 0),))))))
        t.append((routing, (None, (("files", 2), ("fails", ((m, 1),))))))
        t.append((routing, (m, (("files", 2), ("fails", ((m, 0),))))))
    return t


# -------------------------------------------------------------------- C28
def columns(rep, metric, fails, files=2):
    case = Case(files=files, metric=metric, outs=list(OUTS), quiet=False, fails=fails)
    r = Run(case)
    rep.count("command lines")
    succeeded(rep, r, "report")
    o = outs(r)
    for d in (*OUTS, "stdout"):
        if rep.check(d in o, "report", MAIN, f"{case}: nothing is written for {d}"):
            check_output(rep, case, d, o[d])
    rep.sample({"command": str(case)})


def tasks28(tier):
    t = [(columns, (m, ())) for m in METRICS]
    names = list(METRICS)
    for k in range(64):
        # the second file fails where the first one does not
        fails = tuple((n, 0 if k >> j & 1 else 1) for j, n in enumerate(names))
        t.append((columns, (None, fails)))
    t.append((columns, (None, ())))
    t.append((columns, (None, tuple((n, i) for n in names for i in (0, 1)))))
    t.append((columns, (None, (), 1)))
    t.append((columns, (None, (("psnr", 1), ("ciede2000", 2)), 3)))
    return t


# -------------------------------------------------------------------- C29
def destinations(rep, chosen, quiet, files):
    case = Case(files=files, outs=chosen, quiet=quiet)
    r = Run(case)
    rep.count("command lines")
    succeeded(rep, r, "outputs")
    o = outs(r)
    wanted = set(chosen) | (set() if quiet else {"stdout"})
    rep.check(set(d for d, w in o.items() if w.text or d in OUTS) == wanted, "outputs", MAIN, f"{case}: written to {sorted(o)}")
    rep.check(not r.m.printed, "outputs", r.m.printed[0][1] if r.m.printed else MAIN, f"{case}: prints to the terminal besides the outputs")
    for d in sorted(wanted & set(o)):
        check_output(rep, case, d, o[d])
    rep.sample({"command": str(case), "outputs": sorted(o)})


def tasks29(tier):
    names = list(OUTS)
    t = []
    for k in range(16):
        c = tuple(n for j, n in enumerate(names) if k >> j & 1)
        for q in (False, True):
            t.append((destinations, (c, q, 1)))
            if len(c) in (0, 1, 4):
                t.append((destinations, (c, q, 3)))
    return t


# -------------------------------------------------------------------- C30
def failing(rep, files, fails):
    base = Case(files=files, outs=list(OUTS), quiet=False, fails=fails)
    r = Run(base)
    succeeded(rep, r, "errors")
    o = outs(r)
    for d in (*OUTS, "stdout"):
        rep.check(d in o and o[d].flushed, "errors", MAIN, f"{d} is not flushed at the end, so that an error of the last write is lost")
    ops = sorted(r.m.ops, key=str)
    flushes = {x[1] for x in ops if x[0] == "flush"}
    for op in [x for x in ops if x[0] != "flush"] + [("flush", d) for d in sorted(flushes)]:
        c = Case(files=files, outs=list(OUTS), quiet=False, fails=fails, io=op)
        x = Run(c)
        rep.count("failures injected")
        bad = [] if x.v is None else [y for y in leaves(x.v) if not is_err(y)]
        rep.check(not bad, "errors", MAIN, f"succeeds although {' '.join(map(str, op))} fails")
    for d in ["BASE"] + [path_of(i).a[0] for i in range(files)]:
        x = Run(Case(files=files, outs=list(OUTS), quiet=False, unreadable=d))
        rep.count("failures injected")
        bad = [] if x.v is None else [y for y in leaves(x.v) if not is_err(y)]
        rep.check(not bad, "errors", MAIN, f"succeeds although {d} cannot be opened")
    rep.sample({"operations": len(ops)})


def tasks30(tier):
    return [(failing, (1, ())), (failing, (2, (("psnr", 0), ("ciede2000", 1)))), (failing, (2, ()))]
