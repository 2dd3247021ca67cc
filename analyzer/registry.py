"""The properties this analyser decides: their rules, tasks and floors."""
import rules_frame as rf
import rules_agg as ra
import rules_cli as rcli
import rules_ciede as rc
import rules_psnr as rpsnr
import rules_num as rn
import rules_pipe as rp
import rules_threads as rt
import rules_total as rtot
import rules_y4m as ry
import rules_ff as rff
import rules_read as rread
from ctx import FRAME_METRICS

W = ("u8", "u16")
SAMPLINGS = ("Cs420", "Cs422", "Cs444")


def each(fn, ms=FRAME_METRICS, ws=W):
    return lambda tier: [(fn, (m, w)) for m in ms for w in ws]


def each_metric(fn, ms=FRAME_METRICS):
    return lambda tier: [(fn, (m,)) for m in ms]


SPECS = {
    "C01": {
        "level": "other",
        "rule": "decision graph of every frame comparison entry point, restricted to the depths that contradict the pixel type: every leaf must be an error",
        "tasks": each(rf.pixel_width),
        "floor": 28,
    },
    "C02": {
        "level": "other",
        "rule": "decision graph of every frame comparison entry point, restricted to frames whose plane i differs in one geometry field: every leaf must be an error",
        "tasks": each(rf.geometry),
        "floor": 14 * 13,
    },
    "C03": {
        "level": "other",
        "rule": "value graph of every video comparison entry point (metric kept opaque): under each pair of differing bit depths or chroma samplings every leaf is an error and no frame is read, sent or reported; the sample width read is 16 exactly for depths over 8",
        "tasks": each_metric(rp.validation),
        "floor": 7 * 20,
    },
    "C04": {
        "level": "other",
        "rule": "the k-th message sent carries the k-th frame of the first and of the second video; the metric receives exactly those two, in this order, with the depth and sampling of the videos",
        "tasks": each_metric(rp.pairing),
        "floor": 7 * 8,
    },
    "C05": {
        "level": "other",
        "rule": "path condition of every read and send of frame k is contradicted by a frame limit of k or less; no allocation or channel size depends on the limit",
        "tasks": each_metric(rp.limit),
        "floor": 7 * 5,
    },
    "C06": {
        "level": "other",
        "rule": "the recurrences extracted from the pipeline, folded for short videos, limits, failing comparisons and thread counts: an error whenever nothing was compared or a comparison failed, else the score is made from exactly the decoded pairs",
        "tasks": lambda tier: [(rp.protocol, (m, n, tier)) for m in FRAME_METRICS for n in ((1, 2, 4) if tier == "quick" else (1, 2, 3, 4, 5, 8, 16))]
        + [(rp.worker_panic, (m,)) for m in FRAME_METRICS],
        "floor": 7 * 3 * 200,
    },
    "C07": {
        "level": "other",
        "rule": "ownership dataflow over the pipeline's MIR: no function holding the sending end waits for the receiving loop, the receiving end does not outlive the receiving loop, and the decoding loop ends once the channel is disconnected",
        "tasks": lambda tier: [(rt.ownership, ())] + [(rt.loops_end, (m,)) for m in FRAME_METRICS],
        "floor": 60,
    },
    "C08": {
        "level": "other",
        "rule": "the recurrences extracted from the pipeline, folded for short videos and limits: the calls of the progress callback are 1, 2, …, n, each before its pair is handed over, then the end marker once",
        "tasks": each_metric(rp.progress),
        "floor": 7 * 100,
    },
    "C09": {
        "level": "other",
        "rule": "value graph of the video score over the sequence of frame results: that sequence is used only through its length, through sums over all of it whose terms pick the frame and nothing else, and through places that are the same for all frames",
        "tasks": each_metric(ra.schedule),
        "floor": 40,
    },
    "C10": {
        "level": "other",
        "rule": "the video score, as a real-number expression, equals the frame score applied to the totals (PSNR), to the means of the raw plane scores (PSNR-HVS, SSIM, MS-SSIM), or is the mean of the frame scores (APSNR, CIEDE2000), for every chroma sampling",
        "tasks": lambda tier: [(ra.mean_rule, ("psnr", "score of totals"))]
        + [(ra.mean_rule, (m, "mean of scores")) for m in ("apsnr", "ciede", "ciede_nosimd")]
        + [(ra.mean_rule, (m, "score of means")) for m in ("psnr_hvs", "ssim", "msssim")],
        "floor": 90,
    },
    "C11": {
        "level": "other",
        "rule": "the video score with a sequence of one symbolic frame result equals the frame entry point's score of that result; both entry points configure the comparison alike",
        "tasks": each_metric(ra.single),
        "floor": 90,
    },
    "C12": {
        "level": "other",
        "rule": "the frame's average, as a real-number expression, equals the plane conversion of the planes' mean with the sampling's chroma weight (PSNR-HVS, SSIM, MS-SSIM) or of their pooled errors and pixels (PSNR)",
        "tasks": lambda tier: [(ra.weights, (m, w)) for m in ("psnr_hvs", "ssim", "msssim") for w in W] + [(ra.pooled, (m, w)) for m in ("psnr", "apsnr") for w in W],
        "floor": 50,
    },
    "C13": {
        "level": "other",
        "rule": "provenance of every sample read in the value graph of each part of the score",
        "tasks": each(rn.wiring),
        "floor": 40,
    },
    "C14": {
        "level": "other",
        "rule": "every value a PSNR, APSNR or CIEDE2000 score can take is 100, a minimum with 100, or a mean of such values; with both frames equal the PSNR graph folds to the constant 100",
        "tasks": lambda tier: [(rn.identical, (m, w)) for m in ("psnr", "apsnr") for w in W]
        + [(rn.cap, (m, w)) for m in ("psnr", "apsnr", "ciede", "ciede_nosimd") for w in W]
        + [(rn.cap_video, (m,)) for m in ("psnr", "apsnr", "ciede", "ciede_nosimd")],
        "floor": 40,
    },
    "C15": {
        "level": "other",
        "rule": "every sample a score depends on is a visible one: the position of each read, in rows and columns of its plane, is shown to lie within the plane's width and height from the loop ranges and path conditions around it; no score refers to stride, origin or padding",
        "tasks": each(rn.padding),
        "floor": 14 * 12,
    },
    "C16": {
        "level": "other",
        "rule": "the value graphs of the 8-bit and the 16-bit instantiation are one graph",
        "tasks": each_metric(rn.storage, ("psnr", "apsnr", "psnr_hvs", "ssim", "msssim")),
        "floor": 24,
    },
    "C17": {
        "level": "other",
        "rule": "decision graph of the frame comparison, restricted to unsupported depths, samplings and sizes: every leaf must be an error",
        "tasks": each(rn.unsupported, ("ssim", "msssim", "psnr_hvs", "ciede", "ciede_nosimd")),
        "floor": 2 * 3 * 6 + 4 * 30,
    },
    "C18": {
        "level": "other",
        "rule": "every index, slice, vector load, division and panic branch met in a frame comparison: out-of-bounds and panic conditions contradict the loop ranges and path conditions that lead there, given planes with room for their visible area and samples within the bit depth",
        "tasks": each(rtot.total, ("ciede", "ciede_nosimd", "msssim", "psnr_hvs", "ssim", "psnr", "apsnr")),
        "floor": 14 * 15,
    },
    "C19": {
        "level": "other",
        "rule": "value graphs of CIEDE2000 with and without vector instructions: every pixel's colour difference is written, and its colour arguments, lane by lane, have one normal form as functions of the samples",
        "tasks": lambda tier: [(rc.vector, ("u8", s, 8)) for s in SAMPLINGS] + [(rc.vector, ("u16", s, d)) for s in SAMPLINGS for d in (10, 12)],
        "floor": 2 * 3 * 10 + 3,
    },
    "C20": {
        "level": "other",
        "rule": "value graph of the CIEDE2000 score: 45 - 20 log10 of a sum over all rows and columns divided by their number; every summand compares, between the frames, exactly the luma sample of its pixel and the chroma samples at the same place",
        "tasks": lambda tier: [(rc.colocated, (m, w, s, d)) for m in ("ciede", "ciede_nosimd") for w, d in (("u8", 8), ("u16", 10), ("u16", 12)) for s in SAMPLINGS],
        "floor": 9 * 5 * 2,
    },
    "C21": {
        "level": "other",
        "rule": "value graphs of CIEDE2000 for 8, 10 and 12 bits: with samples multiplied by 4 and 16 the colour arguments of every pixel's difference have the normal form of those for 8 bits",
        "tasks": lambda tier: [(rc.scaled, (s, d)) for s in SAMPLINGS for d in (10, 12)],
        "floor": 6 * 2,
    },
    "C22": {
        "level": "other",
        "rule": "value graph of the PSNR scores: sums over every visible sample position of a plane of the squared difference of the two samples; at each depth 10 log10 (max^2 n / error), at most 100, 100 without error",
        "tasks": lambda tier: [(rpsnr.formula, (w,)) for w in ("u8", "u16")],
        "floor": 2 * 38,
    },
    "C23": {
        "level": "other",
        "rule": "decision graphs of the y4m decoder's details and bit depth, for every colour space of a header: each field is the header's",
        "tasks": lambda tier: [(ry.header, (s,)) for s in ry.SPACES],
        "floor": 14 * 8,
    },
    "C24": {
        "level": "other",
        "rule": "value graph of reading a frame from a y4m file: one frame is taken from the file; every write of a sample whose siting needs no change stores the file's sample of that column and row, and every column and row is written",
        "tasks": lambda tier: [(ry.copied, (w, s)) for s in ry.SPACES for w in W if w == "u16" or ry.declared(s)[2] == 8],
        "floor": 21 * 30,
    },
    "C25": {
        "level": "other",
        "rule": "value graph of reading a frame whose chroma is sited with the left luma column: every chroma sample is, for every width, the clamped six-tap filter of the file's samples with columns clamped to the row",
        "tasks": lambda tier: [(ry.realigned, (w, s)) for s in ry.SPACES for w in W if ry.declared(s)[1] == "Vertical" and (w == "u16" or ry.declared(s)[2] == 8)],
        "floor": 6 * 30,
    },
    "C26": {
        "level": "other",
        "rule": "every index, slice, unsigned subtraction, division and panic branch met in reading a frame from a y4m file: the failing condition contradicts the loop ranges, for every size and colour space",
        "tasks": lambda tier: [(ry.total, (w, s)) for s in ry.SPACES for w in W if w == "u16" or ry.declared(s)[2] == 8],
        "floor": 21 * 8,
    },
    "C27": {
        "level": "other",
        "kinds": ["tool"],
        "rule": "main evaluated per command line: every call of a library metric and every value in the JSON document against the selection, the files and the library's results",
        "tasks": rcli.tasks27,
        "floor": 2000,
    },
    "C28": {
        "level": "other",
        "kinds": ["tool"],
        "rule": "main evaluated per command line and outcome of the metrics: every cell and line of the four other reports against the library's results",
        "tasks": rcli.tasks28,
        "floor": 14000,
    },
    "C29": {
        "level": "other",
        "kinds": ["tool"],
        "rule": "main evaluated for every combination of outputs: which outputs are written, with what",
        "tasks": rcli.tasks29,
        "floor": 4500,
    },
    "C30": {
        "level": "other",
        "kinds": ["tool"],
        "rule": "main evaluated with each creation, write, flush and open failing in turn: every outcome must be an error or a panic",
        "tasks": rcli.tasks30,
        "floor": 120,
    },
    "C31": {
        "level": "other",
        "kinds": ["ff"],
        "rule": "opening a file evaluated for every pixel format and failure of FFmpeg: each field of the details is the stream's, everything else is an error",
        "tasks": lambda tier: [(rff.opened, (f,)) for f in rff.FORMATS] + [(rff.refused, (i, 8)) for i in range(8)],
        "floor": 12 * 7 + 150,
    },
    "C32": {
        "level": "other",
        "kinds": ["ff"],
        "rule": "repeated reading evaluated over FFmpeg's packet and codec protocol, for every short sequence of packets: frames given against frames decoded, packets sent against packets read",
        "tasks": rff.tasks_frames,
        "floor": 800,
    },
    "C33": {
        "level": "other",
        "kinds": ["ff"],
        "rule": "value graph of reading a decoded frame: every write stores the decoded plane's sample of that column and row, or the filtered sample, and every column and row is written",
        "tasks": lambda tier: [(rff.samples, (w, f)) for f in rff.FORMATS for w in W if w == "u16" or rff.FORMATS[f][2] == 8],
        "floor": 18 * 35,
    },
    "C34": {
        "level": "other",
        "kinds": ["ff"],
        "rule": "every index, slice, unsigned subtraction, division and panic branch met in reading a decoded frame: the failing condition contradicts the loop ranges, for every size and format",
        "tasks": lambda tier: [(rff.total, (w, f)) for f in rff.FORMATS for w in W if w == "u16" or rff.FORMATS[f][2] == 8],
        "floor": 18 * 12,
    },
    "C35": {
        "level": "other",
        "kinds": ["lib", "ff"],
        "rule": "two requests in a row evaluated for short videos: the frame given is the one asked for, counted from where the decoder stands, and no frame after it, nor more than one attempt after the end, is read",
        "tasks": rread.tasks,
        "floor": 1600,
    },
}
