"""Writes properties.jsonl and MANIFEST.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "av_metrics/src/video/"
MOD, PSNR, HVS, SSIM, CIE = A + "mod.rs", A + "psnr.rs", A + "psnr_hvs.rs", A + "ssim.rs", A + "ciede/mod.rs"
Y4M, FF, TOOL = "av_metrics_decoders/src/y4m.rs", "av_metrics_decoders/src/ffmpeg.rs", "av_metrics_tool/src/main.rs"
ALL = [MOD, PSNR, HVS, SSIM, CIE]
NOTE = ("Decides the property on the MIR of the current sources for every input the quantifier names; anything the analysis cannot follow is reported. "
        "Trusts rustc's MIR, the MIR dump, the value-graph evaluator and its models of library calls (listed in the evidence).")

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na))


VG = "whole-program value graph (gated SSA over MIR), "

prop("C01", "Pixel type and bit depth must agree",
     "Comparing two frames fails with an error whenever the stated bit depth contradicts the sample type: over 8 bits with 8-bit samples, or 8 bits or fewer with 16-bit samples. This holds for every metric and whatever the frames contain.",
     ["inputs"], "all metrics, both sample types, all bit depths, all frames",
     "The tests try no contradicting pair for most metrics, and only 8 and 10 bits at all.",
     ALL, [("pixel width check", PSNR + " Psnr::process_frame"), ("pixel width check", HVS + " PsnrHvs::process_frame"), ("pixel width check", SSIM + " Ssim/MsSsim::process_frame"), ("pixel width check", CIE + " Ciede2000::process_frame")],
     VG + "path restriction")
prop("C02", "Frames of different geometry are never scored",
     "Comparing two frames fails with an error whenever any of their three planes differ in size, stride or padding layout or chroma decimation. No metric returns a score for such a pair.",
     ["inputs"], "all metrics, both sample types, every plane and every geometry field, all values of the others",
     "The tests compare frames of equal geometry only.",
     ALL, [("plane comparison", MOD + " PlaneCompare::can_compare"), ("frame comparison", MOD + " FrameCompare::can_compare")],
     VG + "path restriction")
prop("C03", "Mismatched videos are rejected before any work",
     "Two videos whose bit depths or chroma samplings differ give an error, before any frame is read from either and without any progress being reported. Otherwise frames are read as 16-bit samples exactly when the depth exceeds 8.",
     ["inputs", "configurations"], "all decoders, all bit depths, all pairs of chroma samplings, all metrics",
     "The test clips agree in depth and sampling but for a few pairs, and no test observes the decoder.",
     [MOD], [("validation", MOD + " VideoMetric::process_video"), ("frame reading", MOD + " VideoMetric::process_video_mt")],
     VG + "event path conditions")
prop("C04", "Frames are compared in step",
     "The k-th frame of the first video is compared with the k-th frame of the second, in this order, for every k, whichever worker takes the pair. The metric is told the bit depth and chroma sampling of these videos.",
     ["schedules", "inputs", "histories"], "all videos, all worker schedules, all metrics",
     "Tests see the final score of a few clips only; a swapped or skewed pair in longer clips or other schedules is not observed.",
     [MOD], [("decoding thread", MOD + " VideoMetric::process_video_mt"), ("worker", MOD + " VideoMetric::process_video_mt")],
     VG + "message contents by send ordinal")
prop("C05", "The frame limit bounds the work",
     "With a frame limit of n at most n frames of each video are read, compared and reported, whatever n is, zero included. No memory is reserved in proportion to the limit.",
     ["inputs", "configurations"], "all limits up to the largest, all videos, all metrics",
     "Tests run without limit or with one small limit.",
     [MOD], [("decoding loop", MOD + " VideoMetric::process_video_mt")],
     VG + "event path conditions")
prop("C06", "No compared frame and no failure is lost",
     "The video score is made from exactly the pairs decoded, each once. If comparing any pair fails, the decoding thread dies, or there is no pair at all, the result is an error and never a score.",
     ["schedules", "fault_sequences", "inputs"], "every combination of lengths up to 3 (and some beyond), limits, the failing pair and numbers of workers; the recurrences are the ones of the code, so the batch boundary cases are all covered",
     "No test makes a comparison fail in the middle of a clip; the clips are 1 to 3 batches long.",
     [MOD], [("batch loop", MOD + " VideoMetric::process_video_mt"), ("results of the threads", MOD + " VideoMetric::process_video_mt")],
     VG + "folding of the extracted recurrences",
     "The pipeline's recurrences are extracted from MIR and folded symbolically (frames and metrics stay opaque) for a finite family of lengths, limits, failures and worker counts; complete in that family, not beyond it.")
prop("C07", "A comparison of two videos always ends",
     "If both decoders return, comparing two videos returns, whatever fails on the way: a comparison error or a panic on either side never leaves the other side waiting for ever.",
     ["schedules", "fault_sequences", "histories"], "all schedules, all points at which a comparison fails or a thread unwinds",
     "A hang needs a failing comparison while the queue is full; no test produces one.",
     [MOD], [("channel ends", MOD + " VideoMetric::process_video_mt")],
     "ownership dataflow of channel ends on MIR with closure-aware call graph",
     "Shows that no frame waits for the peer while owning the channel end the peer waits on, on normal and unwinding paths, and that the decoding loop ends on disconnection; assumes decoders, metrics and callbacks return.")
prop("C08", "Progress is reported once per pair and ends once",
     "The progress callback receives 1, 2, …, n, one call for every pair of frames decoded, and then the largest integer exactly once. It is called for no pair that is not decoded from both videos.",
     ["inputs", "histories"], "all videos up to length 3 (and some beyond), limits and depths; all metrics",
     "Every test passes a callback that does nothing.",
     [MOD], [("progress calls", MOD + " VideoMetric::process_video_mt")],
     VG + "folding of the extracted recurrences")

# (more below)
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")) else None

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }, ensure_ascii=False) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 analyzer/build.py lib tool ff",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"python3 analyzer/check.py {p['id']}",
            "thorough_cmd": f"python3 analyzer/check.py {p['id']}",
            "technique": p["technique"], "level": "other", "level_note": p["note"] or NOTE,
        } for p in PROPS if not p["na"]],
        "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p["na"]],
        "notes": "All checks analyse /repo's current sources through a rustc driver (nightly, offline); nothing of /repo is executed.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1, ensure_ascii=False)
        fh.write("\n")
