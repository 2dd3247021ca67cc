prop("C09", "The score does not depend on the schedule",
     "The score of a video is a function of the collection of its frames' results: how many workers there are, which worker took which pair, and in which order results arrive do not matter (up to the rounding of floating-point sums).",
     ["schedules", "inputs"], "every sequence of frame results of every length and all permutations of it; all metrics",
     "The tests take whatever schedule the machine gives and compare with a tolerance.",
     ALL, [("aggregation", A + "*.rs VideoMetric::aggregate_frame_results")],
     VG + "use analysis of the results sequence",
     "Real-number semantics: sums over the frames are order-independent as reals; rounding of floating-point sums is outside the claim.")
prop("C10", "A video's score is made from its frames as documented",
     "PSNR of a video is the PSNR of the summed squared errors over all frames; PSNR-HVS, SSIM and MS-SSIM convert the mean of the frames' raw plane scores; APSNR and CIEDE2000 are the mean of the frames' scores. This holds for each plane and for the average, for every chroma sampling and every number of frames.",
     ["inputs", "histories"], "all sequences of frame results; all metrics; all chroma samplings",
     "The tests pin the scores of a few short clips in 4:2:0 and mostly of single frames.",
     ALL, [("aggregation", A + "*.rs VideoMetric::aggregate_frame_results")],
     VG + "normal forms of real expressions",
     "Real-number semantics, floating-point rounding ignored.")
prop("C11", "A video of one frame scores like the frame",
     "The score of a video with one frame equals the score the metric's frame function gives for that pair, in each plane and on average, for every chroma sampling.",
     ["inputs", "configurations"], "all frames; all metrics; all chroma samplings",
     "No test compares the two entry points.",
     ALL, [("frame entry points", A + "*.rs calculate_frame_*"), ("aggregation", A + "*.rs VideoMetric::aggregate_frame_results")],
     VG + "normal forms of real expressions",
     "Real-number semantics, floating-point rounding ignored.")
prop("C12", "Planes are weighted by their size",
     "The average over the planes weights each chroma plane by its number of samples relative to luma (1/4, 1/2, 1 and 0 in 4:2:0, 4:2:2, 4:4:4 and monochrome), divided by the total weight, for PSNR-HVS, SSIM and MS-SSIM; PSNR's average pools the squared errors and sample counts of all planes.",
     ["inputs", "configurations"], "all plane scores, all chroma samplings",
     "Only 4:2:0 averages are tested for most metrics, and the expected numbers were taken from the code.",
     ALL, [("chroma weight", MOD + " ChromaWeight::get_chroma_weight"), ("averages", A + "*.rs")],
     VG + "normal forms of real expressions",
     "Real-number semantics. PSNR-HVS breaks it today (an existing test pins the wrong value): listed in known_findings.txt.")
prop("C13", "Each plane's score comes from that plane of both frames",
     "The Y, U and V scores of a frame are computed from the samples of that plane of the first and of the second frame and of no other plane; the average and the CIEDE2000 score draw on all three planes of both frames.",
     ["inputs"], "all metrics that score planes, both sample types, all frames",
     "Test clips have correlated planes and single expected numbers; tests do not vary one plane alone.",
     ALL, [("plane scoring", A + "*.rs VideoMetric::process_frame")],
     VG + "provenance of every sample read")
prop("C14", "Scores in decibels are capped at 100, and identical frames reach it",
     "PSNR, APSNR and CIEDE2000 never report more than 100, for a frame or a video, in any plane or on average. The PSNR and APSNR of a frame with itself are exactly 100 in every plane, whatever the frame's size, content and depth.",
     ["inputs"], "all frames and videos, all depths and samplings",
     "One identical pair is tested for some metrics.",
     [PSNR, CIE], [("PSNR conversion", PSNR + " calculate_psnr"), ("CIEDE2000 score", CIE + " Ciede2000::process_frame")],
     VG + "bound and identity rewriting")
prop("C15", "Padding and layout never influence a score",
     "The score of a pair of frames depends on the visible samples of their planes only: on no sample in the padding and not on stride, origin or how much padding there is. (For frames whose planes have the sizes the stated chroma sampling gives, both chroma planes being laid out alike.)",
     ["inputs"], "all metrics, both sample types, all sizes, paddings, strides and chroma samplings",
     "Decoded test frames have no padding, and expected numbers cannot show that junk around the picture is ignored.",
     ALL, [("sample access", A + "*.rs"), ("row slicing", CIE + " Ciede2000::process_frame"), ("block access", HVS + " calculate_plane_psnr_hvs")],
     VG + "linear entailment of sample positions from loop ranges")
prop("C16", "8-bit and 16-bit samples are scored by one formula",
     "PSNR, PSNR-HVS, SSIM and MS-SSIM compute the same function of the sample values and the bit depth whether samples are stored in 8 or 16 bits: no sample is truncated, reinterpreted or scaled on the way, in any plane.",
     ["inputs", "configurations"], "all frames, both sample types, all depths",
     "16-bit storage is tested with one 10-bit clip.",
     [PSNR, HVS, SSIM], [("plane scoring", A + "*.rs VideoMetric::process_frame")],
     VG + "identity of the two instantiations' value graphs",
     "Compares value graphs: integer conversions that could lose bits stay in the graph and differ; rounding is identical by construction.")
prop("C17", "What a metric cannot score is an error",
     "CIEDE2000 gives an error for bit depths other than 8, 10 and 12 and for frames without chroma. SSIM, MS-SSIM and PSNR-HVS give an error when any plane is smaller than the 1, 16 or 8 samples they need in either direction. No score is made up for such input.",
     ["inputs", "configurations"], "all bit depths, all chroma samplings, all plane sizes, both sample types",
     "The tests use ordinary depths, samplings and sizes only.",
     [MOD, CIE, SSIM, HVS], [("size check", MOD + " FrameCompare::check_min_size"), ("depth and format checks", CIE + " Ciede2000::process_frame")],
     VG + "path restriction")
prop("C18", "Comparing frames never panics and never reads out of bounds",
     "Comparing two frames returns a score or an error for every frame size, chroma sampling, supported depth and content: no index or slice is out of bounds, no unsigned subtraction underflows, nothing is divided by zero, and no vectorised load reads past the row it works on. (For planes with room for their visible area, samples within the stated bit depth, and planes of the sizes the stated chroma sampling gives.)",
     ["inputs", "configurations"], "all metrics (CIEDE2000 with and without vector instructions), both sample types, all frame sizes, samplings and contents",
     "Test clips have one or two sizes, even and large; no test has rows shorter than a vector or odd chroma.",
     ALL, [("unsafe loads", CIE + " delta_e_row_avx2"), ("block access", HVS + " calculate_plane_psnr_hvs"), ("windows", SSIM), ("size check", MOD + " FrameCompare::can_compare")],
     VG + "linear entailment and interval analysis over every panic and unsafe site",
     "Integers in the entailments are unbounded: additions and multiplications are assumed not to overflow their type (sums grow with the picture's area; a plane would need billions of samples).")
prop("C19", "Vector instructions do not change a CIEDE2000 score",
     "On a processor with AVX2, CIEDE2000 compares the same colours at every pixel as it does without: each pixel of the picture, the last columns of a row included, is converted from YUV to Lab by the same function of its samples in both implementations, up to rounding. This holds at 8, 10 and 12 bits and for every chroma sampling and picture width.",
     ["inputs", "configurations"], "all widths and heights, both sample types, depths 8, 10 and 12, 4:2:0, 4:2:2 and 4:4:4, all sample values",
     "The tests compare one 4:2:0 clip per depth against pinned scores of one implementation at a loose tolerance; dark and saturated colours, other samplings and the rest columns of a row are not reached.",
     [CIE, A + "ciede/rgbtolab.rs", A + "ciede/delta_e.rs"], [("vector rows", CIE + " delta_e_row_avx2"), ("scalar rows", CIE + " DeltaEScalar"), ("vector colour conversion", A + "ciede/rgbtolab.rs")],
     VG + "decision-diagram and polynomial normal forms of both implementations",
     "Real-number semantics, floating-point rounding ignored (piecewise approximations are compared piece by piece on the bits of the number). The colour difference of two Lab colours is shared by both and not looked into.")
prop("C20", "Each visible pixel counts once in CIEDE2000, with its own chroma",
     "The CIEDE2000 score of a frame is 45 - 20 log10 of the mean colour difference over all visible luma pixels. Each pixel is counted exactly once and compares, between the two frames, the colour made of the luma sample of that pixel and of the chroma samples at the same place in the picture, for every chroma sampling.",
     ["inputs", "configurations"], "all widths and heights, both sample types, depths 8, 10 and 12, 4:2:0, 4:2:2 and 4:4:4, with and without vector instructions",
     "A pixel compared with its neighbour's chroma, skipped or counted twice moves the pinned scores of smooth clips by less than the tests' tolerance; 4:2:2 and odd sizes are not tested.",
     [CIE], [("rows of a frame", CIE + " Ciede2000::process_frame"), ("samples of a row", CIE + " DeltaEScalar, delta_e_row_avx2")],
     VG + "linear entailment of written ranges and sample positions",
     "Real-number semantics; dimensions of planes include v_frame's alignment padding as the code sees them.")
prop("C21", "CIEDE2000 does not depend on the depth colours are written in",
     "A picture scores the same whether its samples are written with 8 bits or, multiplied by 4 or 16, with 10 or 12 bits: every pixel's colour is the same, up to rounding.",
     ["inputs", "configurations"], "all frames, depths 8, 10 and 12, 4:2:0, 4:2:2 and 4:4:4",
     "The tests of the depths use different clips with separately pinned scores.",
     [CIE, A + "ciede/rgbtolab.rs"], [("depth constants", CIE + " twelve_to_rgb, yuv_to_rgb")],
     VG + "decision-diagram and polynomial normal forms at several depths",
     "Real-number semantics, floating-point rounding ignored.")
prop("C22", "PSNR is computed as it is defined",
     "The PSNR of a plane is 10 log10(max^2 n / e), where e is the sum of the squared differences of all n visible samples, each taken once, and max is the largest value of a sample at the given bit depth; at most 100, and 100 if there is no difference. The average pools e and n of the three planes. This holds for all frame sizes, sample values and bit depths from 1 to 16.",
     ["inputs", "configurations"], "all sizes and sample values, both sample types, all bit depths up to 16",
     "The tests know the scores of a few 8- and 10-bit clips to two decimals or so; other depths, extreme sample values, and rows or columns left out of small frames are not seen.",
     [PSNR], [("squared error", PSNR + " calculate_plane_total_squared_error"), ("conversion", PSNR + " calculate_psnr, calculate_summed_psnr")],
     VG + "normal forms of real expressions against the definition",
     "Real-number semantics, floating-point rounding ignored; planes' dimensions include v_frame's alignment as the code sees them.")
Y4M = "av_metrics_decoders/src/y4m.rs"
DEC = A + "decode.rs"
prop("C23", "The y4m decoder describes the video its header declares",
     "For every colour space a y4m header can name, the decoder's details are those of the header: its width and height, the bit depth and chroma sampling of the colour space, the chroma siting that belongs to it (4:2:0 jpeg between the columns and rows, paldv, mpeg2 and all 4:2:2 with the left column, the rest colocated), and a time base that is the inverse of the frame rate. The separately reported bit depth is the same one.",
     ["inputs", "configurations"], "all headers: fourteen colour spaces, all sizes and frame rates",
     "The test files have a handful of colour spaces; nothing tests siting, time base, or deep 4:2:2, 4:4:4 and monochrome.",
     [Y4M], [("mapping of colour spaces", Y4M + " map_y4m_color_space"), ("details", Y4M + " Y4MDecoder::get_video_details"), ("bit depth", Y4M + " Y4MDecoder::get_bit_depth")],
     VG + "decision graph of each reported field, one case per colour space",
     "What the y4m crate parses from the header text is taken as given.")
prop("C24", "Decoded samples are the file's samples",
     "Reading a video frame from a y4m file takes exactly one frame from the file, gives None exactly when the file has none to give, and otherwise a frame of the declared size and sampling. Every visible luma sample, and every visible chroma sample whose siting needs no change, is the file's sample of that plane, row and column, one or two bytes wide, whatever the size, odd ones included.",
     ["inputs", "configurations"], "all sizes and sample values, both sample types, all colour spaces",
     "The test files have even, aligned sizes and 4:2:0; a row stride, byte order or plane taken wrongly for other layouts is not seen.",
     [Y4M, DEC], [("planes of a frame", Y4M + " Y4MDecoder::read_video_frame"), ("chroma", DEC + " convert_chroma_data")],
     VG + "linear entailment that every write of a loop nest has the file's sample and every position is written",
     "v_frame's allocation (room for the visible area, no padding) and the sizes of the y4m crate's planes are taken as given; u8 frames are considered for 8-bit files only, as everywhere in the library.")
prop("C25", "Realigned chroma is the filtered chroma of the file",
     "Chroma sited with the left luma column (4:2:0 mpeg2, all 4:2:2) is moved between the columns on reading: every visible chroma sample is (4 a - 17 b + 114 c + 35 d - 9 e + f + 64) >> 7 of the file's samples two columns to the left up to three to the right, columns outside the row replaced by the nearest inside, limited to the range of the bit depth. This holds for every width, down to one column.",
     ["inputs", "configurations"], "all sizes and sample values, both sample types, every colour space with that siting",
     "No test file has such chroma with narrow or odd rows, and none compares the filtered samples.",
     [DEC], [("filter", DEC + " convert_chroma_data")],
     VG + "case analysis over row positions with linear entailment, filtered sample by filtered sample",
     "The same assumptions as for C24.")
prop("C26", "Reading frames never panics",
     "Once the y4m reader has accepted a header, reading frames gives a frame or None: no index, slice, subtraction, division or assertion on the way fails, for any size and colour space the header may declare.",
     ["inputs", "configurations"], "all headers the y4m crate accepts, frames up to its size limit, both sample types as far as they fit the file's depth",
     "The tests read regular files; narrow, odd and monochrome ones are where the row arithmetic runs out of bounds.",
     [Y4M, DEC], [("planes of a frame", Y4M + " Y4MDecoder::read_video_frame"), ("rows", DEC + " convert_chroma_data")],
     VG + "linear entailment over path conditions for each failing operation",
     "Overflow of additions, products and shifts is not covered. The same assumptions as for C24.")
prop("C27", "The tool reports what the library computed",
     "With --metric, exactly the named metric is computed, otherwise all six, each once per file: by the library's function of that name, on the base file and that file, in this order, both opened anew, and without a limit on frames. In the exported JSON, `base` and `comparisons[i].filename` are the given paths, and each metric's entry is the value the library returned, part by part; metrics that were not selected or that failed have no entry, and one file's results never show up for another. Neither --quiet nor --frames nor a terminal changes any of this.",
     ["inputs", "configurations", "library outcomes"], "every --metric, quiet, frames and terminal combination, every outcome of the library's metrics, up to three files",
     "The tool has no tests at all.",
     [TOOL], [("metrics", TOOL + " run_video_metrics"), ("delegation", TOOL + " CliMetric::run"), ("JSON", TOOL + " Report::print")],
     VG + "main partially evaluated per command line over abstract library results, serializers included, down to the JSON text",
     "clap, console and indicatif are replaced by what they are documented to do; the library's metrics are opaque. Command lines with more than three files are not looked at.")
prop("C28", "Every report format shows the same results",
     "In the CSV and the Markdown export, there is one row per file, in order, with as many cells as the header has columns; under `filename` is the file, under each metric's name is that metric's average (the value itself for CIEDE2000), and no value is shown for a metric that has none. The text report and standard output name the base file, have one section per file, and in it one line for each metric with a result and none else, with the values of Y, U, V and the average (the one value for CIEDE2000) under these names. No value is cut to fewer than four decimals.",
     ["inputs", "configurations", "library outcomes"], "all 64 combinations of metrics with and without a result, for two files at once, and each --metric",
     "The tool has no tests at all.",
     [TOOL], [("columns", TOOL + " Report::print"), ("lines", TOOL + " Text::print_result")],
     VG + "partial evaluation of main; the format strings decoded and the resulting tables parsed, cells being abstract values",
     "File names are taken to contain no separator or line break; the same assumptions as for C27.")
prop("C29", "Reports go where they were asked for",
     "The file of --export-json receives one JSON document, that of --export-csv the CSV table, of --export-markdown the Markdown table and of --export-file the text report; standard output receives the text report unless --quiet is given, and then nothing. No other file is created, and what one output receives does not depend on which others are asked for.",
     ["configurations"], "all 32 combinations of the four exports and --quiet, one and three files",
     "The tool has no tests at all.",
     [TOOL], [("outputs", TOOL + " main"), ("writers", TOOL + " OutputType::write")],
     VG + "partial evaluation of main with effects on named outputs",
     "The same assumptions as for C27 and C28.")
prop("C30", "The tool never succeeds after a failed write or open",
     "If creating an output file, writing any part of a report or flushing it at the end fails, or if one of the videos cannot be opened, the tool does not exit successfully; and every output is flushed before it does.",
     ["faults", "configurations"], "every single failing operation of a run with all outputs, with one and two files",
     "The tool has no tests at all; full disks and closed pipes do not happen in tests.",
     [TOOL], [("error propagation", TOOL + " main"), ("errors of writing", TOOL + " Report::print, Text::print_result, OutputType::flush")],
     VG + "partial evaluation of main with each output operation failing in turn",
     "Errors while decoding a video that could be opened count as the end of that video (see the decoders' properties). The same assumptions as for C27.")
FF = "av_metrics_decoders/src/ffmpeg.rs"
FFNOTE = "FFmpeg itself is modelled by its documented protocol (packets in file order, one codec, frames handed out once); what it decodes is taken as given."
prop("C31", "The FFmpeg decoder describes the video the stream declares",
     "Opening a file with the FFmpeg decoder gives the details of its best video stream: the codec's width and height, bit depth and chroma sampling of its pixel format, vertical siting for the three 4:2:2 formats and colocated siting otherwise, and a time base that is the inverse of the stream's average frame rate; the separately reported bit depth is the same. Every pixel format other than the twelve planar 4:2:0, 4:2:2 and 4:4:4 ones of 8, 10 and 12 bits, and every failure of FFmpeg on the way, is an error.",
     ["inputs", "configurations", "faults"], "all pixel formats of FFmpeg, all sizes and frame rates, every failing step of opening",
     "The only test of this decoder opens two 8-bit 4:2:0 files.",
     [FF], [("details", FF + " FfmpegDecoder::new"), ("bit depth", FF + " FfmpegDecoder::get_bit_depth")],
     VG + "partial evaluation of opening, one case per pixel format and failure",
     FFNOTE)
prop("C32", "Every frame FFmpeg decodes is given once, in order",
     "Reading through the FFmpeg decoder gives exactly the frames that the codec makes of the chosen stream's packets, each once, in the codec's order, those it holds back until the end included, and then None for ever. Every packet of that stream is given to the codec once, in file order, and no packet of another stream; the codec is told of the end only when no packet is left. Packets that cannot be read or decoded lose no other frame.",
     ["inputs", "histories", "faults"], "all sequences of up to three packets out of eight kinds (giving one, two, no or a late frame, undecodable, unreadable, of a stream before or after), and some longer ones",
     "The tests' two files have one stream, a frame per packet, and no errors.",
     [FF], [("packet loop", FF + " FfmpegDecoder::read_video_frame")],
     VG + "partial evaluation of successive reads against a protocol model of the library",
     "Bounded in the number of packets; the loop keeps no state but the decoder's own fields, which every sequence exercises. A codec that refuses packets while frames are pending is not modelled. " + FFNOTE)
prop("C33", "Samples read through FFmpeg are the decoded samples",
     "Every visible luma sample of a frame read through the FFmpeg decoder, and every chroma sample that is not resited, is the sample of the decoded plane at that column and row, one byte or two with the lower one first, whatever the row stride of the decoded plane is. Chroma of the vertically sited 4:2:2 formats is the C25 filter of the decoded samples.",
     ["inputs", "configurations"], "all sizes, strides and sample values, both sample types, all accepted pixel formats",
     "The tests' files have widths for which FFmpeg pads no rows; until a repair made here, other widths gave skewed pictures.",
     [FF, DEC], [("rows of a plane", FF + " FfmpegDecoder::decode_frame"), ("chroma", DEC + " convert_chroma_data")],
     VG + "linear entailment that every write of a loop nest has the decoded sample and every position is written",
     "Decoded planes are assumed to have whole rows no shorter than their samples, and the size announced on opening. The same assumptions on v_frame as for C24.")
prop("C34", "Reading frames through FFmpeg never panics",
     "Once a file is opened, turning a decoded frame into the library's frame does not panic: no index, slice, subtraction, division or assertion fails, for any size, row stride and accepted pixel format.",
     ["inputs", "configurations"], "all sizes and strides, all accepted pixel formats, both sample types as far as they fit",
     "The tests read two regular files.",
     [FF, DEC], [("rows of a plane", FF + " FfmpegDecoder::decode_frame"), ("rows", DEC + " convert_chroma_data")],
     VG + "linear entailment over path conditions for each failing operation",
     "Overflow of additions, products and shifts is not covered. The same assumptions as for C33.")
prop("C35", "A requested frame is the frame at that place",
     "read_specific_frame(n) gives the frame that is n frames ahead of where the decoder stands (0 is the next one) and leaves the decoder right behind it, whatever n is; if the video has no such frame it gives None. No frame after the requested one is read, and after the end of the video is met nothing more is read, so the request returns for every n.",
     ["inputs", "histories"], "pairs of requests, each for one of frames 0 to 3, 5, 2^8, 2^16, 2^32 and 2^64-1, on videos of up to four frames; any decoder, the y4m decoder and the FFmpeg decoder",
     "The tests request frames that exist, from the start of the video; until a repair made here, a request far beyond the end did not return.",
     [DEC], [("default implementation", DEC + " Decoder::read_specific_frame")],
     VG + "partial evaluation of successive requests over a video of known length",
     "Bounded in the length of the video; the function keeps nothing between rounds but a counter.")
prop("C36", "Rounding does not disturb the scores",
     "Every score of every metric differs from the exact value of its formula by no more than floating-point rounding of a well-conditioned computation would, for all frames and lengths of video.",
     ["inputs", "histories"], "all metrics, all frames, all lengths of video",
     "The tests compare a handful of scores with a tolerance.",
     ALL, [("sums of errors", PSNR + " calculate_plane_total_squared_error"), ("similarity to decibels", SSIM + " calculate_plane_ssim"), ("averages", MOD + " aggregate_frame_results")],
     None,
     na="The error depends on the magnitudes of values summed at run time (cancellation in 1 - SSIM, in variances, in sums over frames); no static bound in reach is smaller than the scores' own range. All checks treat floating-point operations as real ones.")
prop("C37", "The FFmpeg decoder gives the video that was encoded",
     "The samples that the FFmpeg decoder gives for a file are those which the standards of its container and codec define.",
     ["inputs", "configurations"], "all files, containers and codecs",
     "The tests read two short files and compare a few scores.",
     [FF], [("decoding", FF + " FfmpegDecoder::read_video_frame")],
     None,
     na="What a file's samples are is computed by FFmpeg's libraries, whose source is not in this repository. What this repository does with them is C31 to C34.")
