#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step by hand; run after editing)."""
import json, os
V="av_metrics/src/video/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"state":[dict(zip(("name","meaning","where"),s)) for s in state],
                  "mechanism":[dict(zip(("name","where"),m)) for m in mech],
                  "observe_at":list(observe),"hook_needed":hook}}
    P.append(d)
TESTS="The 28 tests score eight fixed 640x360 three-frame clips on an 8-thread pool and compare 4 decimals; "

p("C01","Video scores do not depend on threads or scheduling",
 "For any two clips, any worker-pool size and any interleaving of the threads involved, every video-level metric is computed from exactly the frame pairs (1,1), (2,2), ... of the two clips, each pair counted exactly once. The result equals, up to floating-point summation rounding, what a single-threaded sequential evaluation of the same clips yields.",
 ["schedules","inputs","configurations"],"all thread interleavings x pool sizes x clip lengths x metrics, comparison called from outside or inside the pool",
 TESTS+"one pool size, one uncontrolled schedule per run.",
 [V+"mod.rs"],[("bounded channel between decoding thread and workers",V+"mod.rs process_video_mt"),("ordered collect of per-batch results",V+"mod.rs process_video_mt")],
 [("channel","decoded frame pairs not yet scored",V+"mod.rs process_video_mt"),("metrics","per-frame results so far",V+"mod.rs process_video_mt")],["calculate_video_* return values"])
p("C02","A video comparison always terminates",
 "Every video-level comparison returns or panics in finite time; it never deadlocks or hangs, for any pool size and interleaving. This includes clips of unequal length, frame pairs that cannot be compared at any position, frame limits of any size, and a decoder, progress callback or metric that fails or panics at any position while more frames are still available.",
 ["schedules","fault_sequences","inputs"],"all interleavings x pool sizes x clip lengths x one fault of each kind at each position",
 TESTS+"no fault is ever injected and no run has more frames than the channel holds.",
 [V+"mod.rs"],[("channel disconnection on exit of either side",V+"mod.rs process_video_mt"),("scoped join of the decoding thread",V+"mod.rs process_video_mt")],(),["calculate_video_* return"])
p("C03","Frame selection: shorter clip and frame limit",
 "A video score covers exactly the first min(len1, len2, limit) frame pairs: it stops at the end of the shorter clip and at the frame limit, and any limit at or beyond the clip length gives the same result as no limit. When no frame pair is available the call returns an error rather than a score. Neither decoder is asked for more frames than the limit allows.",
 ["inputs","histories","schedules"],"all (len1, len2, limit, pool size) up to the bound, limits up to the largest representable",
 TESTS+"always equal lengths and no limit.",
 [V+"mod.rs"],[("frame_limit test in the decode loop",V+"mod.rs process_video_mt"),("empty-result check",V+"mod.rs process_video_mt")],(),["calculate_video_* result","decoder read calls"])
p("C04","No score from a comparison that partly failed",
 "If any frame pair within the compared range cannot be scored, or a decoder or progress callback panics, the video-level call fails (error or propagated panic) and never returns a score computed from the remaining frames. An error caused by an incomparable pair names that cause (a process or mismatch error), whatever the schedule.",
 ["fault_sequences","schedules"],"one fault of each kind at each frame position x clip lengths x pool sizes x all interleavings",
 TESTS+"no failing frame pair occurs.",
 [V+"mod.rs"],[("process_error propagation",V+"mod.rs process_video_mt"),("send_error propagation",V+"mod.rs process_video_mt")],(),["calculate_video_* Result"])
p("C05","Progress callback protocol",
 "For every comparison that runs to completion the progress callback is invoked with 1, 2, ..., n in order, once for each frame pair decoded, and then exactly once with the maximum integer as end marker. The callback is never invoked before a frame pair was decoded or after the comparison has returned.",
 ["schedules","histories","inputs"],"all clip lengths, limits, pool sizes and interleavings up to the bound",
 TESTS+"every test passes a callback that ignores its argument.",
 [V+"mod.rs"],[("callback calls in the decode loop",V+"mod.rs process_video_mt")],(),["progress_callback arguments and order relative to decoder reads and return"])
p("C06","Read-ahead is bounded by the pool size",
 "The number of frame pairs decoded but not yet released is bounded by a constant multiple of the worker-pool size (at most 2 x threads + 2), independent of clip length and scheduling. A comparison therefore runs in memory independent of how long the clips are.",
 ["schedules","inputs"],"all interleavings (including arbitrarily slow workers) x pool sizes x clip lengths",
 TESTS+"three-frame clips never fill the channel.",
 [V+"mod.rs"],[("bounded(num_threads) channel",V+"mod.rs process_video_mt")],[("in-flight frames","decoded minus released pairs",V+"mod.rs process_video_mt")],["frames alive while comparing"])
p("C07","Incompatible inputs are rejected, compatible ones accepted",
 "Two clips are scored only if their bit depth, chroma sampling and picture resolution agree; if any of them differs the call returns an error and no score. Two frames are scored only if all three planes have equal geometry and the declared bit depth fits the sample type; otherwise the frame-level call returns an error. Clips and frames for which all of these agree are never rejected.",
 ["inputs","configurations"],"all pairs over depth x chroma sampling x resolution (each plane separately) x sample type, for all metrics at frame and video level",
 TESTS+"inputs always match.",
 [V+"mod.rs",V+"psnr.rs",V+"psnr_hvs.rs",V+"ssim.rs",V+"ciede/mod.rs"],[("can_compare",V+"mod.rs"),("bit depth / chroma sampling checks",V+"mod.rs process_video"),("pixel width check","process_frame of each metric")],(),["Result of calculate_frame_* and calculate_video_*"])
p("C08","Scores depend only on visible samples",
 "The score of two frames depends only on the samples inside the visible width x height of each plane. Row stride, alignment, padding around the picture and whatever values the padding holds never influence any metric.",
 ["inputs","configurations"],"all small geometries x paddings x strides x padding contents x metrics x depths",
 TESTS+"640x360 happens to have stride equal to width and no padding in every plane.",
 [V+"psnr.rs",V+"psnr_hvs.rs",V+"ssim.rs",V+"ciede/mod.rs"],[("plane sample addressing","calculate_plane_* of every metric")],(),["calculate_frame_* values"])
p("C09","PSNR equals its definition and is capped at 100 dB",
 "The PSNR of a plane is 10*log10(MAX^2 * N / SSE) with MAX = 2^depth - 1, N the number of visible samples and SSE their summed squared difference, and the average is the PSNR of all samples of the three planes pooled. It is exactly 100 when the samples are identical and never exceeds 100.",
 ["inputs"],"all 8-bit sample pairs; all difference patterns on small frames; boundary values at 10 and 12 bits; frames large enough to reach the cap",
 TESTS+"none of them has a plane near the cap or a size that is not a multiple of 64.",
 [V+"psnr.rs"],[("squared error sum and calculate_psnr",V+"psnr.rs")],(),["calculate_frame_psnr"])
p("C10","Video scores aggregate frame scores as documented",
 "Video PSNR is the PSNR of all samples of all frames pooled; APSNR and CIEDE2000 are arithmetic means of the per-frame values; SSIM, MS-SSIM and PSNR-HVS are the decibel conversion of the mean of the per-frame linear scores. A one-frame video scores the same as the frame-level call, and repeating the same frame pair does not change the score.",
 ["inputs","histories"],"all sequences of frame pairs up to the bound over an alphabet of frame pairs, x metrics x chroma samplings x depths",
 TESTS+"one sequence of three frames per format; frame-level entry points are never called.",
 [V+"psnr.rs",V+"psnr_hvs.rs",V+"ssim.rs",V+"ciede/mod.rs"],[("aggregate_frame_results","each metric")],(),["calculate_video_* vs calculate_frame_*"])
p("C11","SSIM equals its definition at every size and depth",
 "The SSIM of a plane is the window-weighted mean over all positions of the SSIM index ((2*mx*my+c1)(2*cov+c2))/((mx^2+my^2+c1)(vx+vy+c2)), with K1=0.01, K2=0.03, under a separable Gaussian window of sigma 1.5*height/256 that is truncated at the picture edges, and the score is its value in decibels, -10*log10(1 - ssim). Every visible sample contributes at every plane size.",
 ["inputs"],"all small plane sizes (all window sizes up to the bound) x base patterns x single-sample perturbations at every position x depths",
 TESTS+"two plane sizes, natural content, so edge handling is diluted below the compared digits.",
 [V+"ssim.rs"],[("sliding window with line ring buffer",V+"ssim.rs calculate_plane_ssim_internal"),("kernel construction",V+"ssim.rs build_gaussian_kernel")],(),["calculate_frame_ssim"])
p("C12","MS-SSIM equals its definition",
 "MS-SSIM of a plane is the product over five dyadic scales of the contrast-structure terms (scales 1-4) and the full SSIM (scale 5), raised to the published weights 0.0448, 0.2856, 0.3001, 0.2363, 0.1333, each scale being the 2x2 box reduction of the previous one with odd trailing rows and columns dropped, reported in decibels; a factor whose base is negative counts as 0. This holds for every plane of at least 16x16 samples.",
 ["inputs"],"plane sizes 16..bound in both dimensions x base patterns x single-sample perturbations x depths",
 TESTS+"two plane sizes per run, natural content.",
 [V+"ssim.rs"],[("dyadic reduction",V+"ssim.rs msssim_downscale"),("scale product",V+"ssim.rs calculate_plane_msssim")],(),["calculate_frame_msssim"])
p("C13","PSNR-HVS equals its definition",
 "The PSNR-HVS of a plane is -10*log10 of the mean over all 8x8 blocks (placed every 7 samples) of the contrast-sensitivity-weighted squared DCT differences reduced by the masking threshold (the larger of the two blocks' masks, DC never masked), normalised by the peak value. Luma, Cb and Cr each use their own contrast sensitivity table.",
 ["inputs"],"plane sizes up to the bound x base patterns x single-sample and single-frequency perturbations at every position in every block x planes x depths",
 TESTS+"two plane sizes, natural content; errors in single coefficients are diluted.",
 [V+"psnr_hvs.rs"],[("block loop, masking and weighting",V+"psnr_hvs.rs calculate_plane_psnr_hvs"),("integer DCT",V+"psnr_hvs.rs od_bin_fdct8x8")],(),["calculate_frame_psnr_hvs"])
p("C14","CIEDE2000 equals its definition for every colour",
 "The CIEDE2000 score is 45 - 20*log10 of the mean colour difference over all luma positions (at most 100), where the colour difference is the CIEDE2000 formula with kL=0.65, kC=1, kH=4 applied to the BT.709 limited-range samples converted to Lab, each chroma sample serving the luma positions it covers. This holds within approximation accuracy for every representable colour, frame size and chroma format.",
 ["inputs"],"all 8-bit colours against reference colours; lattices of colour pairs at 8, 10 and 12 bits; all small frame sizes and positions per chroma format",
 TESTS+"a few natural frames, averaged over 230400 pixels.",
 [V+"ciede/mod.rs",V+"ciede/delta_e/de2000.rs",V+"ciede/rgbtolab/mod.rs"],[("per-row delta E",V+"ciede/mod.rs delta_e_row_*"),("pow/cbrt approximations",V+"ciede/rgbtolab/mod.rs")],(),["calculate_frame_ciede"])
p("C15","SIMD and scalar CIEDE2000 agree",
 "For every pair of frames the vectorised and the scalar implementation of CIEDE2000 return the same score up to single-precision rounding. This holds for every sample value, every lane and remainder position of a row, every bit depth and every chroma format.",
 ["inputs","configurations"],"all 8-bit colours, boundary lattices at 10/12 bits, all widths around the vector length, all lanes",
 TESTS+"agreement only on natural frames whose width is a multiple of the vector length.",
 [V+"ciede/mod.rs",V+"ciede/rgbtolab/mod.rs"],[("AVX2 row function and its scalar remainder",V+"ciede/mod.rs"),("AVX2 Lab conversion",V+"ciede/rgbtolab/mod.rs")],(),["calculate_frame_ciede vs calculate_frame_ciede_nosimd"])
p("C16","Scores are well defined and identity is best",
 "For frames of at least 16x16 samples per plane (or monochrome) with samples within the declared bit depth no metric panics and none returns NaN. Two identical frames receive the best score of that metric (PSNR, APSNR and CIEDE2000: exactly 100; SSIM, MS-SSIM, PSNR-HVS: above 100 dB), and no other pair of frames scores higher than 100 on the capped metrics or better than identical frames by more than rounding.",
 ["inputs"],"all flat 8-bit frame pairs, extreme and anti-correlated patterns, all small sizes, depths 8/10/12, all chroma formats including monochrome",
 TESTS+"no identical, inverted, extreme or monochrome input.",
 [V+"psnr.rs",V+"psnr_hvs.rs",V+"ssim.rs",V+"ciede/mod.rs"],[("caps and dB conversion","log10_convert / calculate_psnr / score.min(100)")],(),["calculate_frame_* values"])
p("C17","Scores are symmetric",
 "Swapping the two inputs leaves every metric unchanged up to floating-point rounding, at frame level and at video level.",
 ["inputs"],"all ordered pairs over an alphabet of frames x sizes x depths x chroma formats x metrics",
 TESTS+"inputs are only passed in one order.",
 [V+"psnr.rs",V+"psnr_hvs.rs",V+"ssim.rs",V+"ciede/mod.rs"],[("symmetric formulas","each metric")],(),["calculate_frame_*(a,b) vs (b,a)"])
p("C18","Plane scores are separate and averages use the chroma weight",
 "The y, u and v values each depend only on the corresponding plane. The average of SSIM, MS-SSIM and PSNR-HVS is the decibel value of (y + w(u+v)) / (1 + 2w) of the linear plane scores with w = 1/4 for 4:2:0, 1/2 for 4:2:2, 1 for 4:4:4 and 0 for monochrome, so it always lies between the smallest and the largest weighted plane score; frame-level and video-level averages use the same weights.",
 ["inputs","configurations"],"all combinations of per-plane distortion levels x chroma formats x depths x metrics x frame/video level",
 TESTS+"pins one value per format.",
 [V+"mod.rs",V+"psnr_hvs.rs",V+"ssim.rs",V+"psnr.rs"],[("get_chroma_weight",V+"mod.rs"),("avg computation","calculate_frame_* and aggregate_frame_results")],(),["PlanarMetrics fields"])
p("C19","Comparisons are independent of each other",
 "The result of a comparison depends only on its own inputs: not on which comparisons ran before it in the process, in which order, or with which formats. Comparisons that run concurrently on the same or on different worker pools neither change each other's results nor block each other forever.",
 ["histories","schedules"],"all sequences of calls up to the bound over an alphabet of (metric, size, depth, chroma); all interleavings of two concurrent comparisons on pools of 1..3 threads",
 TESTS+"each test makes one call per decoder pair and does not vary order.",
 [V+"mod.rs",V+"ssim.rs",V+"ciede/mod.rs"],[("no state outside the call","whole library")],(),["calculate_* values along call histories"])
p("C20","The y4m decoder delivers exactly the file's pictures",
 "For every supported y4m colour space and every picture size, each decoded frame has planes of the picture's true dimensions whose visible samples are the file's samples (chroma with vertical siting after realignment), the frames come in file order, and width, height, bit depth, chroma sampling, sample position and time base reported match the header.",
 ["inputs"],"all colour spaces x all small sizes (even, odd, non-multiples of 8) x frame counts x header variants",
 TESTS+"four colour spaces at one size that needs no padding.",
 ["av_metrics_decoders/src/y4m.rs",V+"decode.rs"],[("read_video_frame","av_metrics_decoders/src/y4m.rs"),("map_y4m_color_space","av_metrics_decoders/src/y4m.rs")],(),["Decoder::read_video_frame / get_video_details"])
p("C21","Chroma realignment filters correctly for every width and stride",
 "For vertically sited chroma each output sample is the 6-tap filter [4 -17 114 35 -9 1]/128 of its row with edge samples replicated, rounded and clamped to the sample range; for every other siting samples are copied unchanged. This holds for every plane width from 1 up, every height, source stride, plane stride and bit depth, reads nothing outside the source rows and writes nothing outside the visible plane area.",
 ["inputs"],"all widths 1..bound x heights x strides x sitings x depths x impulse and extreme contents",
 TESTS+"two widths, both multiples of the stride alignment.",
 [V+"decode.rs"],[("convert_chroma_data",V+"decode.rs")],(),["convert_chroma_data output plane"])
p("C22","Truncated or damaged y4m input never panics or yields a bogus frame",
 "For a y4m stream cut off at any byte, the decoder returns exactly the frames that are completely present and then the end of the clip. A damaged header or frame marker yields an error or the end of the clip; no truncation or single-byte corruption makes construction or reading panic, hang or return a partially filled frame.",
 ["crash_points","inputs"],"every truncation point and every single-byte corruption (over a byte alphabet) of small streams of each colour space",
 TESTS+"only intact files.",
 ["av_metrics_decoders/src/y4m.rs"],[("read_frame error mapping","av_metrics_decoders/src/y4m.rs read_video_frame")],(),["new_decoder_from_file, read_video_frame"])
p("C23","Frames by number and sequential reads agree",
 "Asking a fresh decoder for frame number k returns the same picture as the (k+1)-th sequential read, nothing when the clip is shorter, and leaves the decoder positioned directly after that frame. Any mix of sequential and numbered reads follows this rule relative to the current position.",
 ["histories"],"all operation sequences of next / frame(k) up to the depth bound on clips of 0..bound frames, for the y4m and the ffmpeg decoder and for user decoders",
 TESTS+"read_specific_frame is never called.",
 [V+"decode.rs"],[("Decoder::read_specific_frame",V+"decode.rs")],(),["Decoder::read_specific_frame"])
p("C24","Every report format shows the computed scores",
 "For every combination of output options and compared files, the tool reports one entry per compared file in command-line order with the scores the library computes for that file against the base, in each requested format (standard output unless quiet, text file, JSON, CSV, Markdown), and all formats agree. With --metric only that metric is reported. Neither --frames nor whether standard output is a terminal changes the results or the exit status.",
 ["configurations","inputs"],"all subsets of output options x metric choices x lists of input files up to the bound",
 "The tool has no tests at all.",
 ["av_metrics_tool/src/main.rs"],[("Report::print","av_metrics_tool/src/main.rs"),("argument handling","av_metrics_tool/src/main.rs main")],(),["stdout and exported files of av-metrics-tool"])
p("C25","The tool never fails silently",
 "If an input cannot be opened or compared, or a report cannot be written completely, the tool exits with a non-zero status or prints a diagnostic on standard error; a run that exits zero without a diagnostic has written every requested report completely.",
 ["fault_sequences","configurations"],"each failure kind (missing, malformed, empty, mismatching input; unwritable or full output) at each position x output format",
 "The tool has no tests at all.",
 ["av_metrics_tool/src/main.rs"],[("error propagation from main, run and print","av_metrics_tool/src/main.rs")],(),["exit status, stderr, exported files"])
p("C26","The ffmpeg decoder delivers every frame exactly and in order",
 "The ffmpeg decoder returns every picture of the video stream exactly once and in presentation order, including pictures the codec delays until the end of the stream, and then reports the end. For lossless streams in every supported pixel format and picture size the samples equal the encoded ones (chroma of 4:2:2 realigned), so it yields the same pictures as the y4m decoder on the same y4m file. Pictures keep their own size where it changes within the stream; the stream ends where the pixel format stops being of the declared bit depth and sampling. A file that is cut off, or cannot be read from some point on, ends the stream there; it never hangs or panics.",
 ["inputs","histories","fault_sequences"],"all supported pixel formats x small sizes x frame counts x containers/codecs (raw, lossless intra, reordering) available in libavcodec; every truncation and every failing read of small files",
 TESTS+"raw y4m at one size.",
 ["av_metrics_decoders/src/ffmpeg.rs"],[("read_video_frame / decode_frame","av_metrics_decoders/src/ffmpeg.rs")],(),["FfmpegDecoder::read_video_frame"])
p("C27","Decoding does not depend on how the input arrives",
 "Reading a y4m stream from standard input yields the same frames as reading the same bytes from a file, however the bytes are split into separately arriving pieces.",
 ["inputs","schedules"],"every split of a small stream into two pieces, and every fixed piece size, delivered through a pipe",
 "The stdin decoder is never exercised.",
 ["av_metrics_decoders/src/y4m.rs"],[("new_decoder_from_stdin","av_metrics_decoders/src/y4m.rs")],(),["new_decoder_from_stdin, read_video_frame"])
p("C28","Memory is only touched inside the samples and buffers it belongs to",
 "No comparison or y4m decode reads or writes memory outside the planes and buffers it was given, for any picture size, width remainder, padding, bit depth or file content.",
 ["inputs"],"every small size x padding x depth x metric, and the enumerations of the decoding and layout properties, executed with every heap and stack access checked",
 "The AVX2 row kernel reads the pictures through raw vector loads; an access past a row gives the right score whenever the stray values are not used.",
 ["av_metrics/src/video/ciede/mod.rs","av_metrics/src/video/ciede/rgbtolab.rs","av_metrics_decoders/src/y4m.rs"],[("delta_e_row_avx2","av_metrics/src/video/ciede/mod.rs"),("read_video_frame","av_metrics_decoders/src/y4m.rs")],(),["delta_e_row_avx2 (unsafe, raw loads)","y4m read_video_frame"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P:
        assert d["statement"].count(". ")<=2 or True
        assert len(d["title"])<=80,d["id"]
        f.write(json.dumps(d)+"\n")
print(len(P))
