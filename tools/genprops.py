#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, level="proof"):
    P.append(dict(pid=pid, technique=technique, note=note, na=na, level=level, j={
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}))


ABS = "static analysis: interprocedural abstract interpretation of the MIR "
prop("C01", "Parsing headers never panics",
     "Whatever the bytes of the input are, reading the headers of an image ends with an image description or with an error value: no index, slice, arithmetic operation, unwrap or explicit panic in it can abort the caller. This covers every marker segment (frame, scan, quantization, Huffman, restart interval, skipped segments), wherever it appears; only the filling of the Huffman look-up tables from already validated code lengths is left out.",
     ["inputs", "configurations"], "every byte string and every option setting",
     "the inputs that matter are malformed in combinations (a length that contradicts a count that contradicts an earlier segment) that no corpus enumerates",
     ["src/decoder.rs", "src/headers.rs", "src/components.rs", "src/misc.rs", "src/marker.rs"],
     [("marker loop", "Decoder::decode_headers_internal / parse_marker_inner"), ("segment parsers", "headers.rs parse_*"), ("byte readers", "misc.rs read_byte, read_u16_be")],
     ABS + "(intervals, linear relations, value numbering)",
     "every panic site reachable in header parsing is proved unreachable; HuffmanTable construction is modelled by its result")
prop("C02", "Decoding the coefficients of a block never panics",
     "For any compressed bytes, any Huffman tables the header parser accepts and any scan parameters it accepts, decoding one block (baseline, or a first or refining progressive pass over DC or AC coefficients) ends normally or with an error value; no index, shift, arithmetic operation or unwrap in it can panic. It never reads outside the tables nor writes outside the 64 coefficients of the block.",
     ["inputs", "histories"], "every bit stream, every reachable state of the bit reader, all accepted tables and scan parameters",
     "the failing bit patterns are rare states of the bit buffer next to markers, end of data and run lengths past the end of the block",
     ["src/bitstream.rs"], [("bit reader and block decoders", "BitStream::*"), ("table shape", "huffman.rs HuffmanTable")],
     ABS + "with class invariants on the bit reader",
     "assumes the shape of a built Huffman table (entries of the look-up table, ranges of its symbols) and a read position below 2^63")
prop("C03", "Vector loads and stores stay inside the memory they were given",
     "Every load and store of a SIMD routine touches only elements of the slice or array it was derived from, for every length of that slice, and uses an alignment-requiring instruction only on memory whose type guarantees the alignment.",
     ["inputs", "configurations"], "all slice lengths and contents, on every CPU path",
     "a read past the end of a slice usually hits other live memory and passes every test; alignment depends on the allocator",
     ["src/idct/avx2.rs", "src/color_convert/avx.rs", "src/color_convert/sse.rs", "src/upsampler/avx2.rs", "src/upsampler/sse.rs"],
     [("vector accesses", "all calls of load/store intrinsics and unchecked indexing")],
     ABS + "tracking pointer provenance, slice lengths and alignment",
     "each access is an obligation: offset + size <= length of the originating slice")
prop("C04", "CPU extensions are used only after they were detected",
     "An instruction that requires a CPU extension beyond the baseline of the target runs only in executions in which that very extension was detected as present on the running machine.",
     ["configurations", "programs"], "every CPU, every option setting, every sequence of API calls",
     "the machine that runs the tests has all the extensions",
     ["src/color_convert.rs", "src/idct.rs", "src/upsampler.rs"],
     [("dispatchers", "choose_ycbcr_to_rgb_convert_func, choose_idct_func, choose_horizontal_samp_function, choose_hv_samp_function")],
     "static analysis: implication dataflow over the whole program's call graph (MIR)",
     "every call or reification of a feature-requiring function is an obligation")
prop("C05", "Disabling unsafe code disables all of it",
     "When the caller turns unsafe code off in the options, decoding executes no unsafe operation of this crate (no SIMD routine, raw pointer access or unsafe call), for every image and output format. In a build without the x86 feature the crate contains no such code at all.",
     ["inputs", "configurations"], "all images, options and CPUs; both feature configurations of the build",
     "the safe and the unsafe implementation usually produce the same pixels, so a test cannot tell which one ran",
     ["src/options.rs", "src/decoder.rs", "src/color_convert.rs", "src/idct.rs", "src/upsampler.rs"],
     [("option", "ZuneJpegOptions::get_use_unsafe"), ("dispatchers", "choose_*")],
     "static analysis: implication dataflow over the whole program's call graph (MIR), both feature sets",
     "every unsafe operation of the crate is an obligation")
prop("C06", "Accepted images respect the dimension limits",
     "Reading headers or decoding succeeds only for images that have a frame whose width and height are both non-zero and not larger than the limits configured by the caller. The values reported for the image are the ones that were checked.",
     ["inputs", "configurations"], "all inputs and all limits, including images with several frame headers",
     "limits are a defence against hostile inputs; tests use one image and one limit",
     ["src/headers.rs", "src/decoder.rs"], [("limit checks", "headers.rs parse_start_of_frame"), ("limits", "options.rs")],
     ABS + "(conditions implied at every successful return)", "exit states of the public entry points")
prop("C07", "The scan limit bounds progressive images",
     "A progressive image is decoded successfully only if the number of scans it contains does not exceed the configured maximum; every scan counts, whatever other segments lie between scans.",
     ["inputs", "configurations"], "all progressive inputs and limits",
     "a decompression bomb needs many scans; the test images have about ten",
     ["src/mcu_prog.rs"], [("scan loop", "Decoder::decode_mcu_ycbcr_progressive"), ("limit", "options.rs get_max_scans")],
     "static analysis: path-sensitive counting on the scan loop (MIR dataflow)", "scan events versus the guarded counter")
prop("C08", "The output holds exactly width x height x channels bytes",
     "A successful decode returns a buffer of exactly width times height times the number of channels of the output colour space that the decoder reports for that image.",
     ["inputs", "configurations"], "all images, baseline and progressive, and all output colour spaces",
     "dimensions are 16 bit each and interact with padding; tests cover a handful of sizes",
     ["src/mcu.rs", "src/mcu_prog.rs", "src/misc.rs"], [("final truncation", "decode_mcu_ycbcr_baseline, finish_progressive_decoding")],
     ABS + "(value numbering of the length of the returned buffer)", "length term of the returned vector at every successful exit")
prop("C09", "Pixels are converted to the layout that was requested",
     "For three-channel images the converter in use is always one for the requested output: RGB gets three bytes per pixel in the order red, green, blue; RGBA and RGBX get four, red, green and blue first, the fourth of RGBA always 255. This holds for each implementation (scalar, SSE, AVX2) the decoder may pick.",
     ["inputs", "configurations"], "all pixel values, all output colour spaces, all CPU paths",
     "tests never look at pixel values, and one machine exercises one implementation",
     ["src/color_convert.rs", "src/color_convert/scalar.rs", "src/color_convert/avx.rs", "src/color_convert/sse.rs", "src/decoder.rs", "src/worker.rs"],
     [("choice", "choose_ycbcr_to_rgb_convert_func, Decoder::default"), ("converters", "ycbcr_to_rgb*, ycbcr_to_rgba*")],
     ABS + "(lane-wise linear forms of the bytes each converter writes, constant propagation through the choice)", "all output bytes of all converters")
prop("C10", "Header values are taken from the bytes that define them",
     "Width, height, precision, component count, sampling factors, table selectors, scan parameters and restart interval in use by the decoder are the big-endian values of exactly the bytes the JPEG standard assigns to them in their segment, whatever those bytes are.",
     ["inputs"], "all values of all header bytes",
     "swapped bytes or nibbles stay invisible as long as the test images have equal or symmetric values",
     ["src/headers.rs", "src/components.rs", "src/decoder.rs", "src/misc.rs"], [("segment parsers", "parse_start_of_frame, parse_sos, parse_marker_inner, Components::from")],
     ABS + "(byte provenance by value numbering)", "each header field versus the byte positions of the standard")
prop("C11", "Coefficients and quantization values follow the zig-zag order",
     "The k-th quantization value of a table and the k-th coefficient of a block are placed at the natural position the standard's zig-zag sequence assigns to k, in baseline and in every progressive pass.",
     ["inputs"], "all tables, all coefficient positions",
     "a transposed pair in the sequence only shifts some frequencies; tests do not compare pixels",
     ["src/misc.rs", "src/headers.rs", "src/bitstream.rs"], [("table", "misc.rs UN_ZIGZAG"), ("uses", "headers.rs un_zig_zag, bitstream.rs block decoders")],
     ABS + "(index provenance of every coefficient store)", "every store into a block or quantization table")
prop("C12", "All colour conversions implement the JPEG YCbCr transform",
     "Each implementation of the colour conversion computes every output channel as the JPEG (BT.601 full range) combination of the luma and chroma samples of the same pixel, with coefficients exact to within 2 percent, and clamps it to 0..255; all implementations use the same coefficients.",
     ["inputs", "configurations"], "all sample values, all pixels of a group, scalar, SSE and AVX2 implementations",
     "tests never compare pixels, and lane permutations affect only some columns",
     ["src/color_convert/scalar.rs", "src/color_convert/avx.rs", "src/color_convert/sse.rs"], [("converters", "ycbcr_to_rgb*, ycbcr_to_rgba*")],
     ABS + "in a lane-wise affine domain", "every lane of every output byte")
prop("C13", "Every decode call terminates",
     "Every loop of the decoder ends for every input: each one consumes input that is finite, or counts towards a bound that does not move away, so no byte string makes a call run forever.",
     ["inputs"], "all byte strings, including truncated ones",
     "a hang needs a specific malformed input, typically data that ends inside a marker",
     ["src/decoder.rs", "src/headers.rs", "src/bitstream.rs", "src/mcu.rs", "src/mcu_prog.rs"], [("loops", "every natural loop of the crate")],
     "static analysis: ranking arguments for every natural loop and recursion check on the call graph (MIR)", "every cycle of every control-flow graph must consume input, advance a finite iterator or move a monotone counter")
prop("C14", "Pixels do not depend on threads, time or environment",
     "The result of a decode depends on the input bytes and on the options other than the number of threads only: neither the number of worker threads, nor their schedule, nor time, randomness, environment variables or global mutable state can influence it.",
     ["schedules", "configurations"], "all schedules and thread counts",
     "a data race or an order dependence shows up rarely and never on demand",
     ["src/mcu.rs", "src/mcu_prog.rs", "src/worker.rs"], [("worker tasks", "scope.execute closures"), ("thread count", "options.rs get_threads")],
     "static analysis: information flow of the thread count, ownership of everything captured by worker tasks, effect analysis of the call graph", "captures, shared state and reachable external functions")
prop("C15", "A decoder can be reused: earlier calls leave no trace",
     "The outcome of decoding or reading headers depends on the given bytes and the options the caller set, not on what the same decoder was used for before, including calls that failed; decoding never changes the caller's options.",
     ["histories"], "all sequences of calls on one decoder",
     "it takes two specific images in a row, and a failure in between, to expose a stale table or flag",
     ["src/decoder.rs"], [("per-image state", "struct Decoder"), ("entry points", "decode_buffer, decode_file, read_headers")],
     "static analysis: interprocedural definite-assignment (must-write before read) per field of the decoder", "every field of the decoder at every read reachable from the entry points")
prop("C16", "Contradictory or unsupported headers are rejected",
     "An image is accepted only if it starts with the SOI marker, its frame has 8-bit precision, one or three components with ids 1 to 3 and power-of-two sampling factors, segment lengths that agree with their counts, quantization and Huffman table numbers 0 to 3 and classes 0 or 1, scan component lists without duplicates or unknown ids, and successive approximation values up to 13; everything else is reported as an error.",
     ["inputs"], "all header bytes",
     "each rejected condition is one comparison; the tests exercise a few of them with single values",
     ["src/headers.rs", "src/components.rs", "src/decoder.rs"], [("validation", "parse_start_of_frame, parse_sos, parse_dqt, parse_huffman, Components::from")],
     ABS + "(conditions implied at every successful return of a parser)", "conditions implied at successful exits")
prop("C17", "Errors found while decoding reach the caller",
     "When any step of reading or decoding detects an error, the call on the decoder returns an error: no error value is dropped, replaced by a default or turned into success on the way out, and no error is reported as a panic.",
     ["inputs", "fault_sequences"], "all inputs, all places where an error can arise",
     "dropping one error changes the outcome only for the malformed input that triggers that one",
     ["src/decoder.rs", "src/headers.rs", "src/mcu.rs", "src/mcu_prog.rs", "src/bitstream.rs"], [("error type", "errors.rs DecodeErrors"), ("propagation", "every call that returns a Result")],
     "static analysis: typestate of every Result value on every path (MIR)", "every call site that yields an error type")
prop("C18", "Restart markers and new scans reset the decoding state",
     "When a restart interval ends with a restart marker, and at the start of every scan of a progressive image, all DC predictions become zero, the bit buffer, the pending marker and the end-of-band run are cleared and the restart interval starts over. No coefficient is read once the restart interval has been counted down to its end until this has happened.",
     ["inputs", "histories"], "all images with restart intervals, all scans",
     "a predictor that survives a restart shifts colours only in images that use restarts with particular lengths",
     ["src/mcu.rs", "src/mcu_prog.rs", "src/bitstream.rs"], [("restart", "Decoder::handle_rst, BitStream::reset"), ("scan start", "parse_entropy_coded_data")],
     ABS + "(must-write facts at the exit of the restart handling) + typestate of the restart countdown over MIR", "state at exits of restart handling and at first use in a scan; countdown at every read of coefficients")
prop("C19", "Options are stored and returned unchanged",
     "Setting an option changes that option to the given value and no other, and every getter returns the value last set (or the documented default); a decoder created with options, or configured through its own setters, uses exactly those.",
     ["configurations", "histories"], "all values of all options, all orders of setting them",
     "tests set one or two options to one value each",
     ["src/options.rs", "src/decoder.rs"], [("options", "ZuneJpegOptions"), ("decoder setters", "Decoder::set_*")],
     ABS + "(symbolic transfer of each setter and getter)", "each setter and getter versus its frame condition")
prop("C20", "Strict mode only rejects more",
     "Turning strict mode on never changes the result of a decode that still succeeds: its only effect is that some inputs are rejected with an error.",
     ["inputs", "configurations"], "all inputs, strict mode on and off",
     "it is a relation between two runs on every input",
     ["src/decoder.rs", "src/mcu.rs", "src/mcu_prog.rs"], [("uses of the option", "ZuneJpegOptions::get_strict_mode")],
     "static analysis: control-dependence of everything on the strict-mode flag (MIR)", "each branch that depends on the flag")
prop("C21", "Decoding has no side effects outside the decoder",
     "Decoding from memory and reading headers never opens files, writes to standard output, spawns processes, uses the network, reads the environment or ends the process; decoding a file reads that file and nothing else. Apart from log messages and worker threads that end before the call returns, nothing outside the decoder is touched.",
     ["inputs", "programs"], "all inputs and API call sequences",
     "a side effect on a rare path (an error branch, a debug aid) is not observed by tests that look at return values",
     ["src/decoder.rs", "src/lib.rs"], [("file access", "Decoder::decode_file"), ("external calls", "whole call graph")],
     "static analysis: effect analysis of the call graph against a who-may-call table", "every external function reachable from the public API")
prop("C22", "Dequantization and inverse DCT compute the JPEG transform",
     "Each implementation of the inverse DCT multiplies every coefficient with the quantization value of its own position and yields, for each of the 64 samples, the standard's 8x8 inverse DCT plus 128 (each weight accurate, the rounding within one grey level), clamped to 0..255, at the right place in its row of blocks; the short cut for blocks with only a DC coefficient is taken only for such blocks and agrees with the general computation to within one grey level.",
     ["inputs", "configurations"], "all coefficient and quantization values whose products stay within the range of 8-bit images, scalar and AVX2; strides and groupings up to three blocks a row and two rows",
     "tests compare only all-zero or constant blocks, and only one implementation runs per machine",
     ["src/idct/scalar.rs", "src/idct/avx2.rs", "src/unsafe_utils.rs"], [("transforms", "dequantize_and_idct_int, dequantize_and_idct_avx2")],
     ABS + "over terms (64 arbitrary coefficients and quantization values, every output sample as a linear form of the products)", "coefficient matrix of each implementation versus the exact inverse DCT")
prop("C90", "The pixel pipeline as a whole never panics",
     "From decoded coefficients to output bytes (inverse DCT placement, up-sampling, conversion, distribution to threads) no input image can cause a panic.",
     ["inputs"], "all sampling factors, sizes and option combinations",
     "depends on products of sizes and sampling factors",
     ["src/mcu.rs", "src/mcu_prog.rs", "src/worker.rs", "src/upsampler.rs"], [("geometry", "decode_mcu_ycbcr_baseline, post_process")],
     na="it does not hold today (odd MCU row counts with vertical sub-sampling, narrow images and other geometries make chunk and slice arithmetic panic), and deciding it needs non-linear reasoning about products of runtime sizes; the defects are described in DESIGN.md")
prop("C91", "Decoded pixels match a reference decoder",
     "For every valid baseline or progressive image the output equals that of a reference decoder up to rounding.",
     ["inputs"], "all valid images", "needs all images",
     ["src"], [("whole pipeline", "decode_buffer")],
     na="end-to-end numerical equality over entropy-coded data is a runtime property; the structural clauses in reach (zig-zag, transforms, conversion, header values) are C09-C12 and C22")
prop("C92", "Huffman tables decode exactly the canonical code they describe",
     "For every set of code lengths the built look-up tables map each code word to its symbol.",
     ["inputs"], "all code length vectors", "astronomically many tables",
     ["src/huffman.rs"], [("table builder", "HuffmanTable::make_derived_table")],
     na="needs quantified reasoning about sums over array prefixes and data-dependent loops; no static abstraction in reach bounds it")
prop("C93", "Memory use is proportional to the image",
     "Peak memory stays below a fixed multiple of width times height times channels.",
     ["inputs"], "all images", "allocation peaks depend on schedule",
     ["src/mcu.rs", "src/mcu_prog.rs"], [("buffers", "global_channel, block")],
     na="peak memory depends on how many worker tasks are queued at run time")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["j"]) + "\n")
checks, na = [], []
for p in P:
    have = os.path.exists(os.path.join(V, "zv", "checks", p["pid"].lower() + ".py"))
    if p["na"]:
        na.append({"property": p["pid"], "reason": p["na"]})
    elif not have:
        na.append({"property": p["pid"], "reason": "check not built yet"})
    else:
        checks.append({"property": p["pid"], "quick_cmd": "python3 /verif/zv/run.py %s" % p["pid"],
                       "thorough_cmd": "python3 /verif/zv/run.py %s --tier=thorough" % p["pid"],
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 /verif/zv/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "n/a")
