#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RD = ["lib/image.c", "lib/image/pgm.c", "lib/image/pfm.c", "lib/image/y4m.c", "lib/image/libjpeg.c", "lib/image/libpng.c", "lib/image/magickwand.c", "lib/image/ffmpeg.c"]
AN = ["lib/analysis.c", "lib/methods.c", "lib/transform/fftw.c", "lib/transform/kiss_fft.c", "lib/resdetect.c"]
AI = "trace-partitioned abstract interpretation of the LLVM IR (bounds, lifetimes, initialisation, ownership; inductive loop generalisation)"
LN = ("Static analysis of every path of the most general client over the compiled source; sound up to the models of external functions and the "
      "listed assumptions; paths the engine gives up on are listed in the evidence and do not count as analysed.")
P = []
def prop(id, title, statement, over, text, why, files, mech, technique=AI, level="other", note=LN, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, level=level, note=note, na=na))

prop("R01", "Image readers are memory safe on any input",
     "Opening, reading, seeking and closing an image never reads or writes outside an object, uses an uninitialised or freed value, dereferences a null pointer or divides an integer by zero. "
     "This holds whatever the file contains and whichever allocation, read or library call fails.",
     ["inputs", "fault_sequences", "histories"], "every file content, every failure of an allocation, read or decoder call (including its error exit), every sequence of read and seek calls",
     "The tests open a dozen small files; malformed headers, extreme dimensions, decoder errors in the middle of a frame and failing allocations are not reached.",
     RD, [("frame decoding into the caller's buffer", "lib/image/*.c read_frame"), ("decoder error exits", "lib/image/libjpeg.c, lib/image/libpng.c"), ("skipping frames", "lib/image.c, lib/image/pfm.c, lib/image/y4m.c")])
prop("R02", "Image readers release every resource exactly once",
     "Whatever an attempt to open an image acquires is released before a failed open returns, and closing the image releases the rest: no memory, file or decoder object leaks and none is released twice. "
     "Frame reads and seeks keep nothing, and standard input is never closed.",
     ["inputs", "fault_sequences", "histories"], "every file content, every fault at every acquisition or read, every sequence of reads and seeks before closing",
     "Leaks on error paths are invisible to tests, which neither inject faults nor count resources.",
     RD, [("open error paths", "lib/image.c open_image and each reader's open"), ("close", "each reader's close")])
prop("R03", "Image reader failures are reported consistently",
     "Opening an image returns no image exactly if it reports an error; then dimensions are zero and the frame buffer null, otherwise the buffer holds one frame of the reported dimensions. "
     "A failed allocation, read or decoder call is never reported as success by open, read or seek.",
     ["inputs", "fault_sequences"], "every file content and every fault at every allocation, read, seek or decoder call",
     "Tests check the error codes of a few corrupt files; which failures are swallowed on which path is not observable without injecting each.",
     RD, [("error outputs of open", "lib/image.c open_image, resdet_open_image*"), ("error outputs of read and seek", "lib/image.c and each reader")])
prop("R04", "A frame reported as read is complete",
     "A frame read returns true only if every sample of the frame was written and no error is reported. "
     "It returns false without an error only at the clean end of the input, before any part of a frame was consumed; a single-image file gives its one frame exactly once.",
     ["inputs", "fault_sequences", "histories"], "every file content, every point at which the input ends or a call fails, every earlier sequence of reads and seeks",
     "Tests use complete files and one truncated file per format; they cannot try every truncation point, dimension and interlacing.",
     RD, [("frame decoding", "each reader's read_frame")])
prop("R05", "Seeking reports truthfully whether it passed the end",
     "A seek returns true only if it skipped all requested frames without an error, end of input or failed call. "
     "Seeking by zero frames succeeds unless an error is reported, and seeking by one succeeds over the unread frame of a single-image file.",
     ["inputs", "fault_sequences", "histories"], "every offset, file content and fault, any position reached by earlier reads and seeks",
     "Tests seek over one or two frames of regular seekable files.",
     RD, [("seeking", "each reader's seek_frame, lib/image.c resdet_fskip")])

DET = ["lib/resdetect.c", "lib/image.c", "lib/analysis.c"]
prop("R07", "Reading a whole file gives all its frames or an error",
     "Reading a whole image file returns one buffer with room for every frame reported, all of it written, with the file's dimensions; or an error and no buffer. "
     "A failed open, read, or allocation is never reported as success, the image is always closed, and nothing leaks, whatever the number of frames.",
     ["inputs", "fault_sequences"], "every number of frames and dimensions, every failure of the reader or of growing the buffer",
     "The tests read files of one or a few frames; growth of the buffer, its size arithmetic for large frames and failures part-way are not reached.",
     DET, [("growing the buffer", "lib/image.c resdet_read_image")])
prop("D01", "One-call detection analyses every frame or reports an error",
     "resdetect and resdetect_file succeed only if every given or readable frame was analysed and results were obtained, from at least one frame. "
     "Otherwise they return an error, with null results and zero counts. Every image, buffer and analysis used is released exactly once in every case, and images are only read within bounds.",
     ["inputs", "fault_sequences"], "every number of frames and dimensions, every combination of requested outputs, every failure of opening, reading, creating, analysing, collecting results or allocating",
     "Tests call these on a few good files; which failure is swallowed or leaks needs a fault at each step.",
     DET, [("detection of images in memory", "lib/resdetect.c resdetect_with_params"), ("detection of files", "lib/resdetect.c resdetect_file_with_params")])
prop("A01", "Analysis is memory safe for all dimensions and parameters",
     "Creating an analysis, analysing images, obtaining results and destroying the analysis never accesses memory outside an object, uses freed or uninitialised values, writes the caller's image or divides an integer by zero. "
     "This holds for every method, all dimensions, valid parameters, image contents and allocation failures.",
     ["inputs", "fault_sequences", "histories"], "every method, width, height, range, threshold, filter and sample values; every number of images; every allocation failing",
     "Tests use a few image sizes and default parameters; index arithmetic at the bounds for all sizes and ranges cannot be sampled.",
     AN, [("bounds of the result arrays", "lib/analysis.c setup_dimension"), ("coefficient indexing", "lib/methods.c"), ("results", "lib/analysis.c generate_dimension_results")])
prop("A02", "Detection results are well formed",
     "Successful results for a dimension contain the original size exactly as given with confidence -1, are sorted by descending confidence, number exactly as many as were stored, and every confidence is at most 1. "
     "Each analysed image adds at most 1 to any position's accumulated confidence, and the range of positions stays as set up.",
     ["inputs", "histories"], "every accumulated state after any number of images, every threshold, filter, range and dimension",
     "Tests compare the best result of a few images; the shape of all results after any history is not sampled.",
     AN, [("results", "lib/analysis.c generate_dimension_results"), ("accumulation", "lib/methods.c")])
prop("A05", "Analysis releases every resource exactly once",
     "A failed creation of an analysis releases all it acquired, analysing an image and obtaining results keep nothing beyond what they return, and destroying the analysis releases the rest: no allocation or transform plan leaks or is released twice.",
     ["inputs", "fault_sequences", "histories"], "every allocation or plan creation failing, every method and dimension, any number of images",
     "Leaks on error paths are invisible to tests, which neither inject faults nor count resources.",
     AN, [("creation and destruction", "lib/analysis.c"), ("plans and buffers", "lib/transform/fftw.c"), ("temporary sums", "lib/methods.c detect_method_original")])
prop("A06", "Analysis failures are reported and leave consistent state",
     "Creation returns no analysis exactly if it reports an error, and rejects empty dimensions. A failed allocation is never reported as success. "
     "An image is counted exactly if its analysis succeeded, and a failed one adds nothing to the accumulated sums. Results without any image are an error, and failed results return null and zero.",
     ["inputs", "fault_sequences", "histories"], "every allocation failing, every image content, any number of images before, every combination of requested outputs",
     "Tests do not make allocations fail and analyse mostly valid images.",
     AN, [("error outputs", "lib/analysis.c"), ("counting", "lib/analysis.c resdet_analyze_image")])
prop("A04", "Parameters, defaults, methods and error strings",
     "Parameter setters accept exactly a positive range, a threshold from 0 to 1 and a filter below 32, store what they accept and change nothing else. "
     "A new analysis uses the given method, dimensions and parameters, or the default ones, and methods are found by exactly their names. Exactly the defined error codes have a description.",
     ["inputs"], "every parameter value including NaN, every method name, every error code",
     "Tests set a handful of values; NaN, boundary and state-preserving behaviour hold for all values.",
     ["lib/util.c", "lib/methods.c", "lib/analysis.c", "lib/resdetect.c", "include/resdet.h"], [("setters", "lib/util.c"), ("method lookup", "lib/util.c resdet_get_method"), ("defaults", "lib/analysis.c resdet_create_analysis")])
prop("A08", "Only finite samples are analysed",
     "An image containing any infinite or NaN sample is rejected as invalid before it is transformed or contributes to any sum, and is not counted. An image of finite samples is never rejected for its contents. Samples are transformed before detection.",
     ["inputs"], "every image content and dimension, the offending sample at any position",
     "Tests place a bad sample at one or two positions.",
     AN, [("validation", "lib/analysis.c resdet_analyze_image")])
prop("A09", "Absent required arguments are rejected without effect",
     "Functions given a null image, analysis, file name, parameters or dimension output return the parameter error, set every given output to null or zero, and touch nothing else; releasing nothing is allowed.",
     ["inputs"], "every combination of present and absent arguments",
     "Tests try few of the combinations of absent arguments.",
     DET + ["lib/util.c"], [("argument checks", "each public function")])

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "python3 sa/frontend.py", "checks": [], "not_applicable": []}
    for p in P:
        if p["na"]: m["not_applicable"].append({"property": p["id"], "reason": p["na"]}); continue
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
    for p in P: assert len(p["title"]) <= 80, p["title"]
main()
