#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after editing; not part of any check)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Text escaping, quoting and string I/O are lossless",
 "For every byte string without NUL, writing it in the readable (backslash-escaped) or in the double-quoted form and decoding it again, writing it to a binary stream and reading it back, formatting it, duplicating it or splitting a stream into lines returns exactly the original bytes. Malformed escape sequences and truncated streams are rejected by a clean fatal exit or an error result, never by a wrong string or an invalid memory access. Hash-to-text and gather-copy helpers return exactly the bytes they were given, for every split into pieces.",
 ["inputs", "histories"], "all byte strings of any length (control, quote, backslash, high-bit bytes), all chunkings, all truncation points of a stream",
 "The suite decodes a dozen hand-written literals; it never round-trips arbitrary bytes, high-bit characters, long strings or truncated streams.",
 ["src/nx_string.c", "src/nx_io.c"], [("nx_xstr_from_readable / nx_xstr_from_double_quoted", "src/nx_string.c"), ("nx_fputs_readable / nx_fputs_double_quoted / nx_getline", "src/nx_io.c"), ("nx_memncpy_multi", "src/nx_string.c")],
 ["return values of the string API", "bytes in the stream"])
prop("C02", "String arrays and memory blocks behave like their abstract containers",
 "Under every sequence of create, append, set, formatted set, resize, find, wrap, copy, swap, reserve, release and push operations, string arrays, memory blocks and generated vectors hold exactly the content a plain list or byte-buffer model holds: growing keeps existing content, copies are independent, swaps exchange everything, wrapped memory that is not owned is never freed or modified by growing. A string array written to a stream reads back equal, and a truncated stream is reported. No sequence leaks, double-frees or touches memory out of bounds.",
 ["histories", "inputs"], "all operation sequences over sizes 0..large, owned and borrowed memory, every truncation point of the saved form",
 "Tests run short fixed scenarios on two or three elements.",
 ["src/nx_string_array.c", "src/nx_mem_block.c", "src/nx_vector_gen.c", "src/nx_keypoint_vector.c"], [("resize/reserve/copy/wrap", "src/nx_mem_block.c"), ("growth and ownership of strings", "src/nx_string_array.c")],
 ["container accessors after every operation"], state=[("size, capacity, own_memory", "content length, allocated length, ownership", "include/virg/nexus/nx_mem_block.h")])
prop("C03", "JSON text parses to exactly the document it denotes, or is rejected",
 "Every well-formed JSON document (object or array at the top level, strings of raw bytes and the simple backslash escapes) parses to a tree with the same structure, member order, names, decoded strings and numeric values, and printing that tree and parsing the result gives an equal tree again. Text that stops early or is not well formed within the document is rejected with a clean fatal error and never yields a tree, a hang, a stack overflow for long flat documents, or an invalid memory access. The scanner underneath reports the position, line and column it has reached, and an attempted match that fails leaves it where it was.",
 ["inputs"], "all JSON documents (any nesting, unicode bytes, escapes, long arrays) and all single-edit corruptions of them",
 "Only the lexer has tests (a handful of literals); parser, tree, printer have none.",
 ["src/nx_json_lexer.c", "src/nx_json_parser.c", "src/nx_json_tree.c", "src/nx_lexer.c"], [("tokeniser", "src/nx_json_lexer.c"), ("recursive-descent parser", "src/nx_json_parser.c"), ("tree constructors, printer, destructor", "src/nx_json_tree.c")],
 ["tree fields reached by walking the result", "printed text"])
prop("C04", "Values bundled or logged as JSON read back equal",
 "For every sequence of bundled values (booleans, integers of every width, reals, strings, arrays, matrices, keypoints) the emitted JSON is well formed, preserves order and names, and un-bundling it restores equal values. The JSON log emits, on every stream it is given, exactly the entries logged, in order. Checked access to a missing member or with the wrong type is an explicit fatal error rather than a wrong value.",
 ["inputs", "histories"], "all values of each supported type including extremes, all nestings, all array lengths",
 "There are no tests of bundling or logging.",
 ["src/nx_json_bundle.c", "src/nx_json_log.c", "src/nx_keypoint.c"], [("bundle/unbundle per type", "src/nx_json_bundle.c"), ("log writer", "src/nx_json_log.c")],
 ["printed tree", "unbundled values"])
prop("C05", "CSV tables load with the exact cells and column types they contain",
 "Loading any well-formed CSV text whose first record names the columns (quoted and unquoted fields, doubled quotes, embedded separators and newlines, missing cells) yields a table whose row count, column names, inferred column types, cell values and missing-value marks equal those of an independent reading of the same text, for strings kept as strings or turned into factors, from memory or from a stream. Text with ragged rows or unterminated quotes is rejected explicitly.",
 ["inputs"], "all rectangular tables over integers, reals, strings and missing cells, with arbitrary quoting; all corruptions of them",
 "Tests load a few fixed tables; type inference boundaries, quoting combinations and corrupt input are unreached.",
 ["src/nx_csv_lexer.c", "src/nx_csv_parser.c", "src/nx_data_frame.c"], [("type inference and cell storage", "src/nx_csv_parser.c"), ("quoted field tokens", "src/nx_csv_lexer.c")],
 ["data-frame accessors after load"])
prop("C06", "Data frames keep every cell through edits, factors and save/load",
 "Under every sequence of column additions, row additions, cell updates, factor level definitions and conversions, a data frame reports exactly the cells, missing marks, labels and types a table model holds. Saving it as CSV and loading it back reproduces column names, integers, strings, factor labels and missing marks exactly and reals to the printed precision.",
 ["histories", "inputs"], "all edit sequences over integer, real, string and factor columns of any size with arbitrary text",
 "Tests use small fixed frames without quotes, separators or escapes in labels.",
 ["src/nx_data_frame.c"], [("column storage, NA handling, relevel, fprintf/load", "src/nx_data_frame.c")],
 ["accessors", "saved CSV text"])
prop("C07", "Command-line parsing assigns exactly what the arguments say",
 "For every set of declared options and every argument vector, each option ends with the value of the last occurrence of its short or long switch (value in the next argument) or with its default, is reported as set exactly if it occurred, and the remaining arguments are returned unchanged and in order. A value missing at the end, a missing required option or argument, a duplicate or ill-formed declaration and access by an unknown name or wrong type are rejected with an error exit. Parsing again starts afresh, usage and value listings show every option with its switches, help and value in order of declaration, and the C and the C++ interface behave alike.",
 ["inputs", "configurations"], "all option tables and argument vectors, including extreme numbers, strings with any bytes, the end-of-options marker",
 "Tests use one small table and a few argument lists.",
 ["src/nx_options.c", "src/vg_options.cc", "include/virg/nexus/vg_options.hpp"], [("declaration grammar and lookup", "src/nx_options.c"), ("argument scanning and conversion", "src/nx_options.c")],
 ["option getters and remaining argv after parsing", "exit status"])
prop("C08", "Python option sets resolve and persist values faithfully",
 "For every option declaration and command line, each Python option resolves to the command-line value if given and to its declared default otherwise, with the declared type. Saving an option set to YAML and loading it back restores every value of every type exactly, and option sets never share state with each other.",
 ["inputs", "histories"], "all declarations of int, float, str, bool options, all values including strings that look like other YAML types",
 "The Python suite checks two fixed option sets.",
 ["pyvirg/virg/nexus/options.py"], [("argument parsing and YAML load/save", "pyvirg/virg/nexus/options.py")],
 ["values of the options object"])
prop("C09", "SHA-256, bit counting and byte order match their standards",
 "For every message and every way of splitting it into chunks the 256-bit digest equals the FIPS 180-4 SHA-256 digest of the concatenated bytes. Population counts, Hamming distances, bit-array reads and writes, rotations and endian conversions equal their mathematical definitions for every input and length, on aligned and unaligned data.",
 ["inputs"], "all messages of all lengths and splits; all bit vectors, offsets and rotation counts",
 "Tests use published vectors and a few fixed splits and lengths.",
 ["src/nx_hash_sha256.c", "src/nx_bit_ops.c", "include/virg/nexus/nx_bit_ops.h"], [("padding and block schedule", "src/nx_hash_sha256.c"), ("nx_hamming_distance and bit set/get", "src/nx_bit_ops.c")],
 ["digest bytes", "return values"])
prop("C10", "Image containers keep every pixel under copy, resize, wrap and swap",
 "Under every sequence of allocation, resize, copy, wrap, swap, set and release operations an image reports the requested geometry, its storage is large enough for it, and its pixels equal those of an array model; padding beyond the row width never influences a result. Copies are deep, borrowed buffers are never freed nor written outside their extent, and no operation leaks or accesses memory outside the image.",
 ["histories", "inputs"], "all operation sequences over both pixel types, gray and multi-channel, all sizes and row strides",
 "Tests cover a few fixed sizes and never use padded strides or borrowed memory after resizing.",
 ["src/nx_image.c", "src/vg_image.cc", "include/virg/nexus/nx_image.h"], [("nx_image_resize / wrap / copy / swap", "src/nx_image.c")],
 ["image fields and pixels after every operation"])
prop("C11", "Pixel operations and filters compute their definitions at every pixel",
 "Type and color-space conversions, color maps, scaling, arithmetic, derivatives, box and Gaussian smoothing, one-dimensional convolution and border handling, and range normalisation produce at every pixel, including borders and the last row and column, the value of their mathematical definition up to rounding, for every image size, row stride and kernel. In-place and out-of-place forms agree, and nothing outside the destination pixels changes.",
 ["inputs"], "all images (uchar and float, gray and RGB), sizes down to one pixel, strides, kernel sizes, sigmas",
 "Tests check one-dimensional filters on short vectors and a few conversions; most operations have no test.",
 ["src/nx_image.c", "src/nx_filter.c", "src/nx_colorspace.c"], [("per-pixel loops and border copies", "src/nx_image.c"), ("symmetric/box convolution and Gaussian kernels", "src/nx_filter.c"), ("color matrices", "src/nx_colorspace.c")],
 ["destination pixels", "canary bytes around rows"])
prop("C12", "Image resampling, pyramids and warps place pixels where geometry says",
 "Downsampling, upsampling, scaling, pyramid construction, rotation and affine warping produce images of the documented size whose pixels equal the reference interpolation of the source at the mapped position, with the requested background handling outside the source. Pyramid levels have the scales, sizes and content their scheme defines for every base size and level count, and rebuilding with a new image gives the same result as a fresh pyramid.",
 ["inputs", "configurations"], "all image sizes, types, scale factors, level counts, warp matrices, background modes",
 "Tests check pyramid level sizes for one image; warping and scaling are untested.",
 ["src/nx_image.c", "src/nx_image_pyr.c", "src/nx_image_pyr_builder.c", "src/nx_image_warp.c", "src/nx_affine_warp_processor.c", "src/vg_image_pyr.cc"], [("bilinear sampling and border modes", "src/nx_image_warp.c"), ("level geometry", "src/nx_image_pyr_builder.c"), ("tilt/rotation warp and inverse", "src/nx_affine_warp_processor.c")],
 ["level/warped images and their geometry"])
prop("C13", "Images survive saving and loading",
 "Every 8-bit gray or color image of any size and stride written as PNM or PNG loads back pixel-identical with the same geometry (PNM keeps no alpha), and as JPEG within a small error; loading with a requested color mode yields the channel count and the luma or replicated values that mode defines. Conforming files written by other tools (binary PNM with comments; PNG with palettes, transparency, 1 to 16 bits, interlacing; progressive or subsampled JPEG) load to the pixels they denote.",
 ["inputs", "configurations"], "all images, sizes, strides, load modes, file formats",
 "Tests save and reload one fixed image per format.",
 ["src/nx_image_io.c", "src/nx_image_io_pnm.c", "src/nx_image_io_png.c", "src/nx_image_io_jpeg.c"], [("format readers and writers", "src/nx_image_io_*.c"), ("extension dispatch", "src/nx_image_io.c")],
 ["loaded images", "file bytes"])
prop("C14", "Malformed input files are rejected cleanly by every loader",
 "For every byte content of an image, matrix, JSON, CSV, descriptor, keypoint, string, string-array, feature-cache or dataset file, a loader either loads it or reports failure by its documented result or fatal exit; it never reads or writes out of bounds, never loops forever, and non-fatal loaders release what they acquired.",
 ["inputs", "fault_sequences"], "all truncations, bit flips, header edits and hostile dimensions of files of every supported format",
 "No test feeds a malformed file.",
 ["src/nx_image_io_pnm.c", "src/nx_image_io_png.c", "src/nx_image_io_jpeg.c", "src/nx_brief_extractor.c", "src/nx_string_array.c", "src/nx_homography.c", "src/nx_keypoint.c", "src/nx_sift_detector.c", "src/nx_temple_color_128.c", "src/nx_vgg_affine_dataset.c"], [("header validation and error paths", "src/nx_image_io_*.c")],
 ["process exit status", "sanitizer reports", "allocation counters"])
prop("C15", "Write and read failures are never reported as success",
 "Whenever the operating system refuses a write, a flush, a close, an open or a read in the middle of an operation, the operation reports failure by its result or a fatal exit. A success report therefore means that the complete data is in the file.",
 ["fault_sequences", "crash_points"], "every position at which an I/O call of a save or load operation can fail",
 "No test injects an I/O failure.",
 ["src/nx_io.c", "src/nx_image_io_pnm.c", "src/nx_image_io_png.c", "src/nx_image_io_jpeg.c", "src/nx_string_array.c", "src/nx_data_frame.c", "src/nx_brief_extractor.c"], [("checked stdio wrappers", "src/nx_io.c")],
 ["result codes and exit status against injected faults"])
prop("C16", "Corner detectors report exactly the corners their definition selects",
 "For every gray image, size, stride and threshold the segment-test detector reports exactly the pixels with nine contiguous circle pixels all brighter or all darker than the threshold, with the largest threshold at which they remain corners as score; non-maximum suppression keeps exactly the strict local maxima, and orientations are the intensity centroid's. The Harris detector reports exactly the interior strict local maxima of det - k trace^2 above the threshold, in scan order up to the requested number; the checkerboard response equals its definition. Detection on a pyramid reports each level's keypoints with that level's scale; no keypoint lies outside the image.",
 ["inputs", "configurations"], "all images, sizes, strides, thresholds, keypoint limits, pyramid depths",
 "Tests detect on one photograph and check simple sanity conditions.",
 ["src/fast/fast_9.c", "src/fast/fast_nonmax.c", "src/nx_fast_detector.c", "src/nx_harris_detector.c", "src/vg_harris_detector.cc", "src/nx_checkerboard_detector.c"], [("decision tree and scoring", "src/fast/fast_9.c"), ("suppression", "src/fast/fast_nonmax.c"), ("budgeted key storage", "src/nx_fast_detector.c")],
 ["keypoint arrays"])
prop("C17", "SIFT and binary descriptors are deterministic, correct and matched exactly",
 "SIFT keypoints are exactly the scale-space extrema passing the contrast and edge thresholds, with orientation peaks and descriptors as defined, and extraction gives the same result for the same image regardless of row stride, earlier use of the detector, or whether the result came from the on-disk cache. Binary descriptors hold exactly the comparisons of their sampler; a saved sampler or feature file reproduces identical content when loaded. Brute-force matching returns for every feature exactly the nearest neighbour (with the ratio test where requested), and nearest-neighbour search in a descriptor map equals an exhaustive search after every history of insertions.",
 ["inputs", "histories", "configurations"], "all images, strides, detector reuse histories, descriptor sets including ties and empty sets",
 "Tests cover the binary descriptor on one image; SIFT, caching, matching have none.",
 ["src/nx_sift_detector.c", "src/nx_brief_extractor.c", "src/vg_brief_extractor.cc", "src/vg_descriptor_map.cc"], [("cache key and cache files", "src/nx_sift_detector.c"), ("matching loops", "src/nx_sift_detector.c"), ("point-pair sampling and save/load", "src/nx_brief_extractor.c")],
 ["keypoints, descriptors, match lists", "cache files"])
prop("C18", "Random samplers are reproducible, in range and follow their distribution",
 "A sampler's output is the SFMT-19937 sequence of its seed: two samplers given the same seed produce identical sequences for every mix of calls, block fills equal single draws, and uniform reals lie in [0,1). Gaussian samples follow the normal distribution with the requested mean and deviation, and uniform draws are uniform.",
 ["inputs", "histories"], "all seeds, all call mixes, all ranges",
 "No test covers the samplers.",
 ["src/nx_uniform_sampler.c", "src/nx_gaussian_sampler.c", "src/SFMT/SFMT.c"], [("SFMT generator and conversions", "src/nx_uniform_sampler.c"), ("polar method", "src/nx_gaussian_sampler.c")],
 ["sample sequences"])
prop("C19", "Statistics, ordering and numeric helpers equal their definitions",
 "For every data set the summary (minimum, quartiles, median, maximum, mean, deviation) equals the values of an exact computation and leaves the data a permutation of itself, and the scalar helpers (minimum, maximum, sign, error function, comparison, elapsed time) satisfy their definitions for every argument including extremes.",
 ["inputs"], "all data sets of all sizes with ties, negative and extreme values; all scalar arguments",
 "Tests use a few short arrays and no extremes.",
 ["src/nx_statistics.c", "src/nx_math.c", "include/virg/nexus/nx_math.h"], [("selection based quartiles", "src/nx_statistics.c")],
 ["returned statistics"])
prop("C20", "Graphs report exactly the edges inserted",
 "After every sequence of edge insertions both graph representations report the same vertex count, edge count, adjacency, degrees and edge weights as a model of an undirected simple graph in which self edges are ignored and inserting an existing edge replaces its weight.",
 ["histories", "inputs"], "all insertion sequences over all vertex counts",
 "Tests insert a few fixed edges.",
 ["src/nx_graph.c"], [("adjacency matrix and list insertion", "src/nx_graph.c")],
 ["graph queries"])
prop("C21", "Linear algebra routines satisfy their defining identities",
 "For every well-conditioned input, matrix products, transposes, determinants, inverses, singular value decompositions, symmetric solves, row and column helpers and vector operations satisfy their defining equations to working precision in single and double precision, singular values are non-negative and ordered, padding between columns and inputs documented as preserved are unchanged, and a matrix written as text reads back equal.",
 ["inputs", "histories"], "all matrix shapes and contents, leading dimensions, transpose flags, workspace reuse",
 "Tests use a few fixed small matrices.",
 ["src/nx_svd.c", "src/nx_linear_solvers.c", "src/nx_mat.c", "include/virg/nexus/nx_mat234.h", "include/virg/nexus/nx_vec.h", "include/virg/nexus/nx_vec234.h", "include/virg/nexus/nx_mat.h"], [("LAPACK wrappers", "src/nx_svd.c"), ("fixed-size kernels", "include/virg/nexus/nx_mat234.h")],
 ["output matrices"])
prop("C22", "Rotations and planar transforms are consistent across representations",
 "Rotation matrices are orthonormal with determinant one; conversions between quaternions, axis-angle, Euler angles (both axis orders) and matrices describe the same rotation, composition matches matrix products, and applying a rotation and its inverse restores any vector. Planar similarity, affine and perspective constructors, inversions and point mapping equal their matrix definitions.",
 ["inputs"], "all angles, axes, scales, shears, compositions and point sets",
 "Tests sample a few angles; planar transforms are untested.",
 ["src/nx_quaternion.c", "src/nx_rotation_3d.c", "src/nx_transform_2d.c"], [("conversion formulas", "src/nx_quaternion.c, src/nx_rotation_3d.c"), ("transform algebra", "src/nx_transform_2d.c")],
 ["matrices and mapped points"])
prop("C23", "Homography estimation returns consistent models and inlier sets",
 "Minimal and least-squares estimates reproduce exact correspondences to working precision, transfer and error measures equal their definitions, coordinate normalisation and its inverse cancel, and robust estimation returns a count equal to the number of matches it flags, flags exactly the matches within tolerance of the returned model, keeps the match list a permutation of its input, and returns zero when it has no model, in particular for fewer than four matches. With exact inliers and gross outliers, all inliers are recovered, for every robust estimator offered.",
 ["inputs", "histories"], "all match sets, outlier ratios, tolerances, iteration limits, seeds",
 "The suite's homography tests use unseeded random data and are not stable; none checks flag and count consistency.",
 ["src/nx_homography.c", "src/nx_usac.c", "src/nx_usac_homography.c", "src/vg_homography.cc", "src/nx_point_match_2d_stats.c", "src/vg_point_correspondence_2d.cc"], [("sampling, scoring, refinement", "src/nx_homography.c, src/nx_usac_homography.c"), ("coordinate normalisation", "src/nx_point_match_2d_stats.c")],
 ["model, inlier flags, returned counts"])
prop("C24", "Two-view and camera geometry satisfies the epipolar constraints",
 "A fundamental matrix estimated from exact correspondences has rank two and satisfies the epipolar equation for them, robust estimation returns a count that equals its flags and tolerance, and the essential matrix, its four decompositions and the selected pose satisfy their defining relations. Triangulation inverts projection through calibrated cameras and never writes more points than requested; camera and OpenGL projection matrices equal their definitions.",
 ["inputs"], "all camera poses, intrinsics, scene points, outlier ratios, match counts",
 "The suite's epipolar and pinhole tests use unseeded random data and are not stable.",
 ["src/nx_epipolar.c", "src/nx_pinhole.c", "src/vg_fundamental_matrix.cc", "src/GL/nx_gl_projection.c"], [("eight-point solver, rank constraint", "src/nx_epipolar.c"), ("DLT triangulation", "src/nx_pinhole.c")],
 ["matrices, counts, points"])
prop("C25", "Drawing and plotting emit exactly the requested primitives",
 "Drawing into an image surface colors exactly the pixels of the requested primitive in the requested color and leaves the rest unchanged, wrapped images receive the drawing, and PDF and SVG files contain exactly the requested paths at the requested page size; annotations and match images show the keypoints and matches given. The plotting interface sends exactly the commands, labels and data points requested, in order. A drawing that cannot be created or written is reported.",
 ["inputs", "histories"], "all primitives, colors, surface sizes, labels and data sequences",
 "Tests only check that drawing and plotting calls return.",
 ["src/nx_gc_cairo_imp.c", "src/vg_graphics_context.cc", "src/nx_gnuplot.c", "include/virg/nexus/vg_color_map.hpp"], [("cairo bindings", "src/nx_gc_cairo_imp.c"), ("command stream", "src/nx_gnuplot.c")],
 ["surface pixels", "command stream bytes"])
prop("C26", "Dataset, directory and keypoint readers return exactly what is on disk",
 "For every KITTI, Temple Color 128 or VGG affine directory, directory listing and keypoint stream, the readers return exactly the existing entries (sorted), frames, ground-truth values and keypoints, and writing keypoints and reading them back restores them. Missing or inconsistent files and directories are reported.",
 ["inputs", "configurations"], "all directory contents, frame counts, ground-truth values, keypoint sets",
 "There are no tests for these readers.",
 ["src/nx_kitti_slam.c", "src/nx_temple_color_128.c", "src/nx_vgg_affine_dataset.c", "src/nx_filesystem.c", "src/nx_keypoint.c", "src/nx_sift_detector.c"], [("path templates and text scanning", "src/nx_kitti_slam.c, src/nx_temple_color_128.c, src/nx_vgg_affine_dataset.c"), ("directory scan", "src/nx_filesystem.c")],
 ["returned paths, images, matrices"])
prop("C27", "Errors stop the operation with a diagnostic, verbosity is honoured",
 "A fatal condition always invokes the installed handler exactly once or ends the process with the documented failure status after printing its message, never returning to the caller; a refused memory allocation stops every library operation this way. Messages below the chosen verbosity are suppressed, all others are printed once, complete and in order as [level][tag][function:line] message, for every message text.",
 ["inputs", "configurations"], "all message texts, levels, verbosities, handler settings",
 "Only death tests of a few callers exist.",
 ["src/nx_log_c_impl.c", "src/nx_alloc.c"], [("level filter and fatal handler", "src/nx_log_c_impl.c"), ("checked allocation", "src/nx_alloc.c")],
 ["stderr text, exit status"])
prop("C28", "The command-line tools produce correct results end to end",
 "Each tool run on valid inputs exits successfully and its printed rows or documents and written files agree with the library operation it wraps (Harris corners, SIFT features, benchmark counts, homography fits and their inlier and validation statistics, stitched panorama, stereo homography), whatever the order of its options. Run with missing or invalid inputs, unrelated pictures to stitch, or an unwritable output it exits with failure and a diagnostic. No run performs an invalid memory access or hangs.",
 ["inputs", "configurations"], "all option combinations and input images of the shipped tools",
 "The tools have no tests.",
 ["tools/nx_fit_homography_main.c", "tools/nx_harris_detector_main.c", "tools/nx_panorama_builder.c", "tools/nx_sift_detector_main.c", "tools/nx_stitch_main.c", "tools/vg_stereo_matcher_main.cc"], [("tool main functions", "tools/")],
 ["exit status, output files"])
prop("C29", "OpenGL helpers manage buffers, shaders and programs exactly",
 "Buffers own exactly one live buffer object each from creation to release, hold the data, size, target and usage given and are bound to their target on request. Shaders and programs are built from exactly the sources given, compiled, linked and validated, and temporary shaders are released; a step the driver refuses is reported with the stage and the driver's log. Driver messages are logged once at the level of their severity, for every text.",
 ["inputs", "histories"], "all buffer histories, shader sources, driver refusals and driver messages",
 "The OpenGL helpers have no tests.",
 ["src/GL/nx_gl.c", "src/GL/nx_gl_buffer.c", "src/GL/nx_gl_shader.c", "src/GL/nx_gl_program.c"], [("OpenGL helper functions", "src/GL/")],
 ["OpenGL object state, diagnostics"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
