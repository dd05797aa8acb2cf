"""Per-property configuration of the checks."""
BASE = ["Sanitizers (ASan, UBSan incl. float-cast-overflow, patterned uninitialised stack and heap memory) observe the 'san' build; the 'opt' build uses the project's own -O3 -mavx2 flags and is judged by the behavioural monitors only.",
        "Coverage is what the seeded generator reached in this run, not an enumeration."]
def run_tools(rep, spec):
    import vlib
    for variant in ("san", "opt"):
        tools = vlib.build_tools(variant)
        exe = vlib.build("c28", ["vh.cpp"] + spec["src"], variant)
        rep.run_harness(exe, variant, env={"VT_TOOLS": tools})
        if rep.fails: break
SPECS = {
 "C01": dict(src=["c01_text.cpp"], rule="seeded random byte strings (5 alphabets), encoded forms, streams with random truncation, chunkings; non-trivial: more than one byte/element; distinct by content hash", assumptions=BASE),
 "C02": dict(src=["c02_containers.cpp"], rule="seeded random operation histories on containers compared with list models after every operation; non-trivial: more than 3 operations; distinct by hash of operations and contents", assumptions=BASE),
 "C03": dict(src=["c03_json.cpp"], rule="seeded random documents written with random whitespace/escaping, trees built by constructors, corrupted texts judged by an independent recogniser; distinct by text hash", assumptions=BASE + ["Supported language: top-level object or array, no \\u escapes, raw control characters tolerated in strings; trailing text after the first value may be ignored or rejected; nesting depth up to 400."]),
 "C04": dict(src=["c04_bundle.cpp"], rule="seeded random values of every bundled type passed through printed text and back; random log histories over all streams; distinct by emitted text", assumptions=BASE + ["Finite numbers only."]),
 "C05": dict(src=["c05_csv.cpp"], rule="seeded random CSV texts (typed, mixed, quoted, missing cells, 4 loading entry points) and corrupted texts, each judged by an independent reader; non-trivial: at least one data row; distinct by text hash", assumptions=BASE + ["First record is the header; records end with \\n; '\\r' is ordinary data; an empty record is a missing cell only in a single-column table."]),
 "C06": dict(src=["c06_dataframe.cpp"], rule="seeded random edit histories against a table model; random tables saved and reloaded; non-trivial: more than 5 operations / at least one row; distinct by operations / saved text", assumptions=BASE + ["Finite reals; a real column whose values are all integral may reload as an integer column with equal values."]),
 "C07": dict(src=["c07_options.cpp"], rule="seeded random option declarations and argument vectors (values that look like switches, unknown switches, repeated switches, NULL string defaults, re-parsing) through the C and the C++ interface against a reference interpretation; non-trivial: at least one argument; distinct by argument vector", assumptions=BASE + ["Numeric values given are well formed and in range; unknown switches are ordinary remaining arguments, as the interface documents."]),
 "C08": dict(run=lambda rep, spec: rep.run_py("c08_options.py"), rule="seeded random Python option declarations, command lines and YAML files, complete and partial, loaded over fresh and over earlier values; two independent option sets observed side by side; distinct by declaration and command line", assumptions=["Option titles are single lines; values are strings, integers, reals and booleans; executed in CPython, so memory safety is not at issue.", "Coverage is what the seeded generator reached in this run, not an enumeration."]),
 "C09": dict(src=['c09_bits.cpp'], rule='every message length 0..259 plus random lengths, random splits into pieces, random and boundary words with every rotation amount, all 65536 octet pairs, messages of 256 MiB to 4 GiB whose length leaves 32 bits, random bit-array histories; distinct by input hash', assumptions=BASE + []),
 "C10": dict(src=['c10_image.cpp'], rule='seeded random histories of 3..30 (thorough 60) operations on three images (both pixel types, gray/RGBA, padded strides, owned and borrowed memory, C and C++ interface) compared pixel by pixel with an array model after every operation; oversized and negative geometries; distinct by operations', assumptions=BASE + ['Sizes in histories are heavy-tailed (mostly up to 20x20, a few hundred pixels a side in the tail); content of an image after resizing is unspecified until written; resizing may reuse borrowed memory that is large enough.']),
 "C11": dict(src=['c11_pixels.cpp'], rule='seeded random images (uchar/float, gray/RGBA, 1x1 up, default/padded/borrowed strides with garbage padding, dirty destinations) through every pixel operation and filter, each pixel compared with a double-precision reference; in-place repeated; distinct by pixels', assumptions=BASE + ['Operations whose interface is gray-only are driven with gray images; integer results are compared within the truncation of one unit per pass; images up to 48x48.']),
 "C12": dict(src=['c12_resample.cpp'], rule='seeded random images, scale factors, pyramid schemes, affine maps (exact dyadic and arbitrary), background modes and warp parameters; plane waves whose amplitude, phase and mean are measured through the affine warp; every destination pixel compared with a double-precision reference at the mapped position; rebuilds compared with fresh pyramids; distinct by pixels and parameters', assumptions=BASE + ['Pyramids and warps are 8-bit grayscale (their interface); every pyramid level has at least one pixel; positions within 1e-3 of a cell or image border may fall on either side; blurred tilt/scale warps are checked on gradients away from the source border.']),
 "C13": dict(src=['c13_imageio.cpp'], rule='seeded random images (gray/RGBA, 1x1 up, default/padded/borrowed strides, dirty destinations) saved and loaded through every entry point and load mode; reference files written directly with libpng/libjpeg/by hand (all PNG color types, depths 1-16, palettes, tRNS, interlacing; baseline/progressive JPEG; commented PNM headers); every loaded pixel compared with the denoted pixel; distinct by file bytes', assumptions=BASE + ['libpng and libjpeg are trusted as reference codecs; 16-bit samples denote their high byte; the alpha of gray+alpha PNG files is dropped by the loader; JPEG color images are checked with slowly varying color because chroma is subsampled.']),
 "C14": dict(src=['c14_hostile.cpp'], rule='valid files of every kind (3 image formats incl. 4-component JPEG and checksum-repaired PNG damage, strings, string arrays, BRIEF samplers, SIFT files and caches, keypoints, 3 dataset layouts, matrices, JSON, CSV) truncated at random points, bit-flipped, spliced, with rewritten counts, or junk with a valid magic; headers announcing up to 2^31 pixels; distinct by file bytes', assumptions=BASE + ['Truncation inside JPEG data may load (libjpeg pads); claimed element counts of string arrays and BRIEF samplers are bounded at 2e6/1e5 because the readers allocate what the header claims.']),
 "C15": dict(libs=["-Wl,--wrap=fopen"], src=['c15_faults.cpp'], rule='28 writers and 29 readers, each first run undisturbed, then with an injected failure of the open, of the close, or of the read/write of a chosen byte (every 4096-byte boundary, first and last bytes, random ones; persistent and one-off), plus file size limits, the full device, directories and missing directories; success must never be reported when a fault was delivered and must imply the undisturbed content; distinct by operation and content', assumptions=BASE + ['Faults are injected below stdio through fopen, so operations are observed through the streams the library itself opens; close failures are injected for writers only.']),
 "C16": dict(src=['c16_corners.cpp'], rule='seeded random pictures (block patterns with score ties, sparse rectangles, noise, gradients, 1x1 up, padded/borrowed strides), thresholds 0..254, truncated buffers, three pyramid schemes; every keypoint, score, orientation and field compared with a literal implementation of the definition; score images compared in double precision; distinct by pixels and threshold', assumptions=BASE + ['FAST-9 on images mostly up to 60x60, with a tail of several hundred pixels a side; diagonal means of the checkerboard detector are checked on slow waves away from the border within 6 grey levels.']),
 "C17": dict(src=['c17_features.cpp'], rule="seeded random textures, blobs and discs (uchar/float, 1x1 up, padded/borrowed strides) with random detector parameters: every SIFT feature and descriptor compared with a double-precision extraction on the library's smoothed images, then repeated with other storage, buffers, a used and a new detector (bit-identical); cache histories over variants differing in one pixel, geometry, type or parameter; exhaustive matching; save/load; BRIEF samplers, descriptors and descriptor maps against literal references; distinct by content", assumptions=BASE + ['Decisions within a margin of a threshold (2e-6 in DoG value, 1e-3 px) may go either way; images mostly up to 64x64, with a larger tail; border distance at least 3; BRIEF radius at least 4.']),
 "C18": dict(src=['c18_samplers.cpp'], rule='seeds 0, extreme and random; random mixes of 32/64-bit, single, double and block draws on two equally seeded samplers and a literal SFMT-19937; seeds chosen so that words rounding to one occur; Kolmogorov-Smirnov, moment, correlation and tail monitors; distinct by seed and call sequence', assumptions=BASE + ['Block fills are driven at block boundaries with aligned memory and at least 624 words, as the generator requires; statistical limits are at 6.5 standard deviations or more.']),
 "C19": dict(src=['c19_stats.cpp'], rule='seeded random data sets (0..1500 values, with a tail of tens of thousands; ties, constants, INT_MIN/INT_MAX mixes, huge, tiny and large-offset reals; sorted, reversed, shuffled) against long double computations; helper arguments at every type extreme; distinct by data', assumptions=BASE + ['Finite reals whose squares neither overflow nor underflow; quartiles are the medians of the lower and upper half without the middle element.']),
 "C20": dict(src=['c20_graph.cpp'], rule='seeded random insertion histories (repeated, reversed and self edges; zero, negative, infinite weights; 0..250 vertices) on both representations, compared with an edge-set model after every insertion; distinct by insertions', assumptions=BASE + ['Vertices are in range and no inserted weight equals the absent-edge marker.']),
 "C21": dict(src=['c21_linalg.cpp'], rule='seeded random matrices of every shape (mostly up to 40x40, larger in the tail) (padded leading dimensions with sentinels, integer/sparse/tiny/huge/rank-deficient entries, both precisions) through every decomposition, solver, product, transpose, text and fixed-size or vector routine, judged by the defining equations in long double; distinct by matrix content', assumptions=BASE + ["Fixed-size inverses are judged when |det| is at least 1e-3 of the sum of its terms' magnitudes; LAPACK itself is the platform's."]),
 "C22": dict(src=['c22_transforms.cpp'], rule='seeded random and special axes (unnormalised, zero components, tiny and huge), angles (0, multiples of 60/90/180 degrees, just off 180, tiny, up to 1e6), Euler triples, quaternions, similarity/affine parameters and convex quadrilaterals in both precisions, every result compared with long double definitions; distinct by parameters', assumptions=BASE + ['Perspective matrices are judged when their normalised elements stay below 20 and corners are not near the line at infinity; single precision perspective is judged within 0.03 because its closed form cancels.']),
 "C23": dict(src=['c23_homography.cpp'], rule='seeded random homographies (similarity, affine, perspective, degenerate and mirrored configurations), exact, noisy and outlier-ridden match sets (4..300 matches, thousands in the tail, repeated and collinear points, offsets and scales), random tolerances and iteration budgets, noise and mirrored scenes in the robust groups, failing estimates (no flag may remain), and a generic USAC driver whose model callbacks are recorded; every estimate, inlier flag, count and transfer error is recomputed in double precision; non-trivial: at least 4 distinct matches; distinct by the matches', assumptions=BASE + ['Recovery from outliers is judged when the true model is plausible (unmirrored, diagonals of the mapped square more than 20 degrees apart), at least 12 exact inliers make up at least 55 % of the matches and at least 600 iterations are allowed; the failure probability is then below 1e-20.', 'A zero return means that no model was found; flags and matrix are then unspecified.', 'Matches within 5e-6 relative of the tolerance may be counted either way.']),
 "C24": dict(src=['c24_geometry.cpp'], rule='seeded random two-view scenes (pixel and normalised coordinates, exact and noisy, 8..95 matches, hundreds in the tail, outliers, hostile flags), camera matrices with skew and NULL parts, random rotations incl. identity and half turns, essential matrices of every sign and scale; estimates compared with a long double one-sided Jacobi least squares and rank-two projection, flags and counts with recomputed distances, decompositions with their defining relations, projections/triangulations with long double values; distinct by scene', assumptions=BASE + ['Recovery from outliers is judged in normalised coordinates (or through the normalising estimator) with at least 30 exact matches at 78 % or more and 500 or more iterations: 60 % of them must be recovered.', 'Estimates are compared when the sensitivity of the least squares problem leaves at least three digits.', 'Triangulated points have at least 0.02 rad of parallax; points at infinity are not driven.', 'Camera matrices are upper triangular with K(3,3) = 1, as the interface assumes.']),
 "C25": dict(src=['c25_drawing.cpp'], rule='seeded random drawing scripts (21 calls, 1..31 steps, clipped, dashed, translucent, degenerate) on wrapped and owned RGBA images with padded strides, PDF and SVG files, C and C++ interface, compared pixel by pixel / byte by byte with the same drawing made by calling cairo directly; pixel-aligned blocks compared with arithmetic; annotations, and match images compared whole; random plotting sessions through a stream or a recording stand-in for gnuplot, compared line by line; distinct by script', assumptions=BASE + ['cairo itself is trusted: the oracle is cairo driven from the documented meaning of each call.', 'Annotation strokes may differ by 12 of 255 per channel (rounding of relative against absolute path coordinates).', 'Labels contain no quote, backslash or semicolon: the interface does not escape them.', 'Random keypoint colours (levels above 6) are not judged.']),
 "C26": dict(src=['c26_datasets.cpp'], rule='seeded random dataset trees (KITTI, Temple Color 128, VGG affine; 0..1302 rows, absent or defective files, every number format), directories with arbitrary names and keypoint streams with splits and truncations, every value, frame pixel, entry and availability flag compared with what was put on disk; distinct by file contents', assumptions=BASE + ['Sequence names are accepted by prefix as the readers do; attribute files hold one attribute per line; whether check_file accepts a directory is not judged.']),
 "C27": dict(libs=["-Wl,--wrap=malloc,--wrap=realloc,--wrap=calloc,--wrap=aligned_alloc,--wrap=backtrace_symbols"], src=['c27_errors.cpp', 'c27_assert.cpp'], rule='seeded random message histories over all levels and verbosities (files and terminals), fatal errors through every route with default and installed handlers, assertion macros as a debug build sees them, allocation calls with refused and impossible sizes, 26 kinds of library operation with each sampled allocation refused once or persistently, real address-space exhaustion; printed text compared byte by byte; distinct by text, operation and inputs', assumptions=BASE + ['Allocation refusals are injected below the allocation functions of the library (link-time wrapping); allocations made inside libpng, libjpeg, LAPACK, cairo and the C++ runtime are not refused.']),
 "C28": dict(run=run_tools, src=['c28_tools.cpp'], rule='the six command-line tools built from the tree and run as monitored processes on seeded random pictures, option sets in random order, dataset trees, image pairs and overlapping picture sets of known geometry (shifted, scaled and tilted views), and defective invocations; rows, documents, files and diagnostics compared with the library on the same input; distinct by picture contents', assumptions=BASE + ["Fixed /tmp output names of the tools are redirected into the scratch directory; leaks at exit of a tool are not judged.", "vg-stereo-matcher is driven with pictures of at least 90 pixels; its homography is judged only for shifted pictures."]),
 "C29": dict(src=['c29_gl.cpp'], rule='seeded random buffer histories, shader and program constructions with injected failures at every step and arbitrary driver logs, driver messages of every severity under every verbosity; OpenGL entry points replaced by a recording stand-in whose object state is compared after every call; distinct by inputs', assumptions=BASE + ['The stand-in accepts every call order; no real driver is exercised.']),
}
