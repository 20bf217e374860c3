MC = "exhaustive bounded exploration of the real code against a reference model"
NOTE = ("Every case inside the stated bounds is executed on the code in /repo and "
        "compared with an independently written reference model; nothing is said "
        "about values outside the enumerated alphabet. Trusts numpy/scipy and the "
        "Radiance binaries in /repo/radiance_depend/linux.")

# ------------------------------------------------------------------ io
p("C01", "HDR images survive a write/read round trip",
  "An array written to an HDR file and read back has the same shape, orientation and "
  "channel order, and every value agrees within the precision of the RGBE pixel format "
  "(about 1% of the brightest channel of that pixel; negative values read back as zero). "
  "A 2-d (x,y) array reads back as equal channels, a 3-channel (3,x,y) array channel by "
  "channel, and reading a colour file as luminance applies the Radiance channel weights or "
  "the weights supplied by the caller. This holds for every image size and aspect, dtype "
  "and memory layout, for file names with spaces, and when the target file already exists.",
  ["inputs", "configurations"],
  "all image shapes up to a bound in both directions (incl. the run-length-encoded widths), "
  "every single-pixel/ramp/constant pattern, pixel magnitudes over the RGBE exponent range, "
  "dtypes, memory layouts, header/no header, cleaning on/off",
  "test_array2img writes three large square-ish ramps; orientation or channel errors that "
  "need non-square, one-pixel-wide, non-contiguous or multi-scale data are not reached",
  [IO], [("array2hdr/carray2hdr axis order and pvalue flags", IO),
         ("hdr2array/hdr2carray transpose and flip", IO)],
  ["array returned by hdr2array / hdr2carray", "bytes of the written file"],
  MC, "exploration", NOTE)

p("C02", "Header lines given to a written image are stored verbatim and in order",
  "Every line of the header list passed when writing an image is found, unchanged and in the "
  "given order, in the header read back from the file, whatever printable characters "
  "it contains (quotes, backslashes, shell metacharacters, '=' or leading tabs), and writing "
  "it never changes the pixels. Requesting header items by name returns the value recorded "
  "for each name in request order, matching names case-insensitively, with an empty string "
  "for absent ones.",
  ["inputs", "histories"],
  "all header lists up to length 3 over an alphabet of lines containing each special character, "
  "gray and colour writers; all item requests of up to 3 names over present/absent/mixed-case names",
  "no existing test writes or reads a header line containing a special character, or asks for items",
  [IO], [("getinfo -a argument construction", IO), ("header_items", IO), ("hdr_header", IO)],
  ["hdr_header(file)", "hdr_header(file, items=...)"],
  MC, "exploration", NOTE)

p("C03", "Cleaning a header loses nothing, keeps one view and converges",
  "Cleaning an image header never fails, keeps every word of every content line (the entries "
  "the writer itself adds for pvalue and FORMAT and file-name lines excepted), collapses "
  "repeated lines to one, and keeps exactly one VIEW entry, the last one given. Temporary file "
  "names are replaced by a neutral name, and no produced line except the view and unbreakable words "
  "exceeds the configured width. "
  "Cleaning an already clean header reaches a fixed point and repeatedly reading and re-writing an "
  "image with a cleaned header does not grow the header.",
  ["inputs", "histories"],
  "all header line sequences up to length 4 (quick) / 5 (thorough) over an alphabet of nested file "
  "lines, key=value lines, command lines, views, continuation lines and duplicates; read/clean/write histories",
  "no test calls the header cleaner except through one image conversion, whose header is not examined",
  [IO], [("CleanHeader preprocessing / promotion / wrapping", IO)],
  ["clean_header(lines)", "CleanHeader(...).header", "hdr_header(file, clean=True)"],
  "explicit-state exploration: every header-line sequence up to a bound, invariants checked in each state; clean() iterated to its fixed point",
  "model_checking", NOTE)

p("C04", "A missing, foreign or truncated image is an error, never an array",
  "Reading an image file that does not exist, is not a Radiance picture, or has been cut off at any byte "
  "raises an exception (a missing file being reported as not found); no partial, padded "
  "or stale array is ever returned. Reading the header of a missing or non-Radiance file likewise "
  "raises, and a later read of an intact file is unaffected by an earlier failed one.",
  ["fault_sequences", "crash_points"],
  "every truncation point of flat and run-length-encoded gray and colour files, each kind of foreign "
  "content, for each reader, and every failed/intact read sequence up to length 3",
  "tests read only intact files (plus one missing file); a crash during a write can leave any prefix",
  [IO, IT], [("pvalue resolution line check and reshape to the declared size", IO),
             ("getinfo message checks", IO)],
  ["exception type from hdr2array, hdr2carray, hdr_header, hdr2vm, hdr2vol, imgmetric"],
  "fault enumeration: every truncation prefix of written files replayed through every reader",
  "fault_enumeration", NOTE)

p("C05", "Binary and text array files round trip",
  "Bytes produced from an array, or written to or appended to a file, decode back to the same values in "
  "the same order for every shape, dtype code and memory layout. Loading a text file returns exactly the numbers in "
  "the file, and a missing path, an unparseable file and a non-path argument are distinguished as "
  "not-found, value and type errors.",
  ["inputs", "histories"],
  "all shapes up to 3 dims of size <=3, dtype codes, memory layouts, write/append histories up to length 3; "
  "text contents over an alphabet of good/bad tokens",
  "one contiguous float array and three load errors are tested",
  [IO], [("np2bytes/bytes2np dtype and order", IO), ("load_txt error mapping", IO)],
  ["decoded arrays", "exception types"], MC, "exploration", NOTE)

p("C06", "Process cap and search path settings follow the last effective request",
  "After any sequence of setting, clearing and reading the worker-process cap, the value read is that of the "
  "last effective request: a positive integer sets it, zero or a negative number clears it, no "
  "value leaves it, and a non-integer is rejected without any effect; an explicit per-call value always wins and the CPU "
  "count is the default. "
  "Configuring the Radiance search path any number of times puts the current directory and the package's "
  "calculation folder first, keeps the user's entries in order and never duplicates an entry.",
  ["histories", "configurations"],
  "all operation sequences up to depth 4 (quick) / 6 (thorough) over the operation alphabet from each initial environment, "
  "with state deduplication",
  "test_setproc runs one fixed sequence; the search path set-up is not tested",
  [IO, INI, CLI], [("set_nproc/get_nproc/unset_nproc", IO), ("set_raypath", INI)],
  ["get_nproc()", "os.environ"],
  "explicit-state BFS over setter/getter histories with a reference state machine compared after every transition",
  "model_checking", NOTE, [dict(name="RAYTOOLS_PROC_CAP", meaning="worker cap", where="environment"),
                           dict(name="RAYPATH", meaning="Radiance search path", where="environment")])

p("C07", "Colour to luminance conversions are consistent",
  "Radiance and luminance computed from colour are the channel-weighted sums over the last axis for any "
  "number of leading axes and channels, luminance being 179 times radiance under equal weights. "
  "Decoding a raw four-byte RGBE pixel yields the luminance of the colour it encodes for every mantissa and exponent, "
  "with zero mantissas contributing exactly zero.",
  ["inputs"],
  "every (mantissa, exponent) byte pair per channel and selected cross-channel products; leading shapes "
  "up to 3 axes; weight vectors of 1..5 channels",
  "20 random colours are tested",
  [IO], [("rgb2rad, rgb2lum, rgbe2lum", IO)], ["returned arrays"], MC, "exploration", NOTE)

# ------------------------------------------------------------------ utility
p("C08", "Parallel mapping equals the sequential loop under every schedule",
  "Mapping a function over a list of arguments with processes, threads or no workers returns exactly the "
  "list the sequential loop would return, in argument order, whatever order the tasks start "
  "and finish in and whatever the worker count, including for an empty list. The function is called exactly once per argument, with that "
  "argument (expanded or not), the fixed arguments and the keyword arguments; no more tasks run at "
  "once than the requested or configured cap.",
  ["schedules", "inputs", "configurations"],
  "every completion order of up to 5 tasks for every worker count, every thread/process/none mode, "
  "argument expansion, fixed and keyword arguments",
  "one fixed run where tasks complete in an arbitrary order; result ordering and call counts are not varied",
  [UT, IO], [("futures gathered in submission order", UT), ("worker cap from argument/environment", UT)],
  ["returned list", "call log of the mapped function"],
  "controlled-schedule exploration: gated tasks released in every start/completion order consistent with the worker count",
  "model_checking", NOTE)

p("C09", "A failing task is reported and does not corrupt the parallel map",
  "If the mapped function raises for some arguments, the parallel map raises the exception of the "
  "first failing argument in argument order, whichever task fails first in time; it "
  "never returns a partial list and never hangs. The next parallel map in the same process is unaffected.",
  ["fault_sequences", "schedules"],
  "every subset of failing tasks among up to 4 tasks, in every completion order, for each worker mode",
  "no existing test makes a task fail",
  [UT], [("future.result() in submission order inside the executor context", UT)],
  ["exception raised", "subsequent map result"],
  "controlled-schedule exploration combined with exhaustive fault injection (every failing subset)",
  "fault_enumeration", NOTE)

p("C10", "Concurrent library calls give the same results as serial calls",
  "Two threads that each work on their own inputs and objects (transforms, mappers, metric sets, position index, "
  "peak normalization, filters, header cleaning) obtain the same results as when each runs alone, "
  "under every interleaving of their steps.",
  ["schedules"],
  "every interleaving with at most one preemption (quick) / two preemptions (thorough) at source-line granularity "
  "inside the library, for every pair of operations of the alphabet",
  "tests are single threaded; the library offers thread pools and shares class-level caches between objects",
  [UT, TR, MP, AM, VM, SV, BM, MS, CM, PI, IT, IO],
  [("per-object state; class-level one-entry caches keyed by object", BM), ("no module-level scratch state", TR)],
  ["values returned in each thread"],
  "stateless model checking: controlled line-level scheduler over real threads, iterative preemption bounding",
  "model_checking", NOTE + " Interleavings inside numpy/C code and at bytecode granularity within one line are not explored.")

p("C11", "Library calls leave the caller's data and global state alone",
  "No public conversion, mapper, metric, filter or image-array function modifies the arrays or lists passed to it, so calling it "
  "again with the same arguments gives the same answer. It also leaves the process-wide numpy "
  "error handling, numpy's global random state, environment, working directory, and the files in it as they were, apart from files it was asked to write.",
  ["inputs", "histories"],
  "every public function in a table of calls x argument layouts (float64 C-contiguous, float32, "
  "integer, non-contiguous view, read-only), each executed twice",
  "tests pass fresh temporaries and never look at their arguments again",
  [TR, MP, AM, VM, SV, BM, MS, IT, IO, PI, RT],
  [("copies made before in-place arithmetic", AM), ("numpy error state saved/restored", TR)],
  ["argument bytes before/after", "np.geterr(), os.environ, cwd listing before/after"],
  "exhaustive enumeration of the public-call table x argument layouts with before/after state comparison",
  "exploration", NOTE)

# ------------------------------------------------------------------ translate
p("C12", "The square/sphere/disk map is a consistent equal-area bijection",
  "Directions and square coordinates convert into each other without loss: on the whole sphere with the flipped convention and on the upper "
  "hemisphere with the default one, converting either way and back returns the starting "
  "point, for every axis order, including poles, equator, diagonals and cell borders. All directions produced are unit length, equal square cells cover equal solid angles, "
  "vectors of any length may be given when normalization is requested, and the disk map agrees with the sphere map.",
  ["inputs"],
  "every point of a regular lattice on the square (interior, edges, diagonals, corners) and every direction of an integer lattice, axis permutations, both flip conventions, single and batched calls; "
  "all conversion paths up to length 4",
  "one 4000-point spiral and one 100x100 grid of cell centres; seams, poles and axis permutations are not reached",
  [TR], [("uv2xyz / xyz2uv / uv2xy quadrant logic", TR)], ["returned coordinates"],
  "conversion-graph exploration: every path of conversions up to a bound from every lattice point must return to it",
  "model_checking", NOTE)

p("C13", "Grid and sky bins partition the square and the hemisphere",
  "Every bin number of a grid maps to coordinates inside its own cell and back to the same bin, for every grid side and "
  "offset in [0,1), and every point of a cell (lower edges included) gets that cell's bin, so bins partition the 2x1 square with "
  "no gaps or overlaps. Sky patch numbers and their centre directions invert each other over "
  "the whole upper hemisphere, directions below the horizon have no patch of their own (number at or beyond side squared), and a search "
  "with tolerance returns the sorted, duplicate-free in-range patches that lie within the tolerance. The Radiance expressions provided for the same numbering agree with the functions.",
  ["inputs"],
  "all sides 1..24 (quick) / 1..64 (thorough), all bins, a lattice of offsets; every patch and tolerance in a set",
  "sides 10 and 18 at one or two offsets are tested",
  [TR], [("uv2ij/uv2bin/bin2uv", TR), ("xyz2skybin/skybin2xyz", TR)], ["bin numbers, coordinates"],
  MC, "exploration", NOTE)

p("C14", "Angular coordinate conversions invert and stay in range",
  "Converting direction vectors to polar (theta, phi) or altitude/azimuth coordinates and back, in either "
  "order, returns the same direction; polar angles come out in [0,pi] x [0,2pi), altitude in [-90,90] and azimuth in [-180,180]; angles and "
  "chords convert back and forth. The angle between two directions is "
  "symmetric, zero only for equal directions, agrees in degrees and radians and with the chord, and stays finite for "
  "parallel and opposite vectors; fisheye coordinates have radius equal to the angle from the axis.",
  ["inputs"],
  "all directions of an integer lattice (incl. poles, axes and diagonals) and a theta/phi lattice incl. wrap-around values; all conversion paths up to length 4",
  "one spiral that avoids the poles and the wrap-around",
  [TR], [("tp2xyz/xyz2tp/tpnorm/aa2xyz/xyz2aa", TR), ("ctheta/radians/degrees, chord2theta/theta2chord", TR),
         ("xyz2xy", TR)], ["returned coordinates"],
  "conversion-graph exploration: every path of conversions up to a bound from every lattice point must commute",
  "model_checking", NOTE)

p("C15", "View rotations, axis rotations and reflections are exact isometries",
  "The view rotation of any direction (given with any length) is a proper rotation that carries the direction to +z, keeps world-up in the "
  "upper half of the view plane with no roll, is undone by its transposed pair, is the identity for +z and a half turn for -z, and "
  "is the same computed alone or in a batch. Rotation about an axis composes additively, preserves lengths and fixes its axis; reflecting twice in a plane returns the ray "
  "and a reflected ray makes equal angles with the normal.",
  ["inputs"],
  "every direction of an integer lattice of radius 3 (quick) / 5 (thorough) plus near-pole perturbations, alone and in every batch split; all lattice angles and axes; all ray/normal pairs",
  "24 directions are tested one at a time; batches, roll and near-pole directions are not",
  [TR], [("rmtx_yp", TR), ("rmtx_elem/rotate_elem", TR), ("reflect", TR)], ["matrices, rotated vectors"],
  MC, "exploration", NOTE)

p("C16", "Culling keeps exactly a first-come set of mutually distinct vectors",
  "Culling vectors within a tolerance keeps the first vector of the input, keeps no two vectors closer than the "
  "tolerance, and drops a vector only when an earlier kept vector is within the tolerance; the same holds when a "
  "prebuilt search tree is passed. The answer does not depend on how the same points are distributed in space otherwise.",
  ["inputs"],
  "every sequence of up to 6 (quick) / 7 (thorough) points drawn from small point sets with chains, duplicates and ties, several tolerances, array and tree inputs; larger structured clouds",
  "one regular grid with one tolerance",
  [TR], [("cull_vectors flagged set", TR)], ["boolean mask"],
  "exhaustive enumeration of point sequences against a greedy reference model", "exploration", NOTE)

p("C17", "Array resampling replicates, averages and conserves",
  "Enlarging an array by whole factors without smoothing repeats every cell; with smoothing it keeps the mean. "
  "Reducing by whole factors returns exact block averages, so reducing an enlarged "
  "array restores it. Keeping the shape returns the data unchanged unless a filter radius is given, and filtering preserves constants.",
  ["inputs", "configurations"],
  "all 1-d, 2-d and 3-d shapes up to a bound x all whole factors per axis x impulse at every cell, ramps and constants x smoothing options",
  "one 10x10 array, factor two",
  [TR], [("resample repeat / uniform_filter origin", TR)], ["resampled array"], MC, "exploration", NOTE)

p("C18", "Weighted quantiles are order statistics of the weighted data",
  "A weighted quantile lies between the smallest and largest included value, reaches them at 0 and 1, never decreases with the quantile, and is "
  "unchanged by reordering the data with its weights or scaling all weights; items whose weight does not exceed the threshold have "
  "no influence. With equal weights it equals the ordinary quantile and the weighted median is the "
  "one-half quantile; scalar and array quantile requests agree.",
  ["inputs"],
  "all data sequences up to length 4 (quick) / 5 (thorough) over 3 values x weights over 3 values incl. zero x a lattice of quantiles x thresholds",
  "not covered by any existing test",
  [TR], [("weighted_quantile", TR)], ["returned quantiles"],
  "exhaustive enumeration of weighted data sets against a reference model", "exploration", NOTE)

p("C19", "Non-uniform smoothing is an order-independent weighted average",
  "Gaussian smoothing of unevenly spaced samples returns, for each requested position (or each input sample, in input order), the "
  "Gaussian-weighted mean, median or quantile of the samples, whatever order the samples are given in. Smoothing preserves constants, treats several features "
  "independently, stays within the data range, and a bandwidth at least as large as the data changes nothing; "
  "far from all data it falls back to interpolation or the nearest end value.",
  ["inputs", "configurations"],
  "all orderings of up to 4 (quick) / 5 (thorough) sample positions x data alphabets x sigmas x bandwidths x target positions x averaging methods",
  "not covered by any existing test",
  [TR, CLI], [("non_uniform_gaussian_filter sort/inverse sort and bandwidth windows", TR)], ["smoothed array"],
  MC, "exploration", NOTE)

p("C20", "Multi-axis indexing equals orthogonal indexing and keeps dimensions",
  "Taking along axes with any mix of integers, lists, arrays, tuples, slices and nothing selects exactly the "
  "cross product of the requested indices, in request order, keeps the number of dimensions and leaves unnamed axes "
  "whole, whether axes are implied or named explicitly.",
  ["inputs"],
  "every combination of selector kinds over arrays of 1..3 dimensions, all axis subsets and orders, negative indices and steps",
  "three fixed selections are tested",
  [TR], [("simple_take", TR)], ["selected array"], MC, "exploration", NOTE)

# ------------------------------------------------------------------ mapper
p("C21", "Pixels and rays of a view correspond one to one",
  "For the equiangular and equisolid view mappers, every in-view pixel of an image of any resolution maps to a unit direction that "
  "maps back to that same pixel, for every view direction and view angle (up to 180, or the two halves of a 360 view); the image centre "
  "looks along the view direction, image up is world up, and radius in the image follows "
  "the projection (proportional to the angle for equiangular, to the sine of the half angle for equisolid).",
  ["inputs", "configurations"],
  "all view directions of an integer lattice x view angles x resolutions 1..9 (quick) / 1..16 (thorough) x projections x every pixel and sub-pixel offsets; all pixel/ray conversion paths up to length 4",
  "one 2x2 image and one 200x200 image for one direction each",
  [MP, AM, VM, SV], [("ray2pixel/pixel2ray/pixelrays", MP), ("xyz2vxy/vxy2xyz", AM), ("equisolid radius mapping", SV)],
  ["pixel coordinates, ray directions"],
  "conversion-graph exploration over (configuration, pixel) states: every path pixel->ray->pixel... must return to its state",
  "model_checking", NOTE)

p("C22", "View square coordinates address the view uniquely and stay in their cell",
  "Within a view of at most 180 degrees the unit square (and for 360 degrees the 2x1 square) corresponds one to one to directions for every view "
  "direction, with 0.5,0.5 (or the centre of the first square) along the view direction. Flat grid indices convert to the centre of their own cell, "
  "and jittered coordinates or jittered pixels never leave their own cell whatever random numbers are drawn, staying within the "
  "configured jitter rate of the centre.",
  ["inputs", "configurations", "fault_sequences"],
  "view directions x angles x uv lattices; all grid shapes up to 6 x all indices x jitter rates x adversarial random answers (lowest, highest, alternating extremes)",
  "one direction's centre, one jitter run with real random numbers whose extremes are never drawn",
  [AM, VM, MP], [("xyz2uv/uv2xyz scaling by bounding box", AM), ("idx2uv, pixels jitter range", VM)],
  ["uv coordinates, directions"],
  "exhaustive enumeration of grids, views and environment answers (the random source is replaced by enumerated extreme answers)",
  "exploration", NOTE)

p("C23", "Visibility masks agree with the geometry and with each other",
  "A direction is reported in view exactly when its angle to the view direction is below the view's visible half-angle, for any view direction and any "
  "array shape; index and boolean forms of the answer select the same elements. A freshly initialized image is zero, has the requested size and channels, and its vectors, mask and colour mask address the same pixels as the pixel/ray mapping, "
  "for angular, equisolid and square projections and for both halves of a 360 view.",
  ["inputs", "configurations"],
  "view directions x angles x tolerance x array shapes; resolutions x feature counts x projections x mask forms",
  "one 11x11 image is counted by its sum",
  [AM, VM, MP], [("in_view", AM), ("init_img", AM)], ["masks, vectors, image shapes"], MC, "exploration", NOTE)

p("C24", "Pixel solid angles cover the view",
  "The solid angle of every in-view pixel is positive, does not depend on the view direction, and matches the area the pixel's corners span on the sphere; "
  "summed over the pixels whose centre is in view they approach the view's solid angle as the resolution grows. Equisolid images give all "
  "in-view pixels of a 180 degree view nearly equal solid angle.",
  ["inputs", "configurations"],
  "view directions x angles x resolutions x projections, every pixel",
  "one 800x800 view is summed",
  [AM, MP, VM, SV], [("pixel2omega", AM), ("view area", VM)], ["solid angle arrays"], MC, "exploration",
  NOTE + " The sum is compared at stated discretization tolerances.")

p("C25", "A re-aimed mapper behaves like a newly built one",
  "After any sequence of re-aiming, resizing and queries, a mapper gives the same answers as a "
  "newly constructed mapper with the same settings: no earlier direction, aspect, resolution or query leaves a trace, and objects never influence each other.",
  ["histories"],
  "every operation sequence up to depth 3 (quick) / 4 (thorough) over setters and queries on two live objects, compared with fresh objects after each step",
  "tests construct a new mapper for every case",
  [MP, AM, VM], [("dxyz/aspect setters rebuild derived state", VM), ("framesize cache", MP)],
  ["all public mapper queries"],
  "explicit-state exploration of setter/query histories; differential oracle (history-reached object vs fresh object)",
  "model_checking", NOTE, [dict(name="mapper state", meaning="view direction, rotation, inverse view, aspect, cached frame size", where=VM)])

p("C26", "Drawing rays into an image marks exactly their pixels",
  "Drawing directions into an image sets the given channel values at exactly the pixels those directions fall in (both halves for 360 views) and leaves all other pixels "
  "unchanged, ignoring rays outside the image or the given mask; with a grow radius each marked pixel spreads to a square block carrying the same summed energy as its block size; channels "
  "given as none are left untouched.",
  ["inputs", "configurations"],
  "every subset of up to 2 rays among pixel centres of small images x views x channel forms x grow radii x masks x projections",
  "three fixed images are checked by their sums",
  [AM, MP], [("add_vecs_to_img", AM)], ["image array"], MC, "exploration", NOTE)

p("C27", "The planar mapper's plane, square and pixel coordinates correspond",
  "For a planar mapper with any scale, bounding box and aspect, plane points and square coordinates convert into each other without loss, grid indices and square "
  "coordinates agree, the frame size honours the aspect with the larger side at the requested resolution, and pixel and plane coordinates "
  "correspond one to one.",
  ["inputs", "configurations"],
  "scale factors x bounding boxes x aspects x resolutions 1..8 x every pixel and index",
  "one mapper and two fixed images are tested",
  [MP], [("xyz2uv/uv2xyz, uv2idx/idx2uv, framesize", MP)], ["coordinates, frame sizes"], MC, "exploration", NOTE)

# ------------------------------------------------------------------ imagetools
p("C28", "A view written to a file is recovered from it",
  "The view description a mapper writes into an image header, or a view file contains, yields a mapper with the same view direction, view angle and (when asked for) "
  "view point when read back, including 360 degree two-part images; the last view in the file wins, absent direction and point take their "
  "defaults, and an image without an angular view yields no mapper (or an error for a view file).",
  ["inputs", "histories"],
  "view directions x angles x points x image shapes; every sequence of up to 3 view entries in VIEW= and rvu form with options in every order",
  "one view file and one image header are read",
  [IT, AM], [("hdr2vm/vf_to_vm option parsing", IT), ("view header text", AM)],
  ["returned mapper and view point"], MC, "exploration", NOTE)

p("C29", "Reprojection puts every direction's value where that direction projects",
  "Converting an image between the angular and square, or angular and equisolid projections gives each in-view output pixel the value the source image has in "
  "that pixel's direction (nearest pixel, or linear interpolation where offered), per channel, and leaves output pixels outside the "
  "view at zero; constant images stay constant in view.",
  ["inputs", "configurations"],
  "every single-pixel impulse, index-coded and constant images for resolutions up to 12 (quick) / 20 (thorough), gray and colour, 180 and 360 degree, both directions, view angles, both interpolations",
  "percentiles of one image are compared with 5% tolerance",
  [IT, VM], [("array_uv2ang/array_ang2uv", IT), ("array_solid2ang/transform_to", VM)], ["output arrays"],
  MC, "exploration", NOTE)

p("C30", "Aligning an image rotates and re-centres it without other change",
  "Rotating by zero without a new centre returns the image, quarter turns permute pixels exactly and four of them restore it, and opposite rotations cancel on smooth "
  "in-view content. A new centre pixel brings the direction of that pixel to the image centre, and a start/end pixel pair brings the start's content to the end position, "
  "in the requested order with the rotation, identically for every channel.",
  ["inputs", "configurations"],
  "index-coded images for resolutions up to 12 x quarter turns and lattice angles x every centre pixel x start/end pairs x order x interpolation x channels",
  "not covered by any existing test",
  [IT, TR], [("array_rotate", IT)], ["output arrays"], MC, "exploration", NOTE)

p("C31", "Image file commands equal the array operation plus a faithful write",
  "Each file-level projection or alignment writes exactly the result of the corresponding array operation on the file's pixels to the "
  "requested or derived file name (or to standard output) and returns that name, leaves the input file untouched, and keeps the source header's "
  "information in the result.",
  ["inputs", "configurations", "histories"],
  "every file operation x option combinations x small gray and colour images with headers; chains of two operations",
  "two conversions of one file are compared by percentiles",
  [IT, IO], [("hdr_uv2ang/hdr_ang2uv/hdr_rotate/hdr_solid2ang", IT)],
  ["files written, stdout, returned names"], MC, "exploration", NOTE)

p("C32", "An image becomes rays with matching direction, size and value",
  "Turning an angular image file into rays gives one ray per pixel, whose direction is the pixel's view direction, whose solid angle is the "
  "pixel's, and whose value is the pixel's value (all channels in colour, weighted luminance otherwise), in one common order, using the view in the file "
  "unless another is supplied.",
  ["inputs", "configurations"],
  "single-pixel impulses and index-coded images x resolutions x view directions and angles x colour/weights",
  "only summed metrics of one image are compared",
  [IT], [("hdr2vol", IT)], ["returned vectors, solid angles, values"], MC, "exploration", NOTE)

p("C33", "Peak normalization conserves energy and touches only the peak",
  "Consolidating the brightest pixels into a single source conserves the total of luminance times solid angle (per channel for colour when the peak is fully visible) and leaves all other rays "
  "exactly as they were; without a pixel above the threshold nothing changes. The new source points to the "
  "energy-weighted mean of the merged pixels, has the expected area when the sun is fully visible, merges only pixels above the "
  "threshold within the collection radius of the brightest one, and the result does not depend on the order of the rays.",
  ["inputs", "configurations"],
  "every assignment of luminance levels (background, candidate, partial, full sun, stray) to a patch of pixels around the peak x option combinations x gray/colour, and ray permutations",
  "illuminance of one image is compared before and after",
  [IT], [("find_peak / normalize_peak", IT)], ["returned rays and source"], MC, "exploration", NOTE)

p("C34", "Image metrics equal the metrics of the image's rays",
  "Metrics computed for an image file equal the metrics evaluated on the rays of that file, in the order requested, with the view taken from the "
  "file (180 degrees if it has none) and peak normalization applied when asked. Luminance weights come from the caller, "
  "else from the file, else are the Radiance defaults, the same results following from equal weights however supplied; unknown metric names are rejected.",
  ["inputs", "configurations"],
  "small images (gray/colour, with/without view, with/without header weights) x metric lists incl. colour metrics x weights x scale x threshold x peak options",
  "one image with header-less weights",
  [IT, BM, MS, CM], [("imgmetric weight and class selection", IT)], ["returned metric array"], MC, "exploration", NOTE)

p("C35", "The command line reports and writes what the library computes",
  "The metric command prints one line per image, in argument order, naming the image and listing the requested metrics in requested order with values equal to the library's, identically in parallel and serial mode and for "
  "every option forwarded. The project, align, solid2ang, cleanheader and smooth commands produce the same files or "
  "output as the corresponding library calls with those options.",
  ["configurations", "inputs"],
  "commands x option combinations x one, two and three images, parallel and serial",
  "the command line is not tested",
  [CLI], [("metric/project/align/solid2ang/cleanheader/smooth commands", CLI)], ["stdout, files written"],
  MC, "exploration", NOTE)

# ------------------------------------------------------------------ evaluate
p("C36", "Every metric follows its published definition",
  "For any set of rays, each metric (illuminance, average, maximum and task luminance, background luminance, contrast ratios, position-weighted quantities, source "
  "terms, UGR, UGP, DGP and its parts, low-light correction) equals its documented formula evaluated on the rays in view, with sources being the rays strictly brighter than the fixed or task-relative "
  "threshold. Scores stay in range: DGP at most 1, UGR not negative, UGP between 0 and 1.",
  ["inputs", "configurations"],
  "all assignments of 4 luminance levels to up to 5 directions (on axis, above, below, edge, outside) x solid angle patterns x thresholds x scale x low-light x position model x view kind",
  "two fixed ray sets with recorded outputs",
  [BM, MS], [("metric properties", MS), ("source/background/task masks", MS)], ["metric values"],
  "exhaustive enumeration of small ray sets against an independently written scalar reference model", "exploration", NOTE)

p("C37", "Metric values do not depend on what was asked before",
  "Each metric of a metric set has the same value whichever metrics of it or of other live metric sets were requested before, in whatever order and however "
  "often, and requested lists return one entry per name in the order asked.",
  ["histories"],
  "every sequence of up to 3 (quick) / 4 (thorough) metric requests over two live objects with different rays, for all three metric classes; every ordered pair of metrics",
  "tests request one fixed list on one object",
  [BM, MS, CM], [("one-entry class-level caches keyed by object", BM)], ["metric values"],
  "explicit-state exploration of request histories over live objects, oracle = fresh object",
  "model_checking", NOTE, [dict(name="cached properties", meaning="one-entry cache per property shared by all objects", where=BM)])

p("C38", "Metrics respect the symmetries of light",
  "Metrics do not change when rays are listed in another order, when a ray is split into parts of equal direction and value that share its solid angle (ray-count measures excepted), "
  "when unnormalized directions are given, or when view and rays are turned together about the vertical. Illuminance-like metrics scale with the scale factor and contrast ratios do not; "
  "metrics declared safe to sum add up over separately evaluated subsets of the sources, given an absolute threshold and the same view area.",
  ["inputs", "configurations"],
  "all permutations of up to 5 rays, all splits of each ray, all two-part partitions, rotations in 30 degree steps, scale factors; over enumerated ray sets",
  "not covered by any existing test",
  [BM, MS, CM], [("metric properties", MS), ("check_safe2sum", BM)], ["metric values"], MC, "exploration", NOTE)

p("C39", "Colour metrics reduce to luminance metrics",
  "For colour rays every luminance metric equals that of the corresponding weighted luminance rays, and irradiance is the "
  "cosine-weighted sum of each channel separately, for any number of channels and weights, with rays outside the view excluded in colour exactly as in luminance. The reported list has one entry per "
  "scalar and one per channel for channel metrics, in requested order.",
  ["inputs", "configurations"],
  "all assignments of colours to up to 4 directions x weights of 1..4 channels x thresholds x views x metric lists",
  "not covered by any existing test",
  [CM], [("ColorMetricSet", CM)], ["metric values"], MC, "exploration", NOTE)

p("C40", "The position index is one on axis, grows outward and is capped",
  "The position index of a direction depends only on its position relative to the view: it is 1 on the line of sight, symmetric left-right, at most 16 and equal to 16 behind the viewer (Guth), never decreasing with the angle from the line of sight along any meridian in front of the viewer; it agrees with the published formulas above and below the line of "
  "sight for both models. It is unaffected by vector length, by the other vectors in the call, and by turning view and direction together about the vertical.",
  ["inputs", "configurations"],
  "a lattice of meridians x angles incl. axis, horizon, limits and rear x view directions x both models x single/batched x scaled vectors",
  "one 10x10 table, one 19-point sweep",
  [PI], [("PositionIndex", PI)], ["position indices"], MC, "exploration", NOTE)

p("C41", "Only rays in view count, and bright rays at the edge count partly",
  "A metric set over a limited view uses exactly the rays inside the view, plus bright rays just outside whose disk overlaps the view edge: each of these contributes its own overlap area and is moved inside the view, independently of "
  "any other such ray. Solid angles are kept as given, or, when asked, only those of rays at the view's edge are scaled so that they total the view area; a 360 degree view uses all rays.",
  ["inputs", "configurations"],
  "every subset of a palette of inside, edge, overlapping-edge (several at once), just-outside and far rays x brightness x solid angles x view angles x area-correction option with more and fewer than 100 rays",
  "one case with a single edge ray",
  [BM], [("view mask, stray overlap, omega correction", BM)], ["vec, omega, lum, view_area of the set"], MC, "exploration", NOTE)

p("C42", "Retinal density models are positive, symmetric and interpolate the meridians",
  "Binocular ganglion cell densities are positive everywhere on the visual field, identical for mirrored left/right positions, equal to the average over both eyes of the quadrant interpolation between the neighbouring meridian densities, equal to the meridian values on the axes, and computed per point independent of the other "
  "points in the call.",
  ["inputs"],
  "a polar and cartesian lattice over the disk incl. centre, axes and rim, single and batched, both density models",
  "quantiles of two images are compared at 1%",
  [RT], [("rgcf_density_xy / binocular_density / meridian densities", RT)], ["densities"], MC, "exploration", NOTE)

p("C43", "The sun blur correction enlarges and dims consistently",
  "The point spread function is 1 at the centre, one half at half its width and is inverted exactly by its inverse; the correction factor for a source is at least "
  "1, never decreases with luminance, is smaller for larger sources, saturates at the stated luminance limits, and is computed element by "
  "element for arrays.",
  ["inputs"],
  "a lattice of source sizes x luminances x widths x limits incl. values at and beyond the limits, scalars and arrays",
  "two fixed calls",
  [RT], [("hpsf/inv_hpsf/blur_sun", RT)], ["correction factors"], MC, "exploration", NOTE)

p("C44", "Glare sensation scores depend only on the current image, view and observer",
  "Loading images of any sizes in any order, re-aiming the view and computing any number of times on one glare model object gives, for each image, the score a "
  "new object with that view would give; an externally supplied illuminance affects only the computation it is given to, and computing before an image is "
  "loaded is an error.",
  ["histories"],
  "every sequence of up to 3 (quick) / 4 (thorough) operations over load (several images and resolutions), set view, compute with and without external illuminance, save",
  "one image is loaded once",
  [HV], [("lum setter per-resolution cache", HV), ("vm setter", HV)], ["scores"],
  "explicit-state exploration of load/view/compute histories, differential oracle (fresh object)",
  "model_checking", NOTE, [dict(name="per-resolution cache", meaning="vectors, solid angles, masks, eccentricity reused while the resolution is unchanged", where=HV)])

p("C45", "Batch glare scores equal single-image scores in order",
  "Computing glare sensation for a list of images in parallel returns, for each image in the order given, the score of computing it alone with the same options, with "
  "supplied illuminances paired to their images; saved response images go next to their image or to the requested folder under the requested suffix, one per image, holding that image's response.",
  ["inputs", "configurations", "schedules"],
  "every sequence of up to 3 images over an alphabet with different content and resolution x options x illuminance lists x save settings x worker caps",
  "not covered by any existing test",
  [HV, UT], [("gss_compute/process_gss", HV)], ["scores, files written"], MC, "exploration", NOTE)

p("C46", "The eye model's stages obey their physical bounds",
  "Pupil diameter decreases with illuminance and with age and stays in physiological bounds; the optical spread conserves total energy in its kernel and never produces negative light; "
  "every filter stage maps a uniform field to a uniform field in the interior; cone and ganglion responses stay between 0 and 1 and increase with stimulus; pixels outside the view respond zero. The "
  "score is finite, not negative, and follows the stated formulas stage by stage.",
  ["inputs", "configurations"],
  "a lattice of illuminances, ages, pigmentations, retinal irradiances, adaptation levels and small images with each single-pixel source x stage switches",
  "one image's final score at 3% tolerance",
  [HV], [("pupil/psf_coef/apply_psf/eye movement/cone_response/field_response/normalized_field_response/gss", HV)],
  ["stage outputs"], MC, "exploration", NOTE)

p("C47", "Radiance and the library agree on what a written view shows",
  "For images and view files with a half-sphere angular view, the rays the library assigns to the pixels are those Radiance's own ray generator produces from the same file, pixel by pixel and in the same orientation: for views written by the library, for pictures and view options written by other "
  "programs, when a header lists several views (the last full one counts), and after the library read, cleaned, rotated by nothing or re-wrote the image. Converting Radiance's rays back finds the position and pixel they came from, the view point and image size are the same, and for narrower views the line of sight and "
  "the meridian of every pixel agree.",
  ["inputs", "histories"],
  "an integer lattice of view directions (incl. vertical and nearly vertical) x resolutions x writers x spellings of the view options x view files, all sequences of up to 3 (quick) / 4 views in a header, image sizes, narrower views",
  "the existing tests compare the library with itself; none runs Radiance's ray generator on a written image",
  [IT, AM, VM, IO], [("view written to the header", AM), ("hdr2vm/vf_to_vm/hdr2vol", IT), ("pixelrays/ray2pixel", VM)],
  ["rays per pixel of library and vwrays"], MC, "exploration", NOTE)

p("C48", "Leaving an option out means its documented default",
  "For every function, constructor and method of the library with optional arguments - coordinate transformations, sampling and statistics, text, binary and image files, image operations, peak extraction, metrics, glare sensation, retinal models, mappers, mapping over processes - leaving out any set of options "
  "gives the result of naming them with their documented default (the values of the signatures: e.g. a scale of 179, luminance weights 0.265/0.670/0.065, a threshold of 2000, a task radius of 30, a view of 360 degrees along +y), and an option given by position, after the ones before it, gives the result of the same value given by name.",
  ["inputs"],
  "about 110 callables; all sets of up to 2 (quick) / 4 (thorough) options left out, the complements of these, and all options; every option at another value by position and by name",
  "the existing tests call most functions with one selection of options and never compare two selections",
  [TR, IO, IT, VM, MP, MS, HV, UT], [("signatures of the public functions", TR), ("find_peak/normalize_peak/imgmetric", IT), ("constructors of mappers and metric sets", VM)],
  ["results with options left out, named, and by position"], MC, "exploration", NOTE)

p("C49", "A batch is converted like each of its rows, however it is stored",
  "For every row-wise conversion of the library - directions, coordinates and bins, rotations and reflections, pixel values, the transformations of every mapper, position index, retinal models - the result for a row is the same whatever other rows are "
  "converted with it, how many there are and in which order, whether the batch is contiguous, strided, reversed, read-only, column-major, big-endian, of single precision or integers, a list or a single row where these are taken, and whether another row has no result (NaN, infinite, zero); an "
  "empty batch gives an empty result, and the batch given is never changed.",
  ["inputs", "histories"],
  "about 170 conversions; every ordered pair (thorough: triple) of their rows, all rotations, up to 20011 (140001) rows, 9 memory layouts, 5 number types, a row without a result at every position",
  "the existing tests convert one batch per function and compare it with the inverse, not with its rows",
  [TR, IO, VM, MP, HV], [("row-wise functions", TR), ("rgb2rad/rgb2lum/rgbe2lum", IO), ("transformations of mappers", VM), ("densities, position index, responses", HV)],
  ["result of every row in every batch, content of the batch afterwards"], MC, "exploration", NOTE)

p("C50", "A write that cannot complete is an error",
  "Writing an image (gray or colour, with or without header lines, directly, by an image command, a plot or a saved response) or a binary array file to a named file either leaves the complete file or raises an exception, within bounded time: whatever the number of bytes after which "
  "the file cannot grow, on a full device, for a name in a missing folder, of a folder, or too long, and when a Radiance tool that encodes it is missing, or ends with an error or by a signal after any number of bytes. It never returns as if it "
  "had succeeded, and the next write without the obstacle is complete.",
  ["crash_points", "fault_sequences"],
  "30 writers; every byte of small files as the limit of growth, steps for large ones; 6 places; each tool ending by error or signal after every byte (quick: every fifth)",
  "the existing tests only write where writing succeeds",
  [IO, IT, VM, MP, HV], [("_array2hdr/np2bytefile", IO), ("hdr_rotate/hdr_ang2uv/hdr_uv2ang/hdr_solid2ang", IT), ("plot", VM), ("GSS.compute(save)", HV)],
  ["exception or complete file", "content of the next file"], MC, "exploration", NOTE)

# statements as they ended up after reading the code again while building the checks
REVISED = {
"C02": "Every content line of the header list passed when writing an image (not empty, not a FORMAT line, which the format itself owns) is found, unchanged and in the given order, in the header read back from the file, whatever printable characters it "
  "contains (quotes, backslashes, shell metacharacters, '=', leading tabs, the word RADIANCE or 'cannot open'), and writing it never changes the pixels. Requesting header items by name returns the value recorded for each name in request order, matching names "
  "case-insensitively, with an empty string for absent ones.",
"C03": "Cleaning an image header never fails and keeps every word of every content line under its entry (the entries the writer itself adds for pvalue and FORMAT and file-name lines excepted); repeated lines collapse to one, adjacent lines of one key are joined, and exactly one VIEW entry, "
  "the last one given, is kept. In nested headers the entries stay in order below the name of the file that held them (a repeated line moves up one level, files without entries of their own are left out). Temporary file names are replaced by a neutral name, and no produced line except the view and words longer than the width exceeds the configured width. Cleaning reaches a fixed point within a few passes and repeatedly reading and "
  "re-writing an image with a cleaned header does not grow the header.",
"C08": "Mapping a function over a list of arguments with processes, threads or no workers returns exactly the list the sequential loop would return, in argument order, whatever order the tasks start and finish in and whatever the worker count, including for an empty list. The function is "
  "called exactly once per argument, with that argument (expanded or not), the fixed arguments and the keyword arguments; with processes no more tasks run at once than the requested or configured cap.",
"C13": "Every bin number of a grid maps to coordinates inside its own cell and back to the same bin, for every grid side and offset in [0,1), and every point of a cell (its lower edges included, up to rounding) gets that cell's bin, so bins partition the 2x1 square with no gaps or overlaps. Sky "
  "patch numbers and their centre directions invert each other over the whole upper hemisphere, directions below the horizon have no patch of their own (number at or beyond side squared), and a search with tolerance returns the sorted, duplicate-free in-range patches that lie within the tolerance.",
"C17": "For arrays of floating point numbers: enlarging by whole factors without smoothing repeats every cell; with smoothing it keeps the mean. Reducing by whole factors returns exact block averages, so reducing an enlarged array restores it. Keeping the shape returns the data unchanged unless a "
  "filter radius is given, and filtering preserves constants.",
"C23": "A (unit) direction is reported in view exactly when its angle to the view direction is below the view's visible half-angle, for any view direction and any array shape; index and boolean forms of the answer select the same elements. A freshly initialized image is zero, has the requested "
  "size and channels, and its vectors, mask and colour mask address the same pixels as the pixel/ray mapping, for angular and square projections, both halves of a 360 view, and equisolid projections of up to 180 degrees.",
"C24": "The solid angle of every in-view pixel is positive, does not depend on the view direction, and matches the area the pixel's corners span on the sphere; summed over the pixels whose centre is in view they approach the solid angle of the visible view as the resolution grows, which is also the "
  "area the mapper declares. Equisolid images give all in-view pixels of a 180 degree view nearly equal solid angle.",
"C26": "Drawing directions into an image sets the given channel values at exactly the pixels those directions fall in (both halves for 360 views) and leaves all other pixels unchanged, ignoring rays outside the image or, for angular views, outside the given mask; with a grow radius each marked "
  "pixel spreads to a square block carrying the same summed energy as its block size; channels given as none are left untouched.",
"C28": "The view description a mapper writes into an image header, or a view file contains, yields a mapper with the same view direction, view angle and (when asked for) view point when read back, including 360 degree two-part images; the last angular view of the file wins, absent direction and "
  "point take their defaults, and an image without an angular view yields no mapper (or an error for a view file). The up vector of a written view is the up of the image the mapper makes, never parallel to the view.",
"C30": "Rotating by zero without a new centre returns the image, quarter turns permute pixels exactly (positive angles counter-clockwise) and four of them restore it, and opposite rotations cancel on smooth in-view content. A new centre pixel, given in the coordinates of the original image, brings the "
  "direction of that pixel to the image centre, and a start/end pixel pair brings the start's content to the end position, with the rotation applied before or after as requested, identically for every channel.",
"C32": "Turning an angular image file of more than one pixel into rays gives one ray per pixel, whose direction is the pixel's view direction, whose solid angle is the pixel's, and whose value is the pixel's value (all channels in colour, weighted luminance otherwise), in one common order, using the "
  "view in the file unless another is supplied.",
"C35": "The metric command prints one line per image, in argument order, naming the image and listing the requested metrics in requested order (glare sensation scores after them, one value per channel for channel metrics) with values equal to the library's, identically in parallel and serial mode and "
  "for every option forwarded. The project, align, solid2ang, cleanheader and smooth commands produce the same files or output as the corresponding library calls with those options.",
"C36": "For any set of rays and any view of at most 180 degrees, each metric (illuminance, average, maximum and task luminance, background luminance, contrast ratios, position-weighted quantities, source terms, UGR, UGP, DGP and its parts, low-light correction) equals its documented formula evaluated "
  "on the rays in view, with sources being the rays strictly brighter than the fixed or task-relative threshold. Scores stay in range: DGP at most 1, UGR not negative, UGP between 0 and 1.",
"C40": "The position index of a direction depends only on its position relative to the view: for Guth it is 1 on the line of sight, at most 16 and equal to 16 behind the viewer; for both models it is symmetric left-right, never decreases with the angle from the line of sight along any meridian in front of "
  "the viewer, and agrees with the published formulas above and below the line of sight (Kim's model has no value on the line of sight itself). It is unaffected by vector length, by the other vectors in the call, and by turning view and direction together about the vertical.",
"C41": "A metric set over a limited view uses exactly the rays inside the view, plus (for 180 degree views) bright rays just outside whose disk overlaps the view edge: each of these contributes its own overlap area and is moved inside the view, independently of any other such ray. Solid angles are kept as "
  "given, or, when a 180 degree view of more than 100 rays is to be corrected, only those of rays at the view's edge are scaled, by one factor, so that all total the view area; a 360 degree view uses all rays.",
"C42": "Binocular ganglion cell densities are positive everywhere on the visual field, identical for mirrored left/right positions, equal to the average over both eyes of the interpolation between the meridian densities of the point's own quadrant, equal to the meridian values on the axes, and computed per "
  "point independent of the other points in the call; meridian densities follow the fit and the measurements they are documented with, one meridian for all points or one each.",
"C43": "The point spread function is 1 at the centre, one half at half its width and is inverted exactly by its inverse; the correction factor for a source is at least 1, never decreases with luminance, is smaller for larger sources, equals 1 up to the lower luminance limit and stays constant beyond the "
  "upper one, and is computed element by element for arrays.",
"C45": "Computing glare sensation for a list of images of one view in parallel returns, for each image in the order given, the score of computing it alone with the same options, with supplied illuminances paired to their images, whatever order the computations end in; saved response images go next to their "
  "image or to the requested folder under the requested suffix, one per image, holding that image's response. A missing image is an error.",
"C46": "Pupil diameter follows its formula: it decreases with age, with illuminance for the young and in daylight, and stays within 2 to 8 mm. The shares of the optical spread are positive and total one, the spread is linear, keeps light where it falls, conserves the total of its kernel and never produces negative light; "
  "every filter stage maps a uniform field to a uniform field; cone and ganglion responses stay between 0 and 1 and follow the stimulus; pixels outside the view respond zero. For images with light in view the score is finite, not negative, and every stage follows its documented formula.",
}
for _q in P:
    _q["statement"] = REVISED.get(_q["id"], _q["statement"])
