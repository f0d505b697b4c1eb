"""The one source of properties.jsonl and MANIFEST.json (written by gen.py)."""
S = []


def prop(pid, title, statement, text, why, files, mech, over=("inputs",), observe=(), na=None, note=None, tech=None):
    S.append(dict(id=pid, title=title, statement=statement, text=text, why=why, files=list(files), mech=list(mech),
                  over=list(over), observe=list(observe), na=na, note=note, tech=tech))


V = "vl/"
prop("C01", "No memory error, undefined behaviour or leak in any library call",
     "Whatever valid arguments a caller passes, no call of the C library reads or writes outside the objects and buffers it was given or obtained, uses released memory, or executes an operation whose result the C language leaves undefined. When every object a caller created has been deleted, every block taken from the installed allocator has been given back to it exactly once.",
     "all valid argument combinations and call sequences of the C API, all buffer sizes including the smallest ones",
     "The tests call each module on one comfortable size and run without sanitizers or a counting allocator; out-of-bounds accesses and leaks are silent there.",
     [V + "generic.c", V + "imopv.c", V + "covdet.c", V + "mser.c", V + "kdtree.c", V + "kmeans.c", V + "gmm.c", V + "svm.c", V + "sift.c", V + "dsift.c", V + "hog.c"],
     [("constructors allocate and destructors release through the installable allocator", "vl/generic.c"), ("border handling of every image filter", "vl/imopv.c")],
     over=("inputs", "histories"), observe=["sanitizer reports", "balance of the installed allocator"])
prop("C02", "No result depends on uninitialised memory",
     "No value the C library returns, stores in a caller's buffer or branches on is computed from memory that nobody has written. In particular the outputs of every operation are fully defined for every valid input, including empty, one-element and degenerate ones.",
     "all valid inputs of all modules",
     "Fresh heap pages are zero in the short-lived test programs, so a missing initialisation passes.",
     [V + "sift.c", V + "hog.c", V + "mser.c", V + "covdet.c", V + "kmeans.c", V + "gmm.c", V + "svm.c", V + "generic.c"],
     [("buffers are allocated with calloc or filled before use", "vl/*.c")], observe=["MemorySanitizer reports"])
prop("C03", "Threads working on distinct objects do not interfere",
     "Any number of threads may use the library at the same time as long as no two of them use the same object: no data race occurs, each thread has its own last-error state and random number generator, and every thread gets exactly the results it would get running alone. Thread-local state is released when its thread ends.",
     "all interleavings of calls on distinct objects from several threads",
     "test_threads runs a single short schedule and only prints; races need instrumentation to be seen.",
     [V + "generic.c", V + "host.c", V + "random.c", V + "sift.c", V + "homkermap.c"],
     [("thread specific state behind a TLS key", "vl/generic.c"), ("global state mutex", "vl/generic.c")],
     over=("schedules", "inputs"), observe=["ThreadSanitizer reports", "per-thread results"])
prop("C04", "Results do not depend on the number of OpenMP threads",
     "Built with OpenMP, clustering, mixture fitting, encoding and tree queries run free of data races for every thread limit, and give the same result for every number of threads, up to rounding caused by a different order of summation.",
     "all thread limits, schedules of the parallel regions, and inputs of the parallel modules",
     "The tests are built with OpenMP disabled, or compare one data set at one thread count.",
     [V + "kmeans.c", V + "gmm.c", V + "fisher.c", V + "vlad.c", V + "kdtree.c"],
     [("parallel regions with private accumulators and critical sections", "vl/gmm.c"), ("static for schedules over disjoint outputs", "vl/kmeans.c")],
     over=("schedules", "configurations", "inputs"), observe=["ThreadSanitizer reports under an instrumented OpenMP runtime", "results per thread count"])
prop("C05", "Vector comparisons compute their definitions, with or without SIMD",
     "Every vector distance and similarity (L1, L2, chi-squared, Hellinger, Jensen-Shannon, Mahalanobis and the corresponding kernels), for both precisions, equals its mathematical definition up to rounding for every dimension and any alignment of the data, whether or not SIMD instructions are enabled. The all-pairs form fills the full result matrix with exactly those pairwise values, including when the second set is omitted.",
     "all dimensions, alignments, values with zeros, comparison types, precisions and SIMD settings",
     "Tests use one dimension and aligned data; the tail, alignment and instruction-set variants are reached only with other sizes.",
     [V + "mathop.c", V + "mathop.h", V + "mathop_sse2.c", V + "mathop_avx.c"],
     [("run-time dispatch on CPU features and alignment", "vl/mathop.c"), ("scalar tail loops", "vl/mathop_sse2.c")],
     over=("inputs", "configurations"), observe=["return values", "all-pairs result buffers"])
prop("C06", "Random numbers are the standard MT19937 stream; permutations are fair",
     "A generator seeded with a number or a key array yields exactly the standard MT19937 output sequence, the derived 64-bit, bounded and real-valued variates are in their documented ranges and follow deterministically from it, and equal seeds give equal streams. Random permutation outputs always are permutations, and shuffling permutes an array without losing or duplicating elements.",
     "all seeds, key arrays and draw sequences interleaving the variate kinds",
     "The tests print a few numbers and check no range or sequence.",
     [V + "random.c", V + "random.h", V + "shuffle-def.h"],
     [("MT19937 state refresh every 624 draws", "vl/random.c")], over=("inputs", "histories"), observe=["drawn values"])
prop("C07", "Generic heap and quick-sort containers order their elements",
     "A heap accepts any sequence of push, pop and update operations in logarithmic depth; it always exposes a least element at its root, pops elements in non-decreasing order, conserves the set of stored elements, and reports every swap so that external back-references stay correct. Sorting leaves the array ordered by the caller's comparison and a permutation of its input.",
     "all element multisets, comparison functions and operation sequences",
     "The tests use one small sequence with distinct elements.",
     [V + "heap-def.h", V + "qsort-def.h"],
     [("sift up and down", "vl/heap-def.h"), ("pivot partition", "vl/qsort-def.h")], over=("inputs", "histories"), observe=["array contents", "popped order"])
prop("C08", "Fast scalar math stays within its stated accuracy",
     "The fast arctangent, square root, inverse square root, modulo, floor, absolute value and logarithm approximations stay within their documented or inherent accuracy over their whole domain, including signs and quadrant boundaries. The integer square root of every width returns exactly the floor of the real square root for every unsigned input.",
     "the full domain of every scalar function",
     "Tests time a few values or sample small ranges.",
     [V + "mathop.h", V + "generic.h"],
     [("Newton iterations and polynomial approximations", "vl/mathop.h"), ("digit-by-digit integer square root", "vl/mathop.h")], observe=["return values"])
prop("C09", "Small linear-algebra solvers satisfy their defining equations",
     "For every finite 2x2 matrix the SVD returns orthogonal factors and singular values, ordered by modulus, whose product is the matrix; the linear solvers return the solution of every well-conditioned system and report singular ones. Rodrigues' formula maps every rotation vector to a rotation matrix and its inverse maps every rotation matrix back to a vector of that rotation, with Jacobians equal to the numeric derivatives.",
     "all matrices including zero columns, zero, rank-one, repeated singular values; all rotation vectors including angles 0 and pi",
     "Tests use a handful of full-rank matrices.",
     [V + "mathop.c", V + "rodrigues.c"],
     [("LAPACK-style dlasv2", "vl/mathop.c"), ("partial pivoting", "vl/mathop.c"), ("series and branch near 0 and pi", "vl/rodrigues.c")], observe=["output matrices", "return codes"])
prop("C10", "String, protocol and enumeration helpers implement C string semantics",
     "Bounded copy, concatenation, basename, wildcard replacement and protocol parsing never write beyond the given capacity, always NUL-terminate when there is room for a terminator, and return the length the full result would have had, so truncation is detectable. Enumerations look up values by name, with or without case, and by value, and report absence.",
     "all strings, capacities including zero, wildcard and escape characters, overlapping prefixes",
     "The tests use a fixed list of short strings.",
     [V + "stringop.c", V + "stringop.h"],
     [("destination capacity checked at every write", "vl/stringop.c")], observe=["buffers with guard zones", "return values"])
prop("C11", "Command-line option parsing follows getopt_long",
     "For every argument vector and option table, the parser returns the same sequence of options, option arguments, indices and error codes as the documented getopt_long behaviour, reports unknown options and missing arguments with the prescribed characters ('?', or ':' when the option string starts with a colon), treats a lone dash as a non-option and a double dash as the end of the options, and in the end leaves all the non-option arguments, in their order, from the reported position on.",
     "all argument vectors over short, long, clustered, valued and malformed options",
     "The test parses one fixed command line.",
     [V + "getopt_long.c"], [("scan of clustered short options", "vl/getopt_long.c")], over=("inputs", "histories"), observe=["return values", "optind/optarg/optopt"])
prop("C12", "Column convolution equals the definition for every size, padding and stride",
     "Image column convolution, and the triangular-kernel convolution, equal the direct sum of products with the requested padding (zero or continuity), sub-sampling step, transposition, kernel support (including one not containing the origin) and strides, for both precisions and whether or not SIMD is enabled. Only the destination pixels they are responsible for are written.",
     "all image sizes, strides, filter supports, steps, flags, alignments, precisions and SIMD settings",
     "Tests exercise a few sizes through one toolbox wrapper; remainders, alignment and unusual supports are not reached.",
     [V + "imopv.c", V + "imopv_sse2.c"], [("separate passes for before, inside and after the image", "vl/imopv.c"), ("SSE2 variant processing several columns", "vl/imopv_sse2.c")],
     over=("inputs", "configurations"), observe=["destination buffer with guard zones"])
prop("C13", "Smoothing, gradients, integral images and distance transforms are exact",
     "Gaussian smoothing equals separable convolution with the truncated normalised Gaussian, gradients equal centred (one-sided at borders) differences in Cartesian or polar form, and the integral image at each pixel equals the sum over the rectangle up to it. The generalised distance transform (along one dimension; applied twice, the full one) returns at each pixel the minimum over the pixels of its line of value plus weighted, offset squared distance, and the index stored with a pixel attaining it.",
     "all image sizes and strides, weights, offsets, infinities and ties",
     "Tests cover a few images; degenerate sizes, strides and ties are not reached.",
     [V + "imopv.c"], [("lower envelope of parabolas", "vl/imopv.c"), ("border handling of the gradient loops", "vl/imopv.c")], observe=["output images"])
prop("C14", "Exact kd-tree search returns the true nearest neighbours",
     "With no limit on comparisons, a query of a kd-tree or forest returns, for every data set, number of trees, threshold rule, metric and query, exactly the requested number of distinct data points (or all, if fewer), with their true distances, sorted from nearest to farthest, no other point being nearer than the last. Missing neighbours are reported as such. Every tree stores each point once; each of its nodes divides its points at the mean or the median, as chosen, of a coordinate of largest variance (among the largest in randomised forests), down to one point or to equal points.",
     "all data sets (duplicates, ties, degenerate dimensions), tree counts, metrics, neighbour counts and queries",
     "Tests use one random Gaussian cloud with the default metric.",
     [V + "kdtree.c", V + "kdtree.h"], [("branch and bound with lower bounds per node", "vl/kdtree.c"), ("best-first heap shared by trees", "vl/kdtree.c")],
     over=("inputs", "configurations"), observe=["neighbour lists"])
prop("C15", "Approximate kd-tree search stays within budget and remains valid",
     "With a limit on comparisons, a query performs no more point comparisons than the limit, still returns distinct valid points with their true distances in sorted order, and equals the exact answer once the limit allows every point. Several searchers on one forest, repeated queries and forests rebuilt from the same random state give independent, reproducible results.",
     "all limits, data sets, searcher interleavings and seeds",
     "Tests check only an average error on one data set.",
     [V + "kdtree.c"], [("comparison counter and unique-id bookkeeping per searcher", "vl/kdtree.c")],
     over=("inputs", "histories"), observe=["neighbour lists", "reported number of comparisons"])
prop("C16", "Quantisation assigns every point to its nearest centre",
     "Given centres, quantising data with k-means assigns every point to a centre at the smallest distance and reports that distance, for every metric and precision; approximate quantisation never reports an index outside the centres or a distance other than that of the reported centre, and is exact when its comparison limit covers all centres.",
     "all data, centres, dimensions, metrics, precisions, comparison limits",
     "Tests compare energies of one run.",
     [V + "kmeans.c"], [("nearest-centre scan", "vl/kmeans.c"), ("kd-tree backed quantisation", "vl/kmeans.c")], over=("inputs", "configurations"), observe=["assignments and distances"])
prop("C17", "K-means training reaches a consistent, non-increasing fixed point",
     "Each k-means algorithm (Lloyd, Elkan, ANN) ends with centres whose energy equals the reported energy, never above that of its initial centres, and with the same initial centres Lloyd and Elkan end with the same energy. Initialisation by sampling or by the ++ rule picks centres from the data, repetition keeps the best run, and the iteration cap and minimum energy variation are respected.",
     "all data (duplicates, fewer distinct points than centres), metrics, algorithms, seeds and option settings",
     "Tests compare two runs on one data set.",
     [V + "kmeans.c"], [("triangle-inequality bounds of Elkan", "vl/kmeans.c"), ("centre update and empty-cluster handling", "vl/kmeans.c")], over=("inputs", "configurations", "histories"), observe=["energies, centres, assignments"])
prop("C18", "Integer and hierarchical k-means quantise consistently",
     "Integer k-means (Lloyd and Elkan) assigns every point to a nearest integer centre, both methods leave centres that are the means of their clusters on convergence, and pushing the training data gives a nearest centre for any data. Hierarchical k-means gives every point a path whose every step is the nearest centre among the children of the node reached so far, with every label inside the branching factor.",
     "all integer data sets, cluster counts, branching factors and depths",
     "Tests run one random data set.",
     [V + "ikmeans.c", V + "ikmeans_lloyd.tc", V + "ikmeans_elkan.tc", V + "ikmeans_init.tc", V + "hikmeans.c"], [("Elkan distance bounds in integers", "vl/ikmeans_elkan.tc"), ("recursive partition of the data", "vl/hikmeans.c")], observe=["assignments, paths, centres"])
prop("C19", "Gaussian mixture fitting keeps valid parameters and climbs the likelihood",
     "Expectation-maximisation keeps priors that sum to one, variances no smaller than their lower bounds, and finite means, never decreases the data log-likelihood except through that bound or through the negligible assignments it drops for speed, and reports the log-likelihood of the model and data it holds. Posteriors computed for any data under a model are probabilities that sum to one per point and equal the mixture formula.",
     "all data sets, cluster counts, initialisations, precisions and bounds",
     "Tests check agreement of two runs on one data set.",
     [V + "gmm.c"], [("log-sum-exp over components", "vl/gmm.c"), ("variance lower bound and restarted modes", "vl/gmm.c")], over=("inputs", "configurations"), observe=["priors, means, covariances, posteriors, log-likelihood"])
prop("C20", "Fisher vectors equal their closed form",
     "The Fisher encoding of any data set under any valid mixture equals, component by component, the closed-form normalised gradients with respect to means and standard deviations. The square-root, L2-normalised, improved and fast options apply exactly the documented transformations, an all-zero encoding stays finite, and the number of retained assignment terms is reported.",
     "all mixtures, data sets, option combinations and precisions",
     "Tests compare one random problem.",
     [V + "fisher.c"], [("posterior-weighted accumulation", "vl/fisher.c")], over=("inputs", "configurations"), observe=["encoded vector"])
prop("C21", "VLAD vectors equal their closed form",
     "The VLAD encoding of any data, centres and (soft or hard) assignments equals the assignment-weighted sum of residuals per centre, with the per-component, mass, square-root and global L2 normalisations applied exactly as documented, in the documented order and layout. Centres without data and zero vectors yield finite zeros.",
     "all data, assignments, option combinations and precisions",
     "Tests compare one random problem per flag.",
     [V + "vlad.c"], [("per-cluster accumulation and normalisation", "vl/vlad.c")], over=("inputs", "configurations"), observe=["encoded vector"])
prop("C22", "Agglomerative information bottleneck merges greedily and conserves mass",
     "At every step the agglomerative information bottleneck merges the pair of live nodes whose merge loses least mutual information, the recorded costs are the true remaining information after each merge, and the parents array describes one binary tree in which every non-root node has a later-numbered parent. Zero-probability nodes are set apart without disturbing the others.",
     "all joint probability tables including zeros, ties and one-row tables",
     "Tests check two small tables.",
     [V + "aib.c"], [("nearest-candidate list refreshed after each merge", "vl/aib.c")], observe=["parents and costs arrays"])
prop("C23", "SVM solvers converge to the optimum of the stated objective",
     "Both SVM solvers (dual coordinate ascent and stochastic gradient) report objective, loss and dual values equal to those of the model they return for every loss, weighting and bias setting, the duality gap is never negative, and dual coordinate ascent that reports convergence is within its tolerance of the optimum. Iteration limits and diagnostic periods are obeyed and the scores equal the inner products of model and data. The time reported is that since the start of the training.",
     "all data sets, losses, regularisation, weights, bias multipliers and seeds",
     "Tests compare weighted and replicated data on one set.",
     [V + "svm.c"], [("coordinate update per loss", "vl/svm.c"), ("statistics refreshed on diagnostic", "vl/svm.c")], over=("inputs", "configurations"), observe=["statistics, model, bias, scores"])
prop("C24", "Homogeneous kernel maps approximate their kernels; dataset products match",
     "For every non-negative pair of inputs the inner product of the homogeneous kernel map features equals the chosen additive kernel up to the approximation of the order, homogeneity and the sign rule for negative inputs hold, and storage strides are respected. A dataset wrapped with a map gives inner products and accumulations identical to those over the explicitly expanded data.",
     "all kernels, gammas, orders, periods, windows, inputs and strides",
     "Tests check a fixed grid of values at one order.",
     [V + "homkermap.c", V + "svmdataset.c"], [("interpolated table over the logarithm of the input", "vl/homkermap.c")], over=("inputs", "configurations"), observe=["feature values", "inner products"])
prop("C25", "The SIFT detector finds exactly the accepted scale-space extrema",
     "Processing an image octave by octave yields the Gaussian scale space whose levels are the image smoothed to the nominal scale, and keypoints that are strict local extrema of the difference of levels, refined inside their cell, passing the peak and edge thresholds in force and lying inside the image. Orientations lie in [0, 2 pi), number at most four, and are peaks of the gradient histogram around the keypoint.",
     "all images, sizes, octave and level counts, first octaves and thresholds",
     "Tests compare one image against one reference output.",
     [V + "sift.c", V + "sift.h"], [("octave buffer reuse", "vl/sift.c"), ("quadratic refinement of extrema", "vl/sift.c")], over=("inputs", "configurations"), observe=["octave levels, keypoints, orientations"])
prop("C26", "SIFT descriptors are the normalised clamped gradient histograms",
     "Every SIFT descriptor, of a detected keypoint, a custom one, or a raw gradient field, equals the trilinearly weighted, Gaussian-windowed gradient orientation histogram rotated to the keypoint, normalised, clamped at 0.2 and renormalised, with values in [0,1]. Brightness offsets and positive contrast scaling leave it unchanged up to rounding, and regions without gradient give a finite vector.",
     "all gradient fields, positions (including at borders), scales, angles and window sizes",
     "Tests compare a few descriptors of one image with a loose tolerance.",
     [V + "sift.c"], [("histogram accumulation with trilinear weights", "vl/sift.c")], observe=["descriptor values"])
prop("C27", "Dense SIFT equals per-location SIFT histograms on its sampling grid",
     "Dense SIFT places descriptors on exactly the grid given by bounds, steps and geometry, and each is the histogram of gradients convolved with the triangular or flat spatial window and linear orientation binning, normalised like SIFT, with the norm reported. Flat and Gaussian windows differ only as documented, and transposing a descriptor equals the descriptor of the transposed image.",
     "all image sizes, bounds, steps, geometries, window settings",
     "Tests compare a few settings on one image with a loose tolerance.",
     [V + "dsift.c", V + "dsift.h"], [("separable convolution of orientation planes", "vl/dsift.c")], over=("inputs", "configurations"), observe=["keypoint grid, descriptors"])
prop("C28", "HOG features equal their cell-histogram definition",
     "HOG features of an image or a polar gradient field equal the definition for every cell size, orientation count, variant and assignment mode: bilinear spatial pooling, orientation binning by the strongest channel, block normalisation with clamping and the documented layout. Flipping through the permutation equals the features of the mirrored image and rendering stays inside its glyph image.",
     "all image sizes, channels, cell sizes, orientation counts, variants and transposition",
     "Tests compare flipping on one image.",
     [V + "hog.c"], [("cell pooling and block normalisation", "vl/hog.c")], over=("inputs", "configurations"), observe=["feature array"])
prop("C29", "LBP features equal the interpolated histogram of uniform patterns",
     "LBP features of any image equal, cell by cell, the L2-normalised square-rooted or plain bilinearly pooled histogram of the 58 quantised uniform patterns given by comparing each pixel with its eight neighbours, for both image orders. Every pattern maps to exactly one bin, and flipping the image permutes the bins accordingly.",
     "all images, cell sizes, orders",
     "Tests check flipping on one image.",
     [V + "lbp.c"], [("table of uniform patterns", "vl/lbp.c")], observe=["feature array"])
prop("C30", "LIOP descriptors depend only on intensity order",
     "A LIOP descriptor equals the definition: pixels in the circular region split by intensity rank into equal bins, each adding its weighted neighbour-order pattern, and the result L2-normalised. It is therefore unchanged by any strictly increasing change of intensities, and finite for constant patches.",
     "all patches, sides, neighbour counts, bins, radii and thresholds",
     "Tests compare one random patch at a few settings.",
     [V + "liop.c"], [("rank sort of pixels", "vl/liop.c"), ("permutation index of neighbours", "vl/liop.c")], over=("inputs", "configurations"), observe=["descriptor values"])
prop("C31", "Scale-space levels carry their nominal smoothing and sampling",
     "Every level of a Gaussian scale space is the input image smoothed to the scale reported for it and sampled at the step reported for its octave, for every valid geometry, with octave sizes following the sampling step. Re-putting an image fully replaces earlier contents, copies are independent, and geometries compare equal exactly when every field is.",
     "all image sizes, geometries (octave ranges, resolution, base scale, subdivision range)",
     "No test of the module exists.",
     [V + "scalespace.c"], [("octave start by smoothing or downsampling the previous octave", "vl/scalespace.c")], over=("inputs", "configurations", "histories"), observe=["level buffers"])
prop("C32", "Covariant detection yields in-image features meeting the thresholds",
     "For every detector, detected features lie inside the image, carry scores above the peak threshold (and are extrema of the detector's response where not altered later), have positive-determinant frames, and none survives that an option excludes (margin, non-extrema suppression, affine or orientation adaptation). Extracted patches equal the image resampled through the frame, and orientations rotate with the image.",
     "all images, detectors, thresholds, octave settings, frames and patch sizes",
     "No automated test compares the module with anything.",
     [V + "covdet.c"], [("extrema search and refinement per octave", "vl/covdet.c"), ("patch extraction with padding", "vl/covdet.c")], over=("inputs", "configurations", "histories"), observe=["feature arrays, patches"])
prop("C33", "MSER returns exactly the maximally stable extremal regions",
     "For every image, dimension and setting, the regions returned are exactly the extremal regions that are maximally stable and pass the area, variation, diversity and duplicate filters, each reported by a seed pixel whose flood fill is the region, and the ellipses fitted are the exact moments of the regions. Reprocessing with one filter object gives the same result as with a fresh one.",
     "all images (constant, tied, noisy), dimensions, parameter values",
     "Tests only look at one synthetic image.",
     [V + "mser.c"], [("union-find extremal region tree", "vl/mser.c")], over=("inputs", "configurations", "histories"), observe=["seeds, ellipses, statistics"])
prop("C34", "Quick shift links each pixel to its nearest higher-density neighbour",
     "For every image and kernel size the density equals the Parzen estimate over the window, and each pixel's parent is the nearest pixel of higher density within the allowed distance, or itself, with the distance reported; the parents therefore form a forest. The medoid variant links each pixel to the window pixel closest to the weighted mean of the window, with its score reported.",
     "all images, channel counts, kernel sizes, distance limits",
     "No test covers the module.",
     [V + "quickshift.c"], [("window search by density and distance", "vl/quickshift.c")], observe=["parents, distances, density"])
prop("C35", "SLIC yields a complete segmentation into connected regions",
     "For every image, region size, regularisation and minimum size, every pixel gets a label, regions smaller than the minimum are merged into a neighbour, and each label's pixels form connected pieces no smaller than the minimum, but for the piece of the very first pixel. Before merging, each pixel has the nearest of the k-means centres of the tiles around it. The result depends only on the input.",
     "all images (constant, noisy, tiny), channel counts, region sizes, regularisers",
     "Tests check one image for non-crash only.",
     [V + "slic.c"], [("local k-means with centre relocation and small-region elimination", "vl/slic.c")], observe=["segmentation labels"])
prop("C36", "PGM images round-trip and malformed files are rejected cleanly",
     "Writing an image as PGM and reading it back, in either format and 8 or 16 bits, restores every pixel; headers with comments and any white space are understood. Truncated, malformed or hostile headers yield an error code, never a crash, hang or out-of-bounds access. Byte-order swapping of any width reverses exactly the bytes of the element.",
     "all image sizes, bit depths, header layouts, truncations",
     "No test covers the module.",
     [V + "pgm.c", V + "host.h", V + "host.c"], [("header tokenizer skipping comments", "vl/pgm.c")], over=("inputs", "fault_sequences"), observe=["pixels, error codes"])
prop("C37", "Command-line tools agree with the library and survive bad input",
     "The command-line feature extractors produce, for every readable image and option set, the features the library computes, in the selected output formats, and re-reading frames they wrote gives the descriptors the library computes for those frames. Unreadable, truncated, malformed or unsupported (16 bit) inputs, bad options and outputs that cannot be written end with a diagnostic and a failing status, never a crash.",
     "all images, option combinations, frame files and malformed inputs",
     "No test runs the tools.",
     ["src/sift.c", "src/mser.c", "src/aib.c", "src/generic-driver.h"], [("generic driver of file metas", "src/generic-driver.h")], over=("inputs", "configurations", "fault_sequences"), observe=["exit status, output files, stderr"])
prop("C38", "Toolbox numeric functions compute their definitions",
     "The numeric toolbox functions (pairwise distances, binary search, binned sums, cumulative maxima, histograms over index arrays and integral histograms, local maxima, matching, smoothing, warping, cutting) return exactly what their help text defines for every array class, size, orientation and degenerate input, leave their inputs unchanged, and never read or write outside their arrays. Arguments of a class, size or value that a function does not support make it report an error, never crash, hang or end the host.",
     "all array shapes, storage classes, NaN and infinite values, empty inputs",
     "Tests check a handful of small arrays per function.",
     ["toolbox/misc/vl_alldist.c", "toolbox/misc/vl_alldist2.c", "toolbox/misc/vl_binsum.c", "toolbox/misc/vl_binsearch.c", "toolbox/misc/vl_cummax.c", "toolbox/misc/vl_ihashsum.c", "toolbox/misc/vl_inthist.c", "toolbox/misc/vl_localmax.c", "toolbox/sift/vl_ubcmatch.c", "toolbox/imop/vl_imwbackwardmx.c", "toolbox/imop/vl_imsmooth.c"],
     [("MEX gateway per function", "toolbox/misc")], observe=["returned arrays"])
prop("C39", "Feature and learning MEX functions give the library's results",
     "The MEX functions of the feature extractors (SIFT, dense SIFT, descriptors of given gradients, covariant detectors, HOG, LIOP, MSER, SLIC, quick shift) and of the learning algorithms (k-means, integer and hierarchical k-means, k-d trees, GMM, Fisher and VLAD encoding, SVM, AIB) return what the library computes from the same data with the parameters given by their options, in MATLAB's conventions: indexes from one, images and descriptors transposed, angles and frames adjusted, the documented classes and sizes. They write only the outputs asked for and leave their inputs unchanged. Arguments of a class, size or value that a function does not support make it report an error, never read or write outside of the arrays, crash or hang.",
     "all data, option combinations and numbers of outputs; ill-formed arguments",
     "Tests call each function on a few inputs with few options and look at sizes or at saved results.",
     ["toolbox/kmeans/vl_kmeans.c", "toolbox/kmeans/vl_ikmeans.c", "toolbox/kmeans/vl_hikmeans.c", "toolbox/gmm/vl_gmm.c", "toolbox/fisher/vl_fisher.c", "toolbox/vlad/vl_vlad.c", "toolbox/misc/vl_kdtreebuild.c", "toolbox/misc/vl_kdtreequery.c", "toolbox/misc/kdtree.h", "toolbox/misc/vl_svmtrain.c", "toolbox/aib/vl_aib.c", "toolbox/sift/vl_sift.c", "toolbox/sift/vl_dsift.c", "toolbox/sift/vl_covdet.c", "toolbox/misc/vl_hog.c", "toolbox/mser/vl_mser.c", "toolbox/slic/vl_slic.c", "toolbox/quickshift/vl_quickshift.c", "toolbox/mexutils.h"],
     [("MEX gateway per function", "toolbox/sift/vl_sift.c"), ("option parsing", "toolbox/mexutils.h")], observe=["returned arrays"])
prop("C40", "Precision-recall and ROC curves are those of the ranking",
     "Precision-recall and ROC curves, average precision (plain, interpolated and at 11 recalls), area under the curves and equal error rate are those that follow by definition from the order of the scores, for any labels (positive, negative, ignored), any scores including ties and samples not retrieved (-inf), prior numbers of samples, normalised priors and interpolation; they depend on nothing but the ranking, and the stable curves give the same points in the order of the samples.",
     "all label and score vectors including ties, infinities and missing classes; all options",
     "Tests check a few hand-made vectors.",
     ["toolbox/plotop/vl_pr.m", "toolbox/plotop/vl_roc.m", "toolbox/plotop/vl_tpfp.m"], [("cumulative counts over the sorted scores", "toolbox/plotop/vl_tpfp.m")], observe=["returned curves and metrics"])
prop("C41", "Toolbox colour, gradient, resampling and warping functions are exact",
     "Colour conversions follow their matrices, illuminants and formulas and invert each other; image gradients are the documented differences; halving, doubling and rescaling images, and arranging them in mosaics, give the documented pixels in every storage class, including saturation; affine and thin-plate-spline warps map points as their equations say, their derivatives are those of the map and the inverse spline warp inverts it; backward warping interpolates bilinearly and marks what lies outside as NaN; the corner strength and its factors are those of the structure tensor; whitening scales each frequency by its modulus; images read are the grey levels of the file.",
     "all images, storage classes, sizes down to a single pixel, colours, warps and points",
     "Tests of a few functions compare one image each; most have none.",
     ["toolbox/imop/vl_xyz2rgb.m", "toolbox/imop/vl_rgb2xyz.m", "toolbox/imop/vl_xyz2lab.m", "toolbox/imop/vl_xyz2luv.m", "toolbox/imop/vl_imgrad.m", "toolbox/misc/vl_grad.m", "toolbox/imop/vl_imup.m", "toolbox/imop/vl_imdown.m", "toolbox/imop/vl_imarray.m", "toolbox/imop/vl_tps.m", "toolbox/imop/vl_wtps.m", "toolbox/imop/vl_witps.m", "toolbox/imop/vl_waffine.m", "toolbox/imop/vl_imwbackward.m", "toolbox/vl_harris.m", "toolbox/imop/vl_imwhiten.m", "toolbox/imop/vl_imreadgray.m"],
     [("per-illuminant white points", "toolbox/imop/vl_xyz2luv.m"), ("inverse warp by Gauss-Newton steps", "toolbox/imop/vl_witps.m")], observe=["returned arrays"])
prop("C42", "Reusing an object gives the same results as a fresh one",
     "Processing an image or data set with an object that has processed others before, of the same or different settings, gives exactly the result a new object would give, and reading a setting back returns what was set. Copies are independent of their originals.",
     "all histories of processing, setting changes and copies on one object",
     "Tests use each object once.",
     [V + "sift.c", V + "dsift.c", V + "hog.c", V + "covdet.c", V + "mser.c", V + "kmeans.c", V + "gmm.c", V + "liop.c", V + "quickshift.c", V + "scalespace.c", V + "array.c"],
     [("buffers kept between calls and reset on entry", "vl/sift.c")], over=("histories", "inputs"), observe=["results of reused and fresh objects"])
prop("C43", "A failed allocation is reported as documented and loses nothing",
     "When memory runs out inside a call that documents it, the call reports it: the constructors of scale spaces and their copies, of homogeneous kernel maps, LBP objects, SVMs and their data sets return NULL; vl_covdet_put_image (allocating its scale space), vl_covdet_append_feature and vl_covdet_extract_patch_for_frame return VL_ERR_ALLOC, the extraction of orientations and scales NULL and of the affine shape an error; reading a PGM file and writing one from floats return VL_ERR_ALLOC; configuration strings are NULL. Whichever of its allocations failed, no block and no open file is left behind, the objects involved keep their contents, can be used again once memory is available, with the results of objects that never failed, and can be deleted.",
     "every position of the failing allocation in the call, followed by further failures or not; all sizes and settings of the objects",
     "No test makes an allocation fail; the error paths are never executed.",
     [V + "scalespace.c", V + "covdet.c", V + "svm.c", V + "svmdataset.c", V + "homkermap.c", V + "lbp.c", V + "pgm.c", V + "generic.c"],
     [("error exits release what was allocated so far", "vl/scalespace.c"), ("features are counted only when they are stored", "vl/covdet.c")],
     over=("inputs", "fault_sequences", "histories"), observe=["status", "balance of the installed allocator", "contents afterwards"])
prop("C44", "Verbosity and the print function only report",
     "Raising the verbosity of a learner or tree never changes what it computes, never makes it report less, and reports only through the function installed with vl_set_printf_func: the library writes nothing to the standard output or error by itself, prints nothing while the verbosity is zero, and nothing at all when the print function is NULL.",
     "all verbosity levels, modules, data and print functions",
     "Tests run with verbosity off and look at no output.",
     [V + "generic.c", V + "kmeans.c", V + "gmm.c", V + "ikmeans.c", V + "hikmeans.c", V + "aib.c"],
     [("messages go through the print function of the library", "vl/generic.h"), ("messages are guarded by the verbosity", "vl/kmeans.c")],
     over=("inputs", "configurations"), observe=["results", "messages", "bytes written to the standard files"])
prop("C45", "Calls abandoned in the allocator are undone by releasing the memory",
     "The library can be left from inside the installed allocator at any allocation, as Matlab does when it runs out of memory or is interrupted: after every block taken from the allocator since has been released, the library is as before. Its global and per-thread state refers to none of those blocks, no setting has changed, no block taken from the C library directly is lost, and the abandoned operation and all others give the results they gave before.",
     "every module's operations, every allocation at which they can be abandoned, repeated abandonment",
     "Tests never interrupt a call.",
     [V + "generic.c", V + "kmeans.c", V + "gmm.c", V + "kdtree.c", V + "covdet.c", V + "imopv.c", V + "sift.c", V + "hog.c", V + "mser.c"],
     [("local state lives in blocks of the installed allocator only", "vl/generic.c")],
     over=("fault_sequences", "histories"), observe=["results after the abandonment", "blocks and settings"])
prop("C46", "Toolbox cuts, histograms, segmentations and dense features are consistent",
     "For any tree that AIB produces, and any number of nodes, a cut is made of that many nodes, none below another, covering every leaf, and its map, short-circuited tree, quantiser and histograms agree with it; histograms of trees and integer clusters count exactly the data of each node, and pushing data down a hierarchical tree follows the nearest centres; flattening a map of parents labels each pixel by its root, and quick segmentation gives each segment its mean colour; weighted and marginal histograms are the sums they stand for; PHOW features are the dense descriptors of each smoothed scale with low-contrast ones set to null; flipping LBP features equals the features of the flipped image; conversion of frames to ellipses is exact and key-point files in the supported formats are read as written, and refused when truncated.",
     "all trees, paths, images, weights, frames and files",
     "Tests check one example of some functions; most have none.",
     ["toolbox/aib/vl_aibcut.m", "toolbox/aib/vl_aibcuthist.m", "toolbox/kmeans/vl_hikmeanshist.m", "toolbox/kmeans/vl_hikmeanspush.c", "toolbox/kmeans/vl_ikmeanshist.m", "toolbox/quickshift/vl_flatmap.m", "toolbox/quickshift/vl_imseg.m", "toolbox/quickshift/vl_quickseg.m", "toolbox/misc/vl_whistc.m", "toolbox/misc/vl_histmarg.m", "toolbox/sift/vl_phow.m", "toolbox/misc/vl_lbpfliplr.m", "toolbox/sift/vl_frame2oell.m", "toolbox/sift/vl_ubcread.m"],
     [("nodes of the cut short-circuit the nodes below", "toolbox/aib/vl_aibcut.m"), ("bounds that align the scales", "toolbox/sift/vl_phow.m")], observe=["returned arrays"])
prop("C47", "Option parsing and utilities of the toolbox do exactly what they document",
     "Parsing options into a structure sets exactly the given options, matches names without case, recurses into structures, refuses or passes back what is unknown as asked for, and parsing what was passed back finds all of it; overriding structures merges fields as documented; alphanumeric sorting orders by the numbers in strings; column subsets have the requested size and order; special functions, numeric derivatives, line specifications, directories, solver data sets and image patterns are as documented, generating a pattern leaves the random state alone, short names forward all arguments and results to their functions, set-up makes every directory reachable, and global settings read back as set.",
     "all option lists, structures, strings, subsets and arguments",
     "Tests of the parser check fixed lists; most utilities have none.",
     ["toolbox/misc/vl_argparse.m", "toolbox/misc/vl_override.m", "toolbox/misc/vl_alphanum.m", "toolbox/misc/vl_colsubset.m", "toolbox/special/vl_rcos.m", "toolbox/special/vl_sigmoid.m", "toolbox/misc/vl_numder.m", "toolbox/misc/vl_numder2.m", "toolbox/plotop/vl_linespec2prop.m", "toolbox/misc/vl_xmkdir.m", "toolbox/misc/vl_svmdataset.m", "toolbox/imop/vl_impattern.m", "toolbox/vl_setup.m", "toolbox/noprefix/*.m"],
     [("recursive matching of options", "toolbox/misc/vl_argparse.m")], over=("inputs", "configurations"), observe=["returned values, errors, files created"])
prop("C48", "Figures drawn by the toolbox show exactly the data they are given",
     "What the drawing functions put in a figure is what they are asked for: frames are drawn as the closed outlines (and arrows) of their circles and ellipses, boxes by their four sides with their labels, grids by exactly their edges, descriptors by the stars of their bins warped to their frames, curves by the points that are computed for them with titles quoting their metrics; colours, styles and the state of the axes are as requested; tiled axes, figure shapes and printing sizes are those documented; pictures of scaled images, mosaics and scale spaces spread the requested range of values, per image or together, over the colour map.",
     "all frames, boxes, grids, descriptors, images, scores, styles, layouts and options",
     "Tests look at the handles of a few boxes and at printing sizes; nothing checks what is drawn.",
     ["toolbox/plotop/vl_plotframe.m", "toolbox/plotop/vl_plotbox.m", "toolbox/plotop/vl_plotgrid.m", "toolbox/plotop/vl_plotpoint.m", "toolbox/plotop/vl_plotstyle.m", "toolbox/plotop/vl_tightsubplot.m", "toolbox/plotop/vl_figaspect.m", "toolbox/plotop/vl_printsize.m", "toolbox/sift/vl_plotsiftdescriptor.m", "toolbox/sift/vl_plotss.m", "toolbox/imop/vl_imarraysc.m", "toolbox/plotop/vl_pr.m", "toolbox/plotop/vl_roc.m", "toolbox/plotop/vl_det.m"],
     [("stars of the bins in row-major order, warped to the frame", "toolbox/sift/vl_plotsiftdescriptor.m"), ("levels of the colour map by ranges", "toolbox/imop/vl_imarraysc.m")], over=("inputs", "configurations"), observe=["graphics objects of the figure"])
