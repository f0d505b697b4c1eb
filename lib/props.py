"""The table of properties: which harness decides each, on which build."""
import time
import run

# property -> list of (harness, flavour)
TABLE = {}
NOTE = ("Held on the executions counted in the evidence: generated inputs run through the real code under address and undefined-behaviour sanitizers, "
        "each judged by an independent reference computation. Nothing is claimed about inputs not run; trusts the compiler, libm and the reference.")
RULES = {}


def P(pid, harness, rule, flavour="asan", extra=(), **kw):
    TABLE[pid] = dict(harness=harness, flavour=flavour, rule=rule, extra=extra, **kw)


ALL = "kdtree math base imop kmeans gmm learn sift hog scalespace covdet mser segment pgm"


def everything(pid, tier, seed, t0):
    """the workloads of the other checks (a share of them) and those of this
    property, with the monitors of this property only."""
    e = TABLE[pid]
    res = run.Result()
    per = {}
    for h in e["harness"].split():
        before, n0 = len(res.seen), res.evals
        own = h in e.get("own", ())
        run.run_harness(res, h, e["flavour"], e["mode"] + (["--prop", "C01"] if own else []), tier, seed, e["extra"],
                        scale=None if own else e["scale"][tier == "thorough"], label=h)
        per[h] = res.evals - n0
    return run.finish(pid, res, tier, seed, t0, e["rule"], assumptions=e.get("assumptions", ()), extra_cov=dict(executions_per_harness=per))


P("C01", "life " + ALL, "case = one history of calls on objects of one module, or one case of another property's workload, with every block of the allocator and every access watched; distinct by history or data",
  fn=everything, mode=["--mem"], own=("life",), scale=(.3, .3), tech="AddressSanitizer, UndefinedBehaviorSanitizer and an accounting allocator over histories of calls")
P("C02", "life " + ALL, "case = one history of calls or one case of another property's workload with every value tracked from where it was written, and the results checked to be fully written; distinct by history or data",
  fn=everything, mode=["--msan"], flavour="msan", own=("life",), scale=(.3, .3), tech="MemorySanitizer over histories of calls and all workloads, results checked to be fully written")
P("C03", "threads:tsan threads:asan", "case = a gang of threads each running its own list of module workloads, or using the library's per-thread state; every result compared with the same workload alone; distinct by workloads and seeds",
  tech="ThreadSanitizer and AddressSanitizer over stress schedules, per-thread results compared with serial runs")
P("C04", "openmp:tsanomp openmp:asanomp", "case = one operation run with several thread limits, each compared with one thread; distinct by data and thread counts",
  tech="ThreadSanitizer over an instrumented OpenMP runtime with injected delays, results compared across thread counts")

P("C05", "math math:asansse", "case = one pair of vectors (or one all-pairs matrix) evaluated for every comparison type; distinct = distinct data, alignment, SIMD setting")
P("C08", "math", "case = a batch of arguments of every scalar function; 8- and 16-bit integer roots and all 32-bit square boundaries are exhaustive")
P("C09", "math", "case = one matrix, linear system or rotation; distinct by its entries")
P("C06", "base", "case = one seeding followed by a mixed sequence of draws, or one permutation; distinct by seed and sequence")
P("C07", "base", "case = one sequence of heap operations checked after every step, or one sort; distinct by sequence or data")
P("C10", "base", "case = one source string, capacity and call set; distinct by string and capacity")
P("C11", "base", "case = one argument vector parsed to the end; distinct by its words")
P("C14", "kdtree", "case = one data set, forest and its queries, each compared with brute force, or every node of its trees judged; distinct by data and settings")
P("C15", "kdtree", "case = a history of budgeted queries through several searchers; distinct by data and history length")

P("C12", "imop", "case = one convolution of one image, every destination pixel compared; distinct by image, filter and setting")
P("C13", "imop", "case = one image through one operator, every output pixel compared; distinct by image and parameters")

P("C16", "kmeans", "case = one set of centres and data quantised, every assignment judged; distinct by data and settings")
P("C17", "kmeans", "case = one training judged against its energy and a reference Lloyd; distinct by data and initial centres")
P("C18", "kmeans", "case = one integer training or tree, compared with an exact model; distinct by data and settings")

P("C19", "gmm gmm:asansse", "case = one model and data set: E steps, M steps, restarts, trainings against their formulas; distinct by data and model")
P("C20", "gmm gmm:asansse", "case = one Fisher encoding, every component compared; distinct by data, model and options")
P("C21", "gmm", "case = one VLAD encoding, every component compared; distinct by data, assignments and options")

P("C22", "learn", "case = one probability table reduced to its root, every merge judged; distinct by table")
P("C23", "learn", "case = one loss evaluation, or one training with every diagnostic judged; distinct by data and loss")
P("C24", "learn", "case = one kernel map evaluated at many arguments, or one wrapped data set; distinct by parameters or data")

P("C25", "sift", "case = one image through the detector: every level, keypoint and orientation judged; distinct by image and settings")
P("C26", "sift", "case = one image or gradient field with descriptors at many keypoints, every component compared; distinct by data")
P("C27", "sift", "case = one image described densely, every component of every frame compared; distinct by image and settings")

P("C28", "hog", "case = one image or polar field, every feature element judged, or one rendering; distinct by data and settings")
P("C29", "hog", "case = one image, every cell and bin judged; the 256 patterns are exhaustive; distinct by image and cell size")
P("C30", "hog", "case = one patch, every component judged; distinct by patch and settings")

P("C31", "scalespace", "case = one image and geometry with every pixel of every level judged, one geometry comparison or one copy; distinct by levels")

P("C32", "covdet", "case = one image and detector setting with every response, extremum, patch, orientation, scale or shape judged, or one list operation; distinct by image and outcome")

P("C33", "mser", "case = one image and setting, every region, statistic and ellipse compared with flood fills of every level; distinct by image and regions")

P("C34", "segment", "case = one image and setting, every density, parent and distance judged; distinct by outcome")
P("C35", "segment", "case = one image segmented with and without cleaning, every pixel and piece judged; distinct by image and labels")

P("C36", "pgm", "case = one stream or file written, read, truncated, malformed or failing, every pixel compared; distinct by its bytes")

P("C37", "cli", "case = one or more runs of a driver on generated images, frame files and options, its files compared with the library; distinct by arguments and files")

P("C38", "mex", "case = one call of a numeric toolbox function, every element of its outputs compared, or one random argument list; distinct by inputs and outputs")

P("C39", "mexlib:asannd", "case = one call of a feature or learning MEX function compared with the library called directly, or one random argument list; distinct by data and outputs")

P("C42", "life sift hog scalespace covdet mser segment", "case = a history of uses of one object, each compared with a new object; distinct by data")

P("C43", "fault", "case = one constructor, call or list whose allocations fail one after the other; distinct by data and call", mode=["--account"],
  tech="fault injection at every allocation under AddressSanitizer with an accounting allocator")
P("C44", "fault", "case = one workload run silent, at four verbosity levels and without a print function, with results, messages and the standard files compared; distinct by data", mode=["--account"],
  tech="differential runs with a recording print function and captured standard files")
P("C45", "fault", "case = one workload abandoned at one to four of its allocations, its blocks released, and run again; distinct by data", mode=["--account"],
  tech="fault injection: calls left by an exception at an allocation, under AddressSanitizer, results compared with undisturbed runs")

OCT = dict(flavour="plain", tech="execution of the toolbox in Octave with reference-model monitor, gateways built from the tree",
           note="Held on the executions counted in the evidence: generated inputs run through the toolbox code under Octave 8.4, each judged by an independent reference computation. Nothing is claimed about inputs not run or about Matlab; trusts Octave and the reference.")
P("C40", "octave", "case = one set of labels and scores with one choice of options, every point of the curves judged; distinct by data and options", **OCT)
P("C41", "octave", "case = one image, colour set, warp or point set, every element of the results judged; distinct by data", **OCT)
P("C46", "octave", "case = one tree, path set, map, image or file, every element of the results judged; distinct by data", **OCT)
P("C47", "octave", "case = one option list, structure, list of strings or argument, the whole result judged; distinct by data", **OCT)
P("C48", "octave", "case = one set of frames, boxes, grids, descriptors, axes, images or scores drawn into an unseen figure, every line, picture, position and label of the figure judged; distinct by data", **OCT)


def extras(harness):
    return ()


def check(pid, tier, seed):
    t0 = time.time()
    e = TABLE[pid]
    if "fn" in e:
        return e["fn"](pid, tier, seed, t0)
    res = run.Result()
    for h in e["harness"].split():       # NAME or NAME:FLAVOUR
        h, _, fl = h.partition(":")
        run.run_harness(res, h, fl or e["flavour"], ["--prop", pid] + e.get("mode", []), tier, seed, e["extra"], label=h + fl)
    return run.finish(pid, res, tier, seed, t0, e["rule"], assumptions=e.get("assumptions", ()))


def setup():
    pass
