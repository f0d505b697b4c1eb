#!/usr/bin/env python3
"""run.py check ID        decide one property (VERIF_SEED, VERIF_TIER)
run.py replay FILE     re-run the case recorded in a replay file
run.py setup           prebuild what the quick checks use

Builds the sources of /repo's working tree with sanitizers, runs the harness
of the property on them, and turns what the monitors observed into a verdict:
exit 0 held on everything explored, 1 with VIOLATION lines, 2 error of the
check (build failure, nothing observed, ...)."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.environ.get("VT_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, os.path.join(VERIF, "lib"))
JOBS = min(8, os.cpu_count() or 2)


class Err(Exception):
    pass


# ------------------------------------------------------------------ building
COMMON = ["-g", "-O1", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls", "-w", "-pthread"]
NOOMP = ["-DVL_DISABLE_OPENMP"]
# signed-integer-overflow etc. are all in "undefined"; alignment is checked too.
FLAVOURS = {
    "asan": dict(cc="gcc", cxx="g++", flags=COMMON + ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"], omp=NOOMP, rawalloc=True),
    # the SSE2 kernels, which the AVX ones otherwise take the place of
    "asansse": dict(cc="gcc", cxx="g++", flags=COMMON + ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DVL_DISABLE_AVX"], omp=NOOMP, rawalloc=True),
    # without assertions, as shipped: what a refused or tolerated argument really does
    "asannd": dict(cc="gcc", cxx="g++", flags=COMMON + ["-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], omp=NOOMP, rawalloc=True),
    "msan": dict(cc="clang", cxx="clang++", flags=COMMON + ["-fsanitize=memory", "-fsanitize-memory-track-origins=1"], omp=NOOMP),
    "tsan": dict(cc="gcc", cxx="g++", flags=COMMON + ["-fsanitize=thread"], omp=NOOMP),
    "tsanomp": dict(cc="gcc", cxx="g++", flags=COMMON + ["-fsanitize=thread"], omp=["-fopenmp"]),
    "asanomp": dict(cc="gcc", cxx="g++", flags=COMMON + ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"], omp=["-fopenmp"]),
    "plain": dict(cc="gcc", cxx="g++", flags=COMMON, omp=NOOMP),
    # which parts of the library the workloads reach (tools/coverage.sh)
    "cov": dict(cc="gcc", cxx="g++", flags=COMMON + ["--coverage", "-Wl,-u,__gcov_dump"], omp=NOOMP),
    # as the project's release build (make/dll.mak), with symbols
    "rel": dict(cc="gcc", cxx="g++", flags=["-g", "-O3", "-DNDEBUG", "-w", "-pthread"], omp=NOOMP),
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


_hdr = {}


def headers_hash(d):
    if d not in _hdr:
        h = hashlib.sha256()
        for root, dirs, files in os.walk(d):
            dirs[:] = [x for x in dirs if x not in ("mex", "noprefix")]
            for f in sorted(files):
                if f.endswith((".h", ".th", ".def", ".tc")):
                    p = os.path.join(root, f)
                    h.update(p.encode() + open(p, "rb").read())
                elif f.endswith(".c") and d.endswith("/vl"):
                    # several vl/*.c files include themselves or each other
                    if f in ("mathop.c",):
                        h.update(open(os.path.join(root, f), "rb").read())
                elif f.endswith(".c") and d.endswith("/toolbox"):
                    # gateways that include other gateways' sources
                    t = open(os.path.join(root, f), "rb").read()
                    if b'.c"' in t:
                        h.update(f.encode() + t)
        _hdr[d] = h.hexdigest()
    return _hdr[d]


def compile_one(cc, flags, src, tag, extra_hash):
    obj_dir = os.path.join(BUILD, "obj")
    os.makedirs(obj_dir, exist_ok=True)
    key = digest(cc, flags, src, open(src, "rb").read(), extra_hash)
    obj = os.path.join(obj_dir, "%s-%s-%s.o" % (tag, os.path.basename(src), key))
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.%s.tmp" % (os.getpid(), digest(src)[:4])
    r = sh([cc] + flags + ["-c", src, "-o", tmp])
    if r.returncode:
        raise Err("compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-3000:]))
    os.rename(tmp, obj)
    return obj


def lib_sources():
    d = os.path.join(REPO, "vl")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".c"))


def lib_flags(src, fl):
    base = os.path.basename(src)
    f = fl["flags"] + fl["omp"] + ["-std=c99", "-D_GNU_SOURCE", "-fPIC", "-DVL_BUILD_DLL", "-I" + REPO, "-ffp-contract=off"]
    if "_sse2" in base:
        f = f + ["-msse2"]
    if "_avx" in base:
        f = f + ["-mavx"]
    return f


def build_lib(flavour, pool):
    fl = FLAVOURS[flavour]
    hh = headers_hash(os.path.join(REPO, "vl"))
    futs = [pool.submit(compile_one, fl["cc"], lib_flags(s, fl), s, flavour, hh) for s in lib_sources()]
    return futs


def cxx_flags(fl):
    return [f for f in fl["flags"]] + fl["omp"] + ["-std=c++17", "-I" + REPO, "-I" + os.path.join(VERIF, "lib"), "-ffp-contract=off"]


def octave_include():
    for d in sorted(glob.glob("/usr/include/octave-*/octave"), reverse=True):
        if os.path.exists(os.path.join(d, "mex.h")):
            return "-I" + d
    raise Err("no mex.h of Octave found")


def gateway(fl, flavour, src, hh):
    """a MEX gateway of the toolbox as an object exporting only vtmex_<name>."""
    name = os.path.basename(src)[:-2]
    flags = [f for f in lib_flags(src, fl) if f != "-DVL_BUILD_DLL"] + ["-I" + os.path.join(REPO, "toolbox"), octave_include(), "-DMWSIZE_MAX=2147483647", "-DmexFunction=vtmex_" + name]
    o = compile_one(fl["cc"], flags, src, flavour + "-mex", hh)
    out = o[:-2] + ".x.o"
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh(["objcopy", "--keep-global-symbol=vtmex_" + name, o, tmp])
        if r.returncode:
            raise Err("objcopy of %s failed:\n%s" % (o, r.stdout.decode(errors="replace")))
        os.rename(tmp, out)
    return out


def gateways_of(name):
    """the gateways a harness calls: those named in its X(...) list."""
    text = open(os.path.join(VERIF, "harness", name + ".cc")).read()
    want = re.findall(r"\bX\((vl_\w+)\)", text)
    found = {os.path.basename(p)[:-2]: p for p in glob.glob(os.path.join(REPO, "toolbox", "*", "vl_*.c"))}
    missing = [w for w in want if w not in found]
    if missing:
        raise Err("no source of " + ", ".join(missing))
    return [found[w] for w in want]


def build_harness(name, flavour, extra=(), want_lib=True):
    """-> path of the executable of harness/NAME.cc linked with /repo's vl."""
    fl = FLAVOURS[flavour]
    mex = name.startswith("mex")
    inc = []
    if mex:
        extra = list(extra) + [os.path.join(VERIF, "lib", "mexshim.cc")]
        inc = [octave_include()]
    if name == "openmp":
        extra = list(extra) + [os.path.join(VERIF, "lib", "gompshim.c")]
    if fl.get("rawalloc"):
        extra = list(extra) + [os.path.join(VERIF, "lib", "rawalloc.cc")]
    hh = headers_hash(os.path.join(REPO, "vl")) + headers_hash(os.path.join(VERIF, "lib"))
    with cf.ThreadPoolExecutor(JOBS) as pool:
        futs = []
        for s in [os.path.join(VERIF, "harness", name + ".cc"), os.path.join(VERIF, "lib", "vt_main.cc")] + list(extra):
            cxx = s.endswith(".cc")
            futs.append(pool.submit(compile_one, fl["cxx"] if cxx else fl["cc"],
                                    cxx_flags(fl) + inc if cxx else lib_flags(s, fl), s, flavour, hh))
        if mex:
            th = hh + headers_hash(os.path.join(REPO, "toolbox"))
            futs += [pool.submit(gateway, fl, flavour, s, th) for s in gateways_of(name)]
        if want_lib:
            futs += build_lib(flavour, pool)
        objs = [f.result() for f in futs]
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (name, flavour, digest(*objs)))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        link = [x for x in fl["flags"]]
        if fl.get("rawalloc"):
            link.append("-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free")
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh([fl["cxx"]] + link + objs + ["-lm", "-lpthread", "-o", tmp])
        if r.returncode:
            raise Err("linking %s failed:\n%s" % (name, r.stdout.decode(errors="replace")[-3000:]))
        os.rename(tmp, exe)
    return exe


def build_tools(flavour, names=("sift", "mser", "aib")):
    """the command-line drivers of /repo/src -> environment naming them."""
    fl = FLAVOURS[flavour]
    hh = headers_hash(os.path.join(REPO, "vl")) + digest(open(os.path.join(REPO, "src", "generic-driver.h"), "rb").read())
    env = {}
    with cf.ThreadPoolExecutor(JOBS) as pool:
        lib = build_lib(flavour, pool)
        main = [(n, pool.submit(compile_one, fl["cc"], lib_flags(n, fl), os.path.join(REPO, "src", n + ".c"), flavour + "-tool", hh)) for n in names]
        objs = [f.result() for f in lib]
        for n, f in main:
            o = [f.result()] + objs
            exe = os.path.join(mk(os.path.join(BUILD, "bin")), "tool-%s-%s-%s" % (n, flavour, digest(*o)))
            if not os.path.exists(exe):
                tmp = exe + ".%d.tmp" % os.getpid()
                r = sh([fl["cc"]] + fl["flags"] + o + ["-lm", "-lpthread", "-o", tmp])
                if r.returncode:
                    raise Err("linking %s failed:\n%s" % (n, r.stdout.decode(errors="replace")[-3000:]))
                os.rename(tmp, exe)
            env["VT_TOOL_" + n] = exe
    return env


def build_mex():
    """the gateways of the toolbox as Octave loads them -> their directory."""
    fl = FLAVOURS["plain"]
    hh = headers_hash(os.path.join(REPO, "vl")) + headers_hash(os.path.join(REPO, "toolbox"))
    inc = ["-I" + os.path.join(REPO, "toolbox"), octave_include(), "-DMWSIZE_MAX=2147483647"]
    with cf.ThreadPoolExecutor(JOBS) as pool:
        lib = build_lib("plain", pool)
        srcs = sorted(glob.glob(os.path.join(REPO, "toolbox", "*", "vl_*.c")))
        flags = [f for f in lib_flags("gateway.c", fl) if f != "-DVL_BUILD_DLL"] + inc
        gates = [(os.path.basename(x)[:-2], pool.submit(compile_one, fl["cc"], flags, x, "octmex", hh)) for x in srcs]
        lib = [f.result() for f in lib]
        gates = [(n, f.result()) for n, f in gates]
        d = os.path.join(BUILD, "mex-" + digest("symbolic", *(lib + [o for _, o in gates])))
        if os.path.isdir(d):
            return d
        tmp = "%s.%d.tmp" % (d, os.getpid())
        os.makedirs(tmp)

        def link(out, objs, more):
            r = sh([fl["cc"], "-shared"] + fl["flags"] + objs + more + ["-lm", "-lpthread", "-o", os.path.join(tmp, out)])
            if r.returncode:
                raise Err("linking %s failed:\n%s" % (out, r.stdout.decode(errors="replace")[-3000:]))
        link("libvl.so", lib, ["-Wl,-soname,libvl.so"])
        for f in [pool.submit(link, n + ".mex", [o], ["-L" + tmp, "-lvl", "-Wl,-Bsymbolic,-rpath,$ORIGIN"]) for n, o in gates]:
            f.result()
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return d


def octave_cmd():
    return ["octave-cli", "-qf", "--no-history", "--no-window-system", os.path.join(VERIF, "octave", "driver.m")]


def octave_env(scratch):
    return {"VT_MEXDIR": build_mex(), "VT_REPO": REPO, "TMPDIR": scratch, "HOME": scratch, "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}


# ------------------------------------------------------------------- running
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:detect_stack_use_after_return=1:max_malloc_fill_size=1048576:malloc_fill_byte=190:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1",
    "MSAN_OPTIONS": "abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=256",
    "TSAN_OPTIONS": "halt_on_error=1:second_deadlock_stack=1:exitcode=66:history_size=5:report_signal_unsafe=0",
}


def san_env(extra=None):
    e = dict(os.environ)
    e.update(SAN_ENV)
    e["LC_ALL"] = "C"
    if extra:
        e.update(extra)
    return e


def crash_key(log):
    """names a sanitizer report by its kind and the innermost repo function."""
    kind = "crash"
    m = re.search(r"(?:ERROR|WARNING): (AddressSanitizer|MemorySanitizer|ThreadSanitizer): ([\w-]+(?: [a-z-]+)?)", log)
    if m:
        kind = m.group(1)[0].lower() + "san:" + m.group(2).split(" (")[0].replace(" ", "-")
    else:
        m = re.search(r"runtime error: ([a-z][\w -]*?)(?: of| by|:| '| \d|,| with|$)", log)
        if m:
            kind = "ubsan:" + "-".join(m.group(1).split()[:4])
        else:
            m = re.search(r"Assertion `(.{1,60})", log)
            if m:
                kind = "assert"
    fn = "?"
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ (?:in )?(\S+) (\S+)", log):
        if (REPO + "/") in m.group(2):
            fn = m.group(1)
            break
    else:
        m = re.search(r"(\S+\.c):\d+(?::\d+)?: (?:runtime error|\w+: Assertion)", log)
        if m:
            fn = os.path.basename(m.group(1))
    return "%s@%s" % (kind, fn)


def read_progress(path):
    import struct
    try:
        d = open(path, "rb").read(24)
        return struct.unpack("qqq", d)
    except Exception:
        return (-1, -1, -1)


class Result:
    def __init__(self):
        self.evals = self.skipped = self.nontriv = self.allocs = 0
        self.counters = {}
        self.samples = []
        self.viol = []      # dict(group, case, key, msg, desc, log?)
        self.seen = set()
        self.inconclusive = []

    def merge(self, d):
        self.evals += d["evaluations"]
        self.skipped += d["skipped"]
        self.nontriv += d["nontrivial"]
        self.allocs += d.get("allocs", 0)
        for k, v in d["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.samples += d["samples"]
        self.viol += d["violations"]
        self.seen.update(d["seen"])


CASE_LIMIT = 60      # seconds without progress before a case is called stuck


def run_proc(cmd, env, log, prog, limit=CASE_LIMIT):
    """-> (returncode or 'hang')."""
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=lf, env=env, stdin=subprocess.DEVNULL, start_new_session=True, cwd=os.path.dirname(log))
        last, since = None, time.time()
        while True:
            try:
                return p.wait(timeout=0.2)
            except subprocess.TimeoutExpired:
                pass
            cur = read_progress(prog)
            if cur != last:
                last, since = cur, time.time()
            elif time.time() - since > limit:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return "hang"


def fill_env(env, fill):
    """new memory holds negative numbers (190) or plausible positive ones (63)"""
    return dict(env, ASAN_OPTIONS=env["ASAN_OPTIONS"].replace("malloc_fill_byte=190", "malloc_fill_byte=%d" % fill))


def run_shard(exe, args, shard, shards, work, env, res, names, lock, label=""):
    start = (0, 0)
    fill = 63 if shard % 2 else 190
    env = fill_env(env, fill)
    crashes = 0
    while True:
        tag = "%s-%d-%d" % (label or "r", shard, crashes)
        out, log, prog = (os.path.join(work, tag + x) for x in (".json", ".log", ".prog"))
        cmd = exe + args + ["--shard", str(shard), str(shards), "--start", str(start[0]), str(start[1]), "--out", out, "--progress", prog]
        rc = run_proc(cmd, env, log, prog)
        if rc == 0 and os.path.exists(out):
            d = json.load(open(out))
            for v in d["violations"]:
                v["fill"] = fill
            with lock:
                res.merge(d)
            return
        gi, idx, _ = read_progress(prog)
        text = open(log, "rb").read()[-20000:].decode(errors="replace")
        if gi < 0 or gi >= len(names):
            raise Err("harness %s ended with %s before/after its cases:\n%s" % (exe[-1], rc, text[-2000:]))
        name = names[gi]
        if rc == "hang":
            # run the case again, alone, with more time, before calling it a hang
            prog2 = prog + "2"
            rc2 = run_proc(exe + args + ["--group", name, "--case", str(idx), "--out", out + "2", "--progress", prog2], env, log + "2", prog2, limit=2 * CASE_LIMIT)
            if rc2 == "hang":
                v = dict(group=name, case=idx, key="hang", msg="no result after %d s (twice)" % (2 * CASE_LIMIT), desc="", fill=fill)
                with lock:
                    res.viol.append(v)
            elif rc2 == 0:
                with lock:
                    res.inconclusive.append("%s case %d was slow once" % (name, idx))
                    res.merge(json.load(open(out + "2")))
        if rc != "hang":
            v = dict(group=name, case=idx, key=crash_key(text), msg="exit %s; %s" % (rc, first_report(text)), desc="", log=text[-6000:], fill=fill)
            with lock:
                res.viol.append(v)
        crashes += 1
        if crashes >= 6:
            with lock:
                res.inconclusive.append("shard %d stopped after %d crashes" % (shard, crashes))
            return
        start = (gi, idx + 1)


def first_report(text):
    for line in text.splitlines():
        if "ERROR: " in line or "WARNING: " in line or "runtime error" in line or "Assertion" in line:
            return line.strip()[:300]
    return text.strip()[-200:]


def group_names(exe, env):
    r = subprocess.run(exe + ["--list"], stdout=subprocess.PIPE, env=env, stdin=subprocess.DEVNULL)
    return [l.split()[1] for l in r.stdout.decode().splitlines()]


def run_harness(res, name, flavour, args, tier, seed, extra=(), scale=None, env_extra=None, jobs=JOBS, label=""):
    import threading
    work = tempfile.mkdtemp(prefix="vtrun.", dir=mk(os.path.join(BUILD, "run")))
    env = san_env(env_extra)
    if name == "octave":
        exe = octave_cmd()
        env.update(octave_env(work))
    else:
        exe = [build_harness(name, flavour, extra)]
    if name == "cli":
        env.update(build_tools(flavour))
    names = group_names(exe, env)
    a = list(args) + ["--seed", str(seed)]
    if tier == "thorough":
        a.append("--thorough")
    if scale:
        a += ["--scale", str(scale)]
    lock = threading.Lock()
    try:
        with cf.ThreadPoolExecutor(jobs) as pool:
            futs = [pool.submit(run_shard, exe, a, i, jobs, work, env, res, names, lock, label) for i in range(jobs)]
            for f in futs:
                f.result()
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for v in res.viol:
        v.setdefault("harness", name)
        v.setdefault("flavour", flavour)
        v.setdefault("args", [x for x in args if x in ("--mem", "--msan", "--account")])
    return res


def mk(d):
    os.makedirs(d, exist_ok=True)
    return d


# ------------------------------------------------------------------ verdicts
def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) group=(\S+) key=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out


def finish(prop, res, tier, seed, t0, rule, level="exploration", assumptions=(), min_evals=1, extra_cov=None):
    known = [k for k in known_findings() if k[0] == prop]
    new, listed = [], {}
    for v in res.viol:
        for k in known:
            if k[1] in (v["group"], "*") and k[2] == v["key"]:
                listed[k] = v
                break
        else:
            new.append(v)
    cov = dict(evaluations=res.evals, distinct_nontrivial=len(res.seen), rule=rule,
               samples=res.samples[:12], nontrivial_total=res.nontriv, skipped_trivial=res.skipped,
               observed={k: int(v) for k, v in sorted(res.counters.items())},
               inconclusive=res.inconclusive, exhaustive=False)
    if extra_cov:
        cov.update(extra_cov)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=list(assumptions),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    mk(os.path.join(VERIF, "evidence"))
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if k in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    if new:
        rd = mk(os.path.join(VERIF, "out", "replay"))
        shown = set()
        n = 0
        for v in new:
            sig = (v["group"], v["key"])
            if sig in shown:
                continue
            shown.add(sig)
            path = os.path.join(rd, "%s-%d.json" % (prop, n))
            n += 1
            v2 = dict(v, property=prop, tier=tier, seed=seed)
            with open(path, "w") as f:
                json.dump(v2, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s case %s: [%s] %s" % (v["group"], v["case"], v["key"], v["msg"]))
            if v.get("desc"):
                print("  input: " + v["desc"])
        return 1
    if res.evals < min_evals or not res.seen:
        print("inconclusive: nothing was observed (%d evaluations)" % res.evals)
        return 3
    print("held: %s on %d executions, %d distinct non-trivial; %s" % (prop, res.evals, len(res.seen), "; ".join("%s=%d" % kv for kv in list(sorted(res.counters.items()))[:8])))
    return 0


def main():
    import props
    cmd = sys.argv[1] if len(sys.argv) > 1 else ""
    if cmd == "check":
        prop = sys.argv[2]
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 3:
            tier = sys.argv[3]
        tier = "thorough" if tier == "thorough" else "quick"
        try:
            return props.check(prop, tier, seed)
        except Err as e:
            print("error: " + str(e))
            return 2
    if cmd == "replay":
        v = json.load(open(sys.argv[2]))
        octave = v["harness"] == "octave"
        exe = octave_cmd() if octave else [build_harness(v["harness"], v["flavour"], props.extras(v["harness"]))]
        a = exe + v.get("args", []) + ["--group", v["group"], "--case", str(v["case"]), "--seed", str(v["seed"])]
        if v["tier"] == "thorough":
            a.append("--thorough")
        env = fill_env(san_env(), v.get("fill", 190))
        if v["harness"] == "cli":
            env.update(build_tools(v["flavour"]))
        work = tempfile.mkdtemp(prefix="vtrun.", dir=mk(os.path.join(BUILD, "run")))
        try:
            if octave:
                env.update(octave_env(work))
            return subprocess.run(a, env=env, cwd=work).returncode
        finally:
            shutil.rmtree(work, ignore_errors=True)
    if cmd == "setup":
        props.setup()
        return 0
    print(__doc__)
    return 64


if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
    sys.exit(main())
