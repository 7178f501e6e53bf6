"""Build and drive the fact extractor (tool/factx.cpp) over /repo's current working tree.

load(tus) parses the given translation units (in parallel) and returns a Program: every function,
record, enum and global defined in the repository, type-resolved, with templates instantiated.
Results are cached under /verif/_cache keyed by a hash of every source file below /repo/bland and
/repo/bliss (plus the extractor itself), so a changed tree is always re-parsed.
"""
import hashlib, json, os, subprocess, sys, tempfile, shutil, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, "_cache")
TOOL_SRC = os.path.join(VERIF, "tool", "factx.cpp")
LLVM = "/usr/lib/llvm-18"

BLAND = ["bland_tensor_internals.cpp", "config.cpp", "ndarray.cpp", "ndarray_deferred.cpp", "ndarray_slice.cpp",
         "internal/include/internal/shape_helpers.cpp",
         "ops/arithmetic.cpp", "ops/comparison.cpp", "ops/creators.cpp", "ops/frequency.cpp", "ops/ops.cpp", "ops/statistical.cpp",
         "ops/cpu/arithmetic_cpu.cpp", "ops/cpu/arithmetic_scalar_cpu.cpp", "ops/cpu/comparison_cpu.cpp",
         "ops/cpu/frequency_cpu_impl.cpp", "ops/cpu/ops_cpu.cpp", "ops/cpu/statistical_cpu.cpp"]
BLISS = ["bliss_find_hits.cpp", "bliss_hits_to_dat.cpp", "bliss_generate_channelizer_response.cpp",
         "core/cadence.cpp", "core/coarse_channel.cpp", "core/event.cpp", "core/frequency_drift_plane.cpp", "core/hit.cpp",
         "core/noise_power.cpp", "core/scan.cpp",
         "drift_search/connected_components.cpp", "drift_search/event_search.cpp", "drift_search/filter_hits.cpp",
         "drift_search/hit_search.cpp", "drift_search/integrate_drifts.cpp", "drift_search/local_maxima.cpp",
         "drift_search/protohit_search.cpp",
         "drift_search/kernels/connected_components_cpu.cpp", "drift_search/kernels/drift_integration_bland.cpp",
         "drift_search/kernels/drift_integration_cpu.cpp", "drift_search/kernels/local_maxima_cpu.cpp",
         "estimators/noise_estimate.cpp", "estimators/spectral_kurtosis.cpp",
         "file_types/cpnp_files.cpp", "file_types/dat_file.cpp", "file_types/events_file.cpp",
         "file_types/h5_filterbank_file.cpp", "file_types/hits_file.cpp",
         "file_types/detail/cpnp_hit_builder.cpp", "file_types/detail/raii_file_helpers.cpp",
         "flaggers/filter_rolloff.cpp", "flaggers/magnitude.cpp", "flaggers/sigmaclip.cpp", "flaggers/spectral_kurtosis.cpp",
         "preprocess/normalize.cpp", "preprocess/passband_static_equalize.cpp", "rfi/rfi.cpp"]
TUS = {}
for f in BLAND:
    TUS["bland/" + f] = "bland/bland/" + f
TUS["bland/pybland.cpp"] = "bland/python/pybland.cpp"
for f in BLISS:
    TUS["bliss/" + f] = "bliss/" + f
TUS["bliss/pybliss.cpp"] = "bliss/python/pybliss.cpp"


def group(prefix):
    return [k for k in TUS if k.startswith(prefix)]


class AnalysisError(Exception):
    """the analysis itself could not be carried out (vanished anchor, parse failure): error exit, no verdict"""


def _sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_tool():
    os.makedirs(CACHE, exist_ok=True)
    h = hashlib.sha256(open(TOOL_SRC, "rb").read()).hexdigest()[:16]
    exe = os.path.join(CACHE, "factx-" + h)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(CACHE, "tool.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        tmp = exe + ".tmp"
        r = _sh(["clang++-18" if shutil.which("clang++-18") else "clang++", "-std=c++17", "-O1", "-fno-rtti", "-w",
                 "-I" + LLVM + "/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
                 "-D__STDC_LIMIT_MACROS", TOOL_SRC, "-o", tmp, LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM.so.1",
                 "-Wl,-rpath," + LLVM + "/lib"])
        if r.returncode:
            raise AnalysisError("cannot build the fact extractor:\n" + r.stdout[-3000:])
        os.rename(tmp, exe)
    return exe


def source_files():
    out = []
    for top in ("bland", "bliss"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x not in (".git", "tests", "__pycache__"))
            for f in sorted(fs):
                if f.endswith((".cpp", ".hpp", ".h", ".capnp", ".cuh", ".cu", ".in")):
                    out.append(os.path.join(d, f))
    return out


_tree = None


def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for f in source_files():
            h.update(f.encode()); h.update(b"\0")
            h.update(open(f, "rb").read()); h.update(b"\0")
        _tree = h.hexdigest()[:24]
    return _tree


def gen_dir():
    """headers the build generates, regenerated here from the current tree"""
    d = os.path.join(CACHE, "gen-" + tree_hash())
    done = os.path.join(d, ".done")
    if os.path.exists(done):
        return d
    t = tempfile.mkdtemp(prefix="gen.", dir=CACHE)
    os.makedirs(t + "/generated")
    with open(t + "/generated/bland_cuda_archs.hpp", "w") as f:
        f.write("#pragma once\n#include <array>\nconstexpr std::array<int, 0> compiled_archs = {};\n")
    src = os.path.join(REPO, "bliss/file_types")
    for f in sorted(os.listdir(src)):
        if f.endswith(".capnp"):
            r = _sh(["capnp", "compile", "-oc++:" + t, "--src-prefix=" + src, os.path.join(src, f)])
            if r.returncode:
                raise AnalysisError("capnp schema does not compile: " + r.stdout[-2000:])
    open(t + "/.done", "w").close()
    try:
        os.rename(t, d)
    except OSError:
        shutil.rmtree(t, ignore_errors=True)
    return d


def flags():
    g = gen_dir()
    R = REPO + "/"
    fl = ["-x", "c++", "-std=gnu++17", "-DBLISS_USE_CAPNP=1", "-DFMT_HEADER_ONLY=1", "-DHDF_NO_NAMESPACE", "-DNO_STATIC_CAST",
          "-DOLD_HEADER_FILENAME", "-DFMT_DEPRECATED_OSTREAM", "-DNDEBUG", "-w", "-resource-dir", LLVM + "/lib/clang/18",
          "-isystem", "/usr/include/hdf5/serial", "-I" + g]
    for d in ("bland/bland", "bland/bland/include", "bland/bland/internal/include", "bland/external/dlpack", "bland/python", "bliss",
              "bliss/core/include", "bliss/file_types/include", "bliss/drift_search/include", "bliss/flaggers/include",
              "bliss/estimators/include", "bliss/preprocess/include", "bliss/rfi/include"):
        fl.append("-I" + R + d)
    import glob
    dl = R + "bland/bland/include"
    fl += ["-isystem", "/usr/include/python3.12", "-isystem", "/opt/vp/deps/python/nanobind/include"]
    return fl


def _cache_name(tu, exe):
    return os.path.join(CACHE, "facts", tree_hash() + "-" + os.path.basename(exe)[-8:] + "-" + tu.replace("/", "_") + ".json")


def extract(tu, exe, fl):
    out = _cache_name(tu, exe)
    if os.path.exists(out):
        return out
    tmp = out + ".%d.tmp" % os.getpid()
    src = os.path.join(REPO, TUS[tu])
    if not os.path.exists(src):
        raise AnalysisError("translation unit vanished: " + src)
    r = _sh([exe, REPO, src, tmp, "--"] + fl)
    if r.returncode:
        raise AnalysisError("cannot parse %s:\n%s" % (src, r.stdout[-3000:]))
    os.rename(tmp, out)
    return out


def prune():
    """keep the cache small: drop entries of other trees when there are many"""
    d = os.path.join(CACHE, "facts")
    try:
        fs = [os.path.join(d, f) for f in os.listdir(d)]
        if len(fs) > 1500:
            fs.sort(key=os.path.getmtime)
            for f in fs[:-800]:
                os.unlink(f)
            for g in os.listdir(CACHE):
                if g.startswith("gen-") and tree_hash() not in g:
                    shutil.rmtree(os.path.join(CACHE, g), ignore_errors=True)
    except OSError:
        pass


def extract_all(tus, jobs=8):
    exe = build_tool()
    os.makedirs(os.path.join(CACHE, "facts"), exist_ok=True)
    fl = flags()
    prune()
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(lambda t: extract(t, exe, fl), tus))
