"""Builds harnesses together with the sources of the working tree of /repo.

Objects are cached by the hash of their preprocessed text plus the command line,
so a change of what is compiled always leads to a rebuild and nothing else does."""
import concurrent.futures as cf, glob, hashlib, os, re, subprocess, sys

VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = os.cpu_count() or 4

EIGEN = next((d for d in ("/usr/include/eigen3", "/usr/local/include/eigen3") if os.path.isdir(d)), "/usr/include/eigen3")
COMMON = ["-std=c++14", "-fPIC", "-DEIGEN_NO_DEBUG", "-include", "cstddef", "-DEIGEN_MAX_CPP_VER=03",
          "-w", "-fno-omit-frame-pointer",
          "-I" + REPO + "/include", "-I" + REPO + "/urdf_parser/include", "-I" + REPO + "/urdf_parser/tinyxml",
          "-isystem", EIGEN]
VARIANTS = {
    # what a user gets, plus bounds checks of the standard library
    "fast": dict(cxx="g++", flags=["-O2", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"], link=[]),
    "asan": dict(cxx="g++", flags=["-O1", "-g1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
                                   "-fno-sanitize-recover=undefined"],
                 link=["-fsanitize=address,undefined"]),
    "tsan": dict(cxx="g++", flags=["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread"], link=["-fsanitize=thread"]),
    # every memory access and function entry calls the scheduler of harness/rt_sched.cpp (no ThreadSanitizer run time)
    "acc": dict(cxx="g++", flags=["-O1", "-DNDEBUG", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"], plain=["-O2", "-DNDEBUG"],
                link=["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"]),
}

class BuildError(Exception):
    pass

def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

def compile_tu(src, variant, extra=(), repo_src=False):
    v = VARIANTS[variant]
    own = "plain" in v and os.path.basename(src).startswith("rt_")  # run time of the instrumentation
    flags = COMMON + (v["plain"] if own else v["flags"]) + list(extra)
    pre = _run([v["cxx"], "-E", "-P"] + flags + [src])
    if pre.returncode != 0:
        raise BuildError("preprocessing %s failed:\n%s" % (src, pre.stderr.decode(errors="replace")[-4000:]))
    h = hashlib.sha256()
    h.update(pre.stdout)
    h.update(repr((v["cxx"], flags, os.path.basename(src))).encode())
    obj = os.path.join(BUILD, "obj", "%s-%s.o" % (os.path.splitext(os.path.basename(src))[0], h.hexdigest()[:24]))
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = "%s.%d.tmp.o" % (obj, os.getpid())
        r = _run([v["cxx"]] + flags + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stderr.decode(errors="replace")[-4000:]))
        os.replace(tmp, obj)
    return obj

def repo_sources(wrapper=False):
    s = sorted(glob.glob(REPO + "/src/*.cpp")) + sorted(glob.glob(REPO + "/urdf_parser/src/*.cpp")) \
        + sorted(glob.glob(REPO + "/urdf_parser/tinyxml/*.cpp"))
    return [x for x in s if wrapper or os.path.basename(x) != "wrapper.cpp"]

def _link(name, variant, objs, link_flags):
    v = VARIANTS[variant]
    h = hashlib.sha256(repr((objs, link_flags, v)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "bin", "%s-%s-%s" % (name, variant, h))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = "%s.%d.tmp" % (out, os.getpid())
        r = _run([v["cxx"], "-o", tmp] + objs + v["link"] + link_flags)
        if r.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (name, r.stderr.decode(errors="replace")[-4000:]))
        os.replace(tmp, out)
    return out

def build(harness, variant, extra=(), link=("-pthread",)):
    """harness: list of harness sources (relative to /verif/harness)."""
    jobs = [(os.path.join(VERIF, "harness", h), False) for h in harness] + [(s, True) for s in repo_sources()]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda j: compile_tu(j[0], variant, list(extra) + ["-I" + VERIF + "/harness"] if not j[1] else list(extra), j[1]), jobs))
    return _link(os.path.splitext(harness[0])[0], variant, objs, list(link))

def python_exe():
    for c in ("/opt/veriftools/pyvenv/bin/python3", "/opt/veriftools/pyvenv/bin/python"):
        if os.path.exists(c):
            return c
    return "python3-vt"

def build_pymodule(variant="fast"):
    """Compiles src/wrapper.cpp against the stand-in pybind11 of /verif/minipb and stages
    the package (the real __init__.py by symlink) so that `import tinyfk` works."""
    inc = "/usr/include/python3.12"
    extra_w = ["-I" + VERIF + "/minipb", "-isystem", inc, "-fvisibility=default"]
    jobs = [(REPO + "/src/wrapper.cpp", extra_w)] + [(s, []) for s in repo_sources()]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda j: compile_tu(j[0], variant, j[1], True), jobs))
    so = _link("_tinyfk", variant, objs, ["-shared", "-pthread"])
    stage = os.path.join(BUILD, "stage-" + os.path.basename(so))
    pk = os.path.join(stage, "tinyfk")
    os.makedirs(pk, exist_ok=True)
    src = REPO + "/python/tinyfk"
    want = [("_tinyfk.so", so)] + [(n, os.path.join(src, n)) for n in sorted(os.listdir(src)) if n.endswith(".py")]
    for n in set(os.listdir(pk)) - {w[0] for w in want}:
        if n.endswith(".py"):
            os.unlink(os.path.join(pk, n))
    for name, target in want:
        p = os.path.join(pk, name)
        if os.path.lexists(p) and os.readlink(p) != target:
            os.unlink(p)
        if not os.path.lexists(p):
            try:
                os.symlink(target, p)
            except FileExistsError:
                pass
    return stage, so

if __name__ == "__main__":
    print(build(sys.argv[2:], sys.argv[1]))
