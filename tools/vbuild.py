"""Builds instrumented programs out of /repo's current sources and the stand-ins of /verif/shim."""
import concurrent.futures
import hashlib
import os
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SHIM = os.path.join(VERIF, "shim")
HARNESS = os.path.join(VERIF, "harness")
CXX = "g++"
CC = "gcc"

SAN = {
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "plain": ["-O1", "-g1"],
    "fast": ["-O2"],
}


class BuildError(Exception):
    pass


def tree_files(root, exts=(".cpp", ".hpp", ".h", ".c", ".in")):
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x not in ("_build", "build", ".git")]
        for f in files:
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return sorted(out)


_hash_cache = {}


def tree_hash(root):
    if root not in _hash_cache:
        h = hashlib.sha256()
        for f in tree_files(root):
            h.update(os.path.relpath(f, root).encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
        _hash_cache[root] = h.hexdigest()
    return _hash_cache[root]


def repo_hash():
    return tree_hash(os.path.join(REPO, "src")) + tree_hash(os.path.join(REPO, "vendor", "inih"))


def file_hash(p):
    with open(p, "rb") as fh:
        return hashlib.sha256(fh.read()).hexdigest()


_sem = threading.Semaphore(int(os.environ.get("VERIF_JOBS", "8")))
_locks = {}
_locks_m = threading.Lock()


def _run(cmd):
    with _sem:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))


def compile_obj(src, flags, extra_key):
    """extra_key: hash of everything besides src that the object may depend on"""
    cc = CC if src.endswith(".c") else CXX
    key = hashlib.sha256("\0".join([cc] + flags + [src, file_hash(src), extra_key]).encode()).hexdigest()[:24]
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, key + ".o")
    with _locks_m:
        lock = _locks.setdefault(obj, threading.Lock())
    with lock:
        if not os.path.exists(obj):
            tmp = obj + ".tmp%d.%d.o" % (os.getpid(), threading.get_ident())
            _run([cc] + flags + ["-c", src, "-o", tmp])
            os.replace(tmp, obj)
    return obj


def gen_headers(ndim, eos, geom):
    """what the project's configure_file steps produce"""
    key = hashlib.sha256((repo_hash() + str((ndim, eos, geom))).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "gen", key)
    if not os.path.exists(os.path.join(d, "done")):
        os.makedirs(d, exist_ok=True)
        sub = {
            "@Heraclespp_EOS@": eos,
            "@Heraclespp_GEOM@": geom,
            "@Heraclespp_NDIM@": str(ndim),
            "@GIT_BUILD_STRING@": "verif-build",
            "@GIT_BRANCH@": "verif-branch",
            "@DATE_STRING@": "01/02/03",
            "@TIME_STRING@": "04:05:06",
        }
        for f in tree_files(os.path.join(REPO, "src"), (".in",)):
            t = open(f).read()
            for k, v in sub.items():
                t = t.replace(k, v)
            name = os.path.basename(f)[:-3]
            with open(os.path.join(d, name + ".tmp%d.%d" % (os.getpid(), threading.get_ident())), "w") as fh:
                fh.write(t)
            os.replace(os.path.join(d, name + ".tmp%d.%d" % (os.getpid(), threading.get_ident())), os.path.join(d, name))
        open(os.path.join(d, "done"), "w").close()
    return d


def header_dirs():
    dirs = set()
    for f in tree_files(os.path.join(REPO, "src"), (".hpp", ".h")):
        d = os.path.dirname(f)
        if "/setups" not in d:
            dirs.add(d)
    return sorted(dirs)


HDF5_INC = "/usr/include/hdf5/openmpi"


def include_flags(gen, setup_dir=None):
    fl = ["-I" + os.path.join(SHIM, "include"), "-I" + gen]
    if setup_dir:
        fl.append("-I" + setup_dir)
    fl += ["-I" + d for d in header_dirs()]
    fl += ["-I" + os.path.join(REPO, "vendor/inih/include"), "-I" + HDF5_INC, "-I" + HARNESS]
    return fl


def lib_sources():
    src = [f for f in tree_files(os.path.join(REPO, "src"), (".cpp",)) if "/setups/" not in f and os.path.basename(f) != "main.cpp"]
    return src


def inih_sources():
    return tree_files(os.path.join(REPO, "vendor/inih/src"), (".c", ".cpp"))


def setup_path(name):
    if name == "verif":
        return os.path.join(HARNESS, "setup")
    return os.path.join(REPO, "src", "setups", name)


def build_solver(out_name, drivers, ndim=1, eos="PerfectGas", geom="Cartesian", gravity="Uniform", setup="verif",
                 san="asan", with_main=True, defines=(), opt=None):
    """Executable with the whole code base, the stand-ins and the given driver sources (in /verif/harness)."""
    gen = gen_headers(ndim, eos, geom)
    sanf = list(SAN[san]) + (list(opt) if opt else [])
    common = ["-std=c++20", "-w", "-pthread"] + sanf
    cflags = ["-w", "-pthread"] + sanf
    rk = repo_hash() + tree_hash(SHIM)
    hk = rk + tree_hash(HARNESS)
    inc = include_flags(gen, setup_path(setup))
    defs = ["-DMY_SETUP=\"%s\"" % setup, "-DHERACLESPP_GRAVITY_%s" % gravity] + list(defines)
    jobs = []
    libinc = include_flags(gen)
    for s in lib_sources():
        jobs.append((s, common + libinc, rk))
    jobs.append((os.path.join(gen, "git_version.cpp"), common + libinc, rk))
    for s in inih_sources():
        fl = ["-I" + os.path.join(REPO, "vendor/inih/include")]
        jobs.append((s, (cflags if s.endswith(".c") else common) + fl, rk))
    for s in tree_files(os.path.join(SHIM, "src"), (".cpp",)):
        jobs.append((s, common + ["-I" + os.path.join(SHIM, "include"), "-I" + HDF5_INC], tree_hash(SHIM)))
    if with_main:
        jobs.append((os.path.join(REPO, "src/main.cpp"), common + ["-Dmain=hclpp_real_main"] + defs + inc, hk))
    for d in drivers:
        jobs.append((os.path.join(HARNESS, d), common + defs + inc, hk))
    with concurrent.futures.ThreadPoolExecutor(16) as ex:
        # main.cpp and the drivers are the longest
        futs = [ex.submit(compile_obj, *j) for j in reversed(jobs)]
        objs = [f.result() for f in futs]
    return link(out_name, objs, sanf, hdf5=True)


def link(out_name, objs, sanf, hdf5=False, libs=()):
    key = hashlib.sha256("\0".join(sorted(objs) + sanf + list(libs)).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "bin")
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "%s-%s" % (out_name, key))
    with _locks_m:
        lock = _locks.setdefault(exe, threading.Lock())
    with lock:
        if os.path.exists(exe):
            return exe
        tmp = exe + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
        cmd = [CXX, "-pthread"] + sanf + objs + ["-o", tmp] + list(libs)
        if hdf5:
            cmd += ["-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi", "-lhdf5", "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/openmpi"]
        _run(cmd)
        os.replace(tmp, exe)
    return exe


def build_plain(out_name, drivers, repo_srcs=(), inc=(), san="asan", defines=(), libs=(), std="c++20", shim=False, shim_srcs=()):
    """Small programs that need only parts of the code base."""
    sanf = list(SAN[san])
    common = ["-std=" + std, "-w", "-pthread"] + sanf + list(defines)
    cflags = ["-w", "-pthread"] + sanf + list(defines)
    incs = (["-I" + os.path.join(SHIM, "include")] if shim else []) + ["-I" + i for i in inc] + ["-I" + HARNESS]
    k = repo_hash() + tree_hash(SHIM) + tree_hash(HARNESS)
    jobs = []
    for s in list(repo_srcs) + [os.path.join(HARNESS, d) for d in drivers] + [os.path.join(SHIM, "src", x) for x in shim_srcs]:
        jobs.append((s, (cflags if s.endswith(".c") else common) + incs, k))
    with concurrent.futures.ThreadPoolExecutor(16) as ex:
        objs = [f.result() for f in [ex.submit(compile_obj, *j) for j in jobs]]
    return link(out_name, objs, sanf, libs=libs)


if __name__ == "__main__":
    kw = dict(a.split("=", 1) for a in sys.argv[2:] if "=" in a)
    kw = {k: (int(v) if k == "ndim" else v) for k, v in kw.items()}
    drv = kw.pop("drivers", "").split(",")
    try:
        print(build_solver(sys.argv[1], [d for d in drv if d], **kw))
    except BuildError as e:
        print(e)
        sys.exit(2)
