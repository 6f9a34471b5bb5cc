"""Front end: turns /repo's current working tree into LLVM IR (as JSON).

Nothing of rabraker/L1c is executed.  The project's own CMake configuration is
run in a scratch directory to obtain the real compile commands and config.h;
every translation unit is compiled by clang to LLVM IR (front end only, no
optimisation), promoted to SSA (mem2reg) and dumped by irdump.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import shlex
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("L1C_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")


class AnalysisBroken(Exception):
    """The analysis could not be carried out (never a verdict)."""


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace", **kw)
    if p.returncode != 0:
        raise AnalysisBroken("command failed: %s\n%s" % (
            cmd if isinstance(cmd, str) else " ".join(cmd), p.stdout[-3000:]))
    return p.stdout


def _cachedir():
    try:
        os.makedirs(CACHE, exist_ok=True)
        t = os.path.join(CACHE, ".w%d" % os.getpid())
        open(t, "w").close()
        os.unlink(t)
        return CACHE
    except OSError:
        return tempfile.mkdtemp(prefix="l1cv-cache-")


def tool(cache):
    src = os.path.join(HERE, "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(cache, "irdump-" + h)
    if not os.path.exists(exe):
        flags = _run(["llvm-config", "--cxxflags"]).split()
        flags = [f for f in flags if not f.startswith("-O")]
        libdir = _run(["llvm-config", "--libdir"]).strip()
        tmp = exe + ".tmp%d" % os.getpid()
        _run(["clang++", "-O1", *flags, "-o", tmp, src, "-L" + libdir, "-lLLVM-18",
              "-Wl,-rpath," + libdir])
        os.replace(tmp, exe)
    return exe


def _tree_files():
    out = []
    for d, dn, fn in os.walk(REPO):
        dn[:] = sorted(x for x in dn if x not in (".git", "_build") and
                       not (d == REPO and x.startswith("build")))
        for f in sorted(fn):
            out.append(os.path.join(d, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for p in _tree_files():
        if p.endswith((".c", ".h", ".cpp", ".hpp", ".in", ".txt", ".cmake", ".m", ".py")):
            h.update(p.encode())
            try:
                h.update(open(p, "rb").read())
            except OSError:
                pass
    for p in ("frontend.py", "irdump.cpp", "include/vclmodel/vcl/vectorclass.h"):
        h.update(open(os.path.join(HERE, p), "rb").read())
    return h.hexdigest()[:24]


def _configure(bdir):
    os.makedirs(bdir, exist_ok=True)
    cp = "/opt/vp/cmake/conan_paths.cmake"
    if os.path.exists(cp):
        shutil.copy(cp, bdir)
    env = dict(os.environ, HOME=os.environ.get("HOME", "/root"), CC="gcc", CXX="g++")
    _run(["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=",
          "-DENABLE_MEX=ON", "-DHAS_march_native=OFF", "-DHAS_mtune_native=OFF",
          "-DCMAKE_C_FLAGS=-march=x86-64-v3 -g -Wno-error",
          "-DCMAKE_CXX_FLAGS=-march=x86-64-v3 -g -Wno-error",
          "-DPython3_EXECUTABLE=/usr/bin/python3",
          "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
          "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"], env=env)
    return json.load(open(os.path.join(bdir, "compile_commands.json")))


KEEP = ("-I", "-D", "-isystem", "-std", "-march", "-U", "-include")


def _flags(cmd):
    a = shlex.split(cmd)[1:]
    out, i, omp = [], 0, False
    while i < len(a):
        if a[i] in ("-isystem", "-include", "-I", "-D", "-U"):
            out += a[i:i + 2]
            i += 2
            continue
        if a[i] in ("-o",):
            i += 2
            continue
        if a[i] == "-fopenmp":
            omp = True
        if a[i].startswith(KEEP):
            out.append(a[i])
        i += 1
    return out, omp


def load(openmp=False):
    """Return the list of module dicts of the current tree."""
    cache = _cachedir()
    key = tree_hash() + ("-omp" if openmp else "")
    path = os.path.join(cache, "ir-%s.json" % key)
    if os.path.exists(path):
        try:
            return json.load(open(path))
        except ValueError:
            os.unlink(path)
    exe = tool(cache)
    work = tempfile.mkdtemp(prefix="l1cv-")
    try:
        db = _configure(os.path.join(work, "b"))
        jobs, seen = [], set()
        for e in db:
            f = os.path.realpath(os.path.join(e["directory"], e["file"]))
            rel = os.path.relpath(f, os.path.realpath(REPO))
            if rel.startswith("..") or rel.split(os.sep)[0] == "test" or \
                    "/test/" in rel or rel.startswith("_build"):
                continue
            if f in seen:
                continue
            seen.add(f)
            fl, omp = _flags(e["command"])
            if openmp and not omp:
                continue
            jobs.append((f, rel, fl))
        if len(jobs) < (10 if openmp else 18):
            raise AnalysisBroken("only %d translation units in the compilation database"
                                 % len(jobs))

        plain = set()
        gccinc = os.path.join(HERE, "include")

        def one(j):
            f, rel, fl = j
            fl = fl + ["-idirafter", gccinc]  # omp.h declarations
            bc = os.path.join(work, rel.replace("/", "__") + ".bc")
            if f.endswith(".c"):
                # keep Py_DECREF and friends as calls
                fl = fl + ["-Dalways_inline=unused"]
            cc = "clang++" if f.endswith((".cpp", ".cc", ".cxx")) else "clang"
            rest = ["-w", "-Wno-error=implicit-function-declaration",
                    "-Wno-error=int-conversion",
                    "-Wno-error=incompatible-function-pointer-types", "-O0", "-Xclang", "-disable-O0-optnone", "-g",
                    "-ffp-contract=off", "-fno-discard-value-names",
                    *(["-fopenmp"] if openmp else []), "-emit-llvm", "-c", f, "-o", bc + "0"]
            if cc == "clang++":
                # the vector class library is replaced by its element-wise meaning
                try:
                    _run([cc, "-I", os.path.join(gccinc, "vclmodel"), *fl, *rest])
                    plain.add(rel)
                except AnalysisBroken:
                    _run([cc, *fl, *rest])
            else:
                _run([cc, *fl, *rest])
            _run(["opt", "-passes=mem2reg", bc + "0", "-o", bc])
            return bc
        with cf.ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(one, jobs))
        out = os.path.join(work, "out.json")
        _run([exe, out, *bcs])
        mods = json.load(open(out))
        for m, (f, rel, fl) in zip(mods, jobs):
            m["rel"] = rel
            m["plain"] = rel.endswith(".c") or rel in plain
        tmp = path + ".tmp%d" % os.getpid()
        with open(tmp, "w") as fh:
            json.dump(mods, fh)
        os.replace(tmp, path)
        # keep the cache small
        olds = sorted((os.path.getmtime(p) if os.path.exists(p) else 0, x) for x, p in
                      ((x, os.path.join(cache, x)) for x in os.listdir(cache))
                      if x.startswith("ir-"))
        for _, x in olds[:-12]:
            try:
                os.unlink(os.path.join(cache, x))
            except OSError:
                pass
        return mods
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    ms = load("--omp" in sys.argv)
    for m in ms:
        print(m["rel"], len([f for f in m["functions"].values() if not f["decl"]]))
