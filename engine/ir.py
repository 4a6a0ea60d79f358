"""Builds the front end, runs it on every translation unit of a build
configuration and loads the resolved program."""
import concurrent.futures
import glob
import hashlib
import json
import os
import shutil
import time
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("APOLLO_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"


class AnalysisError(Exception):
    """The analysis could not be carried out (not a verdict)."""


class AnchorMissing(AnalysisError):
    """a function the property is about is not there"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def frontend():
    src = os.path.join(VERIF, "frontend", "apollo-ir.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "apollo-ir-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + ".%d" % os.getpid()
    r = sh(["/usr/bin/g++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I" + LLVM + "/include", src,
            "-o", tmp, LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM.so.18.1",
            "-Wl,-rpath," + LLVM + "/lib"])
    if r.returncode:
        raise AnalysisError("front end does not build:\n" + r.stdout)
    os.rename(tmp, exe)
    return exe


CMAKE_OPTS = {
    "default": [],
    "jit": ["-DENABLE_JIT_DTREE=ON"],
    "mpi": ["-DENABLE_MPI=ON"],
    "opencv": ["-DENABLE_OPENCV=ON"],
}
# CUDA and HIP are not installed: the default configuration with the macro and
# sources of the option, against stub headers that declare the runtime API.
STUBBED = {
    "cuda": (["-DENABLE_CUDA", "-I" + os.path.join(VERIF, "stubs", "cuda")],
             ["src/timers/TimerCudaAsync.cpp"]),
    "hip": (["-DENABLE_HIP", "-I" + os.path.join(VERIF, "stubs", "hip")],
            ["src/timers/TimerHipAsync.cpp"]),
}


def cmake_units(config):
    """[(source, flags)] of the library target, as the build configures them."""
    d = tempfile.mkdtemp(prefix="apollo-cc-")
    try:
        env = {k: v for k, v in os.environ.items()
               if not k.startswith("APOLLO_") and k not in ("CC", "CXX", "CFLAGS", "CXXFLAGS", "LDFLAGS")}
        env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
        r = sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++",
                "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
                "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"] + CMAKE_OPTS[config], env=env)
        if r.returncode:
            raise AnalysisError("cmake cannot configure %s:\n%s" % (config, r.stdout[-2000:]))
        db = json.load(open(os.path.join(d, "compile_commands.json")))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    units = []
    import shlex
    for e in db:
        if "/apollo.dir/" not in e.get("output", e["command"]):
            continue
        w = shlex.split(e["command"])
        flags, i = [], 1
        while i < len(w):
            if w[i] in ("-o", "-c", "-MF", "-MT"):
                i += 2
                continue
            if w[i].startswith(("-D", "-I", "-std", "-isystem", "-U", "-include")):
                flags.append(w[i])
                if w[i] in ("-D", "-I", "-isystem", "-U", "-include"):
                    i += 1
                    flags.append(w[i])
            i += 1
        flags = [f for f in flags if d not in f]
        units.append((e["file"], flags))
    if not units:
        raise AnalysisError("no sources in configuration " + config)
    return units


TU_CACHE = os.environ.get("VERIF_TU_CACHE")     # set by the self-tests only: units an edit does not touch are parsed once


def shared_hash():
    """Everything a unit can depend on except the .cpp files of the library."""
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(REPO, "cmake"), os.path.join(VERIF, "stubs")):
        for d, ds, fs in os.walk(top):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith(".cpp"):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, top).encode() + b"\0" + open(p, "rb").read() + b"\0")
    h.update(open(os.path.join(REPO, "CMakeLists.txt"), "rb").read())
    return h.hexdigest()


def cached_units(config):
    if not TU_CACHE:
        return cmake_units(config)
    os.makedirs(TU_CACHE, exist_ok=True)
    p = os.path.join(TU_CACHE, "units-%s-%s.json" % (config, shared_hash()[:20]))
    if os.path.exists(p):
        return [(a.replace("@REPO@", REPO), [f.replace("@REPO@", REPO) for f in b]) for a, b in json.load(open(p))]
    us = cmake_units(config)
    t = p + ".%d" % os.getpid()
    open(t, "w").write(json.dumps(us).replace(REPO + "/", "@REPO@/"))
    os.rename(t, p)
    return us


def units(config):
    if config in STUBBED:
        extra, srcs = STUBBED[config]
        base = cached_units("default")
        return [(s, f + extra) for s, f in base] + \
               [(os.path.join(REPO, s), base[0][1] + extra) for s in srcs]
    return cached_units(config)


def tree_hash():
    h = hashlib.sha256()
    for root in ("src", "include", "cmake"):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                h.update(open(p, "rb").read() + b"\0")
    h.update(open(os.path.join(REPO, "CMakeLists.txt"), "rb").read())
    for d, ds, fs in os.walk(os.path.join(VERIF, "stubs")):
        ds.sort()
        for f in sorted(fs):
            h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:20]


class Program:
    def __init__(self, config):
        self.config = config
        self.funcs = {}      # key -> function
        self.by_qn = {}
        self.records = {}
        self.globals = {}
        self.units = []
        self.errors = []     # (source, compiler output)

    def add(self, d):
        src = d["main"]
        for f in d["functions"]:
            if f["key"] not in self.funcs:
                f["unit"] = src
                self.funcs[f["key"]] = f
                self.by_qn.setdefault(f["qn"], []).append(f)
        for r in d["records"]:
            self.records.setdefault(r["qn"], r)
        for g in d["globals"]:
            if g["qn"] not in self.globals or g.get("i") is not None:
                self.globals[g["qn"]] = g

    # -- queries
    def find(self, qn, nparams=None, ptypes=None, must=True):
        """The function with this qualified name (and parameter types)."""
        c = self.by_qn.get(qn, [])
        if nparams is not None:
            c = [f for f in c if len(f["p"]) == nparams]
        if ptypes is not None:
            c = [f for f in c if len(f["p"]) == len(ptypes) and
                 all(pt in p["t"] for pt, p in zip(ptypes, f["p"]))]
        if len(c) == 1:
            return c[0]
        if must:
            raise AnchorMissing("anchor %s (%s params) has %d definitions in configuration %s" %
                                (qn, nparams, len(c), self.config))
        return None

    def derived(self, base):
        out, todo = [], [base]
        while todo:
            b = todo.pop()
            for qn, r in self.records.items():
                if b in r["b"] and qn not in out:
                    out.append(qn)
                    todo.append(qn)
        return out

    def overriders(self, qn):
        """Definitions that override the virtual method with this name."""
        keys = {f["key"] for f in self.by_qn.get(qn, [])}
        cls, name = qn.rsplit("::", 1)
        for m in self.records.get(cls, {"m": []})["m"]:
            if m["n"] == name:
                keys.add(m["key"])
        return [f for f in self.funcs.values() if set(f.get("ov", [])) & keys]


_progs = {}


def load(config):
    if config in _progs:
        return _progs[config]
    exe = frontend()
    us = units(config)
    key = hashlib.sha256((tree_hash() + exe + json.dumps(us)).encode()).hexdigest()[:24]
    cdir = os.path.join(BUILD, "ir", key)
    prog = Program(config)

    def one(u):
        src, flags = u
        out = os.path.join(cdir, hashlib.sha256(src.encode()).hexdigest()[:16] + ".json")
        if os.path.exists(out):
            return src, out, ""
        tmp = out + ".%d" % os.getpid()
        shared = None
        if TU_CACHE:
            shared = os.path.join(TU_CACHE, hashlib.sha256((sh_hash + exe + json.dumps([src, flags]).replace(REPO + "/", "@REPO@/")).encode() + open(src, "rb").read()).hexdigest()[:24] + ".json")
            if os.path.exists(shared):
                open(tmp, "w").write(open(shared).read().replace("@REPO@/", REPO + "/"))
                os.rename(tmp, out)
                return src, out, ""
        r = sh([exe, REPO, tmp, src] + flags +
               ["-resource-dir", LLVM + "/lib/clang/18", "-Wno-everything", "-ferror-limit=5"])
        if r.returncode or not os.path.exists(tmp):
            return src, None, r.stdout
        if shared:
            open(shared + ".%d" % os.getpid(), "w").write(open(tmp).read().replace(REPO + "/", "@REPO@/"))
            os.rename(shared + ".%d" % os.getpid(), shared)
        os.rename(tmp, out)
        return src, out, ""
    os.makedirs(cdir, exist_ok=True)
    os.utime(cdir)
    sh_hash = shared_hash() if TU_CACHE else ""
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for src, out, err in ex.map(one, us):
            prog.units.append(src)
            if out is None:
                prog.errors.append((src, err))
            else:
                prog.add(json.load(open(out)))
    _progs[config] = prog
    # keep the cache small
    def age(d):
        try:
            return time.time() - os.path.getmtime(d)
        except OSError:
            return 0
    ds = sorted(glob.glob(os.path.join(BUILD, "ir", "*")), key=age, reverse=True)
    for d in ds[:-12]:
        if age(d) < 600 and len(ds) < 100:
            continue
        shutil.rmtree(d, ignore_errors=True)
    return prog
