"""Builds what the checks need from /repo's current working tree.

Every translation unit is compiled from the sources in /repo, through ccache when it is there (a cache
keyed on the contents of all files read; time stamps play no part), into a build directory outside /repo.
Only configure-time headers are taken from /repo/_build, which is configured here if it is not there.
"""

import concurrent.futures
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get("VP_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CFG = os.path.join(REPO, "_build")
VENV = "/opt/lue-venv"
JOBS = os.cpu_count() or 4


def environment():
    env = dict(os.environ)
    env["PATH"] = f"{VENV}/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env["CC"] = "/usr/bin/gcc"
    env["CXX"] = "/usr/bin/g++"
    env["LC_ALL"] = "C.UTF-8"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["CCACHE_DIR"] = os.environ.get("VP_CCACHE_DIR", os.path.join(VERIF, ".build", "ccache"))
    env["CCACHE_SLOPPINESS"] = "pch_defines,time_macros"
    for name in ["PYTHONPATH", "CFLAGS", "CXXFLAGS", "LDFLAGS", "PYTHONHOME"]:
        env.pop(name, None)
    return env


ENV = environment()


def build_root():
    """A directory for objects and binaries. Outside /repo, ignored by git."""
    root = os.environ.get("VP_BUILD_DIR", os.path.join(VERIF, ".build"))
    os.makedirs(root, exist_ok=True)
    return root


def log(*args):
    print("[build]", *args, file=sys.stderr, flush=True)


def configure():
    """Make sure the configure-time headers exist"""
    needed = [
        "source/shared/include",
        "source/data_model/hdf5/source/version.cpp",
        "compile_commands.json",
        "lib/python3.12/lue/__init__.py",
    ]
    if all(os.path.exists(os.path.join(CFG, p)) for p in needed):
        return
    log("configuring", CFG)
    subprocess.run(
        [
            "cmake", "-S", REPO, "-B", CFG, "-G", "Ninja",
            "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_FLAGS_DEBUG=-O0",
            "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS",
            "-DLUE_BUILD_DATA_MODEL=ON", "-DLUE_DATA_MODEL_WITH_PYTHON_API=ON",
            "-DLUE_DATA_MODEL_WITH_UTILITIES=OFF",
            "-DLUE_BUILD_GDAL=ON", "-DLUE_GDAL_REQUIRED=ON",
            "-DLUE_BUILD_FRAMEWORK=OFF", "-DLUE_BUILD_VIEW=OFF", "-DLUE_BUILD_DOCUMENTATION=OFF",
            "-DLUE_BUILD_QUALITY_ASSURANCE=ON", "-DLUE_QUALITY_ASSURANCE_WITH_PYTHON_API=ON",
            "-DLUE_QUALITY_ASSURANCE_WITH_TESTS=ON",
            f"-DPython_EXECUTABLE={VENV}/bin/python3",
            f"-Dpybind11_DIR={VENV}/lib/python3.12/site-packages/pybind11/share/cmake/pybind11",
        ],
        env=ENV, check=True, stdout=sys.stderr,
    )


# --------------------------------------------------------------------------- components
def inc(*parts):
    r = []
    for p in parts:
        r += [f"-I{REPO}/source/{p}/include", f"-I{CFG}/source/{p}/include"]
    return r


H5INC = ["-isystem", "/usr/include/hdf5/serial"]
GDALINC = ["-isystem", "/usr/include/gdal"]
PYINC = [
    "-isystem", f"{VENV}/lib/python3.12/site-packages/pybind11/include",
    "-isystem", "/usr/include/python3.12",
]
OPT = ["-O0", "-std=c++23", "-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden"]


def sources(*dirs, generated=()):
    result = []
    for d in dirs:
        result += sorted(glob.glob(f"{REPO}/source/{d}/source/**/*.cpp", recursive=True))
    return result + [f"{CFG}/source/{g}" for g in generated]


def compile_commands(prefix):
    """What CMake says about the files below a directory of sources: {file: [args]}"""
    import json
    import shlex

    result = {}
    for entry in json.load(open(os.path.join(CFG, "compile_commands.json"))):
        if prefix in entry["output"]:
            args = shlex.split(entry["command"])[1:]
            i = args.index("-o")
            args = args[:i]
            result[entry["file"]] = args
    return result


# CMake object directory of each component
STATIC = {
    "shared": "source/shared/CMakeFiles/lue_shared.dir/",
    "hdf5": "source/data_model/hdf5/CMakeFiles/lue_hdf5_static.dir/",
    "cxx": "source/data_model/cxx/CMakeFiles/lue_data_model_static.dir/",
    "gdal": "source/data_model/gdal/CMakeFiles/lue_gdal_static.dir/",
    "hl": "source/data_model/hl/CMakeFiles/lue_data_model_hl_static.dir/",
    "qa": "source/quality_assurance/cxx/CMakeFiles/lue_qa.dir/",
}
PYTHON = {
    "py_data_model": "source/data_model/python/CMakeFiles/lue_py_data_model.dir/",
    "py_qa": "source/quality_assurance/python/CMakeFiles/lue_py_qa.dir/",
    "py": "source/python/CMakeFiles/lue_py.dir/",
}
DIRS = {
    "shared": "shared", "hdf5": "data_model/hdf5", "cxx": "data_model/cxx", "gdal": "data_model/gdal",
    "hl": "data_model/hl", "qa": "quality_assurance/cxx", "py_data_model": "data_model/python",
    "py_qa": "quality_assurance/python", "py": "python",
}


# Not configured here: they need cxxopts, which is not available. It is replaced by a stand-in
UNCONFIGURED = {
    "translate": ("data_model/utility", "data_model/translate"),
    "validate": ("data_model/validate",),
}


def utility_args():
    return (
        DEFINES + [f"-I{HERE}/stubs"]
        + inc("shared", "data_model/hdf5", "data_model/cxx", "data_model/gdal", "data_model/hl", "data_model/utility",
              "data_model/translate", "data_model/validate")
        + H5INC + GDALINC + ["-O0", "-std=c++23", "-fPIC"]
    )


def component_units(name):
    """[(source file, args)] of a component, from the current tree"""
    if name in UNCONFIGURED:
        return [(f, utility_args()) for f in sources(*UNCONFIGURED[name]) if not f.endswith("/main.cpp")]
    prefix = {**STATIC, **PYTHON}[name]
    commands = compile_commands(prefix)
    if not commands:
        raise RuntimeError(f"no compile commands for {name}")
    any_args = next(iter(commands.values()))
    units = []
    present = set(sources(DIRS[name]))
    for f, args in commands.items():
        if os.path.exists(f):
            units.append((f, args))
            present.discard(f)
    # Sources that were added after configuration. Sources that are part of the static or the test parts
    # only have `test` in the path
    for f in sorted(present):
        if "/source/test/" in f and name in ("hdf5", "cxx"):
            pass
        units.append((f, any_args))
    return units


def run_compile(job):
    cmd, out = job
    r = subprocess.run(cmd, env=ENV, cwd=CFG, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, out, r.stdout


def compile_all(units, outdir, extra=(), replace=(), compiler="/usr/bin/g++", use_ccache=True):
    os.makedirs(outdir, exist_ok=True)
    ccache = shutil.which("ccache", path=ENV["PATH"]) if use_ccache else None
    jobs = []
    objects = []
    for f, args in units:
        key = hashlib.sha1((f + " ".join(args)).encode()).hexdigest()[:8]
        out = os.path.join(outdir, os.path.basename(f)[:-4] + "_" + key + ".o")
        args = [a for a in args if a not in replace] + list(extra)
        cmd = ([ccache] if ccache else []) + [compiler] + args + ["-o", out, "-c", f]
        jobs.append((cmd, out))
        objects.append(out)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as pool:
        for rc, out, text in pool.map(run_compile, jobs):
            if rc:
                raise RuntimeError(f"compilation of {out} failed:\n{text[:6000]}")
    return objects


def objects(names, variant="plain"):
    """Compile components, return their object files"""
    configure()
    units = []
    for name in names:
        units += component_units(name)
    outdir = os.path.join(build_root(), variant)
    if variant == "plain":
        return compile_all(units, outdir)
    if variant == "asan":
        # -O0 as the rest: the code under test is the same, with run-time checks added
        return compile_all(
            units, outdir,
            extra=["-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-omit-frame-pointer"],
        )
    raise RuntimeError(variant)


DEFINES = [
    "-DH5_USE_110_API", "-DLUE_HDF5_STATIC_DEFINE", "-DLUE_DATA_MODEL_STATIC_DEFINE", "-DLUE_GDAL_STATIC_DEFINE",
    "-DLUE_DATA_MODEL_HL_STATIC_DEFINE", "-DLUE_QA_STATIC_DEFINE",
]


def harness_args():
    return (
        DEFINES
        + [f"-I{HERE}/engine", f"-I{HERE}/harness"]
        + inc("shared", "data_model/hdf5", "data_model/cxx", "data_model/gdal", "data_model/hl",
              "quality_assurance/cxx", "data_model/utility", "data_model/translate", "data_model/validate")
        + [f"-I{HERE}/stubs"] + H5INC + GDALINC
    )


LIBS = ["-lhdf5_serial", "-lgdal", "-lpthread"]


def link(objs, out, extra=(), compiler="/usr/bin/g++", shared=False):
    os.makedirs(os.path.dirname(out), exist_ok=True)
    rsp = out + ".rsp"
    open(rsp, "w").write("\n".join(objs))
    cmd = [compiler] + (["-shared"] if shared else []) + ["-o", out, "@" + rsp] + list(extra)
    r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError(f"linking of {out} failed:\n{r.stdout[-4000:]}")
    return out


def hdf5_libs():
    d = "/usr/lib/x86_64-linux-gnu/hdf5/serial"
    return [f"-L{d}", f"-Wl,-rpath,{d}", "-lhdf5", "-lhdf5_hl"]


def cxx_harness(name, components=("shared", "hdf5", "cxx"), variant="plain", extra_sources=(), extra_args=(),
                libs=()):
    """Compile and link a C++ harness with the components. Returns the path of the binary"""
    configure()
    objs = []
    units = [u for n in components for u in component_units(n)]
    san = []
    if variant == "asan":
        san = ["-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-omit-frame-pointer"]
    outdir = os.path.join(build_root(), variant)
    args = harness_args() + ["-O0" if variant == "plain" else "-O1", "-std=c++23", "-fPIC"] + list(extra_args)
    mine = [(os.path.join(HERE, "harness", name + ".cpp"), args)]
    mine += [(s, args) for s in extra_sources]
    objs = compile_all(mine + units, outdir, extra=san)
    out = os.path.join(build_root(), variant, "bin", name)
    more = hdf5_libs()
    if "gdal" in components:
        more.append("-lgdal")
    return link(objs, out, extra=san + more + list(libs) + ["-lpthread"])


def python_package(variant="plain"):
    """Build the Python package from the current tree. Returns the directory to put on sys.path"""
    configure()
    root = os.path.join(build_root(), "python_" + variant)
    package = os.path.join(root, "lue")
    os.makedirs(package, exist_ok=True)
    # The extension: the shared library variants of the parts, in one module
    units = []
    for name, prefix in [
        ("shared", STATIC["shared"]), ("hdf5", STATIC["hdf5"]), ("cxx", STATIC["cxx"]), ("hl", STATIC["hl"]),
        ("qa", STATIC["qa"]), ("py_data_model", None), ("py_qa", None), ("py", None),
    ]:
        units += component_units(name)
    objs = compile_all(units, os.path.join(build_root(), variant))
    suffix = ".cpython-312-x86_64-linux-gnu.so"
    link(objs, os.path.join(package, "lue_py" + suffix), extra=hdf5_libs() + ["-lpthread"], shared=True)
    for sub, source in [
        ("__init__.py", f"{REPO}/source/python/lue.py.in"),
        ("data_model/__init__.py", f"{REPO}/source/data_model/python/data_model.py.in"),
        ("data_model/hdf5/__init__.py", f"{REPO}/source/data_model/python/hdf5.py.in"),
    ]:
        target = os.path.join(package, sub)
        os.makedirs(os.path.dirname(target), exist_ok=True)
        shutil.copyfile(source, target)
    return root


UTILITY_COMPONENTS = ("shared", "hdf5", "cxx", "gdal", "hl", "translate", "validate")


def utility(name, variant="plain"):
    """Compile and link a command-line utility. Returns the path of the binary"""
    configure()
    units = [u for n in UTILITY_COMPONENTS for u in component_units(n)]
    units.append((f"{REPO}/source/data_model/{name}/source/main.cpp", utility_args()))
    objs = compile_all(units, os.path.join(build_root(), variant))
    out = os.path.join(build_root(), variant, "bin", "lue_" + name)
    return link(objs, out, extra=hdf5_libs() + ["-lgdal", "-lpthread"])


def scalability_package(variant="plain"):
    """The Python package, with the scalability commands added, from the current tree"""
    root = python_package(variant)
    target = os.path.join(root, "lue", "command")
    shutil.rmtree(target, ignore_errors=True)
    shutil.copytree(f"{REPO}/source/quality_assurance/scalability/command", target,
                    ignore=shutil.ignore_patterns("CMakeLists.txt", "__pycache__"))
    return root


def scalability_sources(imports, variant="plain"):
    """The scalability commands from the current tree, with stand-ins for the extension modules, which the imported
    modules do not use. The full package is built if they turn out to need more than that"""
    root = os.path.join(build_root(), "scalability_sources")
    package = os.path.join(root, "lue")
    shutil.rmtree(package, ignore_errors=True)
    os.makedirs(os.path.join(package, "data_model"))
    with open(os.path.join(package, "__init__.py"), "w") as f:
        f.write('__version__ = "0"\n')
    with open(os.path.join(package, "data_model", "__init__.py"), "w") as f:
        f.write("def __getattr__(name):\n    if name.startswith('__'):\n        raise AttributeError(name)\n    return type(name, (), {})\n")
    shutil.copytree(f"{REPO}/source/quality_assurance/scalability/command", os.path.join(package, "command"),
                    ignore=shutil.ignore_patterns("CMakeLists.txt", "__pycache__"))
    env = dict(ENV, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE="1")
    probe = subprocess.run(
        [os.path.join(VENV, "bin", "python3"), "-c", "import " + ", ".join(imports)], env=env,
        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return root if probe.returncode == 0 else scalability_package(variant)


if __name__ == "__main__":
    import time

    t = time.time()
    what = sys.argv[1]
    if what == "objects":
        objects(sys.argv[2].split(","), *sys.argv[3:])
    elif what == "python":
        print(python_package())
    elif what == "utility":
        print(utility(sys.argv[2]))
    elif what == "scalability":
        print(scalability_package())
    print(time.time() - t)
