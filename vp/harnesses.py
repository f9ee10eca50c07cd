"""Which harness decides which property"""
import os

HDF5_ENV = {"HDF5_USE_FILE_LOCKING": "TRUE"}


class Cxx:
    def __init__(self, name, components=("shared", "hdf5", "cxx"), assumptions=(), variant="plain",
                 extra_args=(), libs=()):
        self.name = name
        self.components = components
        self.assumptions = list(assumptions)
        self.variant = variant
        self.extra_args = extra_args
        self.libs = libs

    def prepare(self, build):
        engine = os.path.join(build.HERE, "engine", "pt.cpp")
        binary = build.cxx_harness(self.name, self.components, self.variant, [engine], self.extra_args, self.libs)
        env = dict(build.ENV)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1"
        env["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
        return [binary], env


# Calls to HDF5 are intercepted: the harness knows which process has which file open
IO_LIBS = ["-lgdal"] + ["-Wl,--wrap=" + name for name in ("H5Fopen", "H5Fclose", "H5Dread", "H5Dwrite")]


class Framework:
    """A harness of the framework, in C++, with a stand-in of HPX"""

    def __init__(self, name, components=(), libs=()):
        self.name = name
        self.components = components
        self.libs = libs
        self.assumptions = ["the stand-in of HPX only allows what HPX allows", "the C++ standard library is trusted"]

    def prepare(self, build):
        import framework

        env = dict(build.ENV)
        env["MALLOC_PERTURB_"] = "165"
        return [framework.harness(self.name, self.components, libs=self.libs)], env


class Python:
    """A harness in Python, in a process in which the Python package built from the current tree can be imported"""

    def __init__(self, name, package="python", assumptions=(), utilities=()):
        self.name = name
        self.package = package
        self.utilities = utilities
        self.assumptions = list(assumptions)

    def prepare(self, build):
        env = dict(build.ENV)
        if self.package == "python":
            root = build.python_package()
        elif self.package == "scalability":
            root = build.scalability_package()
        else:
            root = build.scalability_sources(
                ["lue.command.scalability.experiment.benchmark", "lue.command.scalability.experiment.shape",
                 "lue.command.scalability.cli.array_shape",
                 "lue.command.scalability.experiment.weak_scalability.generate_script"])
        env["PYTHONPATH"] = os.pathsep.join([root, os.path.join(build.HERE, "py")])
        for utility in self.utilities:
            env["PATH"] = os.path.dirname(build.utility(utility)) + os.pathsep + env["PATH"]
        env["PYTHONHASHSEED"] = "0"
        env["OPENBLAS_NUM_THREADS"] = "1"
        # Memory that is freed is overwritten, so using it does not go unnoticed
        env["MALLOC_PERTURB_"] = "165"
        return [os.path.join(build.VENV, "bin", "python3"), os.path.join(build.HERE, "py", self.name + ".py")], env


HDF5 = "the HDF5 library and the file system are trusted"

HARNESSES = {
    "A01": Cxx("arrays", assumptions=[HDF5]),
    "A02": Cxx("arrays", assumptions=[HDF5]),
    "A03": Cxx("arrays", assumptions=[HDF5]),
    **{id: Cxx("hdf5", ("shared", "hdf5"), assumptions=[HDF5]) for id in ("H01", "H02", "H03", "H04", "H05", "D05")},
    **{id: Cxx("datasets", assumptions=[HDF5]) for id in ("D01", "D02", "D03", "D04", "D06", "V01", "V02")},
    **{id: Cxx("gdal", ("shared", "hdf5", "gdal"), assumptions=["the GDAL library and the file system are trusted"])
       for id in ("G01", "G02", "G03")},
    **{id: Cxx("hl", ("shared", "hdf5", "cxx", "hl"), assumptions=[HDF5]) for id in ("R01", "R02")},
    **{id: Python("arrays", assumptions=[HDF5, "NumPy and pybind11 are trusted"]) for id in ("P01", "P02", "P03")},
    "P04": Python("datasets", assumptions=[HDF5, "NumPy and pybind11 are trusted"]),
    **{id: Python("scalability", "sources", assumptions=["Python's integer arithmetic is trusted"]) for id in ("Q01", "Q02")},
    "Q04": Python("experiments", "scalability", utilities=["translate"],
                  assumptions=[HDF5, "bash, NumPy and docopt are trusted", "the scheduler and the programs are stand-ins"]),
    "Q03": Cxx("qa", ("qa",), assumptions=["the file system and the time zone rules of the C library are trusted"]),
    **{id: Cxx("translate", ("shared", "hdf5", "cxx", "gdal", "hl", "translate", "validate"),
               assumptions=[HDF5, "the GDAL and JSON libraries are trusted", "cxxopts is replaced by a stand-in"])
       for id in ("X01", "X02", "X03", "X04", "X05", "X06")},
    **{id: Framework("core") for id in ("F01", "F02", "F03", "F09")},
    "F04": Framework("local"),
    **{id: Framework("zonal") for id in ("F05", "F06")},
    "F07": Framework("focal"),
    "F08": Framework("route"),
    "F10": Framework("order"),
    **{id: Framework("io", ("shared", "hdf5", "cxx", "gdal", "hl"), IO_LIBS) for id in ("F11", "F12", "F13")},
    "V03": Cxx("damage", assumptions=[HDF5]),
    **{id: Cxx("info", assumptions=[HDF5]) for id in ("I01", "I02", "T01")},
}
