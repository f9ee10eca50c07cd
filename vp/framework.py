"""Builds harnesses of the framework from the current tree

The framework is not configured here: it needs HPX. Its headers are compiled with a stand-in of HPX, whose scheduler is
driven by the harness (vp/harness/standin). This module writes the headers that CMake would generate, and those that
refer to the stand-in.
"""
import glob
import os
import re

import build

PARTS = ("core", "partitioned_array", "partitioned_route", "algorithm", "model", "io")
UNSIGNED = ["std::uint8_t", "std::uint32_t", "std::uint64_t"]
SIGNED = ["std::int32_t", "std::int64_t"]
FLOATING = ["float", "double"]


def _write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def _configuration():
    text = open(f"{build.REPO}/source/framework/core/include/lue/framework/configure.hpp.in").read()
    lists = {
        "UnsignedIntegralElements": UNSIGNED, "SignedIntegralElements": SIGNED, "FloatingPointElements": FLOATING,
        "MaterialElements": FLOATING, "ZoneElements": SIGNED, "ranks": ["1", "2"],
    }
    single = {
        "BooleanElement": "std::uint8_t", "CountElement": "std::uint64_t", "IDElement": "std::uint64_t",
        "IndexElement": "std::uint64_t", "FlowDirectionElement": "std::uint8_t",
    }

    def value(match):
        expression, _, function = [part.strip() for part in match.group(1).partition("|")]
        if not function:
            return single[expression]
        items = [item for name in expression.strip("()").split("+") for item in lists[name.strip()]]
        return str(len(items)) if function == "length" else ", ".join(items)

    return re.sub(r"\{\{(.*?)\}\}", value, text)


def _route_registration():
    name = "lue/framework/partitioned_route/server/serial_route_partition.hpp"
    text = open(f"{build.REPO}/source/framework/partitioned_route/include/{name}.in").read()

    def loop(match):
        result = ""
        for element in SIGNED:
            for rank in ("1", "2"):
                body = match.group(1)
                body = re.sub(r'\{\{\s*Element \| replace\("::", "_"\)\s*\}\}', element.replace("::", "_"), body)
                body = re.sub(r"\{\{\s*Element\s*\}\}", element, body)
                result += re.sub(r"\{\{\s*rank\s*\}\}", rank, body)
        return result

    pattern = r"\{% for Element in Elements %\}\s*\{% for rank in ranks %\}(.*?)\{% endfor %\}\s*\{% endfor %\}"
    return name, re.sub(pattern, loop, text, flags=re.S)


def _gdal_source():
    """Templates of functions that read and write rasters, without the list of types to instantiate these for"""
    text = open(f"{build.REPO}/source/framework/io/source/gdal.cpp.in").read()
    return re.sub(r"\{% for Element in Elements %\}.*\{% endfor %\}", "", text, flags=re.S)


def headers():
    """Write the headers, return the directory they are in"""
    out = os.path.join(build.build_root(), "framework_include")
    hpx, exports, macros = set(), set(), set()
    for path in glob.glob(build.REPO + "/source/framework/**/*", recursive=True):
        if not re.search(r"\.(hpp|cpp|in)$", path) or "/python/" in path:
            continue
        text = open(path).read()
        hpx |= set(re.findall(r'#include\s+[<"](hpx/[^>"]+)[>"]', text))
        exports |= set(re.findall(r'#include\s+"(lue/[^"]*export\.hpp)"', text))
        macros |= set(re.findall(r"\bLUE_\w*EXPORT\b", text))
    for name in hpx:
        _write(os.path.join(out, name), '#pragma once\n#include "hpx_standin.hpp"\n')
    _write(os.path.join(out, "experimental/mdspan"), '#pragma once\n#include "mdspan.hpp"\n')
    text = "#pragma once\n" + "".join(f"#ifndef {name}\n#define {name}\n#endif\n" for name in sorted(macros))
    for name in exports:
        _write(os.path.join(out, name), text)
    _write(os.path.join(out, "lue/framework/configure.hpp"), _configuration())
    name, text = _route_registration()
    _write(os.path.join(out, name), text)
    _write(os.path.join(out, "framework_io_gdal.hpp"), "#pragma once\n" + _gdal_source())
    text = open(os.path.join(build.CFG, "source/shared/include/lue/configure.hpp")).read()
    text = text.replace("POLICIES_ENABLED 0", "POLICIES_ENABLED 1")
    text = text.replace("/* #undef LUE_BUILD_FRAMEWORK */", "#define LUE_BUILD_FRAMEWORK")
    _write(os.path.join(out, "lue/configure.hpp"), text)
    return out


def args(components=()):
    result = [f"-I{headers()}", f"-I{build.HERE}/harness/standin", f"-I{build.HERE}/harness", f"-I{build.HERE}/harness/fw",
              f"-I{build.HERE}/engine"]
    result += [f"-I{build.REPO}/source/framework/{part}/include" for part in PARTS]
    result += [f"-I{build.REPO}/source/shared/include", f"-I{build.CFG}/source/shared/include"]
    if components:
        result += build.DEFINES
        result += build.inc("data_model/hdf5", "data_model/cxx", "data_model/gdal", "data_model/hl")
        result += build.H5INC + build.GDALINC
    return result + ["-std=c++23", "-O0", "-w"]


def units(name):
    """Compilation units of the sources of a harness. Each group of instantiations in a source is compiled on its own"""
    result = []
    sources = sorted(glob.glob(f"{build.HERE}/harness/fw/{name}_*.cpp"))
    if name != "core":
        sources.append(f"{build.HERE}/harness/fw/arrays.cpp")
    for source in sources:
        text = open(source).read()
        groups = [int(number) for number in re.findall(r"FW_GROUP == ([0-9]+)", text)]
        count = max(groups) + 1 + ("\n#else" in text) if groups else 1
        result += [(source, [f"-DFW_GROUP={group}"]) for group in range(count)]
    return result


def harness(name, components=(), variant="plain", libs=()):
    build.configure()
    common = args(components)
    extra = []
    if variant == "asan":
        extra = ["-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-omit-frame-pointer"]
    outdir = os.path.join(build.build_root(), "framework_" + variant)
    todo = [(source, common + more) for source, more in units(name)]
    # Largest first: these take longest
    todo.sort(key=lambda unit: -os.path.getsize(unit[0]))
    todo.append((os.path.join(build.HERE, "engine", "pt.cpp"), common))
    for component in components:
        todo += build.component_units(component)
    objects = build.compile_all(todo, outdir, extra=extra)
    out = os.path.join(build.build_root(), "framework_" + variant, "bin", name)
    more = build.hdf5_libs() if components else []
    return build.link(objects, out, extra=extra + more + list(libs) + ["-lboost_context", "-lpthread"])
