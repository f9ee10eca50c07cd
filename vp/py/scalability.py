"""Q01, Q02: configuration of scalability experiments"""

import contextlib
import io
import itertools
import json
import math
import os
import sys

import pt
from lue.command.scalability.cli import array_shape as array_shape_command
from lue.command.scalability.experiment import shape as shapes
from lue.command.scalability.experiment.benchmark import Benchmark
from lue.command.scalability.experiment.cluster import Cluster
from lue.command.scalability.experiment.pool import Pool
from lue.command.scalability.experiment.weak_scalability.generate_script import scale_array_shape
from lue.command.scalability.experiment.worker import Worker


def through_json(data):
    return json.loads(json.dumps(data))


# --------------------------------------------------------------------------- Q01
def pool_data(c, start=None, limit=None):
    """Configuration of a pool, and the sizes it stands for (None if it must be refused)"""
    kind = c.draw(2)
    if kind == 0:
        size = start or c.integer(0, 64) if not c.chance(10) else c.integer(0, 3)
        return {"size": size}, [size] if size >= 1 else None
    minimum = start or (c.integer(0, 3) if c.chance(20) else c.integer(1, 40))
    maximum = minimum + c.size(0, 4000) if c.chance(90) else c.integer(0, 40)
    if limit:
        maximum = max(1, limit + c.integer(-3, 3))
    step = c.integer(0, 5) if c.chance(60) else c.integer(1, 200)
    if kind == 1:
        data = {"min_size": minimum, "max_size": maximum, "multiplier": step}
        if step <= 1 or minimum <= 0 or minimum > maximum:
            return data, None
        sizes = [minimum * step**i for i in range(40) if minimum * step**i <= maximum]
    else:
        data = {"min_size": minimum, "max_size": maximum, "incrementor": step}
        if step < 1 or minimum <= 0 or minimum > maximum:
            return data, None
        sizes = [n for n in range(minimum, maximum + 1) if (n - minimum) % step == 0]
    return data, sizes


def same_pool(c, pool, sizes, what):
    c.equal(pool.nr_permutations, len(sizes), f"{what}: number of sizes")
    c.equal(pool.min_size, sizes[0], f"{what}: smallest size")
    c.equal(pool.max_size, sizes[-1], f"{what}: largest size")
    picked = range(len(sizes)) if len(sizes) <= 12 else {0, 1, len(sizes) - 1, len(sizes) - 2, c.draw(len(sizes) - 1)}
    for i in picked:
        c.equal(pool.permutation_size(i), sizes[i], f"{what}: size {i}")
    for i in {-1, len(sizes), len(sizes) + c.draw(3)}:
        c.refused(lambda: pool.permutation_size(i), f"{what}: size {i} of {len(sizes)}")


def cluster_data(c):
    scheduler = {"kind": "shell"}
    if c.boolean():
        scheduler = {"kind": "slurm", "settings": {"partition": c.name()}}
        for name in ["sbatch_options", "mpirun_options", "srun_options"]:
            if c.boolean():
                scheduler["settings"][name] = [c.name() for _ in range(1 + c.draw(2))]
    data = {
        "name": c.name(),
        "scheduler": scheduler,
        "nr_cluster_nodes": c.integer(1, 20),
        "cluster_node": {
            "nr_packages": c.integer(1, 4),
            "package": {
                "nr_numa_nodes": c.integer(1, 4),
                "numa_node": {
                    "memory": c.integer(1, 100),
                    "nr_cores": c.integer(1, 16),
                    "core": {"nr_threads": c.integer(1, 4)},
                },
            },
        },
    }
    if c.boolean():
        data["software_environment"] = {"modules": [c.name() for _ in range(c.draw(3))]}
        if c.boolean():
            data["software_environment"]["venv"] = {"environment": "/" + c.name()}
    return data


class Hardware:
    def __init__(self, data):
        node = data["cluster_node"]
        numa_node = node["package"]["numa_node"]
        self.cluster_nodes = data["nr_cluster_nodes"]
        self.packages = node["nr_packages"]
        self.numa_nodes = self.packages * node["package"]["nr_numa_nodes"]
        self.cores_per_numa_node = numa_node["nr_cores"]
        self.threads_per_numa_node = numa_node["nr_cores"] * numa_node["core"]["nr_threads"]
        self.cores = self.numa_nodes * self.cores_per_numa_node
        self.threads = self.numa_nodes * self.threads_per_numa_node
        self.memory = self.numa_nodes * numa_node["memory"]


def same_cluster(c, cluster, data, hardware):
    node = cluster.cluster_node
    c.equal(cluster.name, data["name"], "name of the cluster")
    c.equal(cluster.nr_cluster_nodes, hardware.cluster_nodes, "number of cluster nodes")
    c.equal(node.nr_numa_nodes, hardware.numa_nodes, "number of NUMA nodes per cluster node")
    c.equal(node.nr_cores, hardware.cores, "number of cores per cluster node")
    c.equal(node.nr_threads, hardware.threads, "number of threads per cluster node")
    c.equal(node.memory, hardware.memory, "memory per cluster node")
    c.equal(node.package.nr_cores * hardware.packages, hardware.cores, "number of cores per package")
    c.equal(node.package.nr_threads * hardware.packages, hardware.threads, "number of threads per package")
    c.equal(node.package.memory * hardware.packages, hardware.memory, "memory per package")
    c.equal(node.package.numa_node.nr_threads, hardware.threads_per_numa_node, "number of threads per NUMA node")
    if cluster.software_environment:
        lines = cluster.software_environment.configuration.split("\n")
        environment = data["software_environment"]
        expected = [f"module load {name}" for name in environment["modules"]]
        if expected:
            expected = ["module purge"] + expected
        if "venv" in environment:
            expected.append("source " + environment["venv"]["environment"] + "/bin/activate")
        c.equal(lines, expected or [""], "commands that set up the software environment")


def q01(c):
    if c.chance(35):
        data, sizes = pool_data(c)
        c.note("pool ", data)
        if sizes is None:
            c.label("refused pool")
            c.refused(lambda: Pool(data), f"pool {data}")
            return
        c.label("pool")
        pool = Pool(data)
        same_pool(c, pool, sizes, "pool")
        same_pool(c, Pool(through_json(pool.to_json())), sizes, "pool that is read back")
        if len(sizes) > 2:
            c.nontrivial()
        return

    data = cluster_data(c)
    hardware = Hardware(data)
    c.note("cluster ", data)
    cluster = Cluster(data)
    same_cluster(c, cluster, data, hardware)
    c.equal(through_json(cluster.to_json()), data, "settings of the cluster")
    cluster = Cluster(through_json(cluster.to_json()))
    same_cluster(c, cluster, data, hardware)

    kind = c.pick(["thread", "numa_node", "cluster_node"])
    locality_per = c.pick(["numa_node", "cluster_node"])
    if kind == "thread":
        available = hardware.cores_per_numa_node if locality_per == "numa_node" else hardware.cores
    elif kind == "numa_node":
        available = hardware.numa_nodes
    else:
        available = hardware.cluster_nodes
    pool, sizes = pool_data(c, 1 + c.draw(1), available)
    benchmark_data = {"scenario": c.name(), "count": c.integer(1, 10), "locality_per": locality_per,
                      "worker": {"type": kind, "pool": pool}}
    if c.chance(10):
        del benchmark_data["scenario"]
    c.note("benchmark ", benchmark_data)
    supported = sizes is not None and (kind == "thread" or locality_per == "numa_node")
    if not supported:
        c.label("refused workers")
        c.refused(lambda: Worker(benchmark_data["worker"], cluster, locality_per), "workers")
        c.refused(lambda: Benchmark(benchmark_data, cluster), "benchmark")
        return
    if sizes[-1] > available:
        c.label("more than the hardware has")
        c.refused(lambda: Benchmark(benchmark_data, cluster), f"benchmark with {sizes[-1]} of {available} {kind}s")
        return
    c.label(kind)
    benchmark = Benchmark(benchmark_data, cluster)
    again = Benchmark(through_json(benchmark.to_json()), Cluster(through_json(cluster.to_json())))
    for b in [benchmark, again]:
        w = b.worker
        c.equal(b.count, benchmark_data["count"], "count")
        c.equal(b.scenario_name, benchmark_data.get("scenario", "default"), "scenario")
        c.equal(b.locality_per, locality_per, "locality per")
        c.equal(w.type, kind, "type of worker")
        c.equal(w.nr_benchmarks, len(sizes), "number of benchmarks")
        for i, size in enumerate(sizes):
            c.equal(w.nr_workers(i), size, f"number of workers of benchmark {i}")
        c.refused(lambda: w.nr_workers(len(sizes)), "number of workers of a benchmark that is not there")
        per_locality = locality_per == "numa_node"
        c.equal(b.nr_physical_cores_per_locality, hardware.cores_per_numa_node if per_locality else hardware.cores,
                "cores per locality")
        c.equal(b.nr_logical_cores_per_locality,
                hardware.threads_per_numa_node if per_locality else hardware.threads, "threads per locality")
        # What is not scaled has a single size
        fixed_numa_nodes = 1 if kind == "thread" and per_locality else hardware.numa_nodes
        nodes = (sizes[0], sizes[-1]) if kind == "cluster_node" else (1, 1)
        numa_nodes = (sizes[0], sizes[-1]) if kind == "numa_node" else (fixed_numa_nodes, fixed_numa_nodes)
        threads = (sizes[0], sizes[-1]) if kind == "thread" else 2 * (hardware.cores_per_numa_node,)
        c.equal((w.min_nr_cluster_nodes, w.max_nr_cluster_nodes), nodes, "cluster nodes")
        c.equal((w.min_nr_numa_nodes, w.max_nr_numa_nodes), numa_nodes, "NUMA nodes")
        c.equal((w.min_nr_threads, w.max_nr_threads), threads, "threads")
        c.equal(w.nr_cluster_nodes_range, nodes[1] - nodes[0], "range of cluster nodes")
        c.equal(w.nr_numa_nodes_range, numa_nodes[1] - numa_nodes[0], "range of NUMA nodes")
        c.equal(w.nr_threads_range, threads[1] - threads[0], "range of threads")
        for name, (low, high) in [("nr_cluster_nodes", nodes), ("nr_numa_nodes", numa_nodes), ("nr_threads", threads)]:
            if low == high:
                c.equal(getattr(w, name), low, name)
            else:
                c.refused(lambda: getattr(w, name), f"{name} of a range")
        if nodes[0] == nodes[1] and numa_nodes[0] == numa_nodes[1]:
            localities = {"thread": 1, "numa_node": numa_nodes[0], "cluster_node": nodes[0] * numa_nodes[0]}[kind]
            c.equal(w.nr_localities, localities, "number of localities")
            # All of the localities of all nodes used
            reserve = nodes[0] * (1 if locality_per == "cluster_node" else hardware.numa_nodes)
            c.equal(cluster.nr_localities_to_reserve(w, locality_per), reserve, "number of localities to reserve")
    if len(sizes) > 1:
        c.nontrivial()


# --------------------------------------------------------------------------- Q02
def root(n, rank):
    """The largest integer which to the power rank is at most n"""
    low, high = 0, 1
    while high**rank <= n:
        high *= 2
    while high - low > 1:
        middle = (low + high) // 2
        if middle**rank <= n:
            low = middle
        else:
            high = middle
    return low


def q02_array_shape(c):
    rank = c.integer(1, 5)
    nr_arrays = c.integer(1, 12)
    element = c.integer(1, 16)
    nodes = c.size(1, 300)
    if c.boolean():
        # An amount of memory of just enough for a shape, or just too little
        extent = c.integer(1, 60) if c.boolean() else c.integer(1, int(2 ** (48 / rank)))
        memory = -(-(extent**rank * nr_arrays * element) // nodes) - (1 if c.boolean() else 0)
        c.label("just enough")
    else:
        memory = c.integer(1, 10**12)
    memory = max(1, memory)
    c.note("array_shape", (memory, rank, nr_arrays, element, nodes))
    result = shapes.array_shape(memory, rank, nr_arrays, element, nodes)
    c.equal(len(result), rank, "rank of the array shape")
    c.check(len(set(result)) == 1 and all(isinstance(e, int) for e in result), f"extents differ: {result}")
    needed = lambda extent: extent**rank * nr_arrays * element
    c.check(needed(result[0]) <= nodes * memory, f"array shape {result} needs {needed(result[0])} of {nodes * memory} bytes")
    c.check(needed(result[0] + 1) > nodes * memory, f"array shape {result}: a larger one fits {nodes * memory} bytes")
    if result[0] > 1:
        c.nontrivial()
    for arguments in [(0, rank, nr_arrays, element, nodes), (memory, 0, nr_arrays, element, nodes),
                      (memory, rank, 0, element, nodes), (memory, rank, nr_arrays, 0, nodes),
                      (memory, rank, nr_arrays, element, 0)]:
        c.refused(lambda: shapes.array_shape(*arguments), f"array_shape{arguments}")


def q02_command(c):
    """lue_array_shape"""
    c.label("command")
    values = [c.integer(1, 200), c.integer(1, 4), c.integer(1, 9), c.integer(1, 8), c.integer(1, 30)]
    c.note("lue_array_shape ", values)
    saved = sys.argv
    sys.argv = ["lue_array_shape"] + [str(v) for v in values]
    output = io.StringIO()
    try:
        with contextlib.redirect_stdout(output):
            array_shape_command.main()
    finally:
        sys.argv = saved
    memory, rank, nr_arrays, element, nodes = values
    extent = root(memory * 2**30 * nodes // (nr_arrays * element), rank)
    c.equal(output.getvalue(), f"shape (total): {rank * (extent,)}\nshape (node): {rank * (extent / nodes,)}\n", "output")
    c.nontrivial()


def q02_range(c):
    rank = c.integer(1, 4)
    limit = {1: 200, 2: 60, 3: 20, 4: 10}[rank] if c.boolean() else 4
    if c.chance(15):
        limit *= 50
    start = tuple(c.integer(1, limit) for _ in range(rank))
    if c.chance(25):
        start = rank * (start[0],)
    size0 = math.prod(start)
    method = c.pick(["linear", "exponential"])
    multiplier = c.integer(2, 5) if c.chance(80) else c.integer(2, 40)
    if c.chance(5):
        multiplier = c.integer(-1, 1)
    steps = c.draw(12)
    sizes = [size0 * (1 + i * (multiplier - 1) if method == "linear" else multiplier**i) for i in range(steps + 1)]
    maximum = sizes[-1] + (c.integer(-1, 1) if c.boolean() else c.draw(size0))
    maximum = max(maximum, size0)
    c.note("range_of_shapes", (start, maximum, multiplier, method))
    data = {"shape": list(start), "range": {"max_nr_elements": maximum, "multiplier": multiplier, "method": method}}
    if multiplier <= 1:
        c.refused(lambda: shapes.range_of_shapes(start, maximum, multiplier, method), "range that does not grow")
        c.refused(lambda: shapes.Shape(data).shapes, "range that does not grow")
        return
    sizes = []
    i = 0
    while True:
        size = size0 * (1 + i * (multiplier - 1) if method == "linear" else multiplier**i)
        if size > maximum:
            break
        sizes.append(size)
        i += 1
    # Each extent is scaled by the same factor, and rounded down
    expected = [tuple(root(e**rank * size // size0, rank) for e in start) for size in sizes]
    result = shapes.range_of_shapes(start, maximum, multiplier, method)
    c.equal([tuple(s) for s in result], expected, "shapes")
    c.equal(tuple(result[0]), start, "first shape")
    for a, b in itertools.pairwise(result):
        c.check(all(x <= y for x, y in zip(a, b)), f"shapes are not ordered: {a}, {b}")
    c.check(math.prod(result[-1]) <= maximum, f"last shape {result[-1]} has more than {maximum} elements")
    s = shapes.Shape(data)
    c.check(not s.is_fixed(), "a range of shapes is fixed")
    c.refused(lambda: s.shape, "the shape of a range of shapes")
    c.equal([tuple(x) for x in s.shapes], expected, "shapes")
    c.equal(through_json(s.to_json()), data, "settings of the range")
    again = shapes.Shape(through_json(s.to_json()))
    c.equal([tuple(x) for x in again.shapes], expected, "shapes that are read back")
    if len(sizes) > 2:
        c.nontrivial()


def q02_fixed(c):
    shape = [c.integer(1, 1000) for _ in range(c.integer(1, 4))]
    s = shapes.Shape({"shape": shape})
    for s in [s, shapes.Shape(through_json(s.to_json()))]:
        c.check(s.is_fixed(), "a single shape is not fixed")
        c.equal(s.shape, tuple(shape), "shape")
        c.equal(s.shapes, [tuple(shape)], "shapes")


def q02_partitions(c):
    rank = c.integer(1, 4)
    shape = tuple(c.pick([1, 2, 4, 6, 12, 24, 30, 60, 100, 120]) for _ in range(rank))
    draw = lambda: tuple(c.integer(1, e) if c.chance(10) else c.pick([d for d in range(1, e + 1) if e % d == 0]) for e in shape)
    low, high = draw(), draw()
    c.note("partitions ", shape, low, high)
    divides = lambda p: all(e % d == 0 for e, d in zip(shape, p))
    for p in [low, high]:
        if divides(p):
            result = shapes.partition_shape_multipliers(shape, p)
            c.equal([m * d for m, d in zip(result, p)], list(shape), f"multipliers {result} times {p}")
        else:
            c.refused(lambda: shapes.partition_shape_multipliers(shape, p), f"multipliers of {shape}, {p}")
    if not (divides(low) and divides(high) and all(a <= b for a, b in zip(low, high))):
        c.refused(lambda: shapes.ranges_of_partition_shape_multipliers(shape, low, high), f"ranges of {shape}, {low}, {high}")
    else:
        ranges = shapes.ranges_of_partition_shape_multipliers(shape, low, high)
        c.equal([list(r) for r in ranges], [list(range(e // b + 1, e // a + 1))[::-1] for e, a, b in zip(shape, low, high)],
                "ranges of multipliers")
        c.nontrivial()

    step = c.integer(1, 7)
    low = tuple(c.integer(1, 20) for _ in range(rank))
    high = tuple(c.integer(1, 60) for _ in range(rank)) if c.chance(30) else tuple(e + c.draw(40) for e in low)
    c.note("shape ranges ", low, high, step)
    if any(a > b for a, b in zip(low, high)):
        c.refused(lambda: shapes.shape_ranges(low, high, step), "ranges of shapes")
        return
    c.refused(lambda: shapes.shape_ranges(low, high, 0), "ranges of shapes without step")
    ranges = [list(r) for r in shapes.shape_ranges(low, high, step)]
    expected = [[n for n in range(a, b + 1) if (n - a) % step == 0] for a, b in zip(low, high)]
    c.equal(ranges, expected, "ranges of shapes")
    result = list(shapes.partition_shapes(low, high, step))
    c.equal(result, [tuple(r[i] for r in expected) for i in range(min(len(r) for r in expected))], "partition shapes")
    if len(result) > 1:
        c.nontrivial()


def q02_weak(c):
    rank = c.integer(1, 4)
    limit = {1: 10**6, 2: 10**5, 3: 5000, 4: 2000}[rank] if c.chance(70) else 50
    shape = tuple(c.integer(1, limit) for _ in range(rank))
    workers = c.integer(1, 64) if c.chance(80) else c.integer(1, 4096)
    c.note("scale_array_shape", (shape, workers))
    wanted = workers * math.prod(shape)
    # Extents are scaled by the same factor, to the nearest whole number (exact: halves can't occur)
    nearest = tuple((root((2 * e) ** rank * workers, rank) + 1) // 2 for e in shape)
    difference = abs(math.prod(nearest) - wanted) / wanted
    if difference >= 1e-3:
        c.label("refused")
        c.refused(lambda: scale_array_shape(shape, workers), f"shape which is {difference} off")
        return
    result = scale_array_shape(shape, workers)
    c.equal(result, nearest, "scaled shape")
    if workers > 1 and rank > 1:
        c.nontrivial()


def q02(c):
    c.pick([q02_range, q02_array_shape, q02_partitions, q02_weak, q02_command, q02_fixed][:4 + (2 if c.chance(20) else 0)])(c)


if __name__ == "__main__":
    raise SystemExit(pt.main([
        pt.Property(
            "Q01",
            "a case is a pool configuration of any of three kinds (some invalid), or a cluster, workers of any type in a pool around "
            "what the hardware has, and a benchmark; non-trivial if the pool stands for several sizes",
            q01, 150000, 4000000),
        pt.Property(
            "Q02",
            "a case is a call of one of the functions that determine shapes, with generated memory, shapes, ranges or numbers of workers; "
            "non-trivial if several shapes, or shapes larger than 1, result",
            q02, 100000, 4000000),
    ]))
