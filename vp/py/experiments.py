"""Q04: scalability experiments, from configuration to summary"""

import contextlib
import csv
import datetime
import io
import itertools
import json
import math
import os
import shutil
import subprocess
import sys

import numpy as np

import lue.data_model as ldm
import pt
from lue.command.scalability.cli import scalability as scalability_command
from lue.command.scalability.experiment import dataset as experiment_dataset
from lue.command.scalability import perform_experiment_task
from lue.command.scalability.experiment.partition_shape.experiment import Experiment as PartitionShape
from lue.command.scalability.experiment.strong_scalability.experiment import Experiment as StrongScalability
from lue.command.scalability.experiment.weak_scalability.experiment import Experiment as WeakScalability
from lue.command.scalability.query import export_duration, summarize_experiment

KINDS = {"strong_scalability": StrongScalability, "weak_scalability": WeakScalability, "partition_shape": PartitionShape}

# Stand-ins for the programs that are used by the scripts. They keep track of how they are called.
STUBS = {
    "sbatch": """\
n=$(ls "$VP_LOG" | wc -l)
cat > "$VP_LOG/sbatch_$n"
printf '%s\\n' "$@" > "$VP_LOG/options_$n"
output=$(sed -n 's/^#SBATCH --output=//p' "$VP_LOG/sbatch_$n")
: > "$output" || exit 1
VP_JOB=$n bash "$VP_LOG/sbatch_$n"
""",
    "srun": """\
options=
while [ "$1" != "$VP_COMMAND" ]; do options="$options$1 "; shift; done
VP_SRUN="$options" exec "$@"
""",
    "sleep": "",
    "module": "printf '%s\\n' \"$*\" >> \"$VP_MODULES\"\n",
}

PROGRAM = """\
#!/bin/bash
printf '%s\\037' "job=$VP_JOB" "srun=$VP_SRUN" "$@" >> "$VP_CALLS"
printf '\\n' >> "$VP_CALLS"
for a in "$@"; do
    case "$a" in
        --lue:result=*) echo started > "${a#--lue:result=}" || exit 1;;
    esac
done
"""


def tool(pathname, text):
    with open(pathname, "w") as f:
        f.write("#!/bin/bash\n" + text)
    os.chmod(pathname, 0o700)


def word(c, prefix):
    return prefix + c.pick(["a", "b2", "c_d", "E-f", "g.h"])


class Setup:
    """A generated experiment"""

    def __init__(self, c, root):
        self.c = c
        self.root = root
        self.kind = c.pick(["strong_scalability", "weak_scalability", "partition_shape"])
        self.slurm = c.boolean()
        self.worker_type = c.pick(["thread", "numa_node", "cluster_node"]) if self.slurm else "thread"
        self.locality_per = c.pick(["numa_node", "cluster_node"]) if self.worker_type == "thread" else "numa_node"
        self.scenario = {
            "thread": "core_" + self.locality_per, "numa_node": "numa_node", "cluster_node": "cluster_node"}[self.worker_type]
        self.pool, self.sizes = self.generate_pool()
        self.generate_hardware()
        self.count = c.integer(1, 4)
        self.command_name = word(c, "program_")
        self.arguments = " ".join(c.pick(["--fast", "7", "--file=x.map", "y"]) for _ in range(c.draw(2)))
        self.platform_name = word(c, "platform_")
        self.generate_shapes()
        self.max_duration = c.pick(["10", "1:30:00"]) if c.chance(30) else None
        self.description = c.pick(["Why?", "Ein schönes Experiment"]) if c.chance(25) else None
        self.generate_scheduler()
        self.write()

    def generate_pool(self):
        c = self.c
        if self.kind == "partition_shape":
            size = c.integer(1, 6)
            kind = c.draw(2)
            if kind == 0:
                return {"size": size}, [size]
            return {"min_size": size, "max_size": size, ("multiplier" if kind == 1 else "incrementor"): 2}, [size]
        if c.boolean():
            step = c.integer(1, 3)
            maximum = c.integer(1 + step, 8)
            return ({"min_size": 1, "max_size": maximum, "incrementor": step}, list(range(1, maximum + 1, step)))
        step = c.integer(2, 3)
        maximum = c.integer(step, 16)
        return ({"min_size": 1, "max_size": maximum, "multiplier": step}, [step**i for i in range(8) if step**i <= maximum])

    def generate_hardware(self):
        c = self.c
        most = self.sizes[-1]
        self.packages = c.integer(1, 2)
        self.numa_nodes = c.integer(1, 3)
        self.cores = c.integer(1, 4)
        self.nodes = c.integer(1, 5)
        self.threads = c.integer(1, 2)
        self.memory = c.integer(1, 60)
        # There is enough of it
        if self.worker_type == "thread":
            available = self.cores if self.locality_per == "numa_node" else self.packages * self.numa_nodes * self.cores
            if available < most:
                self.cores = most
        elif self.worker_type == "numa_node":
            if self.packages * self.numa_nodes < most:
                self.numa_nodes = -(-most // self.packages)
        elif self.nodes < most:
            self.nodes = most
        self.node_numa_nodes = self.packages * self.numa_nodes
        self.node_cores = self.node_numa_nodes * self.cores

    def generate_shapes(self):
        c = self.c
        shape = lambda low, high: [c.integer(low, high), c.integer(low, high)]
        if self.kind == "partition_shape":
            self.array_settings, self.arrays = self.shapes(shape(10, 60), c.draw(2))
            self.partition_settings, self.partitions = self.shapes(shape(5, 30), c.draw(3))
        else:
            # For weak scalability, the scaled shape has the requested size up to 0.1 %
            array = shape(3000, 9000) if self.kind == "weak_scalability" else shape(1, 500)
            partition = shape(1, 300)
            self.array_settings, self.arrays = {"shape": array}, [tuple(array)]
            self.partition_settings, self.partitions = {"shape": partition}, [tuple(partition)]

    def shapes(self, shape, nr):
        if nr == 0:
            return {"shape": shape}, [tuple(shape)]
        c = self.c
        size = shape[0] * shape[1]
        multiplier = c.integer(2, 3)
        method = c.pick(["linear", "exponential"])
        sizes = [size * (1 + i * (multiplier - 1) if method == "linear" else multiplier**i) for i in range(nr + 1)]
        shapes = [tuple(math.isqrt(e * e * s // size) for e in shape) for s in sizes]
        settings = {"shape": shape,
                    "range": {"max_nr_elements": sizes[-1] + c.draw(size - 1), "multiplier": multiplier, "method": method}}
        if len(set(shapes)) != len(shapes):
            c.discard()
        return settings, shapes

    def generate_scheduler(self):
        c = self.c
        self.scheduler = {"kind": "shell"}
        self.environment = None
        self.srun_options = self.sbatch_options = ()
        if self.slurm:
            self.srun_options = [c.pick(["--mpi=pmix", "--kill-on-bad-exit", "-v"]) for _ in range(c.draw(2))]
            self.sbatch_options = [c.pick(["--mail-type=FAIL", "--tmp=1M", "-H"]) for _ in range(c.draw(2))]
            self.partition_name = word(c, "queue_")
            self.scheduler = {"kind": "slurm", "settings": {
                "partition": self.partition_name, "sbatch_options": self.sbatch_options,
                "mpirun_options": [], "srun_options": self.srun_options}}
        if self.slurm or c.boolean():
            self.environment = {"modules": [word(c, "module_") for _ in range(c.draw(2))]}

    def write(self):
        c = self.c
        platform = {
            "name": self.platform_name, "scheduler": self.scheduler, "nr_cluster_nodes": self.nodes,
            "cluster_node": {"nr_packages": self.packages, "package": {
                "nr_numa_nodes": self.numa_nodes,
                "numa_node": {"memory": self.memory, "nr_cores": self.cores, "core": {"nr_threads": self.threads}}}}}
        if self.environment is not None:
            platform["software_environment"] = self.environment
        benchmark = {"scenario": self.scenario, "count": self.count, "locality_per": self.locality_per,
                     "worker": {"type": self.worker_type, "pool": self.pool}}
        experiment = {"array": self.array_settings, "partition": self.partition_settings}
        if self.max_duration:
            experiment["max_duration"] = self.max_duration
        if self.description:
            experiment["description"] = self.description
        self.settings = platform, benchmark, experiment
        c.note(self.kind, ": ", json.dumps(platform), json.dumps(benchmark), json.dumps(experiment))

        config = os.path.join(self.root, "config")
        paths = {
            os.path.join(config, self.platform_name, "platform.json"): platform,
            os.path.join(config, self.platform_name, self.scenario, self.kind + ".json"): benchmark,
            os.path.join(self.root, "experiments", self.platform_name, self.command_name, self.scenario,
                         self.kind + ".json"): experiment,
        }
        for path, data in paths.items():
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w", encoding="utf-8") as f:
                text = json.dumps(data, indent=c.pick([None, 1, 4]), ensure_ascii=c.boolean())
                if c.chance(30):
                    text = "# Settings\n" + text.replace("\n", "\n  # \"comment\": {\n")
                f.write(text)
        self.platform_path, self.benchmark_path, self.experiment_path = paths

        programs = os.path.join(self.root, "programs")
        os.makedirs(programs)
        self.command = os.path.join(programs, self.command_name)
        with open(self.command, "w") as f:
            f.write(PROGRAM)
        os.chmod(self.command, 0o700)
        for name, text in STUBS.items():
            tool(os.path.join(programs, name), text)
        self.by_command_line = c.boolean()
        if self.by_command_line and self.arguments.startswith("-"):
            # It would be seen as an option of the command itself
            self.arguments = "run " + self.arguments
        # The program is searched for, or its pathname is passed in
        self.command_pathname = self.command_name if self.by_command_line or c.boolean() else self.command
        self.result_prefix = os.path.join(self.root, "results")
        self.workspace = os.path.join(
            self.result_prefix, self.platform_name, self.command_name, self.scenario, self.kind)
        if self.by_command_line:
            self.script = self.workspace + ".sh"
        else:
            self.script = os.path.join(self.root, "run.sh")
            self.raw_prefix = self.result_prefix
            if c.chance(30):
                c.label("environment variables")
                os.environ["VP_ROOT"] = self.root
                self.raw_prefix = "${VP_ROOT}/results"
                self.platform_path = self.platform_path.replace(self.root, "$VP_ROOT")

    def task(self, name):
        output = io.StringIO()
        with contextlib.redirect_stdout(output):
            if self.by_command_line:
                saved = sys.argv
                sys.argv = ["lue_scalability.py", self.kind, name, self.command_name, self.arguments, self.platform_name,
                            self.scenario, os.path.join(self.root, "config"), os.path.join(self.root, "experiments"),
                            self.result_prefix]
                try:
                    scalability_command.main()
                finally:
                    sys.argv = saved
            else:
                perform_experiment_task(self.kind, name, {
                    "command_pathname": self.command_pathname, "command_arguments": self.arguments,
                    "script_pathname": self.script, "result_prefix": self.raw_prefix, "platform": self.platform_path,
                    "benchmark": self.benchmark_path, "experiment": self.experiment_path})
        return output.getvalue()

    def scaled(self, shape, nr_workers):
        return tuple((math.isqrt(4 * e * e * nr_workers) + 1) // 2 for e in shape)

    def runs(self):
        """(number of workers, array shape, partition shape, pathname of result) of each run of the program"""
        if self.kind == "partition_shape":
            name = lambda shape: "x".join(str(e) for e in shape)
            for array, partition in itertools.product(self.arrays, self.partitions):
                yield self.sizes[0], array, partition, os.path.join(self.workspace, name(array), name(partition) + ".json")
        else:
            for n in self.sizes:
                array, partition = self.arrays[0], self.partitions[0]
                if self.kind == "weak_scalability":
                    array = self.scaled(array, n)
                if self.worker_type == "thread" and n == 1:
                    # There is nothing to share
                    partition = array
                yield n, array, partition, os.path.join(self.workspace, f"{n}.json")

    def nr_localities(self, n):
        return {"thread": 1, "numa_node": n, "cluster_node": n * self.node_numa_nodes}[self.worker_type]


def header(text, name):
    prefix = f"#SBATCH --{name}="
    return [line[len(prefix):] for line in text.split("\n") if line.startswith(prefix)]


def check_job(c, s, text, options, sizes):
    """The job of the runs with the number of workers passed in"""
    n = sizes[-1]
    c.equal(header(text, "partition"), [s.partition_name], "partition of the job")
    nodes = n if s.worker_type == "cluster_node" else 1
    c.equal(header(text, "nodes"), [str(nodes)], "number of nodes of the job")
    tasks = s.nr_localities(n)
    if s.kind == "partition_shape":
        # Whole nodes are reserved
        tasks = nodes * (1 if s.locality_per == "cluster_node" else s.node_numa_nodes)
    c.equal(header(text, "ntasks"), [str(tasks)], "number of tasks of the job")
    cores = s.node_cores if s.locality_per == "cluster_node" else s.cores
    c.equal(header(text, "cpus-per-task"), [str(cores * s.threads)], "number of CPUs per task of the job")
    c.equal(header(text, "time"), [s.max_duration] if s.max_duration else [], "maximum duration of the job")
    if s.worker_type != "cluster_node" or s.kind == "partition_shape":
        node_memory = s.node_numa_nodes * s.memory
        if s.worker_type == "thread":
            memory = s.memory if s.locality_per == "numa_node" else node_memory
        elif s.worker_type == "numa_node" and s.kind == "weak_scalability":
            memory = n * s.memory
        else:
            memory = node_memory
        c.equal(header(text, "mem"), [f"{memory}G"], "memory of the job")
    for option in s.sbatch_options:
        c.check(f"#SBATCH {option}\n" in text, f"option {option} is not passed to the scheduler")
        c.check(option in options, f"option {option} is not passed to the scheduler")
    c.check(header(text, "output")[0].startswith(s.workspace + "/"), "output of the job ends up elsewhere")


def check_script(c, s):
    log = os.path.join(s.root, "log")
    os.makedirs(log)
    calls_path = os.path.join(s.root, "calls")
    modules_path = os.path.join(s.root, "modules")
    env = dict(os.environ, PATH=os.path.dirname(s.command) + ":" + os.environ["PATH"], VP_LOG=log, VP_CALLS=calls_path,
               VP_MODULES=modules_path, VP_COMMAND=s.command_pathname)
    r = subprocess.run(["bash", s.script], env=env, cwd=s.root, capture_output=True, text=True)
    c.equal(r.returncode, 0, f"exit status of the script ({r.stderr})")
    with open(calls_path, encoding="utf-8") as f:
        calls = [line.split("\x1f")[:-1] for line in f.read().split("\n")[:-1]]

    expected = []
    for n, array, partition, result in s.runs():
        threads = n if s.worker_type == "thread" else s.cores
        expected.append((
            s.nr_localities(n) if s.slurm else None,
            s.arguments.split() + [f"--hpx:threads={threads}", "--hpx:print-bind", f"--lue:count={s.count}",
                                   f"--lue:nr_workers={n}", f"--lue:array_shape={list(array)}",
                                   f"--lue:partition_shape={list(partition)}", f"--lue:result={result}"]))
    actual = []
    jobs = {}
    for call in calls:
        job, srun, arguments = call[0][4:], call[1][5:].split(), call[2:]
        nr_tasks = None
        if s.slurm:
            c.check(job != "", "the program is run outside of a job")
            c.equal(srun[0], "--ntasks", "first option of srun")
            nr_tasks = int(srun[1])
            c.equal(srun[2:], list(s.srun_options), "options of srun")
            jobs.setdefault(int(job), []).append(len(actual))
        actual.append((nr_tasks, arguments))
    c.equal(actual, expected, "runs of the program")
    runs = list(s.runs())
    if s.slurm:
        together = s.kind == "partition_shape" or s.worker_type == "thread"
        c.equal(len(jobs), 1 if together else len(s.sizes), "number of jobs")
        for job, idxs in jobs.items():
            with open(os.path.join(log, f"sbatch_{job}")) as f:
                text = f.read()
            with open(os.path.join(log, f"options_{job}")) as f:
                options = f.read().split("\n")
            check_job(c, s, text, options, [runs[i][0] for i in idxs])
        loaded = [f"load {name}" for name in s.environment["modules"]]
        if loaded:
            with open(modules_path) as f:
                c.equal(f.read().split("\n")[:-1], len(jobs) * (["purge"] + loaded), "commands for loading modules")


def same_settings(c, s, path):
    lue_dataset = ldm.open_dataset(path, "r")
    cluster, benchmark, experiment = experiment_dataset.read_benchmark_settings(lue_dataset, KINDS[s.kind])
    platform = json.loads(json.dumps(s.settings[0]))
    if s.slurm:
        for name in ["sbatch_options", "mpirun_options", "srun_options"]:
            if not platform["scheduler"]["settings"][name]:
                del platform["scheduler"]["settings"][name]
    read = json.loads(json.dumps(cluster.to_json()))
    if s.slurm:
        for name in ["sbatch_options", "mpirun_options", "srun_options"]:
            if not read["scheduler"]["settings"].get(name, True):
                del read["scheduler"]["settings"][name]
    c.equal(read, platform, "settings of the platform that are read back")
    settings = json.loads(json.dumps(s.settings[1]))
    read = json.loads(json.dumps(benchmark.to_json()))
    for data in [settings, read]:
        # The largest size may be any number between the last size and the next
        data["worker"]["pool"].pop("max_size", None)
    c.equal(read, settings, "settings of the benchmark that are read back")
    c.equal([benchmark.worker.nr_workers(i) for i in range(benchmark.worker.nr_benchmarks)], s.sizes, "numbers of workers")
    c.equal([tuple(x) for x in experiment.array.shapes], s.arrays, "array shapes that are read back")
    c.equal([tuple(x) for x in experiment.partition.shapes], s.partitions, "partition shapes that are read back")
    c.equal(experiment.max_duration, s.max_duration, "maximum duration that is read back")
    c.equal(experiment.command_pathname, s.command_pathname, "command that is read back")
    c.equal(experiment.command_arguments, s.arguments, "arguments that are read back")
    c.equal(experiment.name, s.kind, "name of the experiment that is read back")
    if s.description:
        c.equal(experiment.description, s.description, "description of the experiment that is read back")
    with open(s.script, encoding="utf-8") as f:
        c.equal(lue_dataset.benchmark.meta_information.script.value[:][0], f.read(), "script that is read back")


def write_results(c, s):
    """Results of all runs, in any order. Returns the runs, durations and start, in order of the start"""
    runs = list(s.runs())
    zones = [c.integer(-12, 14) * 3600 if c.chance(30) else 3600 for _ in runs]
    offsets = set()
    while len(offsets) < len(runs):
        offsets.add(c.draw(5000) + len(offsets))
    offsets = sorted(offsets)
    # Jobs need not start in the order in which they are submitted
    order = list(range(len(runs)))
    if s.kind != "partition_shape" and c.chance(70):
        for i in range(len(order) - 1, 0, -1):
            j = c.draw(i)
            order[i], order[j] = order[j], order[i]
        c.label("runs in another order")
    base = datetime.datetime(2020 + c.draw(10), 1 + c.draw(11), 1 + c.draw(27), c.draw(23), c.draw(59), tzinfo=datetime.timezone.utc)
    results = []
    for position, i in enumerate(order):
        n, array, partition, path = runs[i]
        zone = datetime.timezone(datetime.timedelta(seconds=zones[i]))
        start = (base + datetime.timedelta(seconds=offsets[position])).astimezone(zone)
        durations = [c.integer(1, 100000) for _ in range(s.count)]
        data = {
            "start": start.isoformat(), "unit": "millisecond",
            "environment": {"nr_workers": n},
            "task": {"array_shape": list(array), "partition_shape": list(partition)},
            "timings": [{"start": start.isoformat(), "stop": start.isoformat(), "duration": d} for d in durations],
        }
        with open(path) as f:
            c.equal(f.read(), "started\n", f"content of {path}")
        with open(path, "w") as f:
            json.dump(data, f)
        results.append((i, runs[i], durations, start))
    c.note("durations ", [(r[1][0], r[2]) for r in results])
    return results


def close(c, actual, expected, what):
    actual = np.asarray(actual)
    expected = np.asarray(expected, dtype=np.float64)
    c.equal(actual.shape, expected.shape, f"shape of {what}")
    c.check(bool(np.all(np.abs(actual - expected) <= 1e-9 * np.abs(expected) + 1e-9)), f"{what}: got {actual}, expected {expected}")


def means(rows):
    return [sum(row) / len(row) for row in rows]


def deviations(rows):
    return [math.sqrt(sum((v - sum(row) / len(row)) ** 2 for v in row) / len(row)) for row in rows]


def check_meta(c, s, lue_dataset):
    meta = lue_dataset.benchmark.meta_information
    text = {"name": s.command_name, "system_name": s.platform_name, "command": s.command_pathname,
            "arguments": s.arguments, "kind": s.kind, "scenario_name": s.scenario}
    if s.kind != "partition_shape":
        text["worker_type"] = s.worker_type
    if s.description:
        text["description"] = s.description
    for name, value in text.items():
        c.equal(list(meta.properties[name].value[:]), [value], f"property {name}")
    if s.kind != "partition_shape":
        c.equal(meta.array_shape.value[:].tolist(), [list(s.arrays[0])], "array shape")
        c.equal(meta.partition_shape.value[:].tolist(), [list(s.partitions[0])], "partition shape")
    else:
        c.equal(meta.nr_workers.value[:].tolist(), [s.sizes[0]], "number of workers")


def check_measurement(c, s, lue_dataset, results):
    measurement = lue_dataset.benchmark.measurement
    c.equal(measurement.duration.value[:].tolist(), [r[2] for r in results], "durations")
    if s.kind == "partition_shape":
        c.equal(measurement.array_shape.value[:].tolist(), [list(r[1][1]) for r in results], "array shapes")
        c.equal(measurement.partition_shape.value[:].tolist(), [list(r[1][2]) for r in results], "partition shapes")
    else:
        c.equal(measurement.nr_workers.value[:].tolist(), [r[1][0] for r in results], "numbers of workers")
    first = min(r[3] for r in results)
    epoch = measurement.time_domain.clock.epoch
    c.equal(datetime.datetime.fromisoformat(epoch.origin), first, "epoch")
    points = measurement.time_domain.value[:].tolist()
    c.equal(len(points), len(results), "number of time points")
    ranks = lambda values: [sorted(values).index(v) for v in values]
    c.equal(ranks(points), ranks([r[3] for r in results]), "order of the time points")
    ids = measurement.object_tracker.active_object_id[:].tolist()
    c.check(len(ids) == len(results) and len(set(ids)) == 1, f"active objects: {ids}")


def check_scaling(c, s, lue_dataset, results):
    scaling = lue_dataset.benchmark.scaling
    durations = [r[2] for r in results]
    workers = [r[1][0] for r in results]
    t1 = durations[workers.index(1)]
    speed_up = [[a / b for a, b in zip(t1, row)] for row in durations]
    if s.kind == "strong_scalability":
        efficiency = [[100 * v / n for v in row] for n, row in zip(workers, speed_up)]
    else:
        efficiency = [[100 * v for v in row] for row in speed_up]
    values = {"relative_efficiency": efficiency}
    if s.kind == "strong_scalability":
        values["relative_speed_up"] = speed_up
    names = set(values)
    for name, value in values.items():
        close(c, scaling.properties[name].value[:], value, name)
    values["duration"] = durations
    if s.count > 1:
        for name, value in values.items():
            names |= {"mean_" + name, "std_" + name}
            close(c, scaling.properties["mean_" + name].value[:], means(value), "mean " + name)
            close(c, scaling.properties["std_" + name].value[:], deviations(value), "standard deviation of " + name)
    c.equal(set(scaling.properties.names), names, "properties")

    columns = [("duration", durations)]
    if s.kind == "strong_scalability" and s.count == 1:
        columns.append(("relative_speed_up", speed_up))
    columns.append(("relative_efficiency", efficiency))
    header = ["nr_workers"]
    rows = {n: [n] for n in workers}
    for name, value in columns:
        if s.count == 1:
            header.append(name)
            for n, row in zip(workers, value):
                rows[n].append(row[0])
        else:
            header += ["mean_" + name, "std_" + name]
            for n, a, b in zip(workers, means(value), deviations(value)):
                rows[n] += [a, b]
    return header, [rows[n] for n in sorted(rows)]


def check_partitions(c, s, lue_dataset, results):
    array = lue_dataset.array.array
    c.equal(array.shape.value[:].tolist(), [list(a) for a in s.arrays], "array shapes")
    c.equal(lue_dataset.array.object_id[:].tolist(), list(range(len(s.arrays))), "IDs of arrays")
    partition = lue_dataset.partition.partition
    c.equal(partition.shape.value[:].tolist(), [list(a) for a in s.partitions], "partition shapes")
    c.equal(lue_dataset.partition.object_id[:].tolist(), list(range(len(s.partitions))), "IDs of partitions")
    found = {(r[1][1], r[1][2]): r[2] for r in results}
    names = {"shape"}
    for i, a in enumerate(s.arrays):
        durations = [found[a, p] for p in s.partitions]
        names.add(f"duration_{i}")
        c.equal(partition.properties[f"duration_{i}"].value[:].tolist(), durations, f"durations of array {i}")
        if s.count > 1:
            names |= {f"mean_duration_{i}", f"std_duration_{i}"}
            close(c, partition.properties[f"mean_duration_{i}"].value[:], means(durations), f"mean durations of array {i}")
            close(c, partition.properties[f"std_duration_{i}"].value[:], deviations(durations),
                  f"standard deviation of durations of array {i}")
    c.equal(set(partition.properties.names), names, "properties")
    header = ["partition_shape", "partition_size"] + (["duration"] if s.count == 1 else ["mean_duration", "std_duration"])
    rows = []
    for p in s.partitions:
        durations = found[s.arrays[0], p]
        row = [f"{p[0]},{p[1]}", p[0] * p[1]]
        rows.append(row + ([durations[0]] if s.count == 1 else [means([durations])[0], deviations([durations])[0]]))
    return header, rows


def query(s, *arguments):
    output = io.StringIO()
    saved = sys.argv
    sys.argv = ["lue_scalability.py", "query"] + list(arguments)
    try:
        with contextlib.redirect_stdout(output):
            scalability_command.main()
    finally:
        sys.argv = saved
    return output.getvalue()


def check_queries(c, s, path, header, rows, results):
    if s.kind != "partition_shape" or len(s.arrays) == 1:
        csv_path = os.path.join(s.root, "durations.csv")
        query(s, "duration", path, csv_path)
        with open(csv_path, newline="", encoding="utf-8") as f:
            lines = list(csv.reader(f))
        c.equal(lines[0], header, "header of exported durations")
        c.equal(len(lines) - 1, len(rows), "number of exported durations")
        for line, row in zip(lines[1:], rows):
            c.equal(len(line), len(row), "number of exported values")
            for text, value in zip(line, row):
                if isinstance(value, str):
                    c.equal(text, value, "exported value")
                elif isinstance(value, int):
                    c.equal(int(text), value, "exported value")
                else:
                    close(c, float(text), value, "exported value")

    lines = {}
    for line in query(s, "summary", path).split("\n"):
        if ": " in line:
            label, value = line.split(": ", 1)
            lines[label.strip()] = value
    c.equal(lines["dataset path"], path, "pathname in summary")
    c.equal(lines["system name"], s.platform_name, "name of system in summary")
    c.equal(lines["kind of experiment"], s.kind, "kind of experiment in summary")
    c.equal(lines["kind of worker"], s.scenario, "kind of worker in summary")
    total = sum(sum(r[2]) for r in results)
    cores = {"thread": 1, "numa_node": s.cores, "cluster_node": s.node_cores}[s.worker_type]
    core_hours = sum(cores * r[1][0] * sum(r[2]) for r in results) / 3600000
    duration = [v.strip() for v in lines["total duration"].split("/")]
    c.equal(duration[0], f"{total}ms", "total duration in summary")
    for text, unit, value, slack in [(duration[1], "s", total / 1000, 0.5001), (duration[2], "min", total / 60000, 0.5001),
                                     (duration[3], "h", total / 3600000, 0.0051)]:
        c.check(text.endswith(unit) and abs(float(text[:-len(unit)]) - value) <= slack, f"total duration in summary: {duration}")
    c.check(abs(float(lines["nr core hours"]) - core_hours) <= 0.0051,
            f"number of core hours in summary: got {lines['nr core hours']}, expected {core_hours}")
    used = [int(v) for v in lines["nr cores used"].strip("[]").split()]
    c.equal(used, [cores * r[1][0] for r in results], "number of cores used in summary")


def q04(c):
    root = os.path.join(c.scratch, "experiment")
    os.mkdir(root)
    s = Setup(c, root)
    c.label(s.kind)
    c.label(s.worker_type)
    c.label("slurm" if s.slurm else "shell")
    raw = os.path.join(s.workspace, "raw.lue")
    result = os.path.join(s.workspace, "scalability.lue")

    if s.by_command_line and c.chance(20):
        # What was there is kept
        c.label("earlier results")
        os.makedirs(s.workspace)
        with open(os.path.join(s.workspace, "earlier"), "w") as f:
            f.write("earlier")
    output = s.task("script")
    c.equal(output, f"bash {s.script}\n", "output")
    if s.by_command_line and "earlier results" in c.labels:
        parent = os.path.dirname(s.workspace)
        found = [d for d in os.listdir(parent) if os.path.exists(os.path.join(parent, d, "earlier"))]
        c.check(len(found) == 1 and found[0].startswith(s.kind + "-"), f"earlier results: {os.listdir(parent)}")
    ldm.assert_is_valid(raw, fail_on_warning=False)
    same_settings(c, s, raw)
    check_script(c, s)
    results = write_results(c, s)

    # Settings are read from the dataset
    if c.chance(20):
        c.label("settings that change afterwards")
        with open(os.path.expandvars(s.experiment_path), "w") as f:
            json.dump({"array": {"shape": [1, 1]}, "partition": {"shape": [1, 1]}}, f)
    if c.chance(10):
        # A result that is missing is an error
        c.label("missing result")
        path = c.pick(results)[1][3]
        os.rename(path, path + ".hidden")
        before = ldm.open_dataset(raw, "r").benchmark.meta_information.properties.names
        c.refused(lambda: s.task("import"), "importing results that are not complete")
        os.rename(path + ".hidden", path)
        if ldm.open_dataset(raw, "r").benchmark.meta_information.properties.names != before:
            c.fail("results that are not complete are imported partly")
    s.task("import")

    order = results if s.kind != "partition_shape" else sorted(results, key=lambda r: r[0])
    for path in [raw, result]:
        ldm.assert_is_valid(path, fail_on_warning=False)
        same_settings(c, s, path)
        lue_dataset = ldm.open_dataset(path, "r")
        check_meta(c, s, lue_dataset)
        check_measurement(c, s, lue_dataset, order)
    check = check_partitions if s.kind == "partition_shape" else check_scaling
    header, rows = check(c, s, ldm.open_dataset(result, "r"), order)
    check_queries(c, s, result, header, rows, order)

    if c.chance(25):
        # Importing again changes nothing, other than that what is missing is added
        c.label("import again")
        if c.boolean():
            os.remove(result)
        s.task("import")
        for path in [raw, result]:
            check_measurement(c, s, ldm.open_dataset(path, "r"), order)
        check(c, s, ldm.open_dataset(result, "r"), order)
    if len(results) > 2:
        c.nontrivial()


if __name__ == "__main__":
    raise SystemExit(pt.main([
        pt.Property(
            "Q04",
            "a case is an experiment of one of three kinds, on generated hardware, workers, shapes and scheduler, whose script is "
            "run with stand-ins for the scheduler and the program, and whose generated results are imported, exported and "
            "summarised; non-trivial if the program is run more than twice",
            q04, 160, 6000),
    ]))
