"""Property testing engine, for harnesses in Python. Works like engine/pt.cpp: a case is a function of a sequence of
bounded choices, which is recorded in memory shared with the parent process, so it survives the end of the process,
and shrunk by deleting, zeroing and minimising choices."""

import argparse
import ctypes
import hashlib
import json
import math
import mmap
import os
import shutil
import signal
import struct
import sys
import time
import traceback

M64 = (1 << 64) - 1
MAX_CHOICES = 1 << 17
MAX_NOTE = 1 << 16
MAX_MESSAGE = 1 << 13


class Failure(Exception):
    pass


class Discard(Exception):
    pass


def mix(x):
    x = (x + 0x9E3779B97F4A7C15) & M64
    x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & M64
    x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & M64
    return x ^ (x >> 31)


class Shared:
    """Memory shared between a worker and its parent"""

    def __init__(self):
        self.memory = mmap.mmap(-1, 8 * (8 + MAX_CHOICES) + MAX_NOTE + MAX_MESSAGE)
        self.words = (ctypes.c_uint64 * (8 + MAX_CHOICES)).from_buffer(self.memory)
        self.text = 8 * (8 + MAX_CHOICES)

    # 0: index of case, 1: number of choices, 2: outcome, 3: size of note, 4: size of message, 5: evaluations, 6: done

    def note(self, text):
        data = (text + "\n").encode("utf-8", "replace")
        size = self.words[3]
        data = data[: max(0, MAX_NOTE - size)]
        self.memory[self.text + size : self.text + size + len(data)] = data
        self.words[3] = size + len(data)

    def notes(self):
        return self.memory[self.text : self.text + self.words[3]].decode("utf-8", "replace")

    def set_message(self, text):
        data = text.encode("utf-8", "replace")[:MAX_MESSAGE]
        self.memory[self.text + MAX_NOTE : self.text + MAX_NOTE + len(data)] = data
        self.words[4] = len(data)

    def message(self):
        return self.memory[self.text + MAX_NOTE : self.text + MAX_NOTE + self.words[4]].decode("utf-8", "replace")

    def choices(self):
        return list(self.words[8 : 8 + self.words[1]])


class Case:
    def __init__(self, shared, seed, replay, scratch, thorough):
        self.shared = shared
        self.state = seed
        self.replay = replay
        self.scratch = scratch
        self.thorough = thorough
        self.position = 0
        self.is_nontrivial = False
        self.labels = set()
        words = shared.words
        words[1] = words[2] = words[3] = words[4] = 0

    def draw(self, bound):
        """An integer in [0, bound]"""
        choice = 0
        if self.replay is not None:
            if self.position < len(self.replay):
                choice = min(self.replay[self.position], bound)
        elif bound > 0:
            self.state = (self.state + 0x9E3779B97F4A7C15) & M64
            z = self.state
            z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
            z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
            choice = (z ^ (z >> 31)) % (bound + 1)
        if self.position >= MAX_CHOICES:
            raise Discard()
        self.shared.words[8 + self.position] = choice
        self.position += 1
        self.shared.words[1] = self.position
        return choice

    def integer(self, lo, hi):
        return lo + self.draw(hi - lo)

    def chance(self, percent):
        return self.draw(99) >= 100 - percent

    def boolean(self):
        return self.draw(1) == 1

    def pick(self, values):
        return values[self.draw(len(values) - 1)]

    def size(self, lo, hi):
        if lo == hi:
            return lo
        span = hi - lo
        if span > 8 and not self.chance(20):
            span = max(4, span // 8)
        return lo + self.draw(span)

    def any64(self):
        k = self.draw(7)
        if k <= 2:
            return self.draw(20)
        if k == 3:
            return self.draw(300)
        if k == 4:
            return ((1 << self.draw(63)) + self.draw(4) - 2) & M64
        if k == 5:
            return M64 - self.draw(4)
        return self.draw(M64)

    def float64(self):
        k = self.draw(9)
        if k <= 3:
            return float(self.draw(40) - 20)
        if k <= 5:
            return self.draw(1000000) / 997.0 - 300.0
        if k == 6:
            return self.pick([0.0, -0.0, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, math.inf, -math.inf])
        value = struct.unpack("d", struct.pack("Q", self.draw(M64)))[0]
        return 1.0 if math.isnan(value) else value

    def name(self, n=10):
        result = ""
        for _ in range(1 + self.size(0, n - 1)):
            c = chr(ord("a") + self.draw(25))
            if self.chance(10):
                c = self.pick("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
            result += c
        return result

    def note(self, *parts):
        self.shared.note("".join(str(p) for p in parts))

    def label(self, name):
        self.labels.add(name)

    def nontrivial(self):
        self.is_nontrivial = True

    def fail(self, message):
        raise Failure(message)

    def check(self, condition, message):
        if not condition:
            raise Failure(message() if callable(message) else message)

    def equal(self, actual, expected, what):
        if actual != expected:
            raise Failure(f"{what}: got {actual!r}, expected {expected!r}")

    def refused(self, function, what):
        try:
            function()
        except Exception as exception:
            return exception
        raise Failure(f"{what}: expected an error, but the operation succeeded")

    def discard(self):
        raise Discard()

    def path(self, name):
        return os.path.join(self.scratch, name)


class Property:
    def __init__(self, id, rule, run, quick, thorough, setup=None, probes=None):
        self.id = id
        self.rule = rule
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.setup = setup
        self.probes = probes or {}


def empty_directory(path):
    for entry in os.scandir(path):
        if entry.is_dir(follow_symlinks=False):
            shutil.rmtree(entry.path, ignore_errors=True)
        else:
            os.unlink(entry.path)


def run_case(run, shared, seed, replay, scratch, thorough):
    empty_directory(scratch)
    case = Case(shared, seed, replay, scratch, thorough)
    outcome = 1
    message = ""
    try:
        run(case)
    except Failure as failure:
        outcome = 2
        message = str(failure)
    except Discard:
        outcome = 3
    except BaseException:
        outcome = 2
        message = "unexpected exception: " + traceback.format_exc()[-3000:]
    shared.set_message(message)
    shared.words[2] = outcome
    return outcome, case


def redirect(path):
    fd = os.open(path, os.O_CREAT | os.O_TRUNC | os.O_WRONLY, 0o600)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)


def tail(path, n=1500):
    try:
        with open(path, "rb") as f:
            return f.read()[-n:].decode("ascii", "replace")
    except OSError:
        return ""


def wait(pid, timeout):
    """Exit status, or None if the process had to be ended"""
    start = time.monotonic()
    pause = 0.0005
    while True:
        r, status = os.waitpid(pid, os.WNOHANG)
        if r == pid:
            return status
        if time.monotonic() - start > timeout:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return None
        time.sleep(pause)
        pause = min(pause * 1.3, 0.01)


def describe(shared, status, stderr):
    outcome = dict(failed=False, kind="", message="", notes=shared.notes(), choices=shared.choices())
    if status is None:
        outcome.update(failed=True, kind="hang", message="the case does not end")
    elif os.WIFSIGNALED(status):
        outcome.update(failed=True, kind="crash", message=f"crash: signal {os.WTERMSIG(status)}; {tail(stderr)}")
    elif shared.words[2] == 2:
        outcome.update(failed=True, kind="failure", message=shared.message())
    elif shared.words[2] == 0:
        outcome.update(failed=True, kind="crash",
                       message=f"the process ended with exit code {os.WEXITSTATUS(status)}; {tail(stderr)}")
    return outcome


class Runner:
    def __init__(self, property, scratch, thorough):
        self.property = property
        self.scratch = scratch
        self.thorough = thorough
        self.shared = Shared()

    def forked(self, run, seed, replay, timeout):
        directory = os.path.join(self.scratch, "single")
        stderr = os.path.join(self.scratch, "single.err")
        os.makedirs(directory, exist_ok=True)
        for i in range(5):
            self.shared.words[i] = 0
        pid = os.fork()
        if pid == 0:
            try:
                redirect(stderr)
                os.chdir(directory)
                if self.property.setup:
                    self.property.setup()
                run_case(run, self.shared, seed, replay, directory, self.thorough)
            finally:
                os._exit(0)
        return describe(self.shared, wait(pid, timeout), stderr)

    def shrink(self, best, budget):
        start = time.monotonic()

        def left():
            return time.monotonic() - start < budget

        def attempt(candidate):
            nonlocal best
            if not left():
                return False
            outcome = self.forked(self.property.run, 0, candidate, 30)
            a, b = outcome["choices"], best["choices"]
            if outcome["failed"] and outcome["kind"] != "hang" and (len(a), a) < (len(b), b):
                best = outcome
                return True
            return False

        progress = True
        while progress and left():
            progress = False
            for n in [64, 32, 16, 8, 4, 3, 2, 1]:
                i = len(best["choices"])
                while i > 0 and left():
                    i -= 1
                    if i + n <= len(best["choices"]):
                        progress |= attempt(best["choices"][:i] + best["choices"][i + n :])
            i = 0
            while i < len(best["choices"]) and left():
                if best["choices"][i]:
                    candidate = list(best["choices"])
                    candidate[i] = 0
                    if attempt(candidate):
                        progress = True
                    else:
                        lo, hi = 0, best["choices"][i]
                        while hi - lo > 1 and left() and i < len(best["choices"]):
                            mid = (lo + hi) // 2
                            candidate = list(best["choices"])
                            candidate[i] = mid
                            if attempt(candidate):
                                progress = True
                                hi = mid
                            else:
                                lo = mid
                i += 1
        return best


def case_seed(seed, id, index):
    h = mix(seed)
    for c in id.encode():
        h = mix(h ^ c)
    return mix(h ^ mix(index))


def worker(property, shared, seed, begin, stride, nr_cases, scratch, thorough, deadline):
    """Runs in a process of its own"""
    directory = os.path.join(scratch, "cases")
    stderr = os.path.join(scratch, "cases.err")
    os.makedirs(directory, exist_ok=True)
    redirect(stderr)
    os.chdir(directory)
    if property.setup:
        property.setup()
    result = dict(hashes=set(), discards=0, labels={}, samples=[], out_of_time=False)

    for n, i in enumerate(range(begin, nr_cases, stride)):
        shared.words[0] = i
        shared.words[1] = shared.words[2] = 0
        if n % 8 == 0:
            os.ftruncate(2, 0)
            os.lseek(2, 0, os.SEEK_SET)
            if time.monotonic() > deadline:
                result["out_of_time"] = True
                break
        outcome, case = run_case(
            property.run, shared, case_seed(seed, property.id, i), None, directory, thorough)
        shared.words[5] += 1
        if outcome == 2:
            os._exit(1)
        if outcome == 3:
            result["discards"] += 1
        else:
            for l in case.labels:
                result["labels"][l] = result["labels"].get(l, 0) + 1
            if case.is_nontrivial:
                choices = shared.words[8 : 8 + shared.words[1]]
                result["hashes"].add(hashlib.blake2b(struct.pack(f"{len(choices)}Q", *choices), digest_size=8).hexdigest())
                if len(result["samples"]) < 3 and shared.words[3]:
                    result["samples"].append(shared.notes()[:3000])
    empty_directory(directory)
    result["hashes"] = sorted(result["hashes"])
    with open(os.path.join(scratch, "result.json"), "w") as f:
        json.dump(result, f)
    shared.words[6] = 1
    os._exit(0)


def main(properties):
    sys.setrecursionlimit(10000)
    parser = argparse.ArgumentParser()
    for name in ["id", "tier", "seed", "scratch", "out", "workers", "time", "cases", "replay", "probe"]:
        parser.add_argument("--" + name)
    args = parser.parse_args()
    property = next(p for p in properties if p.id == args.id)
    thorough = args.tier == "thorough"
    seed = int(args.seed or 1)
    scratch = args.scratch
    nr_workers = int(args.workers or 8)
    nr_cases = int(args.cases) if args.cases else property.thorough if thorough else property.quick
    runner = Runner(property, scratch, thorough)

    def write(value):
        with open(args.out, "w") as f:
            json.dump(value, f)

    if args.probe or args.replay:
        if args.probe:
            outcome = runner.forked(property.probes[args.probe], 0, [], 120)
        else:
            choices = [int(c) for c in open(args.replay).read().split()]
            outcome = runner.forked(property.run, 0, choices, 120)
        write(outcome)
        return 1 if outcome["failed"] else 0

    start = time.monotonic()
    deadline = start + float(args.time or 400)
    nr_workers = max(1, min(nr_workers, nr_cases))
    workers = []

    def launch(shared, directory, begin, nr_cases, deadline):
        os.makedirs(directory, exist_ok=True)
        pid = os.fork()
        if pid == 0:
            try:
                worker(property, shared, seed, begin, nr_workers, nr_cases, directory, thorough, deadline)
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
            os._exit(3)
        return pid

    for w in range(nr_workers):
        shared = Shared()
        directory = os.path.join(scratch, f"w{w}")
        pid = launch(shared, directory, w, nr_cases, deadline)
        workers.append(dict(shared=shared, directory=directory, pid=pid, last=-1, changed=time.monotonic()))

    failure = None
    failing = None
    while any(w["pid"] for w in workers):
        time.sleep(0.005)
        for i, w in enumerate(workers):
            if not w["pid"]:
                continue
            r, status = os.waitpid(w["pid"], os.WNOHANG)
            if r != w["pid"]:
                n = w["shared"].words[5]
                if n != w["last"]:
                    w["last"] = n
                    w["changed"] = time.monotonic()
                if time.monotonic() - w["changed"] <= 60:
                    continue
                os.kill(w["pid"], signal.SIGKILL)
                os.waitpid(w["pid"], 0)
                status = None
            w["pid"] = 0
            if not w["shared"].words[6] and failure is None:
                stderr = os.path.join(w["directory"], "cases.err")
                failure = describe(w["shared"], status, stderr)
                if not failure["failed"]:
                    failure.update(failed=True, kind="crash", message=f"worker ended early: {status}; {tail(stderr)}")
                failing = i
                for v in workers:
                    if v["pid"]:
                        os.kill(v["pid"], signal.SIGKILL)
                        os.waitpid(v["pid"], 0)
                        v["pid"] = 0

    reproduced = True
    batch = None
    if failure is not None:
        original = failure
        hang = failure["kind"] == "hang"
        limit = 60 if hang else 200
        for i in range(1 if hang else 3):
            again = runner.forked(property.run, 0, original["choices"], limit)
            reproduced = again["failed"]
            if not reproduced:
                break
            if i == 0:
                failure = again
        if reproduced:
            if not hang:
                failure = runner.shrink(failure, 40)
                for _ in range(3):
                    if not runner.forked(property.run, 0, failure["choices"], limit)["failed"]:
                        failure = original
        else:
            # The case depends on earlier ones in the same process: replay the run of the worker
            last = workers[failing]["shared"].words[0]
            for _ in range(3):
                shared = Shared()
                pid = launch(shared, workers[failing]["directory"], failing, last + 1, time.monotonic() + 1000)
                wait(pid, 250)
                reproduced = not shared.words[6]
                if not reproduced:
                    break
            failure = original
            batch = dict(worker=failing, workers=nr_workers, last=last, seed=seed)

    hashes = set()
    discards = 0
    labels = {}
    samples = []
    out_of_time = False
    for w in workers:
        try:
            result = json.load(open(os.path.join(w["directory"], "result.json")))
        except OSError:
            continue
        hashes.update(result["hashes"])
        discards += result["discards"]
        samples += result["samples"][: max(0, 6 - len(samples))]
        out_of_time |= result["out_of_time"]
        for k, v in result["labels"].items():
            labels[k] = labels.get(k, 0) + v
    write(dict(
        id=property.id, rule=property.rule, evaluations=sum(w["shared"].words[5] for w in workers), discards=discards,
        distinct_nontrivial=len(hashes), planned=nr_cases, out_of_time=out_of_time,
        wall_s=time.monotonic() - start, labels=labels, samples=samples, probes=list(property.probes),
        reproduced=reproduced, batch=batch, failure=failure,
    ))
    return 1 if failure is not None else 0
