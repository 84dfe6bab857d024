"""Seeded search: generate specs, simulate each in a fork, shrink, report.

A *spec* is plain JSON and decides one simulated execution completely.  Spec
``i`` of a check is a pure function of (VERIF_SEED, property, i, tier); its
execution is a pure function of the spec and the code under test.  Every
execution happens in a process forked from the same pristine parent, so no
execution can see what another one left behind.
"""
import gc
import json
import os
import pickle
import random
import resource
import select
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

from boot import PKG, REAL

now = REAL["monotonic"]
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 60.0  # CPU seconds of one simulated execution (normally < 1)
WALL_LIMIT = 400.0


class Hang(BaseException):
    pass


class Report:
    """What one simulated execution showed."""

    def __init__(self):
        self.violations = []  # (key, message)
        self.fired = Counter()
        self.probes = Counter()
        self.runs = 0
        self.events = 0
        self.sim_time = 0.0
        self.states = set()
        self.nontrivial = False
        self.digests = []

    def violation(self, key, message):
        self.violations.append((key, str(message)[:2000]))

    def absorb(self, world, runs=1):
        self.fired.update(world.fired)
        self.events += world.seq
        self.sim_time += world.sim_elapsed
        self.runs += runs
        self.digests.append(world.history_digest())
        self.states.add(world.shape_digest())


def spec_rng(seed, ident, index):
    return random.Random(f"simkit|{seed}|{ident}|{index}")


def canonical(spec):
    """Specs are compared and executed in their JSON form."""
    return json.loads(json.dumps(spec))


def generate(check, seed, tier, index):
    return canonical(check.generate(spec_rng(seed, check.ID, index), tier, index))


def seed_everything(spec):
    import numpy as np

    np.random.seed(spec.get("np_seed", 12345) & 0xFFFFFFFF)
    random.seed(spec.get("py_seed", 54321))


def execute(check, spec):
    """Runs one spec in this process; returns a Report."""

    def on_alarm(signum, frame):
        raise Hang(f"no end after {CPU_LIMIT:.0f} s of CPU time")

    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, check.__dict__.get("CPU_LIMIT", CPU_LIMIT))
    try:
        seed_everything(spec)
        return check.execute(spec)
    except Hang as error:
        report = Report()
        report.violation("hang", f"the simulated execution does not end: {error}")
        return report
    except Exception as error:
        # An exception that the library raises where it should not is a
        # finding; one of the harness itself is an error of the check.
        frame = error.__traceback__
        inside = False
        while frame is not None:
            inside |= frame.tb_frame.f_code.co_filename.startswith(PKG)
            frame = frame.tb_next
        if not inside:
            raise
        report = Report()
        report.violation(
            f"exception:{type(error).__name__}", traceback.format_exc()
        )
        return report
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


# ------------------------------------------------------------ forked workers


class Farm:
    """Executes specs in freshly forked children, a few at a time."""

    def __init__(self, check, workers):
        self.check = check
        self.workers = workers
        self.longest = (0.0, -1)
        self.children = {}  # fd -> (pid, index, buffer, start)

    def launch(self, index, spec):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            status = 1
            try:
                os.close(r)
                for fd in list(self.children):
                    os.close(fd)
                try:
                    payload = ("ok", execute(self.check, spec))
                    data = pickle.dumps(payload)
                except BaseException:
                    data = pickle.dumps(("error", traceback.format_exc()))
                with os.fdopen(w, "wb") as stream:
                    stream.write(data)
                status = 0
            finally:
                os._exit(status)
        os.close(w)
        self.children[r] = (pid, index, [], now())

    def collect(self):
        """Waits for at least one child; yields (index, status, payload)."""
        done = []
        while not done and self.children:
            ready, _, _ = select.select(list(self.children), [], [], 1.0)
            for fd in ready:
                chunk = os.read(fd, 1 << 20)
                pid, index, buffer, start = self.children[fd]
                if chunk:
                    buffer.append(chunk)
                    continue
                os.close(fd)
                del self.children[fd]
                _, status = os.waitpid(pid, 0)
                self.longest = max(self.longest, (now() - start, index))
                data = b"".join(buffer)
                try:
                    kind, payload = pickle.loads(data)
                except Exception:
                    kind, payload = "error", f"child died with status {status}"
                done.append((index, kind, payload))
            for fd, (pid, index, buffer, start) in list(self.children.items()):
                if now() - start > WALL_LIMIT:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(fd)
                    del self.children[fd]
                    done.append((index, "error", "wall-clock limit of one execution"))
        return done

    def abort(self):
        for fd, (pid, *_rest) in list(self.children.items()):
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
            os.close(fd)
        self.children.clear()

    def map(self, specs, stop=None):
        """Yields (position, kind, payload) in completion order."""
        pending = list(enumerate(specs))
        pending.reverse()
        while pending or self.children:
            while pending and len(self.children) < self.workers:
                i, spec = pending.pop()
                self.launch(i, spec)
            for item in self.collect():
                yield item
            if stop is not None and stop():
                return


# ----------------------------------------------------------------- shrinking


def _paths(value, path=()):
    yield path, value
    if isinstance(value, dict):
        for key in sorted(value):
            yield from _paths(value[key], path + (key,))
    elif isinstance(value, list):
        for i, item in enumerate(value):
            yield from _paths(item, path + (i,))


def _replace(spec, path, new):
    if not path:
        return new
    if isinstance(spec, dict):
        copy = dict(spec)
    else:
        copy = list(spec)
    copy[path[0]] = _replace(spec[path[0]], path[1:], new)
    return copy


def _drop(spec, path):
    if len(path) == 1:
        copy = dict(spec)
        del copy[path[0]]
        return copy
    copy = dict(spec) if isinstance(spec, dict) else list(spec)
    copy[path[0]] = _drop(spec[path[0]], path[1:])
    return copy


def candidates(check, spec):
    """Simpler specs, the most promising ones first."""
    lists = getattr(check, "SHRINK_LISTS", ("faults", "ops", "history", "jumps", "tasks"))
    drops = getattr(check, "SHRINK_DROP", ("precond", "durations", "jumps", "search"))
    ints = getattr(check, "SHRINK_INTS", ("max_iterations", "nth", "length", "maxinner"))
    found = list(_paths(spec))
    for path, value in found:
        if path and path[-1] in lists and isinstance(value, list) and value:
            n = len(value)
            size = n
            while size >= 1:
                for i in range(0, n, size):
                    yield _replace(spec, path, value[:i] + value[i + size:])
                size //= 2
    for path, value in found:
        if path and path[-1] in drops and value is not None:
            yield _drop(spec, path)
    for path, value in found:
        if path and path[-1] == "problem" and isinstance(value, dict):
            for simple in (
                {"name": "euclidean", "shape": [1]},
                {"name": "euclidean", "shape": [2]},
                {"name": "sphere", "shape": [2]},
                {"name": "sphere", "shape": [3]},
            ):
                if value != simple and len(json.dumps(value)) >= len(json.dumps(simple)):
                    yield _replace(spec, path, simple)
    for path, value in found:
        if path and path[-1] == "deriv" and value != "euclidean":
            yield _replace(spec, path, "euclidean")
    for path, value in found:
        if path and path[-1] in ints and isinstance(value, int) and value > 0:
            for new in sorted({0, 1, 2, value // 2, value - 1}):
                if 0 <= new < value:
                    yield _replace(spec, path, new)
    for path, value in found:
        if path and path[-1] == "options" and isinstance(value, dict):
            for key in sorted(value):
                yield _drop(spec, path + (key,))
    more = getattr(check, "shrink", None)
    if more is not None:
        yield from more(spec)


def shrink(check, spec, key, workers, seconds):
    end = now() + seconds
    steps = 0
    improved = True
    while improved and now() < end:
        improved = False
        seen = set()
        batch = []
        for candidate in candidates(check, spec):
            candidate = canonical(candidate)
            form = json.dumps(candidate, sort_keys=True)
            if form in seen or candidate == spec:
                continue
            seen.add(form)
            batch.append(candidate)
        for start in range(0, len(batch), workers):
            if now() > end:
                break
            group = batch[start:start + workers]
            good = set()
            farm = Farm(check, workers)
            for i, kind, payload in farm.map(group):
                steps += 1
                if kind == "ok" and any(k == key for k, _ in payload.violations):
                    good.add(i)
            if good:
                spec = group[min(good)]
                improved = True
                break
    return spec, steps


# ------------------------------------------------------------------ the check


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as stream:
        data = json.load(stream)
    return [f for f in data.get("findings", []) if f["property"] == prop]


def is_known(known, key, message):
    for finding in known:
        if finding["key"] == key and finding.get("match", "") in message:
            return finding
    return None


def run_check(check, *, seed, tier, workers=None, count=None, shrink_seconds=60):
    workers = workers or min(8, os.cpu_count() or 1)
    started = now()
    total = count or check.COUNT[tier]
    budget = check.BUDGET[tier] if hasattr(check, "BUDGET") else (
        330.0 if tier == "quick" else 780.0
    )
    known = load_known(check.ID)
    gc.freeze()

    merged = Report()
    shapes = set()
    nontrivial = set()
    errors = []
    failures = {}  # index -> (key, message)
    known_hits = {}
    samples = []
    evaluated = 0
    next_index = 0
    farm = Farm(check, workers)
    specs = {}
    lowest = None
    while True:
        while (
            next_index < total
            and len(farm.children) < workers
            and (lowest is None or next_index < lowest)
            and now() - started < budget
        ):
            spec = generate(check, seed, tier, next_index)
            specs[next_index] = spec
            farm.launch(next_index, spec)
            next_index += 1
        if not farm.children:
            break
        for index, kind, payload in farm.collect():
            spec = specs.pop(index)
            if kind != "ok":
                errors.append((index, payload))
                continue
            evaluated += 1
            report = payload
            merged.fired.update(report.fired)
            merged.probes.update(report.probes)
            merged.runs += report.runs
            merged.events += report.events
            merged.sim_time += report.sim_time
            shapes.update(report.states)
            if report.nontrivial:
                nontrivial.add(tuple(sorted(report.states)))
                if len(samples) < 3 or (index < 200 and len(samples) < 6):
                    samples.append({"index": index, "spec": spec, "fired": dict(report.fired)})
            for key, message in report.violations:
                finding = is_known(known, key, message)
                if finding is not None:
                    known_hits[finding["id"]] = finding
                    continue
                failures.setdefault(index, (key, message, spec))
        if failures:
            lowest = min(failures)
        if len(errors) > 3:
            break
    farm.abort()
    wall = now() - started

    result = 0
    lines = []
    for ident in sorted(known_hits):
        lines.append(
            f"KNOWN-FINDING: property={check.ID} {known_hits[ident]['what']}"
        )
    violation = None
    if failures:
        lowest = min(failures)
        key, message, spec = failures[lowest]
        violation = report_violation(
            check, seed, tier, lowest, key, message, spec, workers, shrink_seconds
        )
        if violation is None:
            errors.append((lowest, f"not reproducible: {key}: {message}"))
        else:
            lines.append(violation)
            result = 1
    write_evidence(
        check, seed, tier, merged, shapes, nontrivial, samples, evaluated,
        wall, workers, 1 if violation else 0, total, known_hits,
    )
    for line in lines:
        print(line, flush=True)
    if result == 0 and errors:
        for index, text in errors[:3]:
            print(f"ERROR in execution {index}:\n{text}", file=sys.stderr)
        return 2
    if result == 0:
        print(
            f"OK property={check.ID} seed={seed} tier={tier}: {evaluated} simulated "
            f"executions, {merged.runs} runs, {merged.events} events, "
            f"{len(shapes)} distinct histories, {wall:.1f} s "
            f"(longest {farm.longest[0]:.1f} s: {farm.longest[1]})", flush=True,
        )
    return result


def run_sh():
    return os.path.join(VERIF, "run.sh")


def report_violation(check, seed, tier, index, key, message, spec, workers, seconds):
    steps = 0
    small = spec
    if key != "hang" and seconds > 0:
        try:
            small, steps = shrink(check, spec, key, workers, seconds)
        except Exception:
            traceback.print_exc()
    folder = os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    for attempt in ((small, spec) if small != spec else (spec,)):
        final = describe(check, attempt, key) or (message, [])
        path = os.path.join(folder, f"{check.ID}-seed{seed}-{index}.json")
        data = {
            "property": check.ID,
            "verif_seed": seed,
            "tier": tier,
            "index": index,
            "key": key,
            "message": final[0],
            "shrink_executions": steps,
            "spec": attempt,
            "original_spec": spec,
        }
        with open(path, "w") as stream:
            json.dump(data, stream, indent=1, sort_keys=True)
            stream.write("\n")
        proc = subprocess.run(
            [run_sh(), "replay", path], capture_output=True, text=True,
            env=dict(os.environ),
        )
        if proc.returncode == 1 and f"key={key}" in proc.stdout:
            relative = os.path.relpath(path, VERIF)
            print(f"{check.ID}: {key}: {final[0]}", flush=True)
            return f"VIOLATION property={check.ID} replay={relative}"
        print(
            f"replay of {path} ended with {proc.returncode}:\n"
            f"{proc.stdout}{proc.stderr}", file=sys.stderr,
        )
    return None


def describe(check, spec, key):
    farm = Farm(check, 1)
    for _, kind, payload in farm.map([spec]):
        if kind == "ok":
            for k, message in payload.violations:
                if k == key:
                    return message, []
    return None


def replay(check, path):
    with open(path) as stream:
        data = json.load(stream)
    farm = Farm(check, 1)
    for _, kind, payload in farm.map([data["spec"]]):
        if kind != "ok":
            print(payload, file=sys.stderr)
            return 2
        for key, message in payload.violations:
            if key == data["key"]:
                print(f"replayed key={key}: {message}")
                print(f"VIOLATION property={check.ID} replay={path}")
                return 1
        print(f"property={check.ID}: the recorded violation does not occur")
        for key, message in payload.violations:
            print(f"other: key={key}: {message}")
    return 0


def write_evidence(
    check, seed, tier, merged, shapes, nontrivial, samples, evaluated, wall,
    workers, violations, total, known_hits,
):
    folder = os.path.join(VERIF, "evidence")
    os.makedirs(folder, exist_ok=True)
    hours = max(wall, 1e-9) / 3600
    coverage = {
        "evaluations": evaluated,
        "distinct_nontrivial": len(nontrivial),
        "rule": check.RULE,
        "samples": sorted(samples, key=lambda s: s["index"])[:3],
        "planned_executions": total,
        "simulated_optimizer_runs": merged.runs,
        "simulated_events": merged.events,
        "executions_per_hour": round(evaluated / hours),
        "seeds_per_hour": round(evaluated / hours),
        "simulated_runs_per_hour": round(merged.runs / hours),
        "simulated_seconds": round(merged.sim_time, 3),
        "faults_fired": dict(sorted(merged.fired.items())),
        "probes": dict(sorted(merged.probes.items())),
        "distinct_histories": len(shapes),
        "distinct_histories_measure": (
            "digest of the ordered sequence of callback kinds, task tags and "
            "fired faults of a simulated history"
        ),
        "workers": workers,
        "real_components": check.REAL,
        "stub_components": check.STUB,
        "known_findings_hit": sorted(known_hits),
    }
    data = {
        "property": check.ID,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": check.ASSUMPTIONS,
        "wall_s": round(wall, 3),
        "violations": violations,
    }
    path = os.path.join(folder, f"{check.ID}.json")
    tmp = f"{path}.{os.getpid()}"
    with open(tmp, "w") as stream:
        json.dump(data, stream, indent=1)
        stream.write("\n")
    os.replace(tmp, path)
