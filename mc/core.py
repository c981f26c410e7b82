"""Explorers, evidence and violation reporting shared by all checks.

Three explorers are provided. All of them run the *real* code imported from /repo:

``Tree``   stateless choice-tree exploration. A scenario is an ordinary function which asks
           ``ch.choose(name, options)`` wherever something can go one way or another (an
           operation of a history, an argument, an environment answer, a fault). Every
           combination of answers is executed; an execution is identified by its labels.
``Graph``  explicit-state breadth-first search. A state is the event history reaching it; the
           real object is rebuilt by replaying the history, its canonical form is hashed, and
           each transition is compared with a reference model.
``points`` line-event fault/interleaving enumeration: an environment action (or an exception)
           is injected at every line event of a call, one execution per point.
"""

from __future__ import annotations

import collections
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import threading
import time
import traceback
import warnings
import zlib
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
LEAF_TIMEOUT = 120
MAX_REPORTED = 8


class Violation(Exception):
    """The property does not hold for the current execution."""


class Skip(Exception):
    """Prune the current execution: it is outside the bounded space."""


class Timeout(BaseException):
    """The code under test gave no answer."""


def _alarm(_signum, _frame):
    raise Timeout()


def canon(value, digits=9):
    """Canonical, hashable rendering of an observation."""
    import numpy as np

    if isinstance(value, np.ndarray):
        if value.dtype.kind in "fc":
            with np.errstate(all="ignore"):
                value = np.round(value.astype(float), digits) + 0.0
        return ("a", value.shape, value.tobytes())
    if isinstance(value, (float, np.floating)):
        return round(float(value), digits) + 0.0
    if isinstance(value, dict):
        return tuple(sorted((str(k), canon(v, digits)) for k, v in value.items()))
    if isinstance(value, (list, tuple)):
        return tuple(canon(v, digits) for v in value)
    return str(value)


def digest(*values) -> str:
    return hashlib.blake2b(repr(canon(values)).encode(), digest_size=10).hexdigest()


class Chooser:
    """Answers the choices of one execution."""

    def __init__(self, prefix, shard=None, forced=None):
        self.prefix = prefix
        self.taken = []  # (index, number of options)
        self.labels = []
        self.shard = shard
        self.forced = forced  # labels to replay
        self.observed = None
        self.checks = 0
        self.transitions = 0

    def choose(self, name, options):
        """Choose one of the options: a dict label->value, or a list of values."""
        if isinstance(options, dict):
            items = list(options.items())
        else:
            items = [(_label(o), o) for o in options]
        if not items:
            raise Skip()
        depth = len(self.taken)
        if self.forced is not None:
            want = self.forced[depth]
            full = [f"{name}={label}" for label, _ in items]
            if want not in full:
                raise RuntimeError(f"replay diverged: {want!r} not among {full}")
            index = full.index(want)
        elif depth < len(self.prefix):
            index = self.prefix[depth]
            if index >= len(items):
                raise RuntimeError(f"replay diverged at choice {depth} ({name})")
        else:
            index = 0
        self.taken.append((index, len(items)))
        self.labels.append(f"{name}={items[index][0]}")
        if self.shard is not None and len(self.taken) == self.shard[2]:
            key = zlib.crc32(repr([t[0] for t in self.taken]).encode())
            if key % self.shard[1] != self.shard[0]:
                raise Skip()
        return items[index][1]

    def flag(self, name):
        return self.choose(name, {"no": False, "yes": True})

    def check(self, condition, message):
        self.checks += 1
        if not condition:
            raise Violation(message() if callable(message) else message)

    def step(self, count=1):
        """Count a transition (one operation performed on the real code)."""
        self.transitions += count

    def observe(self, *values):
        """Record what this execution observed (makes it non-trivial)."""
        self.observed = digest(self.observed, *values)


def _label(option):
    text = str(option)
    return text if len(text) <= 80 else text[:60] + "#" + digest(text)[:8]


class Result:
    def __init__(self):
        self.executions = 0
        self.skipped = 0
        self.checks = 0
        self.transitions = 0
        self.distinct = set()
        self.states = set()
        self.traces = 0
        self.samples = []
        self.violations = []  # dicts
        self.caps = []
        self.notes = {}

    def merge(self, other):
        self.executions += other.executions
        self.skipped += other.skipped
        self.checks += other.checks
        self.transitions += other.transitions
        self.distinct |= other.distinct
        self.states |= other.states
        self.traces += other.traces
        self.samples = (self.samples + other.samples)[:6]
        self.violations += other.violations
        self.caps += other.caps
        for k, v in other.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v

    def violate(self, key, message, trace=None, replay=None):
        self.violations.append(
            {"key": key, "message": str(message)[:2000], "trace": trace, "replay": replay}
        )


def _site():
    """Short rendering of the current exception, innermost frames last."""
    return traceback.format_exc()[-3000:]


def run_leaf(scenario, name, chooser, result):
    """Run one execution, recording its outcome. Returns False if it was skipped."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, LEAF_TIMEOUT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            scenario(chooser)
        signal.setitimer(signal.ITIMER_REAL, 0)
    except Skip:
        signal.setitimer(signal.ITIMER_REAL, 0)
        result.skipped += 1
        return False
    except Violation as exc:
        signal.setitimer(signal.ITIMER_REAL, 0)
        message, trace = str(exc), None
    except Timeout:
        message, trace = f"no answer within {LEAF_TIMEOUT} s", None
    except Exception as exc:  # the code under test failed on a valid input
        signal.setitimer(signal.ITIMER_REAL, 0)
        message = f"unexpected {type(exc).__name__}: {exc}"
        trace = _site()
    else:
        message = None
    result.executions += 1
    result.checks += chooser.checks
    result.transitions += chooser.transitions
    if message is not None:
        key = f"{name}/" + "/".join(chooser.labels)
        result.violate(key, message, trace, {"scenario": name, "labels": chooser.labels})
    if chooser.observed is not None:
        result.distinct.add(chooser.observed)
    if len(result.samples) < 6 and result.executions in (1, 2, 7, 50, 300, 1000):
        result.samples.append(f"{name}/" + "/".join(chooser.labels))
    return True


def explore_tree(scenario, name, shard=None, limit_violations=200):
    """Run every execution of a scenario (of one shard of it)."""
    result = Result()
    prefix = []
    while prefix is not None:
        chooser = Chooser(prefix, shard)
        run_leaf(scenario, name, chooser, result)
        if shard is not None and len(chooser.taken) < shard[2] and chooser.taken:
            # fewer choices than the shard depth: executed once per shard, count it in one
            pass
        taken = chooser.taken
        while taken and taken[-1][0] + 1 >= taken[-1][1]:
            taken.pop()
        if not taken:
            prefix = None
        else:
            prefix = [t[0] for t in taken[:-1]] + [taken[-1][0] + 1]
        if len(result.violations) >= limit_violations:
            result.caps.append(f"{name}: stopped after {limit_violations} violations")
            break
    return result


class Tree:
    """A choice-tree scenario, optionally split over processes."""

    def __init__(self, name, scenario, shard_depth=1, procs=None):
        self.name, self.scenario = name, scenario
        self.shard_depth, self.procs = shard_depth, procs

    def jobs(self, procs):
        n = self.procs or procs
        if n == 1:
            return [(self._run, (None,))]
        return [(self._run, ((i, n, self.shard_depth),)) for i in range(n)]

    def _run(self, shard):
        return explore_tree(self.scenario, self.name, shard)

    def replay(self, replay):
        result = Result()
        run_leaf(self.scenario, self.name, Chooser([], forced=replay["labels"]), result)
        return result


class Graph:
    """Explicit-state search over the histories of a real object.

    ``build()`` makes a fresh (real, model) pair; ``events(model)`` gives the labels of the
    enabled events; ``apply(real, model, label)`` performs the event on both and raises
    Violation if they disagree; ``state(real, model)`` gives the canonical state.
    """

    def __init__(self, name, build, events, apply, state, depth, roots=(None,)):
        self.name, self.build, self.events = name, build, events
        self.apply, self.state, self.depth, self.roots = apply, state, depth, roots

    def jobs(self, _procs):
        return [(self._run, (root,)) for root in self.roots]

    def _rebuild(self, root, history):
        real, model = self.build(root)
        for label in history:
            self.apply(real, model, label)
        return real, model

    def _try(self, root, history, result):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, LEAF_TIMEOUT)
        message = trace = state = model = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                real, model = self._rebuild(root, history)
                state = self.state(real, model)
        except Violation as exc:
            message = str(exc)
        except Timeout:
            message = f"no answer within {LEAF_TIMEOUT} s"
        except Exception as exc:
            message, trace = f"unexpected {type(exc).__name__}: {exc}", _site()
        signal.setitimer(signal.ITIMER_REAL, 0)
        result.executions += 1
        if message is not None:
            key = f"{self.name}/{root}/" + "/".join(history)
            result.violate(
                key, message, trace, {"scenario": self.name, "root": root, "labels": history}
            )
            return None, None
        return digest(state), model

    def _run(self, root):
        result = Result()
        start, model = self._try(root, [], result)
        if start is None:
            return result
        seen = {start}
        frontier = collections.deque([([], model)])
        deepest = 0
        while frontier:
            history, model = frontier.popleft()
            if len(history) >= self.depth:
                continue
            for label in self.events(model):
                result.transitions += 1
                longer = history + [label]
                key, next_model = self._try(root, longer, result)
                if key is None:
                    if len(result.violations) >= 50:
                        result.caps.append(f"{self.name}: stopped after 50 violations")
                        return result
                    continue
                result.traces += 1
                deepest = max(deepest, len(longer))
                if key not in seen:
                    seen.add(key)
                    frontier.append((longer, next_model))
                    if len(result.samples) < 4 and len(longer) == self.depth:
                        result.samples.append(f"{self.name}/{root}/" + "/".join(longer))
        result.states |= {f"{self.name}/{root}/{s}" for s in seen}
        result.distinct |= {f"{self.name}/{root}/{s}" for s in seen}
        result.notes[f"max_depth[{self.name}/{root}]"] = deepest
        return result

    def replay(self, replay):
        result = Result()
        self._try(replay["root"], replay["labels"], result)
        return result


# --------------------------------------------------------------------------- scratch files
_SCRATCH = None


def scratch() -> Path:
    """An empty directory private to this process, removed when it ends."""
    global _SCRATCH
    if _SCRATCH is None or _SCRATCH[0] != os.getpid():
        import multiprocessing.util
        import shutil
        import tempfile

        path = tempfile.mkdtemp(prefix="ramanmc.", dir="/dev/shm" if os.access(
            "/dev/shm", os.W_OK) else None)
        multiprocessing.util.Finalize(None, shutil.rmtree, args=(path, True), exitpriority=1)
        _SCRATCH = (os.getpid(), Path(path))
    for entry in _SCRATCH[1].iterdir():
        if entry.is_dir() and not entry.is_symlink():
            import shutil

            shutil.rmtree(entry)
        else:
            entry.unlink()
    return _SCRATCH[1]


# --------------------------------------------------------------------------- line events
class Points:
    """Count the line events of a call inside given files, and act at one of them."""

    def __init__(self, prefix, action=None, at=None):
        self.prefix, self.action, self.at = prefix, action, at
        self.count = 0
        self.where = None

    def _trace(self, frame, event, _arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        if event == "line":
            if self.count == self.at:
                self.where = f"{Path(frame.f_code.co_filename).name}:{frame.f_lineno}"
                self.count += 1
                sys.settrace(None)
                try:
                    self.action()
                finally:
                    sys.settrace(self._trace)
                return self._trace
            self.count += 1
        return self._trace

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._trace)
        return self

    def __exit__(self, *_exc):
        sys.settrace(self._old)
        return False


# --------------------------------------------------------------------------- interleavings
class Interleaved:
    """Run two calls in two threads under a controlled scheduler.

    Scheduling points are the line events inside files below ``prefix`` and the audit events of
    the operations on files. ``first`` runs alone until its ``p``-th point, then ``second`` until
    its ``q``-th point, then ``first`` to its end, then ``second`` to its end (two preemptions;
    fewer if a thread ends before). ``p`` or ``q`` None: until the end.
    """

    EVENTS = {"open", "os.rename", "os.link", "os.remove", "os.truncate", "os.symlink"}
    _active = None
    _hooked = False

    def __init__(self, prefix, first, second, p, q):
        self.prefix, self.calls, self.limits = prefix, (first, second), [p, q]
        self.counts = [0, 0]
        self.outcomes = [None, None]
        self.done = [False, False]
        self.turn = [threading.Semaphore(0), threading.Semaphore(0)]
        self.ids = {}
        if not Interleaved._hooked:
            Interleaved._hooked = True
            sys.addaudithook(Interleaved._audit)

    @staticmethod
    def _audit(event, _args):
        active = Interleaved._active
        if active is not None and event in Interleaved.EVENTS:
            index = active.ids.get(threading.get_ident())
            if index is not None:
                active._point(index)

    def _point(self, index):
        if self.counts[index] == self.limits[index]:
            self.counts[index] += 1
            other = 1 - index
            if not self.done[other]:
                self.turn[other].release()
                self.turn[index].acquire()
            return
        self.counts[index] += 1

    def _trace(self, frame, event, _arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        if event == "line":
            self._point(self.ids[threading.get_ident()])
        return self._trace

    def _thread(self, index):
        self.turn[index].acquire()
        self.ids[threading.get_ident()] = index
        sys.settrace(self._trace)
        try:
            self.outcomes[index] = ("returned", self.calls[index]())
        except Exception as exc:  # pylint: disable=broad-except
            self.outcomes[index] = ("raised", exc)
        finally:
            sys.settrace(None)
            self.ids.pop(threading.get_ident())
            self.done[index] = True
            self.turn[1 - index].release()

    def run(self):
        threads = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in (0, 1)]
        for thread in threads:
            thread.start()
        Interleaved._active = self
        self.turn[0].release()
        try:
            for thread in threads:
                thread.join()
        finally:
            Interleaved._active = None
        return self.outcomes


# --------------------------------------------------------------------------- known findings
def known_findings(prop):
    """Keys of the recorded (unrepaired) findings of a property."""
    found = {}
    path = VERIF / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith("known: "):
                fields = line[len("known: ") :].split(" ", 2)
                if fields[0] == f"property={prop}":
                    assert fields[1].startswith("key="), line
                    found[fields[1][4:]] = fields[2] if len(fields) > 2 else ""
    return found


# --------------------------------------------------------------------------- driver
def _worker(queue, index, function, args):
    try:
        queue.put((index, function(*args)))
    except BaseException:  # harness error: report it as such
        queue.put((index, traceback.format_exc()))


def run_jobs(jobs, procs):
    """Run jobs in forked processes, at most procs at a time."""
    context = multiprocessing.get_context("fork")
    results, errors = [None] * len(jobs), []
    pending = list(range(len(jobs)))
    running = {}
    queue = context.Queue()
    if procs == 1:
        for index, (function, args) in enumerate(jobs):
            results[index] = function(*args)
        return results, errors
    while pending or running:
        while pending and len(running) < procs:
            index = pending.pop(0)
            process = context.Process(target=_worker, args=(queue, index, *jobs[index]))
            process.start()
            running[index] = process
        try:
            index, value = queue.get(timeout=0.2)
            running.pop(index).join()
            if isinstance(value, str):
                errors.append(value)
            else:
                results[index] = value
        except Exception:
            for index, process in list(running.items()):
                if not process.is_alive() and queue.empty():
                    process.join(0.5)
                    if queue.empty():
                        running.pop(index)
                        crash = Result()
                        crash.violate(
                            f"crash/{index}",
                            f"process ended with exit code {process.exitcode} while "
                            "exploring",
                        )
                        results[index] = crash
    return results, errors


def main(module, argv):
    """Run one check and return its exit status."""
    prop = module.PROPERTY
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    scenarios = module.scenarios(tier)
    if "--replay" in argv:
        replay = json.loads(Path(argv[argv.index("--replay") + 1]).read_text())["replay"]
        by_name = {s.name: s for s in scenarios}
        result = by_name[replay["scenario"]].replay(replay)
        for violation in result.violations:
            print(f"replayed: {violation['key']}\n{violation['message']}")
            print(violation["trace"] or "")
        print("replay: property " + ("VIOLATED" if result.violations else "held"))
        return 1 if result.violations else 0
    procs = int(os.environ.get("VERIF_PROCS", "0") or 0) or min(8, os.cpu_count() or 1)
    procs = min(procs, getattr(module, "PROCS", 8))
    if "--serial" in argv:
        procs = 1
    jobs, owners = [], []
    for scenario in scenarios:
        for job in scenario.jobs(procs):
            jobs.append(job)
            owners.append(scenario.name)
    results, errors = run_jobs(jobs, procs)
    if errors:
        print("HARNESS ERROR\n" + "\n".join(errors), file=sys.stderr)
        return 2
    total, per = Result(), {}
    for name, result in zip(owners, results):
        total.merge(result)
        entry = per.setdefault(name, [0, 0])
        entry[0] += result.executions
        entry[1] += len(result.distinct)

    known = known_findings(prop)
    reported, seen_known = [], {}
    for violation in total.violations:
        if violation["key"] in known:
            seen_known[violation["key"]] = violation
        else:
            reported.append(violation)
    for key in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {key}: {known[key]}")
    replay_dir = VERIF / "replays" / prop
    for old in sorted(replay_dir.glob("*.json")) if replay_dir.exists() else []:
        old.unlink()
    reported.sort(key=lambda v: (len(v["key"].split("/")), len(v["key"]), v["key"]))
    for number, violation in enumerate(reported[:MAX_REPORTED]):
        replay_dir.mkdir(parents=True, exist_ok=True)
        path = replay_dir / f"{number}.json"
        path.write_text(json.dumps({"property": prop, "tier": tier, **violation}, indent=1))
        print(f"  {violation['key']}\n    {violation['message'][:600]}")
        if violation["trace"]:
            print("    " + violation["trace"].strip().splitlines()[-1][:300])
        print(f"VIOLATION property={prop} replay={path}", flush=True)
    if len(reported) > MAX_REPORTED:
        print(f"  ... and {len(reported) - MAX_REPORTED} more violating executions")

    level = module.LEVEL
    coverage = {
        "samples": total.samples[:6] or ["none"],
        "per_scenario_executions": {k: v[0] for k, v in per.items()},
        "property_checks": total.checks,
        "exhaustive": not total.caps,
        "bounds": module.BOUNDS + ("; " + sys.modules["mc.histories"].TEXT if hasattr(module, "in_place") else ""),
    }
    if total.caps:
        coverage["caps_hit"] = total.caps
    coverage.update(total.notes)
    if level == "model_checking":
        coverage.update(
            states=len(total.states | total.distinct),
            transitions=total.transitions,
            traces_validated_against_impl=total.traces or total.executions,
        )
        coverage["how_bound_to_code"] = (
            "every transition is executed on the real object imported from /repo and its "
            "observable state compared with the reference model"
        )
    else:
        coverage.update(
            evaluations=total.executions,
            distinct_nontrivial=len(total.distinct),
            rule=module.RULE,
        )
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": module.ASSUMPTIONS,
        "wall_s": round(time.time() - start, 2),
        "violations": len(reported),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1))
    print(
        f"{prop} [{tier}] executions={total.executions} distinct={len(total.distinct)} "
        f"states={len(total.states)} transitions={total.transitions} "
        f"checks={total.checks} violations={len(reported)} known={len(seen_known)} "
        f"wall={time.time() - start:.1f}s"
    )
    return 1 if reported else 0
