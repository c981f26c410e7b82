"""Histories of calls on the same objects, which are changed in between.

A cell is a set of objects (arrays, structures, models, files), a few changes (an array is modified
in place, a model gets another degree of freedom, a file is rewritten) and a few calls. Every word of
changes and calls up to a length is executed on one set of objects; each call must return what it
returns in a process of its own in which the same changes but no calls were made before it.
"""

import os
import pickle
import traceback

import numpy as np

from mc import core


class Cell:
    def __init__(self, name, make, changes, calls, tol=1e-10):
        self.name, self.make, self.changes, self.calls, self.tol = name, make, changes, calls, tol


def same(a, b, tol):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and (
            bool(np.array_equal(a, b)) or (a.dtype.kind in "fc" and bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k], tol) for k in a)
    return type(a) is type(b) and a == b


def perform(call, objects):
    try:
        # through pickle: results are kept as they are now, whatever they share memory with
        return ["returned", pickle.loads(pickle.dumps(call(objects)))]
    except Exception as exc:  # pylint: disable=broad-except
        folder = str(core._SCRATCH[1]) if core._SCRATCH else "none"
        return ["raised", type(exc).__name__, str(exc).replace(folder, "")]


def in_own_process(function):
    receive, send = os.pipe()
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            os.close(receive)
            answer = pickle.dumps(function())
            with os.fdopen(send, "wb") as pipe:
                pipe.write(answer)
            status = 0
        except BaseException:  # pylint: disable=broad-except
            traceback.print_exc()
        finally:
            os._exit(status)
    os.close(send)
    with os.fdopen(receive, "rb") as pipe:
        answer = pipe.read()
    os.waitpid(pid, 0)
    if not answer:
        raise RuntimeError("process ended without an answer")
    return pickle.loads(answer)


_REFERENCES = {}


def reference(cell, changes, call):
    key = (cell.name, changes, call)
    if key not in _REFERENCES:
        def run():
            if core._SCRATCH:  # files of this process are kept apart from those of its parent
                folder = core._SCRATCH[1] / f"own {os.getpid()}"
                folder.mkdir()
                core._SCRATCH = (os.getpid(), folder)
            objects = cell.make()
            for change in changes:
                cell.changes[change](objects)
            return perform(cell.calls[call], objects)
        _REFERENCES[key] = in_own_process(run)
    return _REFERENCES[key]


def scenario(cells, depth):
    cells = {cell.name: cell for cell in cells}

    def histories(ch):
        cell = cells[ch.choose("objects", list(cells))]
        core.scratch()
        objects, changes = cell.make(), ()
        calls = [f"call {name}" for name in cell.calls]
        names = calls + [f"change {name}" for name in cell.changes]
        for k in range(depth):
            kind, name = ch.choose("then", calls if k == depth - 1 else names).split(" ", 1)
            ch.step()
            if kind == "change":
                cell.changes[name](objects)
                changes += (name,)
                continue
            got, want = perform(cell.calls[name], objects), reference(cell, changes, name)
            ch.check(same(got, want, cell.tol), lambda: f"{cell.name}: after {list(changes)} {name} gives\n{str(got)[:600]}\ninstead of\n{str(want)[:600]}")
        ch.observe(cell.name, changes, name)

    return histories


def tree(cells, tier):
    return core.Tree("in_place", scenario(cells, 3 if tier == "quick" else 4), shard_depth=3)


TEXT = "objects changed in place between calls: all words of 3 (thorough: 4) calls and changes"
