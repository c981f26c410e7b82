"""C33: what does not need an optional package works without it, the rest says what is missing."""

import itertools
import json
import os
import subprocess
import sys
from pathlib import Path

import numpy as np

from mc import ref
from mc.core import Tree, scratch

PROPERTY = "C33"
LEVEL = "model_checking"
RULE = "choice-tree enumeration; every execution is a process with some packages missing, in which all steps are taken twice, in an order beginning with a chosen one"
BOUNDS = (
    "all 8 combinations of missing torch, torch_geometric and pymatgen x each of 20 steps first (imports, models, spectra, files, "
    "datasets, networks, pymatgen routes), every step taken twice"
)
ASSUMPTIONS = ["a package that is not installed cannot be found by the import system"]

SCRIPT = Path(__file__).resolve().parent.parent / "mc" / "environment.py"
OPTIONAL = ["torch", "torch_geometric", "pymatgen"]
NEEDS = {
    "import pmodel.torch": {"torch", "torch_geometric"}, "network": {"torch", "torch_geometric"},
    "import dataset.torch": {"torch"}, "OUTCAR dataset": {"torch"}, "vasprun dataset": {"torch"}, "generic dataset": {"torch"},
    "dataset": {"torch"}, "tensor conversion": {"torch"}, "pymatgen dataset": {"torch", "pymatgen"},
    "import io.pymatgen": {"pymatgen"}, "pymatgen structures": {"pymatgen"}, "pymatgen trajectory": {"pymatgen"},
    "interpolation from pymatgen": {"pymatgen"}, "ART from pymatgen": {"pymatgen"},
}
STEPS = [
    "import ramannoodle", "import pmodel.torch", "import dataset.torch", "import io.pymatgen", "models", "spectra", "files", "generic",
    "displaced structures", "OUTCAR dataset", "vasprun dataset", "generic dataset", "dataset", "tensor conversion", "network",
    "pymatgen structures", "pymatgen trajectory", "pymatgen dataset", "interpolation from pymatgen", "ART from pymatgen",
]


def run(blocked, first):
    folder = scratch()
    lattice, numbers, positions = np.diag([4.0, 5.0, 6.0]), [22, 8, 38], np.array([[0.1, 0.2, 0.3], [0.6, 0.5, 0.8], [0.3, 0.9, 0.55]])
    tensor = ref.sym((), 4, 2.0)
    modes = [(100.0 + 50 * k, ref.fill((3, 3), k)) for k in range(9)]
    frames = [positions + ref.fill((3, 3), 20 + k, 0.01) for k in range(3)]
    for name, text in {
        "OUTCAR": ref.outcar(lattice, numbers, positions, polarizability=tensor, phonons=modes),
        "vasprun.xml": ref.vasprun(lattice, numbers, positions, polarizability=tensor, phonons=modes),
        "MD_OUTCAR": ref.outcar(lattice, numbers, positions, frames=frames),
        "MD_vasprun.xml": ref.vasprun(lattice, numbers, positions, frames=frames),
    }.items():
        (folder / name).write_text(text)
    environment = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONPATH": ""}
    done = subprocess.run(
        [sys.executable, str(SCRIPT), ",".join(blocked), first, str(folder)], capture_output=True, text=True, timeout=110, env=environment, cwd=folder)
    lines = [line for line in done.stdout.splitlines() if line.startswith("OUTCOMES ")]
    return json.loads(lines[-1][9:]) if lines else done.stderr[-800:]


def same(got, want):
    return len(got) == len(want) and all(
        g == w if isinstance(w, str) else abs(g - w) <= 1e-6 * (1 + abs(w)) for g, w in zip(got, want))


_COMPLETE = {}


def missing(ch):
    blocked = ch.choose("missing", {"+".join(c) or "nothing": c for k in range(4) for c in itertools.combinations(OPTIONAL, k)})
    first = ch.choose("first", STEPS)
    if not _COMPLETE:
        _COMPLETE["outcomes"] = run((), "import ramannoodle")
    complete, outcomes = _COMPLETE["outcomes"], run(blocked, first)
    ch.check(isinstance(complete, list), lambda: f"no outcome: {complete}")
    ch.check(isinstance(outcomes, list), lambda: f"no outcome: {outcomes}")
    want = {name: (status, value) for name, status, value in complete}
    ch.step(len(outcomes))
    for k, (name, status, value) in enumerate(outcomes):
        when = "again" if k >= len(STEPS) else "first"
        ch.check(want[name][0] == "ok", lambda: f"{name} fails with all packages: {want[name][1]}")
        lacking = NEEDS.get(name, set()) & set(blocked)
        if lacking:
            ch.check(status == "UserError", lambda: f"{name} ({when} time) without {sorted(lacking)}: {status} {value}")
        else:
            ch.check(status == "ok", lambda: f"{name} ({when} time): {value}")
            ch.check(same(value, want[name][1]), lambda: f"{name} ({when} time) gives another result")
    ch.observe([(n, s) for n, s, _ in outcomes])


def scenarios(tier):
    return [Tree("missing", missing, shard_depth=2)]
