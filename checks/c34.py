"""C34: one-sided degrees of freedom are reported by a warning."""

import itertools
import warnings

import numpy as np
import pymatgen.core

from mc import ref
from mc.core import Skip, Tree, scratch
from mc.dofs import Outside, RefModel, Rejected
from ramannoodle.exceptions import DOFWarning, InvalidDOFException
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.structure import ReferenceStructure

PROPERTY = "C34"
LEVEL = "exploration"
RULE = (
    "one execution per crystal, kind of model, route, direction, set of amplitudes and history; non-trivial: the addition "
    "was accepted and the warnings compared with the points on both sides (distinct by labels)"
)
BOUNDS = (
    "9 crystals, 3 kinds of models and dummies, all sets of 1..3 amplitudes out of {-0.2, -0.07, 0, 0.05, 0.11} and 5 sets with an amplitude of 0.004 or 0.005 in two orders, with and without the "
    "reference point, arrays, OUTCAR, vasprun.xml, POSCAR (dummies) and pymatgen structures, 4 kinds of directions, after 4 kinds of earlier additions"
)
ASSUMPTIONS = ["amplitudes are zero or at least 0.004 Å (the library takes those below 0.001 Å for zero)"]

C = ref.crystals()
CRYSTALS = {k: C[k] for k in ("p1", "pbar1", "pm", "tet", "ortho", "perov", "p41", "c2m", "hollow")}
VALUES = [-0.2, -0.07, 0.0, 0.05, 0.11]
OPS = {}
SETS = [list(c) for k in (1, 2, 3) for c in itertools.combinations(VALUES, k)]
SETS += [[0.005], [-0.005, 0.005], [-0.07, 0.005], [-0.005, 0.11], [-0.004, 0.0, 0.05]]


def give(model, route, art, atom, u, amps, include, lattice, positions, numbers):
    """Add a degree of freedom by one of the routes."""
    pols = ref.sym((len(amps),), 4, 3.0)
    if route == "arrays":
        if art:
            return model.add_art(atom, u[atom], np.array(amps), pols)
        return model.add_dof(u, np.array(amps), pols, 1, include)
    moved = [positions + a * (u / np.linalg.norm(u)) @ np.linalg.inv(lattice) for a in amps]
    if route == "pymatgen":
        things = [pymatgen.core.Structure(lattice, ref.symbols_of(numbers), p) for p in moved]
        return model.add_art_from_pymatgen(things, pols) if art else model.add_dof_from_pymatgen(things, pols, 1)
    folder = scratch()
    paths = [folder / str(k) for k in range(len(amps))]
    for path, p, alpha in zip(paths, moved, pols):
        if route == "poscar":
            path.write_text(ref.poscar(lattice, numbers, ref.wrap(p)))
        else:
            path.write_text((ref.outcar if route == "outcar" else ref.vasprun)(lattice, numbers, ref.wrap(p), alpha))
    return model.add_art_from_files(paths, route) if art else model.add_dof_from_files(paths, route, 1)


def reported(function, *args):
    with warnings.catch_warnings(record=True) as found:
        warnings.simplefilter("always")
        function(*args)
    return sum(issubclass(w.category, DOFWarning) for w in found)


def additions(ch):
    crystal = ch.choose("crystal", list(CRYSTALS))
    lattice, positions, numbers = CRYSTALS[crystal][:3]
    lattice, positions = np.array(lattice, float), np.array(positions, float)
    n = len(numbers)
    kind = ch.choose("model", ["interpolation", "art", "dummy", "dummy art"])
    art, dummy = "art" in kind, "dummy" in kind
    route = ch.choose("route", ["arrays", "outcar", "vasprun.xml", "pymatgen"] + (["poscar"] if dummy else []))
    include = ch.choose("reference", [True, False]) if route == "arrays" and not art else not art
    amps = ch.choose("amplitudes", {str(s): s for s in SETS})
    if route != "arrays" and 0.0 in amps:
        raise Skip()  # nothing is displaced in this structure
    if ch.choose("order", ["up", "down"]) == "down":
        if len(amps) == 1:
            raise Skip()
        amps = amps[::-1]
    before = ch.choose("before", ["nothing", "one-sided", "two-sided", "copy"])
    axis = ch.choose("direction", [0, 1, 2] if art else [0, 2, 3])
    u = np.zeros((n, 3))
    atom = n - 1
    if axis == 3:
        u[0], u[n - 1] = [0, 1.0, 0], [0, 0.5, 0]
    else:
        u[atom, axis] = 1.7
    alpha = ref.sym((), 9)
    model = (ARTModel if art else InterpolationModel)(ReferenceStructure(list(numbers), lattice, positions), alpha, dummy)
    if crystal not in OPS:
        OPS[crystal] = ref.operations(lattice, positions, numbers)
    oracle = RefModel(lattice, positions, numbers, alpha, OPS[crystal])
    args = lattice, positions, numbers
    try:
        if before != "nothing":
            v = np.zeros((n, 3))
            v[atom, 1 if axis != 1 else 2] = 1.0
            earlier = [0.1, 0.2] if before != "two-sided" else [0.1, -0.1]
            oracle.basis = [b for b, _ in oracle.prepare(v, earlier, ref.sym((2,), 4), 1, not art)]
            reported(give, model, "arrays", art, atom, v, earlier, True, *args)
            if before == "copy":
                model = model.get_masked_model([0])
        new = oracle.prepare(u, amps, ref.sym((len(amps),), 4), 1, include)
    except (Rejected, Outside):
        raise Skip() from None
    if art and len(amps) > 2:
        raise Skip()
    xs = np.concatenate([points[0] for _, points in new])
    two_sided = all(points[0].min() < 0 < points[0].max() for _, points in new)
    try:
        got = reported(give, model, route, art, atom, u, amps, include, *args)
    except InvalidDOFException:
        raise Skip() from None  # what is accepted is the subject of C05 and C30
    ch.step()
    ch.check(bool(got) != two_sided, f"points at {sorted(set(xs))}: {got} warnings")
    ch.observe(ch.labels)


def scenarios(_tier):
    return [Tree("additions", additions, shard_depth=3)]
