"""C29: trajectories behave as sequences of wrapped configurations."""

import itertools
from collections.abc import Sequence

import numpy as np
import pymatgen.core
import pymatgen.core.trajectory

import ramannoodle.io.vasp as vasp_io
from mc import in_place, ref
from mc.core import Tree, scratch
from ramannoodle.dynamics import Trajectory
from ramannoodle.io import generic
from ramannoodle.io import pymatgen as pymatgen_io
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.structure import ReferenceStructure

PROPERTY = "C29"
LEVEL = "model_checking"
RULE = ""
BOUNDS = (
    "1..6, 40 and 300 configurations of 1..7 atoms, 5 families of positions (wrapped, borders, outside, far, tiny negative), every index from "
    "-S-3 to S+2, every slice with start, stop and step in -S-1..S+1 or absent (S up to 4, thorough: 6), all histories of up to 3 sequence "
    "operations (quick: 7 kinds), all integer translations in {-1,0,2} of one atom and configuration; pymatgen trajectories as positions and displacements; "
    "4 file routes; 16 timesteps"
)
ASSUMPTIONS = ["timesteps are numbers"]
LATTICE = ref.LATTICES["general"]


def series(count, n, family):
    p = np.array([ref.wrap(ref.p1_positions(n, k)) for k in range(min(count, 9))])
    p = p[np.arange(count) % len(p)] + ref.fill((count, 1, 1), 4, 0.01)
    if family == "borders":
        p = np.round(p * 4) / 4 + np.round(ref.fill(p.shape, 1, 1.0))
    elif family == "outside":
        p = p + np.round(ref.fill(p.shape, 2, 1.4))
    elif family == "far":
        p = p + np.round(ref.fill(p.shape, 3, 300.0))
    elif family == "tiny":
        p = ref.fill(p.shape, 5, 1e-13)
    return p


def same(a, b, tol=1e-10):
    a = np.asarray(a)
    return ref.congruent(a, b, tol) and a.min(initial=0) >= 0 and a.max(initial=0) <= 1


def sequence(tier):
    def scenario(ch):
        count = ch.choose("configurations", [1, 2, 3, 4, 40, 300] if tier == "quick" else [1, 2, 3, 4, 5, 6, 40, 300])
        n = ch.choose("atoms", [1, 2, 7])
        family = ch.choose("family", ["plain", "borders", "outside", "far", "tiny"])
        given = series(count, n, family)
        keep = given.copy()
        t = Trajectory(given, 1.5)
        ch.check(np.array_equal(given, keep), "positions modified")
        all_positions = t.positions_ts
        ch.check(same(all_positions, given), "positions time series")
        ch.check(isinstance(t, Sequence) and len(t) == count and bool(t), "length")
        ch.check(t.timestep == 1.5, "timestep")
        items = [c.copy() for c in all_positions]
        indexes = range(-count - 3, count + 3) if count <= 6 else [-count - 1, -count, -1, 0, 7, count - 1, count, count + 1, 10**6]
        for k in indexes:
            for index in (k, np.int64(k)):
                ch.step()
                try:
                    got = t[index]
                except IndexError:
                    ch.check(not -count <= k < count, f"index {k} refused")
                else:
                    ch.check(-count <= k < count, f"index {k} accepted")
                    ch.check(np.array_equal(got, items[k]), f"index {k}")
        values = [None, *range(-count - 1, count + 2)] if count <= 6 else [None, -count, -3, 0, 5, count - 1, count + 4]
        for start, stop, step in itertools.product(values, repeat=3):
            if step == 0:
                continue
            ch.step()
            want = items[start:stop:step]
            got = t[start:stop:step]
            ch.check(len(got) == len(want) and all(np.array_equal(a, b) for a, b in zip(got, want)),
                     f"slice {start}:{stop}:{step}")
        ch.check([a.tobytes() for a in t] == [b.tobytes() for b in items], "iteration")
        ch.check([a.tobytes() for a in reversed(t)] == [b.tobytes() for b in items[::-1]], "reversed iteration")
        pairs = list(zip(t, t))
        ch.check(len(pairs) == count and all(np.array_equal(a, b) for a, b in pairs), "two iterators")
        ch.check(np.array_equal(np.array(t), all_positions) and np.array_equal(t.positions_ts, all_positions), "changed by reading")
        ch.check(len(t) == count, "length changed")
        ch.observe(all_positions, ch.labels)

    return scenario


_MODELS = {}


def model(n):
    if n not in _MODELS:
        s = ReferenceStructure(ref.p1_species(n), LATTICE, ref.p1_positions(n))
        m = InterpolationModel(s, ref.sym((), 1, 4.0))
        if n == 1:
            m.add_dof(np.array([[1.0, 0, 0]]), np.array([0.1, 0.2]), ref.sym((2,), 2), 1)
        else:
            q, _ = np.linalg.qr(ref.fill((3 * n, 3 * n), 6))
            for k in range(min(3 * n, 4)):
                m.add_dof(q[k].reshape(n, 3), np.array([-0.1, 0.15]), ref.sym((2,), 3 + k), 1)
        _MODELS[n] = m
    return _MODELS[n]


def dynamics(count, n):
    s = ref.p1_positions(n)
    return s + ref.fill((count, n, 3), 9, 0.03)


def spectra(ch):
    n = ch.choose("atoms", [2, 3])
    count = ch.choose("configurations", [4, 5])
    base = dynamics(count, n)
    where = ch.choose("configuration", [*range(count), "all"])
    atom = ch.choose("atom", [*range(n), "all"])
    shift = np.array(ch.choose("translation", list(itertools.product((-1, 0, 2), repeat=3))), float)
    moved = base.copy()
    index = (slice(None) if where == "all" else where, slice(None) if atom == "all" else atom)
    moved[index] += shift
    plain, other = (Trajectory(p, 2.0).get_raman_spectrum(model(n)) for p in (base, moved))
    ch.step(2)
    ch.check(ref.close(other.polarizability_ts, plain.polarizability_ts, 1e-8, 1e-10), "polarizabilities depend on the periodic image")
    alone = np.array([model(n).calc_polarizabilities(b[None])[0] for b in base])
    ch.check(ref.close(plain.polarizability_ts, alone, 1e-8, 1e-10), "polarizabilities of the configurations, in order")
    for a, b in zip(plain.measure(), other.measure()):
        ch.check(ref.close(b, a, 1e-6, 1e-9), "spectrum depends on the periodic image")
    ch.observe(ch.labels, plain.polarizability_ts)


def routes(ch):
    n = ch.choose("atoms", [1, 2, 5])
    count = ch.choose("configurations", [1, 2, 3, 12, 101])
    family = ch.choose("family", ["plain", "outside", "small steps"])
    route = ch.choose("route", ["pymatgen", "pymatgen displacements", "pymatgen structures", "pymatgen molecules-style start",
                                "xdatcar", "outcar", "vasprun.xml", "round trip"])
    positions = dynamics(count, n) if family == "small steps" else series(count, n, family)
    numbers = ref.p1_species(n)
    symbols = ref.symbols_of(numbers)
    step = ch.choose("timestep", [0.5, 2.0])
    path = scratch() / "file"
    plain = pymatgen.core.trajectory.Trajectory(symbols, positions, lattice=LATTICE)
    if route == "pymatgen":
        got = pymatgen_io.construct_trajectory(plain, step)
    elif route == "pymatgen displacements":
        plain.to_displacements()
        keep = np.array(plain.coords)
        got = pymatgen_io.construct_trajectory(plain, step)
        ch.check(np.array_equal(keep, plain.coords) and plain.coords_are_displacement, "argument modified")
    elif route == "pymatgen structures":
        structures = [pymatgen.core.Structure(LATTICE, symbols, p) for p in positions]
        got = pymatgen_io.construct_trajectory(pymatgen.core.trajectory.Trajectory.from_structures(structures), step)
    elif route == "pymatgen molecules-style start":
        # displacements given explicitly, starting from the first configuration
        moves = np.concatenate([np.zeros((1, n, 3)), np.diff(positions, axis=0)])
        given = pymatgen.core.trajectory.Trajectory(
            symbols, moves, lattice=LATTICE, coords_are_displacement=True, base_positions=positions[0])
        got = pymatgen_io.construct_trajectory(given, step)
        again = pymatgen_io.construct_trajectory(given, step)
        ch.check(np.array_equal(got.positions_ts, again.positions_ts), "second construction differs")
    elif route == "xdatcar":
        path.write_text(ref.xdatcar(LATTICE, numbers, positions))
        got = vasp_io.xdatcar.read_trajectory(path, step)
    elif route == "outcar":
        path.write_text(ref.outcar(LATTICE, numbers, ref.wrap(positions[0]), frames=[p @ LATTICE for p in positions], timestep=step))
        got = generic.read_trajectory(path, "outcar")
    elif route == "vasprun.xml":
        path.write_text(ref.vasprun(LATTICE, numbers, positions[0], frames=list(positions), timestep=step))
        got = generic.read_trajectory(path, "vasprun.xml")
    else:
        first = Trajectory(positions, step)
        vasp_io.xdatcar.write_trajectory(LATTICE, numbers, first.positions_ts, path)
        got = vasp_io.xdatcar.read_trajectory(path, step)
    ch.step()
    ch.check(len(got) == count and got.timestep == step, lambda: f"{len(got)} configurations, timestep {got.timestep}")
    ch.check(got.positions_ts.shape == positions.shape and same(got.positions_ts, positions, 1e-8), "positions")
    for k in {0, count // 2, count - 1}:
        ch.check(np.array_equal(got[k], got.positions_ts[k]) and same(got[k], positions[k], 1e-8), f"item {k}")
    ch.observe(got.positions_ts, step)


def timesteps(ch):
    good = [1, 0.5, 1e-6, 1e6, np.float64(2.0), np.int32(3)]
    bad = [0, 0.0, -0.0, -1, -1e-9, -float("inf"), np.float64(-3)]
    value = ch.choose("timestep", {repr(v): v for v in good + bad})
    maker = ch.choose("maker", ["Trajectory", "pymatgen", "xdatcar", "MD spectrum"])
    positions = series(3, 2, "plain")
    if maker == "xdatcar":
        path = scratch() / "file"
        path.write_text(ref.xdatcar(LATTICE, ref.p1_species(2), positions))
        make = lambda: vasp_io.xdatcar.read_trajectory(path, value)
    elif maker == "pymatgen":
        given = pymatgen.core.trajectory.Trajectory(ref.symbols_of(ref.p1_species(2)), positions, lattice=LATTICE)
        make = lambda: pymatgen_io.construct_trajectory(given, value)
    elif maker == "MD spectrum":
        make = lambda: Trajectory(positions, value).get_raman_spectrum(model(2))
    else:
        make = lambda: Trajectory(positions, value)
    try:
        got = make()
    except ValueError:
        ch.check(value <= 0, "a positive timestep is refused")
    else:
        ch.check(value > 0, "accepted")
        ch.check(got.timestep == float(value), "timestep")
    ch.step()
    ch.observe(ch.labels)


OPERATIONS = {
    "item": lambda t: t[-1].copy(), "slice": lambda t: t[::2].copy(), "iterate": lambda t: np.array(list(t)),
    "series": lambda t: t.positions_ts, "bad index": lambda t: _refused(t), "spectrum": lambda t: t.get_raman_spectrum(model(2)).polarizability_ts,
    "reversed": lambda t: np.array(list(reversed(t))), "half": lambda t: np.array([next(iter(t)), next(iter(t))]),
}


def _refused(t):
    try:
        t[len(t)]
    except IndexError:
        return np.zeros(1)
    return np.ones(1)


def histories(tier):
    def scenario(ch):
        t = Trajectory(dynamics(5, 2), 1.0)
        fresh = {name: operation(Trajectory(dynamics(5, 2), 1.0)) for name, operation in OPERATIONS.items()}
        done = []
        for k in range(3 if tier == "quick" else 4):
            name = ch.choose(f"operation{k}", list(OPERATIONS))
            done.append(name)
            ch.check(np.array_equal(OPERATIONS[name](t), fresh[name]), f"{name} after {done}")
            ch.step()
        ch.observe(done)

    return scenario


def scenarios(tier):
    return [
        Tree("sequence", sequence(tier), shard_depth=3),
        Tree("spectra", spectra, shard_depth=4),
        Tree("routes", routes, shard_depth=4),
        Tree("timesteps", timesteps, shard_depth=2),
        Tree("histories", histories(tier), shard_depth=2),
        in_place.tree("C29", tier),
    ]
