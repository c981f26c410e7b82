"""C20: polarizability datasets scale, flatten and combine samples faithfully."""

import itertools

import numpy as np
import pymatgen.core
import torch
from torch.utils.data import DataLoader

import ramannoodle.io.vasp as vasp_io
from mc import in_place, ref
from mc.core import Tree, scratch
from ramannoodle.dataset.torch import PolarizabilityDataset
from ramannoodle.exceptions import IncompatibleStructureException
from ramannoodle.io import generic
from ramannoodle.io import pymatgen as pymatgen_io

PROPERTY = "C20"
LEVEL = "model_checking"
RULE = ""
BOUNDS = (
    "1..130 samples, 1..7 atoms, 4 value ranges, 2 default dtypes, all histories of up to 3 (thorough: 4) of 6 rescalings, "
    "after each of which every accessor, every item and a data loader are compared with the definition; all orders of 1..3 "
    "(thorough: 4) files or structures by 5 routes; every place of an incompatible sample among 2..5, 7 kinds, 5 routes"
)
ASSUMPTIONS = ["polarizabilities are symmetric and not all equal (the standard deviation is not zero)"]

torch.set_num_threads(1)
LATTICE = ref.LATTICES["general"]
RANGES = {"unit": (0.0, 1.0), "small": (0.0, 1e-3), "offset": (40.0, 2e-3), "large": (-300.0, 500.0)}


def vectors(tensors):
    return np.array([[t[0, 0], t[1, 1], t[2, 2], t[0, 1], t[0, 2], t[1, 2]] for t in tensors])


SCALINGS = {
    "unit": lambda p: (np.zeros((3, 3)), np.ones((3, 3))),
    "own": lambda p: (p.mean(0), p.std(0)),
    "other": lambda p: (p[0] + ref.sym((), 1, 0.3), 0.5 + np.abs(ref.sym((), 2, 1.0))),
    "shift": lambda p: (p[-1], np.ones((3, 3))),
    "stretch": lambda p: (np.zeros((3, 3)), np.full((3, 3), 7.5)),
    "tiny": lambda p: (p[0], np.full((3, 3), 1e-3)),
}


def compare(ch, d, numbers, positions, pols, scaled, items=True):
    dtype = torch.get_default_dtype()
    single = dtype == torch.float32
    tol = 1e-5 if single else 1e-9
    ch.step()
    ch.check(len(d) == d.num_samples == len(pols) and d.num_atoms == len(numbers), "counts")
    ch.check(d.atomic_numbers == list(numbers), "atomic numbers")
    ch.check(ref.close(d.positions, positions, tol, tol), "positions")
    ch.check(ref.close(d.polarizabilities, pols, 1e-12, 1e-12), "raw polarizabilities")
    ch.check(ref.close(d.mean_polarizability, pols.mean(0), 1e-9, 1e-9), "mean")
    ch.check(ref.close(d.stddev_polarizability, pols.std(0), 1e-7, 1e-10), "standard deviation")
    size = 1.0 if scaled is None else max(1.0, float(np.abs(scaled).max()))
    if scaled is None:
        return
    ch.check(ref.close(d.scaled_polarizabilities, scaled, 2 * tol, tol * size * 5),
             lambda: f"scaled polarizabilities differ by {np.abs(d.scaled_polarizabilities - scaled).max()}")
    if not items:
        return
    for i in list(range(len(pols)))[:5] + [len(pols) - 1]:
        item = d[i]
        ch.check(len(item) == 4, "item")
        for value, want in zip(item, (LATTICE, numbers, positions[i], scaled[i])):
            ch.check(ref.close(value.numpy(), want, 2 * tol, tol * size * 5), f"item {i}")
        ch.check(item[0].dtype == item[2].dtype == item[3].dtype == dtype, "dtype of an item")
    loaded = list(DataLoader(d, batch_size=7))
    ch.check(len(loaded) == -(-len(pols) // 7), "number of batches")
    ch.check(ref.close(torch.cat([b[3] for b in loaded]).numpy(), scaled, 2 * tol, tol * size * 5), "loaded samples")
    ch.check(ref.close(torch.cat([b[2] for b in loaded]).numpy(), positions, tol, tol), "loaded positions")


def histories(depth):
    def run(ch):
        ch_dtype = ch.choose("dtype", {"float32": torch.float32, "float64": torch.float64})
        torch.set_default_dtype(ch_dtype)
        try:
            s = ch.choose("samples", [2, 3, 7, 130])
            n = ch.choose("atoms", [1, 2, 7])
            offset, spread = ch.choose("range", RANGES)
            numbers, positions = ref.p1_species(n), ref.p1_positions(n) + ref.fill((s, n, 3), 3, 0.4)
            pols = offset + ref.sym((s,), 4, spread)
            d = PolarizabilityDataset(LATTICE, numbers, positions, pols)
            scaled = vectors((pols - pols.mean(0)) / pols.std(0))
            compare(ch, d, numbers, positions, pols, scaled)
            for step in range(depth):
                how = ch.choose(f"scale{step}", ["stop"] + list(SCALINGS))
                if how == "stop":
                    break
                mean, stddev = SCALINGS[how](pols)
                d.scale_polarizabilities(mean, stddev)
                compare(ch, d, numbers, positions, pols, vectors((pols - mean) / stddev), step == 0 or s < 7)
            ch.observe(ch.labels)
        finally:
            torch.set_default_dtype(torch.float32)

    return run


# ------------------------------------------------------------------ routes
ROUTES = ["outcar", "vasprun.xml", "generic outcar", "generic vasprun.xml", "pymatgen"]


def combine(route, samples, spelled="paths"):
    """Dataset from [(lattice, numbers, positions, polarizability)]."""
    if route == "pymatgen":
        given = [pymatgen.core.Structure(a, ref.symbols_of(z), p) for a, z, p, _ in samples]
        return pymatgen_io.construct_polarizability_dataset(given, np.array([s[3] for s in samples]))
    paths, folder = [], scratch()
    for k, (a, z, p, pol) in enumerate(samples):
        writer = ref.outcar if route.endswith("outcar") else ref.vasprun
        paths.append(folder / f"file{k}")
        paths[-1].write_text(writer(a, z, p, pol))
    given = paths
    if spelled == "strings":
        given = [str(p) for p in paths]
    elif spelled == "single":
        given = paths[0]
    elif spelled == "single string":
        given = str(paths[0])
    if route.startswith("generic"):
        return generic.read_polarizability_dataset(given, route[8:])
    return {"outcar": vasp_io.outcar, "vasprun.xml": vasp_io.vasprun}[route].read_polarizability_dataset(given)


def routes(most):
    def run(ch):
        route = ch.choose("route", ROUTES)
        s = ch.choose("samples", list(range(1, most + 1)))
        order = ch.choose("order", list(itertools.permutations(range(s))))
        spelled = "paths"
        if route != "pymatgen":
            spelled = ch.choose("paths", ["paths", "strings"] + (["single", "single string"] if s == 1 else []))
        n = ch.choose("atoms", [1, 5])
        numbers = ref.p1_species(n)
        samples = [(LATTICE, numbers, ref.p1_positions(n, 5 * k), ref.sym((), 20 + k, 3.0) + 5) for k in order]
        d = combine(route, samples, spelled)
        positions, pols = np.array([x[2] for x in samples]), np.array([x[3] for x in samples])
        ch.check(ref.close(d.polarizabilities, pols, 1e-6, 1e-6), "polarizabilities or their order")
        ch.check(ref.close(d.positions, positions, 1e-5, 1e-5), "positions or their order")
        exact = d.polarizabilities
        scaled = None if s == 1 else vectors((exact - exact.mean(0)) / exact.std(0))
        compare(ch, d, numbers, positions, exact, scaled)
        ch.check(ref.close(d[0][0].numpy(), LATTICE, 1e-5, 1e-5), "lattice")
        ch.observe(ch.labels)

    return run


def other(kind, n):
    """A sample which does not fit the others."""
    numbers, positions, lattice = ref.p1_species(n), ref.p1_positions(n, 40), LATTICE
    if kind == "lattice":
        lattice = ref.LATTICES["tricl"]
    elif kind == "stretched":
        lattice = LATTICE * np.array([1, 1, 1.003])
    elif kind == "rotated":
        lattice = LATTICE @ np.array([[0, 1.0, 0], [-1, 0, 0], [0, 0, 1]])
    elif kind == "species":
        numbers = [14 if z == 22 else z for z in numbers]
    elif kind == "order":
        numbers = numbers[::-1]
    elif kind == "more":
        numbers, positions = numbers + numbers[-1:], ref.p1_positions(n + 1, 40)
    else:
        numbers, positions = numbers[:-1], positions[:-1]
    return lattice, numbers, positions, ref.sym((), 9, 2.0)


def incompatible(ch):
    route = ch.choose("route", ROUTES)
    s = ch.choose("samples", [2, 3, 5])
    place = ch.choose("place", list(range(s)))
    n = ch.choose("atoms", [2, 6])
    kind = ch.choose("kind", ["lattice", "stretched", "rotated", "species", "order", "more", "less"])
    samples = [(LATTICE, ref.p1_species(n), ref.p1_positions(n, 5 * k), ref.sym((), 20 + k, 3.0)) for k in range(s)]
    samples[place] = other(kind, n)
    error = None
    try:
        combine(route, samples)
    except IncompatibleStructureException as exc:
        error = exc
    ch.step()
    ch.check(error is not None, f"incompatible sample {place} of {s} ({kind}) accepted")
    del samples[place]
    d = combine(route, samples)
    ch.check(len(d) == s - 1, "compatible samples refused")
    ch.observe(ch.labels)


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Tree("histories", histories(4 if deep else 3), shard_depth=4),
        Tree("routes", routes(4 if deep else 3), shard_depth=3),
        Tree("incompatible", incompatible, shard_depth=4),
        in_place.tree("C20", tier),
    ]
