"""C32: spectra do not depend on how the crystal is described."""

import itertools
import warnings

import numpy as np
import pymatgen.core

from checks.c03 import reference_tensor, stabilized
from mc import ref
from mc.core import Skip, Tree, scratch
from mc.dofs import RefModel
from ramannoodle.dynamics import Phonons, Trajectory
from ramannoodle.exceptions import InvalidDOFException
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.structure import ReferenceStructure

PROPERTY = "C32"
LEVEL = "model_checking"
RULE = "choice-tree enumeration; every execution runs the whole chain for two descriptions of one crystal and compares all results"
BOUNDS = (
    "crystals with symmetry (every one outside the known findings): orders of the atoms (all for up to 4 atoms, 8 otherwise) and 5 origins; "
    "3 crystals without symmetry: all orders, 4 origins, 48 relabellings of the lattice vectors, 4 other bases of the lattice and 5 "
    "rotations, proper and improper; 3 kinds of models given by arrays, vasprun.xml files or pymatgen structures; predictions, phonon "
    "and molecular-dynamics spectra with both corrections"
)
ASSUMPTIONS = ["training data obey the symmetry of the crystal", "displacements are small compared with the cell"]

TOL = 1e-7
CRYSTALS = ref.crystals()
P1 = {
    "p1": CRYSTALS["p1"],
    "four": (ref.LATTICES["general"], ref.p1_positions(4), [22, 8, 8, 6]),
    "two": (ref.LATTICES["lefthanded"], ref.p1_positions(2), [22, 8]),
}


def orthogonal(angles, improper):
    out = np.eye(3) * (-1.0 if improper else 1.0)
    for k, a in enumerate(angles):
        i, j = [(0, 1), (1, 2), (0, 2)][k]
        r = np.eye(3)
        r[i, i] = r[j, j] = np.cos(a)
        r[i, j], r[j, i] = -np.sin(a), np.sin(a)
        out = out @ r
    return out


ROTATIONS = {
    "none": np.eye(3), "generic": orthogonal([0.4, 1.1, -0.7], False), "improper": orthogonal([2.0, 0.3, 0.9], True),
    "quarter": np.array([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]]), "inverted": -np.eye(3), "cycled": np.roll(np.eye(3), 1, axis=0),
}
BASES = {
    "same": np.eye(3), "sheared": np.array([[1.0, 1, 0], [0, 1, 0], [0, 0, 1]]), "sheared twice": np.array([[1.0, 0, -1], [0, 1, 1], [0, 0, 1]]),
    "mixed": np.array([[1.0, 1, 1], [0, 1, 1], [0, 0, -1]]), "far": np.array([[1.0, 2, 0], [0, 1, 0], [-1, 0, 1]]),
}
ORIGINS = {
    "same": [0, 0, 0], "tiny": [1e-3, -2e-3, 3e-3], "half": [0.5, 0.5, 0.5], "generic": [0.31, 0.12, 0.77], "face": [0.9, 0, 0.25],
}


class Description:
    """A crystal described with other labels, origin, lattice vectors and axes."""

    def __init__(self, crystal, order=None, origin=(0, 0, 0), basis=np.eye(3), rotation=np.eye(3)):
        lattice, positions, numbers = crystal
        self.order = list(range(len(numbers))) if order is None else list(order)
        self.origin, self.rotation = np.array(origin, float), rotation
        self.to_basis = np.linalg.inv(basis)
        self.lattice = basis @ lattice @ rotation.T
        self.numbers = [numbers[k] for k in self.order]
        self.positions = self.place(positions)
        self.back = [self.order.index(k) for k in range(len(numbers))]

    def place(self, positions):
        return ref.wrap((positions + self.origin)[..., self.order, :] @ self.to_basis)

    def move(self, cart):
        return cart[..., self.order, :] @ self.rotation.T

    def tensors(self, t):
        return self.rotation @ t @ self.rotation.T

    def tensors_back(self, t):
        return self.rotation.T @ t @ self.rotation


def specifications(crystal, order, both):
    """Displacements with consistent polarizabilities which complete a model of the crystal.

    Where images are oblique to each other, the response is linear: it depends on the choice of
    the orthogonal ones otherwise.
    """
    lattice, positions, numbers = crystal
    ops = ref.operations(lattice, positions, numbers)
    model = RefModel(lattice, positions, numbers, reference_tensor(lattice, ops), ops)
    n, chosen, spanned, oblique = len(numbers), [], [], False
    for atom, c in itertools.product(range(n), range(3)):
        u = np.zeros((n, 3))
        u[atom, c] = 1.0
        if any(abs(np.sum(b * u)) > 1e-6 for b in spanned):
            continue
        images = [u] + [v for v, _ in model.images(u)]
        reversible = min(np.abs(v + u).max() for v in images) < 1e-6
        for v in images:
            dots = [abs(np.sum(v * w)) for w in spanned]
            if not dots or max(dots) < 1e-6:
                spanned.append(v)
            elif all(1e-6 < d < 1 - 1e-6 for d in dots if d > 1e-6):
                oblique = True
        chosen.append((atom, u, reversible))
    if len(spanned) != 3 * n:
        raise Skip()
    response, out = ref.symmetric_response(lattice, ops, n, 3), []
    for atom, u, reversible in chosen:
        amps = [0.05] if reversible else [0.05, -0.06]
        if order > 1 and both:
            amps = [0.05, 0.08] if reversible else [0.05, -0.06, 0.09]
        if oblique:
            pols = [model.ref + ref.respond(response, a * u) for a in amps]
        else:
            pols = [model.ref + stabilized(lattice, ops, u, ref.sym((), 70 + k + 5 * len(out), 2.0)) for k in range(len(amps))]
        out.append((atom, u, np.array(amps), np.array(pols)))
    return model.ref, out, oblique


def chain(about, crystal, kind, via, reference, specs, order):
    """Everything a user obtains from one description, turned back to the original one."""
    d = about
    structure = ReferenceStructure(list(d.numbers), d.lattice.copy(), d.positions.copy())
    model = (ARTModel if kind == "art" else InterpolationModel)(structure, d.tensors(reference))
    inverse = np.linalg.inv(d.lattice)
    folder = scratch()
    for k, (atom, u, amps, pols) in enumerate(specs):
        u, pols = d.move(u), d.tensors(pols)
        displaced = [ref.wrap(d.positions + a * u @ inverse) for a in amps]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if via == "arrays":
                if kind == "art":
                    model.add_art(d.back[atom], u[d.back[atom]], amps, pols)
                else:
                    model.add_dof(u * 2.0, amps, pols, order)
            elif via == "files":
                paths = []
                for i, (x, p) in enumerate(zip(displaced, pols)):
                    paths.append(folder / f"dof{k}_{i}.xml")
                    paths[-1].write_text(ref.vasprun(d.lattice, d.numbers, x, p))
                if kind == "art":
                    model.add_art_from_files(paths, "vasprun.xml")
                else:
                    model.add_dof_from_files(paths, "vasprun.xml", order)
            else:
                structures = [pymatgen.core.Structure(d.lattice, d.numbers, x) for x in displaced]
                if kind == "art":
                    model.add_art_from_pymatgen(structures, pols)
                else:
                    model.add_dof_from_pymatgen(structures, pols, order)
    n = len(d.numbers)
    lattice, positions, _ = crystal
    moves = ref.fill((5, n, 3), 4, 0.05)
    predictions = model.calc_polarizabilities(ref.wrap(d.positions + d.move(moves) @ inverse))
    modes = ref.fill((3, n, 3), 5, 0.5)
    wavenumbers = np.array([321.0, 87.5, 610.0])
    phonons = Phonons(d.positions, wavenumbers, d.move(modes) @ inverse).get_raman_spectrum(model)
    path = np.cumsum(ref.fill((8, n, 3), 6, 0.02), axis=0)
    trajectory = Trajectory(ref.wrap(d.positions + d.move(path) @ inverse), 2.5).get_raman_spectrum(model)
    spectra = []
    for options in ({}, {"laser_correction": True, "bose_einstein_correction": True, "temperature": 250}):
        for s in (phonons, trajectory):
            spectra += list(s.measure("polycrystalline", **options))
    basis = np.array([b[d.back] @ d.rotation for b in model.cart_basis_vectors])
    return len(basis), d.tensors_back(predictions), d.tensors_back(phonons.raman_tensors), d.tensors_back(trajectory.polarizability_ts), spectra


_PLAIN = {}


def compare(ch, name, crystal, about):
    kind = ch.choose("model", {"art": ("art", 1), "linear": ("dof", 1), "quadratic": ("dof", 2)})
    via = ch.choose("via", ["arrays", "files", "pymatgen"])
    key = name, kind, via
    if key not in _PLAIN:
        try:
            reference, specs, oblique = specifications(crystal, kind[1], kind[0] == "dof")
            _PLAIN[key] = reference, specs, oblique, chain(Description(crystal), crystal, kind[0], via, reference, specs, kind[1])
        except Skip:
            _PLAIN[key] = None
    if _PLAIN[key] is None:
        raise Skip()
    reference, specs, oblique, want = _PLAIN[key]
    try:
        got = chain(about, crystal, kind[0], via, reference, specs, kind[1])
    except InvalidDOFException:
        if oblique:  # other orthogonal images have been chosen, which overlap with the next displacement
            raise Skip() from None
        raise
    ch.step(6)
    ch.check(got[0] == want[0] == 3 * len(crystal[2]), f"{got[0]} degrees of freedom instead of {want[0]}")
    for what, g, w in zip(["predictions", "Raman tensors", "polarizability time series"], got[1:4], want[1:4]):
        ch.check(ref.close(g, w, TOL, TOL), lambda: f"{what} depend on the description: {np.abs(g - w).max()}")
    for k, (g, w) in enumerate(zip(got[4], want[4])):
        ch.check(ref.close(g, w, 1e-6, 1e-6 * (1 + np.abs(w).max())), lambda: f"measured spectrum {k} depends on the description")
    ch.check(name not in P1 or np.abs(want[1] - want[1][0]).max() > 1e-4, "harness: the predictions are constant")
    ch.observe(got[1], got[4])


def orders(n):
    if n <= 4:
        return list(itertools.permutations(range(n)))
    ident = list(range(n))
    swaps = [ident[:k] + [ident[k + 1], ident[k]] + ident[k + 2 :] for k in (0, n // 2, n - 2)]
    return [tuple(o) for o in [ident, ident[::-1], ident[1:] + ident[:1], ident[::2] + ident[1::2], ident[n // 2 :] + ident[: n // 2]] + swaps]


def symmetric(ch):
    """Labels and origin of crystals with symmetry."""
    name = ch.choose("crystal", [k for k in CRYSTALS if k not in P1])
    crystal = CRYSTALS[name]
    order = ch.choose("order", orders(len(crystal[2])))
    origin = ch.choose("origin", ORIGINS)
    compare(ch, name, crystal, Description(crystal, order, origin))


def generic(ch):
    """Labels and origin of crystals without symmetry."""
    name = ch.choose("crystal", list(P1))
    order = ch.choose("order", orders(len(P1[name][2])))
    origin = ch.choose("origin", ORIGINS)
    compare(ch, name, P1[name], Description(P1[name], order, origin))


def bases_and_axes(ch):
    if ch.flag("relabelled"):
        basis = np.diag(ch.choose("signs", list(itertools.product([1.0, -1.0], repeat=3)))) @ np.eye(3)[list(
            ch.choose("permutation", list(itertools.permutations(range(3)))))]
    else:
        basis = ch.choose("basis", BASES)
    return basis, ch.choose("rotation", ROTATIONS)


def axes(ch):
    """Lattice vectors and Cartesian axes of crystals without symmetry."""
    name = ch.choose("crystal", list(P1))
    n = len(P1[name][2])
    basis, rotation = bases_and_axes(ch)
    reverse = ch.choose("labels", {"same": list(range(n)), "reversed": list(range(n))[::-1]})
    compare(ch, name, P1[name], Description(P1[name], reverse, ORIGINS["generic"], basis, rotation))


def symmetric_axes(ch):
    """Lattice vectors and Cartesian axes of crystals with symmetry."""
    name = ch.choose("crystal", [k for k in CRYSTALS if k not in P1])
    basis = ch.choose("basis", BASES)
    rotation = ch.choose("rotation", {k: ROTATIONS[k] for k in ("none", "generic", "improper")})
    compare(ch, name, CRYSTALS[name], Description(CRYSTALS[name], None, ORIGINS["tiny"], basis, rotation))


def scenarios(tier):
    return [
        Tree("symmetric", symmetric, shard_depth=2),
        Tree("generic", generic, shard_depth=3),
        Tree("axes", axes, shard_depth=4),
        Tree("symmetric_axes", symmetric_axes, shard_depth=3),
    ]
