"""C03: symmetry completion of polarizability models."""

import warnings

import numpy as np

from checks.c02 import ALL, VARIANTS, displacements, supercell, variant
from mc import in_place, ref
from mc.core import Skip, Tree
from mc.dofs import RefModel
from ramannoodle.exceptions import InvalidDOFException
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.structure import ReferenceStructure

PROPERTY = "C03"
LEVEL = "exploration"
RULE = (
    "one execution per crystal, variant, displacement, data set and model kind; non-trivial: "
    "the trained model's predictions along every symmetry image were compared with the rotated "
    "data (distinct by predictions)"
)
BOUNDS = (
    "29 crystals (triclinic to cubic and hexagonal) and 8 variants each (origins, orders, axes, lattice vectors), every single-atom axis displacement and collective ones, "
    "linear and non-linear data; 11 cells which repeat themselves; complete models trained from representatives of each orbit in "
    "several orders"
)
ASSUMPTIONS = [
    "training data obey the symmetry of the crystal (obtained by averaging over stabilizers)",
    "of images oblique to each other any largest set of orthogonal ones is right; such an addition may be refused if one of "
    "them overlaps with an earlier degree of freedom",
]


def stabilized(lattice, ops, u, tensor):
    """Average of a tensor over the operations which leave u as it is."""
    out, count = np.zeros((3, 3)), 0
    for op in ops:
        if np.abs(ref.transform_displacement(lattice, op, u) - u).max() < 1e-7:
            c = ref.cartesian(lattice, op[0])
            out, count = out + c @ tensor @ c.T, count + 1
    return out / count


def reference_tensor(lattice, ops):
    total = np.zeros((3, 3))
    for w, _, _ in ops:
        c = ref.cartesian(lattice, w)
        total += c @ ref.sym((), 8, 7.0) @ c.T
    return total / len(ops)


def train(ch, real, model, u, sets, art=False):
    """Add one displacement with consistent data; returns whether its images are oblique to each other."""
    unit = u / np.linalg.norm(u)
    images = [v for v, _ in model.images(u)]
    reversible = min(np.abs(v + unit).max() for v in images) < 1e-6
    dots = np.abs(np.array(images).reshape(len(images), -1) @ unit.ravel())
    oblique = bool(((dots > 1e-6) & (dots < 1 - 1e-6)).any())
    amps, order = sets[0] if reversible else sets[1]
    pols = np.array([model.ref + stabilized(model.lattice, model.ops, unit,
                                            ref.sym((), 70 + k + len(model.basis), 2.0))
                     for k in range(len(amps))])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if art:
                atom = int(np.argmax(np.abs(u).sum(1)))
                real.add_art(atom, u[atom], np.array(amps), pols)
            else:
                real.add_dof(u, np.array(amps), pols, order)
        except InvalidDOFException:
            if model.may_reject(u):
                raise Skip() from None
            raise
    ch.step()
    error = model.adopt_any(u, amps, pols, order, not art, real.cart_basis_vectors[len(model.basis):])
    ch.check(error is None, error)
    return oblique


def evaluate(ch, real, model, oblique):
    probes = model.probes(0.03)
    probes = np.concatenate([probes, model.probes(-0.07)])
    got = real.calc_polarizabilities(probes)
    ch.check(ref.close(got, model.predict(probes), 1e-6, 1e-7),
             "prediction along symmetry images differs from the rotated data")
    # the model obeys the symmetry of the crystal, unless it consists of some of the images only
    inv = np.linalg.inv(model.lattice)
    n = len(model.numbers)
    for k, op in enumerate([] if oblique else model.ops[:: max(1, len(model.ops) // 12)]):
        u = ref.fill((n, 3), k, 0.04)
        c = ref.cartesian(model.lattice, op[0])
        pair = real.calc_polarizabilities(np.array([
            model.positions + u @ inv,
            model.positions + ref.transform_displacement(model.lattice, op, u) @ inv]))
        ch.check(ref.close(c @ pair[0] @ c.T, pair[1], 1e-6, 1e-7),
                 "polarizabilities of symmetry images are not images of each other")
    ch.observe(got)


SETS = {
    "linear": (([0.05], 1), ([0.05, -0.05], 1)),
    "quadratic": (([0.06], 2), ([0.06, -0.05], 2)),
    "cubic": (([0.04, 0.09], 3), ([0.1, -0.1, 0.05, -0.05], 3)),
}


def start(name, kind, cls):
    if isinstance(kind, tuple):
        lattice, positions, numbers = supercell(name, kind)
        order = np.lexsort((positions[:, 1], numbers))
        positions, numbers = np.ascontiguousarray(positions[order]), [int(numbers[k]) for k in order]
    else:
        lattice, positions, numbers = variant(name, kind)
    ops = ref.operations(lattice, positions, numbers)
    ref_pol = reference_tensor(lattice, ops)
    model = RefModel(lattice, positions, numbers, ref_pol, ops)
    return cls(ReferenceStructure(list(numbers), lattice, positions), ref_pol), model


def single(ch):
    """One displacement and its images."""
    name = ch.choose("crystal", list(ALL))
    kind = ch.choose("variant", VARIANTS)
    real, model = start(name, kind, InterpolationModel)
    moves = displacements(len(model.numbers))
    u = moves[ch.choose("displacement", list(moves))]
    oblique = train(ch, real, model, u * 3.0, SETS[ch.choose("data", list(SETS))])
    evaluate(ch, real, model, oblique)


def supercells(ch):
    """Single displacements in cells which repeat themselves, and complete models of these."""
    cells = [("fcc", (1, 1, 1)), ("rocksalt", (1, 1, 1)), ("sc0", (2, 2, 1)), ("sc0", (2, 2, 2)), ("ortho", (2, 1, 1)),
             ("pm", (1, 2, 1)), ("cscl", (1, 1, 2)), ("tet", (2, 2, 1)), ("pbar1", (3, 1, 1)), ("p1", (1, 1, 2)), ("graphene", (2, 1, 1))]
    name, repeats = ch.choose("cell", {f"{k} {s}": (k, s) for k, s in cells})
    what = ch.choose("displacement", ["x0", "y1", "xy0", "x0-x1", "all", "all art"])
    if "all" in what:
        return fill_up(ch, name, repeats, "art" in what, "forward")
    real, model = start(name, repeats, InterpolationModel)
    oblique = train(ch, real, model, displacements(len(model.numbers))[what], SETS[ch.choose("data", ["linear", "quadratic"])])
    evaluate(ch, real, model, oblique)


def complete(ch):
    """All 3N degrees of freedom from one representative per orbit."""
    name, kind = ch.choose("crystal", list(ALL)), ch.choose("variant", VARIANTS)
    art = ch.choose("model", ["art", "interpolation"]) == "art"
    fill_up(ch, name, kind, art, ch.choose("order", ["forward", "backward"]))


def fill_up(ch, name, kind, art, order):
    real, model = start(name, kind, ARTModel if art else InterpolationModel)
    n = len(model.numbers)
    atoms = range(n) if order == "forward" else reversed(range(n))
    oblique = False
    for atom in atoms:
        for c in range(3):
            u = np.zeros((n, 3))
            u[atom, c if order == "forward" else 2 - c] = 1.0
            for b in model.basis:  # stay orthogonal to what is there
                u -= b * np.sum(b * u)
            if np.linalg.norm(u) > 1e-6:
                oblique |= train(ch, real, model, u, SETS["linear"], art)
    ch.check(len(model.basis) == 3 * n, "incomplete")
    evaluate(ch, real, model, oblique)


def response(ch):
    """A complete linear model reproduces the crystal's response for any displacement."""
    name = ch.choose("crystal", [k for k in ALL if k != "anatase"])
    kind = ch.choose("variant", ["plain", "shifted", "turned", "sheared"])
    real, model = start(name, kind, InterpolationModel)
    n = len(model.numbers)
    tensors = ref.symmetric_response(model.lattice, model.ops, n, ch.choose("response", [1, 2]))
    for k in range(3 * n):
        u = np.eye(3 * n)[k].reshape(n, 3)
        for b in real.cart_basis_vectors:
            u -= b * np.sum(b * u)
        if np.linalg.norm(u) < 1e-6:
            continue
        u /= np.linalg.norm(u)
        amps = [0.05] if min(np.abs(v + u).max() for v, _ in model.images(u)) < 1e-6 else [0.05, -0.05]
        pols = np.array([model.ref + ref.respond(tensors, u * a) for a in amps])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                real.add_dof(u, np.array(amps), pols, 1)
            except InvalidDOFException:
                model.basis = real.cart_basis_vectors
                if model.may_reject(u):
                    raise Skip() from None
                raise
        ch.step()
    ch.check(len(real.cart_basis_vectors) == 3 * n, "incomplete")
    batch = ref.fill((6, n, 3), 3, 0.03)
    got = real.calc_polarizabilities(model.positions + batch @ np.linalg.inv(model.lattice))
    want = np.array([model.ref + ref.respond(tensors, u) for u in batch])
    ch.check(ref.close(got, want, 1e-6, 1e-7), "linear response is not reproduced")
    ch.observe(got)


def scenarios(tier):
    return [Tree("single", single, shard_depth=3), Tree("complete", complete, shard_depth=4),
            Tree("supercells", supercells, shard_depth=2), Tree("response", response, shard_depth=3),
            in_place.tree("C03", tier)]
