"""C02: equivalent atoms and displacements are the images under the crystal's symmetry."""

import numpy as np
import spglib

from mc import in_place, ref
from mc.core import Skip, Tree
from ramannoodle.structure import ReferenceStructure

PROPERTY = "C02"
LEVEL = "exploration"
RULE = (
    "one execution per crystal, origin/atom-order/axis variant and displacement; non-trivial: "
    "all images under all space-group operations (found by brute force over integer matrices) "
    "compared with the reported ones (distinct by reported displacements)"
)
BOUNDS = (
    "all 29 crystals from triclinic to cubic and hexagonal with up to 96 operations, with variants (origin shifts, "
    "axis permutations, atom orders, other Cartesian axes, other vectors of the same lattice, positions with rounding errors); every single-atom axis displacement and 5 collective ones "
    "per crystal, 3 magnitudes; 9 crystals x 3 atom orders x 25 (thorough: 100) origins; supercells of 5 shapes with up to 16 (thorough: 36) atoms and up to 384 operations; distortions within 4 tolerances of the symmetry search"
)
ASSUMPTIONS = [
    "of images which are neither orthogonal nor collinear any largest set of orthogonal ones is right",
]

ALL = ref.crystals()

VARIANTS = ["plain", "shifted", "halfshift", "reversed", "permuted", "scaled", "turned", "sheared", "rough"]
TURN = np.linalg.qr(np.array([[0.3, 1.1, -0.4], [0.9, -0.2, 0.5], [0.1, 0.6, 1.2]]))[0]
TURN = TURN * -np.sign(np.linalg.det(TURN))
SHEAR = np.array([[1.0, 1, 0], [0, 1, 0], [-1, 0, 1]])


def variant(name, kind):
    lattice, positions, numbers = ALL[name]
    if isinstance(kind, tuple):  # order and origin
        order, k = kind
        positions = ref.wrap(positions[order] + np.round(np.array([0.37, 0.11, 0.73]) * k % 1, 2))
        numbers = [numbers[j] for j in order]
    elif kind == "shifted":
        positions = ref.wrap(positions + np.array([0.137, 0.291, 0.413]))
    elif kind == "halfshift":
        positions = ref.wrap(positions + 0.5)
    elif kind == "reversed":
        positions, numbers = positions[::-1].copy(), numbers[::-1]
    elif kind == "permuted":
        order = [1, 2, 0]
        lattice = lattice[np.ix_(order, order)]
        positions = positions[:, order]
    elif kind == "scaled":
        lattice = lattice * 2.5
    elif kind == "turned":  # other Cartesian axes, of the other handedness
        lattice = lattice @ TURN
    elif kind == "sheared":  # other vectors of the same lattice
        lattice, positions = SHEAR @ lattice, ref.wrap(positions @ np.linalg.inv(SHEAR))
    elif kind == "rough":  # within the default tolerance of the symmetry search
        positions = ref.wrap(positions + ref.fill(positions.shape, 9, 4e-7))
    return np.ascontiguousarray(lattice), np.ascontiguousarray(positions), list(numbers)


def displacements(n):
    e = np.eye(3 * n).reshape(3 * n, n, 3)
    out = {f"{'xyz'[k % 3]}{k // 3}": e[k] for k in range(3 * n)}
    out["xy0"] = e[0] + e[1]
    out["xyz0"] = e[0] + e[1] + e[2]
    if n > 1:
        out["x0x1"] = e[0] + e[3]
        out["x0-x1"] = e[0] - e[3]
        out["y0z1"] = e[1] + e[5]
    return out


def atoms(ch):
    name = ch.choose("crystal", list(ALL))
    lattice, positions, numbers = variant(name, ch.choose("variant", VARIANTS))
    structure = ReferenceStructure(list(numbers), lattice, positions)
    ops = ref.operations(lattice, positions, numbers)
    ch.step()
    orbits = {frozenset(int(p[i]) for _, _, p in ops) for i in range(len(numbers))}
    got = structure.get_equivalent_atom_dict()
    reported = {frozenset([int(k)] + [int(x) for x in v]) for k, v in got.items()}
    ch.check(reported == orbits, lambda: f"{reported} instead of {orbits}")
    ch.check(sum(1 + len(v) for v in got.values()) == len(numbers), "atoms listed twice")
    ch.check(structure.num_nonequivalent_atoms == len(orbits), "number of nonequivalent atoms")
    ch.check(structure.num_atoms == len(numbers), "number of atoms")
    ch.observe(sorted(map(sorted, reported)))


def compare(ch, name, kind, moves):
    lattice, positions, numbers = variant(name, kind)
    label = ch.choose("displacement", moves or list(displacements(len(numbers))))
    magnitude = ch.choose("magnitude", [0.01, -1.0, 0.3]) if moves is None else 0.1
    u = displacements(len(numbers))[label] * np.sign(magnitude)
    u /= np.linalg.norm(u)
    frac = u @ np.linalg.inv(lattice) * abs(magnitude)
    if np.abs(frac).max() >= 0.5:
        raise Skip()
    structure = ReferenceStructure(list(numbers), lattice, positions)
    everything(ch, structure, lattice, positions, numbers, ref.operations(lattice, positions, numbers), u, frac)


def everything(ch, structure, lattice, positions, numbers, ops, u, frac, tol=1e-4):
    """The reported displacements are images, orthogonal or collinear, and none is missing."""
    expected = np.array([ref.transform_displacement(lattice, op, u) for op in ops]).reshape(len(ops), -1)
    keep = frac.copy()
    for _ in range(2):
        result = structure.get_equivalent_displacements(frac)
        ch.step()
        ch.check(np.array_equal(frac, keep), "input modified")
        units = []
        for entry in result:
            carts = [(np.asarray(d) @ lattice).ravel() for d in entry["displacements"]]
            carts = [c / np.linalg.norm(c) for c in carts]
            ch.check(len(carts) == len(entry["transformations"]) > 0, "transformations missing")
            for c, (rotation, translation) in zip(carts, entry["transformations"]):
                ch.check(np.abs(expected - c).max(1).min() < 1e-6, "reported displacement is not a symmetry image")
                # the transformation acts on positions as rows and leads to this image
                d = positions[None] - (positions @ rotation + translation)[:, None]
                there = (np.abs(d - np.round(d)).max(-1) < tol) & (np.array(numbers)[None] == np.array(numbers)[:, None])
                ch.check(bool((there.sum(0) == 1).all() and (there.sum(1) == 1).all()), "a transformation is no symmetry of the crystal")
                turned = there.T @ (u @ np.linalg.inv(lattice) @ rotation @ lattice)
                ch.check(np.abs(turned.ravel() - c).max() < 1e-6, "a transformation does not lead to its displacement")
            ch.check(all(np.abs(c - s * carts[0]).max() < 1e-6 for c, s in zip(carts, [1, -1])) and len(carts) <= 2,
                     "displacements of one degree of freedom are not collinear or repeated")
            units.append(carts[0])
        units = np.array(units)
        ch.check(np.abs(units @ units.T - np.eye(len(units))).max() < 1e-6, "not orthogonal")
        # every image which is collinear with, or orthogonal to, all degrees of freedom is there
        for v, dots in zip(expected, expected @ units.T):
            along = np.where(np.abs(np.abs(dots) - 1) < 1e-6)[0]
            if len(along):
                found = [np.asarray(d) @ lattice for d in result[along[0]]["displacements"]]
                ch.check(any(np.abs(f.ravel() / np.linalg.norm(f) - v).max() < 1e-6 for f in found), "an image is missing")
            else:
                ch.check(np.abs(dots).max() > 1e-6, "a degree of freedom is missing")
    ch.observe(units)


def images(ch):
    compare(ch, ch.choose("crystal", list(ALL)), ch.choose("variant", VARIANTS), None)


def origins(ch):
    """Crystals at many origins, which are not exact in binary."""
    name = ch.choose("crystal", ["third", "thirds", "ortho", "pm", "p21", "p41", "p213", "rhomb", "wurtzite"])
    n = len(ALL[name][2])
    order = list(ch.choose("order", [list(range(n)), list(range(n))[::-1], list(range(1, n)) + [0]]))
    compare(ch, name, (order, ch.choose("origin", list(range(25 if QUICK else 100)))), ["x0", "y1", "xyz0"])


def tolerance(ch):
    """Positions which obey the symmetry within a larger tolerance only."""
    name = ch.choose("crystal", list(ALL))
    lattice, ideal, numbers = variant(name, ch.choose("variant", ["plain", "shifted", "reversed", "sheared"]))
    size, symprec = ch.choose("tolerance", {"1e-4": (1e-6, 1e-4), "1e-3": (1e-5, 1e-3), "1e-2": (1e-4, 1e-2), "0.1": (1e-3, 0.1)})
    positions = ref.wrap(ideal + ref.fill(ideal.shape, 5, size))
    ops = ref.operations(lattice, ideal, numbers)
    found = spglib.get_symmetry((lattice, positions, numbers), symprec=symprec)
    if found is None or len(found["rotations"]) != len(ops):
        raise Skip()
    structure = ReferenceStructure(list(numbers), lattice, positions, symprec=symprec)
    moves = displacements(len(numbers))
    u = moves[ch.choose("displacement", [k for k in ("x0", "z0", "y1", "xyz0", "y0z1") if k in moves])]
    u = u / np.linalg.norm(u)
    everything(ch, structure, lattice, positions, numbers, ops, u, u @ np.linalg.inv(lattice) * 0.1, 0.05)


def supercell(name, repeats):
    """A crystal repeated along its lattice vectors."""
    lattice, positions, numbers = MORE.get(name) or ALL[name]
    offsets = [np.array(o) for o in np.ndindex(*repeats)]
    there = np.concatenate([(np.array(positions) + o) / np.array(repeats) for o in offsets])
    return np.array(lattice) * np.array(repeats)[:, None], there, list(numbers) * len(offsets)


FACES = np.array([[0, 0, 0], [0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]])
MORE = {
    "fcc": (np.eye(3) * 3.6, FACES, [29] * 4),
    "rocksalt": (np.eye(3) * 5.6, np.concatenate([FACES, FACES + [0.5, 0, 0]]) % 1, [11] * 4 + [17] * 4),
    "diamond": (np.eye(3) * 5.4, np.concatenate([FACES, FACES + 0.25]) % 1, [14] * 8),
}


def supercells(ch):
    """Cells which repeat themselves, with up to 384 (thorough: 1296) operations."""
    shapes = [(2, 1, 1), (1, 1, 3), (2, 2, 1), (2, 2, 2)] + ([] if QUICK else [(3, 2, 1), (3, 3, 3)])
    cases = [(k, (1, 1, 1)) for k in MORE] + [
        (k, s) for k in ALL for s in shapes if len(ALL[k][2]) * np.prod(s) <= (16 if QUICK else 36)]
    name, repeats = ch.choose("cell", {f"{k} {s}": (k, s) for k, s in cases})
    lattice, positions, numbers = supercell(name, repeats)
    order = np.arange(len(numbers))
    if ch.choose("order", ["cells", "species"]) == "species":
        order = np.lexsort((positions[:, 0], numbers))
    positions, numbers = np.ascontiguousarray(positions[order]), [numbers[k] for k in order]
    structure = ReferenceStructure(list(numbers), lattice, positions)
    ops = ref.operations(lattice, positions, numbers)
    orbits = {frozenset(int(p[i]) for _, _, p in ops) for i in range(len(numbers))}
    got = structure.get_equivalent_atom_dict()
    reported = [frozenset([int(k)] + [int(x) for x in v]) for k, v in got.items()]
    ch.check(set(reported) == orbits and len(reported) == len(orbits), lambda: f"{reported} instead of {orbits}")
    for label in ["x0", "y1", "xy0", "x0-x1"]:
        moves = displacements(len(numbers))
        if label in moves:
            u = moves[label] / np.linalg.norm(moves[label])
            everything(ch, structure, lattice, positions, numbers, ops, u, u @ np.linalg.inv(lattice) * 0.1)


QUICK = True


def scenarios(tier):
    global QUICK
    QUICK = tier == "quick"
    return [Tree("origins", origins, shard_depth=3), Tree("atoms", atoms, shard_depth=2), Tree("images", images, shard_depth=3),
            Tree("tolerance", tolerance, shard_depth=3), Tree("supercells", supercells, shard_depth=1),
            in_place.tree("C02", tier)]
