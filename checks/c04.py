"""C04: interpolation models reproduce their data, additively and independently of batching."""

import warnings

import numpy as np

from mc import in_place, ref
from mc.core import Tree
from mc.dofs import RefModel
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.structure import ReferenceStructure

PROPERTY = "C04"
LEVEL = "exploration"
RULE = (
    "one execution per combination of lattice, atoms, basis of degrees of freedom, "
    "interpolation order, amplitude set and evaluation history; non-trivial: the model was "
    "trained and every prediction compared with the reference interpolation (distinct by "
    "predictions)"
)
BOUNDS = (
    "crystals without symmetry with 2..5 atoms in 6 lattices, 1..3N degrees of freedom "
    "(atomic or collective), orders 1..7, 13 amplitude sets and sets of up to 13 amplitudes in one degree of freedom, directions of any magnitude from 1e-7 to 1e5, batches of 0..5000 configurations, "
    "lattice translations of +-1..4 cells"
)
ASSUMPTIONS = [
    "interpolants of order > 1 through more than order+1 points are scipy's not-a-knot splines",
]

AMPLITUDES = {
    # name: (amplitudes, include reference, orders)
    "pm": ([0.05, -0.05], True, (1, 2)),
    "pm_noref": ([0.05, -0.05], False, (1,)),
    "unsorted": ([0.1, -0.05, 0.05, -0.1], True, (1, 2, 3)),
    "unsorted_noref": ([0.1, -0.05, 0.05, -0.1], False, (1, 2, 3)),
    "one": ([0.07], True, (1,)),
    "one_negative": ([-0.07], True, (1,)),
    "positive": ([0.02, 0.1, 0.05], True, (1, 2, 3)),
    "asymmetric": ([-0.2, 0.03, 0.11], True, (1, 2, 3)),
    "five": ([0.15, -0.15, 0.05, -0.05, 0.1], True, (1, 2, 3)),
    "withzero_noref": ([0.0, 0.06, -0.09], False, (1, 2)),
    "precise": ([0.0512345678, -0.0487654321], True, (1, 2)),
    "close": ([0.05, -0.05, 0.0504], True, (1,)),
    "tiny": ([0.0004, -0.0007], True, (1,)),
}


def directions(kind, n, count):
    if kind == "atomic":
        eye = np.eye(3 * n).reshape(3 * n, n, 3)
        order = [(7 * k + 2) % (3 * n) for k in range(3 * n)]
        seen = list(dict.fromkeys(order + list(range(3 * n))))
        return [eye[k] * (1.0 + k) for k in seen[:count]]
    q, _ = np.linalg.qr(ref.fill((3 * n, 3 * n), 5))
    return [q[:, k].reshape(n, 3) * (-1) ** k * (0.3 + k) for k in range(count)]


def trained(ch, n_options=(2, 3, 5)):
    lattice = ref.LATTICES[ch.choose("lattice", ["cubic", "hex", "general", "lefthanded", "short", "nearly"])]
    n = ch.choose("atoms", list(n_options))
    numbers, positions = ref.p1_species(n), ref.p1_positions(n)
    basis = ch.choose("basis", ["atomic", "collective"])
    count = ch.choose("dofs", {"1": 1, "2": 2, "all": 3 * n})
    name = ch.choose("amplitudes", list(AMPLITUDES))
    amps, include, orders = AMPLITUDES[name]
    order = ch.choose("order", list(orders))
    ref_pol = ref.sym((), 9, 10.0)
    model = InterpolationModel(ReferenceStructure(numbers, lattice, positions), ref_pol)
    oracle = RefModel(lattice, positions, numbers, ref_pol)
    assert len(oracle.ops) == 1
    points = []
    for k, u in enumerate(directions(basis, n, count)):
        scaled = np.array(amps) * (1 + 0.1 * k)
        pols = ref_pol + ref.sym((len(amps),), 20 + k, 2.0)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            model.add_dof(u, scaled, pols, order, include)
        ch.step()
        new = oracle.prepare(u, scaled, pols, order, include)
        error = oracle.adopt(new, model.cart_basis_vectors[len(oracle.basis):])
        ch.check(error is None, error)
        points += [(u / np.linalg.norm(u) * a, p) for a, p in zip(scaled, pols)]
    return model, oracle, points, include


def exact(ch):
    """Trained points are reproduced, the reference too, wherever they sit in a batch."""
    model, oracle, points, include = trained(ch)
    inv = np.linalg.inv(oracle.lattice)
    batch = np.array([oracle.positions + u @ inv for u, _ in points])
    # other degrees of freedom contribute their value at zero amplitude
    zero = oracle.predict(oracle.positions[None])[0]
    if include:
        ch.check(ref.close(zero, oracle.ref), "oracle")
    for _ in range(2):
        got = model.calc_polarizabilities(batch)
        ch.step()
        ch.check(ref.close(got, oracle.predict(batch), 1e-7, 1e-8), "trained points")
        if include:
            ch.check(ref.close(got, np.array([p for _, p in points]), 1e-6, 1e-7),
                     "a trained polarizability is not reproduced")
        alone = np.array([model.calc_polarizabilities(b[None])[0] for b in batch[:6]])
        ch.check(ref.close(alone, got[:6]), "prediction depends on the rest of the batch")
    got = model.calc_polarizabilities(oracle.positions[None])
    ch.check(ref.close(got[0], zero, 1e-7, 1e-8), "reference polarizability")
    ch.observe(got, alone)


def batches(ch):
    """Generic configurations in batches of every size, in any order, in any image."""
    model, oracle, _, _ = trained(ch, (3,))
    size = ch.choose("batch", [0, 1, 2, 17, 100, 129])
    inv = np.linalg.inv(oracle.lattice)
    n = len(oracle.positions)
    # beyond the largest amplitudes, too (extrapolation)
    batch = oracle.positions + ref.fill((size, n, 3), 31, 0.3) @ inv
    keep = batch.copy()
    want = oracle.predict(batch)
    got = model.calc_polarizabilities(batch)
    ch.step()
    ch.check(got.shape == (size, 3, 3), lambda: f"shape {got.shape}")
    ch.check(ref.close(got, want, 1e-7, 1e-7), "prediction differs from the interpolation")
    ch.check(np.array_equal(batch, keep), "input modified")
    images = batch + np.round(ref.fill((size, n, 3), 4, 4.4))
    ch.check(ref.close(model.calc_polarizabilities(images), want, 1e-6, 1e-6),
             "prediction depends on the periodic image")
    perm = np.argsort(ref.fill((size,), 3)) if size else np.array([], int)
    ch.check(ref.close(model.calc_polarizabilities(np.asfortranarray(batch[perm])), got[perm]),
             "prediction depends on the order in the batch")
    half = size // 2
    split = np.concatenate([model.calc_polarizabilities(batch[:half]),
                            model.calc_polarizabilities(batch[half:])])
    ch.check(ref.close(split, got), "prediction depends on how the batch is split")
    ch.check(ref.close(model.calc_polarizabilities(batch), got), "second evaluation differs")
    ch.observe(got)


def large(ch):
    """One large batch equals the same configurations one by one."""
    kind = ch.choose("model", ["interpolation", "art"])
    size = ch.choose("batch", [256, 257, 512, 1000, 1001, 2049, 5000])
    scale = ch.choose("response", [1.0, 1e-6])
    lattice, numbers, positions = ref.LATTICES["general"], ref.p1_species(4), ref.p1_positions(4)
    structure = ReferenceStructure(numbers, lattice, positions)
    ref_pol = ref.sym((), 2, 5.0)
    oracle = RefModel(lattice, positions, numbers, ref_pol)
    cls = ARTModel if kind == "art" else InterpolationModel
    model = cls(structure, ref_pol)
    for k in range(12):
        u = np.eye(12)[k].reshape(4, 3)
        amps = np.array([0.05, -0.04])
        pols = ref_pol + ref.sym((2,), k) * scale
        if kind == "art":
            model.add_art(k // 3, np.eye(3)[k % 3], amps, pols)
        else:
            model.add_dof(u, amps, pols, 1)
        new = oracle.prepare(u, amps, pols, 1, kind != "art")
        ch.check(oracle.adopt(new, model.cart_basis_vectors[k:]) is None, "basis")
    batch = positions + ref.fill((size, 4, 3), 1, 0.02)
    got = model.calc_polarizabilities(batch)
    ch.step()
    ch.check(ref.close(got - ref_pol, oracle.predict(batch) - ref_pol, 1e-7, 1e-8 * scale + 1e-13), "large batch")
    ch.observe(got)


def orders(ch):
    """Interpolations of every order with just enough and more points, of symmetric and other tensors."""
    lattice = ref.LATTICES[ch.choose("lattice", ["cubic", "general"])]
    numbers, positions = ref.p1_species(3), ref.p1_positions(3)
    order = ch.choose("order", [1, 2, 3, 4, 5, 6, 7])
    count = order + 1 + ch.choose("more", [0, 1, 2, 5])
    include = ch.flag("include")
    spread = ch.choose("amplitudes", ["even", "uneven", "positive"])
    x = np.linspace(-0.35, 0.37, count)
    if spread == "uneven":
        x = x * (1 + np.abs(x)) + 0.01
    elif spread == "positive":
        x = np.linspace(0.02, 0.4, count)
    if include:
        x = np.delete(x, np.argmin(np.abs(x)))
    x = x[np.argsort(ref.fill((len(x),), 5))]
    kind = ch.choose("tensors", ["symmetric", "general", "constant"])
    base = ref.sym((), 9, 10.0)
    change = ref.sym((len(x),), 20, 2.0) if kind == "symmetric" else ref.fill((len(x), 3, 3), 20, 2.0)
    if kind == "constant":
        change[:] = 0
    model = InterpolationModel(ReferenceStructure(numbers, lattice, positions), base)
    oracle = RefModel(lattice, positions, numbers, base)
    u, magnitude = ref.fill((3, 3), 6), ch.choose("magnitude", [1.0, 1e-7, 1e5])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        model.add_dof(u * magnitude, x.copy(), base + change, order, include)
    ch.step()
    new = oracle.prepare(u, x, base + change, order, include)
    ch.check(oracle.adopt(new, model.cart_basis_vectors) is None, "basis")
    unit, inv = u / np.linalg.norm(u), np.linalg.inv(lattice)
    got = model.calc_polarizabilities(np.array([positions + a * unit @ inv for a in x]))
    ch.check(ref.close(got, base + change, 1e-6, 1e-6), "a given polarizability is not reproduced")
    between = np.linspace(x.min() - 0.01, x.max() + 0.01, 29)
    batch = np.array([positions + a * unit @ inv for a in between])
    got = model.calc_polarizabilities(batch)
    ch.check(ref.close(got, oracle.predict(batch), 1e-5, 1e-5), "prediction between or beyond the given amplitudes")
    ch.observe(got)


def arts(ch):
    """Atomic Raman tensors: linear between the two amplitudes, in every direction triple."""
    lattice = ref.LATTICES[ch.choose("lattice", ["cubic", "hex", "general", "lefthanded", "short", "nearly"])]
    n = ch.choose("atoms", [2, 3, 5])
    numbers, positions = ref.p1_species(n), ref.p1_positions(n)
    magnitude = ch.choose("magnitude", [3.7, 1e-7, 1e5])
    frame = ch.choose("frame", {"axes": np.eye(3), "rotated": np.linalg.qr(ref.fill((3, 3), 3))[0]})
    amps = ch.choose("amplitudes", {"pm": [0.05, -0.05], "uneven": [-0.02, 0.09],
                                    "positive": [0.03, 0.08], "zero": [0.0, 0.1]})
    ref_pol = ref.sym((), 1, 10.0)
    model = ARTModel(ReferenceStructure(numbers, lattice, positions), ref_pol)
    oracle = RefModel(lattice, positions, numbers, ref_pol)
    atoms = list(range(n)) if ch.choose("which", ["forward", "backward"]) == "forward" else \
        list(range(n))[::-1]
    for step, atom in enumerate(atoms):
        for c in range(3):
            u = np.zeros((n, 3))
            u[atom] = frame[c]
            pols = ref_pol + ref.sym((2,), 3 * step + c, 3.0)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                model.add_art(atom, frame[c] * magnitude, np.array(amps), pols)
            ch.step()
            new = oracle.prepare(u, amps, pols, 1, False)
            error = oracle.adopt(new, model.cart_basis_vectors[len(oracle.basis):])
            ch.check(error is None, error)
    batch = np.concatenate([oracle.probes(), positions + ref.fill((5, n, 3), 8, 0.05)])
    got = model.calc_polarizabilities(batch)
    ch.check(ref.close(got, oracle.predict(batch), 1e-7, 1e-7), "prediction differs")
    ch.observe(got)


def scenarios(tier):
    return [Tree("exact", exact, shard_depth=4), Tree("batches", batches, shard_depth=4),
            Tree("large", large, shard_depth=2), Tree("arts", arts, shard_depth=2), Tree("orders", orders, shard_depth=2),
            in_place.tree("C04", tier)]
