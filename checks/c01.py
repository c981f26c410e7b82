"""C01: periodic boundary conditions."""

import numpy as np

from mc import in_place, ref
from mc.core import Tree
from ramannoodle.structure import utils

PROPERTY = "C01"
LEVEL = "exploration"
RULE = (
    "one execution per combination of array shape, coordinate offsets, pair of coordinate "
    "values and function history; non-trivial: the real functions returned and were compared "
    "elementwise with floor/round arithmetic (distinct by the values returned)"
)
BOUNDS = (
    "coordinates on the exact grid k/8, k in -24..24, on generic values in (-6,6), near cell "
    "borders (+-1e-9) and at +-1e4, displacements of 1e-1..1e-12; arrays of 1..40 atoms, up to 300 configurations; every "
    "combination of shape, value family and lattice translation"
)
ASSUMPTIONS = [
    "IEEE double arithmetic; comparison tolerance 1e-12 (1e-10 for coordinates around 1e4)",
    "a coordinate on the border of the cell may be reported on either side of it",
]

FAMILIES = {
    "inside": lambda shape, t: np.abs(ref.fill(shape, t, 0.999)),
    "generic": lambda shape, t: ref.fill(shape, t, 6.0),
    "negative": lambda shape, t: -np.abs(ref.fill(shape, t, 3.0)),
    "grid": lambda shape, t: np.round(ref.fill(shape, t, 24.0)) / 8,
    "border": lambda shape, t: np.round(ref.fill(shape, t, 3.0)) + ref.fill(shape, t + 1, 2e-9),
    "half": lambda shape, t: np.round(ref.fill(shape, t, 3.0)) + 0.5 + ref.fill(shape, t + 1, 2e-9),
    "far": lambda shape, t: ref.fill(shape, t, 1e4),
    "zero": lambda shape, t: np.zeros(shape),
    "integers": lambda shape, t: np.round(ref.fill(shape, t, 4.0)),
}
SHAPES = {
    "1x3": (1, 3), "2x3": (2, 3), "3x3": (3, 3), "40x3": (40, 3), "1x1x3": (1, 1, 3),
    "2x5x3": (2, 5, 3), "300x4x3": (300, 4, 3),
}
SHIFTS = {
    "0": lambda shape, t: np.zeros(shape),
    "+1": lambda shape, t: np.ones(shape),
    "-1": lambda shape, t: -np.ones(shape),
    "mixed": lambda shape, t: np.round(ref.fill(shape, 50 + t, 3.4)),
    "one": lambda shape, t: np.eye(1, int(np.prod(shape)), 1).reshape(shape) * 2,
}


def _in(x, lo, hi, tol=1e-12):
    return bool((x >= lo - tol).all() and (x <= hi + tol).all())


def wrapping(ch):
    shape = SHAPES[ch.choose("shape", list(SHAPES))]
    family = ch.choose("values", list(FAMILIES))
    x = FAMILIES[family](shape, 0) + SHIFTS[ch.choose("shift", list(SHIFTS))](shape, 0)
    order = ch.choose("memory", ["C", "F", "strided"])
    if order == "F":
        x = np.asfortranarray(x)
    elif order == "strided":
        x = np.repeat(x, 2, axis=0)[::2]
    tol = 1e-10 if family == "far" else 1e-12
    before = x.copy()
    for _ in range(2):  # twice: no state between calls
        p = utils.apply_pbc(x)
        d = utils.apply_pbc_displacement(x)
        ch.step(2)
        ch.check(np.array_equal(x, before), "input modified")
        ch.check(p.shape == shape and d.shape == shape, "shape changed")
        ch.check(_in(p, 0, 1), lambda: f"wrapped position outside [0,1]: {p.min()} {p.max()}")
        ch.check(ref.congruent(p, x, tol), "wrapped position is not a lattice translation")
        ch.check(_in(d, -0.5, 0.5), lambda: f"displacement outside [-.5,.5]: {d.min()} {d.max()}")
        ch.check(ref.congruent(d, x, tol), "wrapped displacement is not a lattice translation")
    ch.check(ref.congruent(utils.apply_pbc(p), p, 1e-12) and _in(utils.apply_pbc(p), 0, 1), "not idempotent")
    ch.observe(np.round(p, 6) % 1, np.round(np.abs(d), 6))


def pairs(ch):
    shape = SHAPES[ch.choose("shape", list(SHAPES))]
    fa, fb = ch.choose("a", list(FAMILIES)), ch.choose("b", list(FAMILIES))
    a = FAMILIES[fa](shape, 3)
    b = FAMILIES[fb](shape, 11)
    shift = SHIFTS[ch.choose("shift", list(SHIFTS))](shape, 1)
    tol = 1e-10 if "far" in (fa, fb) else 1e-12
    d = utils.calc_displacement(a, b)
    ch.step(4)
    ch.check(d.shape == shape, "shape changed")
    ch.check(_in(d, -0.5, 0.5), "displacement is not the shortest")
    ch.check(ref.congruent(d, b - a, tol), "displacement is not b - a modulo the lattice")
    ch.check(ref.congruent(utils.calc_displacement(b, a), -d, tol), "not antisymmetric")
    for moved in (utils.calc_displacement(a + shift, b), utils.calc_displacement(a, b + shift)):
        ch.check(ref.congruent(moved, d, tol) and _in(moved, -0.5, 0.5),
                 "displacement depends on the periodic image")
    q = utils.displace_positions(a, b)
    ch.check(_in(q, 0, 1) and ref.congruent(q, a + b, tol), "displaced positions are wrong")
    q = utils.displace_positions(a, d)
    ch.check(_in(q, 0, 1) and ref.congruent(q, b, tol), "displacing a by b - a does not give b")
    ch.observe(np.round(np.abs(d), 6))


def grid(ch):
    """Every pair of coordinate values of an exact grid, in one array."""
    denominator = ch.choose("denominator", [8, 10, 3])
    k = np.arange(-3 * denominator, 3 * denominator + 1) / denominator
    a, b = (x.reshape(-1, 1) * np.ones(3) for x in np.meshgrid(k, k))
    d = utils.calc_displacement(a, b)
    ch.step(len(k) ** 2)
    ch.check(_in(d, -0.5, 0.5), "displacement is not the shortest")
    ch.check(ref.congruent(d, b - a, 1e-12), "displacement is not b - a modulo the lattice")
    q = utils.displace_positions(a, b)
    ch.check(_in(q, 0, 1) and ref.congruent(q, a + b, 1e-12), "displaced positions are wrong")
    broadcast = utils.calc_displacement(a[:5], np.array([a[:5], b[:5], a[:5] + 0.3]))
    ch.check(ref.congruent(broadcast, np.array([a[:5], b[:5], a[:5] + 0.3]) - a[:5])
             and _in(broadcast, -0.5, 0.5), "one structure against a batch")
    ch.observe(np.round(np.abs(d), 6))


def small(ch):
    """Displacements of every order of magnitude, down to the resolution of the coordinates."""
    n = ch.choose("atoms", [1, 2, 7])
    size = 10.0 ** -ch.choose("exponent", list(range(1, 13)))
    family = ch.choose("a", ["generic", "negative", "grid", "border", "half", "zero", "integers"])
    which = ch.choose("components", ["all", "one"])
    shift = SHIFTS[ch.choose("shift", list(SHIFTS))]((n, 3), 1)
    a = FAMILIES[family]((n, 3), 3)
    u = ref.fill((n, 3), 5, size)
    if which == "one":
        u *= np.eye(1, 3 * n, (3 * n) // 2).reshape(n, 3)
    b = a + u + shift
    for value, want in ((utils.calc_displacement(a, b), u), (utils.calc_displacement(b, a), -u),
                        (utils.apply_pbc_displacement(u + shift), u)):
        ch.check(float(np.abs(value - want).max()) < 2e-14, "a small displacement is not returned")
        ch.step()
    q = utils.displace_positions(a, u)
    ch.check(_in(q, 0, 1) and ref.congruent(q, b, 2e-14), "displaced positions are wrong")
    ch.observe(value)


def transform(ch):
    """transform_positions: rotation and translation, then wrapped."""
    n = ch.choose("atoms", [1, 2, 7])
    p = ref.p1_positions(n)
    mats = {
        "identity": np.eye(3), "inversion": -np.eye(3), "mirror": np.diag([1.0, -1, 1]),
        "swap": np.array([[0.0, 1, 0], [1, 0, 0], [0, 0, 1]]),
        "twofold": np.diag([-1.0, -1, 1]),
    }
    r = mats[ch.choose("rotation", list(mats))]
    t = {"0": np.zeros(3), "half": np.full(3, 0.5), "neg": np.array([-0.3, 0.2, 1.7]),
         "far": np.array([5.25, -7.5, 0.1])}[ch.choose("translation", ["0", "half", "neg", "far"])]
    q = utils.transform_positions(p, r, t)
    ch.step()
    ch.check(_in(q, 0, 1) and ref.congruent(q, p @ r + t, 1e-12), "transformed positions are wrong")
    ch.observe(np.round(q, 6))


def scenarios(tier):
    return [Tree("wrapping", wrapping), Tree("pairs", pairs, shard_depth=2),
            Tree("grid", grid, procs=1), Tree("transform", transform, procs=1), Tree("small", small),
            in_place.tree("C01", tier)]
