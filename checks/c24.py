"""C24: conversions between fractional and Cartesian displacements and directions."""

import numpy as np

from mc import in_place, ref
from mc.core import Tree
from ramannoodle.structure import ReferenceStructure

PROPERTY = "C24"
LEVEL = "exploration"
RULE = (
    "one execution per combination of lattice, atom count, displacement family, batch shape "
    "and order of calls; non-trivial: conversions returned and were compared with matrix "
    "arithmetic (distinct by returned values)"
)
BOUNDS = "13 lattices (incl. left-handed, slabs and needles with edges up to a thousand times as long as the others, scaled by 0.2..50), 1..130 atoms, 7 displacement families, 5 batch shapes"
ASSUMPTIONS = ["components exactly half a lattice vector may point either way"]

DISPLACEMENTS = {
    "minute": 1e-10, "tiny": 1e-7, "tenth": 1e-4, "small": 0.01, "below_half": 0.4999, "beyond_half": 0.97, "several_cells": 4.3,
}
LATTICES = {
    **ref.LATTICES, "slab": np.diag([2.5, 2.7, 700.0]), "needle": np.diag([1500.0, 2.0, 3.0]),
    "oblique slab": np.array([[3.0, 0.2, 0], [-1.4, 2.7, 0.1], [5.0, 7.0, 400.0]]),
}


def conversions(ch):
    scale = ch.choose("scale", [1.0, 0.2, 50.0])
    lattice = LATTICES[ch.choose("lattice", list(LATTICES))] * scale
    n = ch.choose("atoms", [1, 2, 3, 9, 130])
    s = ReferenceStructure(ref.p1_species(n), lattice, ref.p1_positions(n))
    size = DISPLACEMENTS[ch.choose("size", list(DISPLACEMENTS))]
    frac = ref.fill((n, 3), n, size)
    cart = ref.min_image(frac) @ lattice
    inverse = np.linalg.inv(lattice)
    longest = max(1.0, np.abs(lattice).max() / scale / 20)
    worse = max(1.0, np.linalg.cond(lattice) / 20)
    tol = 2e-13 * scale * longest
    for _ in range(2):
        ch.step(6)
        keep = frac.copy()
        got = s.get_cart_displacement(frac)
        ch.check(ref.close(got, cart, atol=tol), "fractional -> Cartesian displacement")
        ch.check(np.array_equal(keep, frac), "input modified")
        back = s.get_frac_displacement(cart)
        ch.check(ref.congruent(back, frac, 1e-12 * worse) and np.abs(back).max() <= 0.5 + 1e-9,
                 "Cartesian -> fractional displacement")
        raw = frac @ lattice  # not the shortest image
        back = s.get_frac_displacement(raw)
        ch.check(ref.congruent(back, frac, 1e-12 * worse) and np.abs(back).max() <= 0.5 + 1e-9,
                 "Cartesian displacement beyond half a cell")
        ch.check(ref.close(s.get_cart_displacement(back), cart, atol=2e-12 * scale * longest * worse), "round trip")
        direction = ref.fill((3,), 3, 2 * size)
        ch.check(ref.close(s.get_cart_direction(direction), direction @ lattice, atol=tol),
                 "fractional -> Cartesian direction")
        ch.check(ref.close(s.get_frac_direction(direction), direction @ inverse, atol=1e-12 * worse / scale),
                 "Cartesian -> fractional direction")
        ch.check(ref.close(s.get_frac_direction(s.get_cart_direction(direction)), direction, atol=1e-12 * worse),
                 "direction round trip")
    ch.observe(got, back)


def batches(ch):
    lattice = ref.LATTICES[ch.choose("lattice", list(ref.LATTICES))]
    n = ch.choose("atoms", [1, 3, 3 + 1])
    lead = ch.choose("batch", {"3": (3,), "1": (1,), "64": (64,), "2x3": (2, 3), "257": (257,), "1025": (1025,)})
    s = ReferenceStructure(ref.p1_species(n), lattice, ref.p1_positions(n))
    size = ch.choose("size", [0.01, 0.49, 3.3])
    frac = ref.fill(lead + (n, 3), n, size)
    got = s.get_cart_displacement(frac)
    ch.step()
    ch.check(ref.close(got, ref.min_image(frac) @ lattice, atol=1e-12), "batch conversion")
    flat = frac.reshape(-1, n, 3)
    each = np.array([s.get_cart_displacement(f) for f in flat]).reshape(frac.shape)
    ch.check(ref.close(got, each, atol=1e-12), "batch differs from single conversions")
    ch.observe(got)


def scenarios(tier):
    return [Tree("conversions", conversions, shard_depth=2), Tree("batches", batches),
            in_place.tree("C24", tier)]
