"""C06: masking."""

import itertools
import warnings

import numpy as np

from mc import in_place, ref
from mc.core import Graph, Tree, Violation
from mc.dofs import RefModel
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.structure import ReferenceStructure

PROPERTY = "C06"
LEVEL = "model_checking"
RULE = "explicit-state search over mask histories; every mask of every model"
BOUNDS = (
    "every mask of models with up to 6 degrees of freedom (set in place, through lists of indexes, sorted, reversed, repeated, and with one index that does not exist); all histories of depth 4 (quick) or 6 "
    "of masking, copying, unmasking, adding and evaluating on up to three models derived from "
    "each other"
)
ASSUMPTIONS = ["interpolations as in C04"]

LATTICE = ref.LATTICES["general"]


def make(kind, n, count):
    numbers, positions = ref.p1_species(n), ref.p1_positions(n)
    ref_pol = ref.sym((), 4, 8.0)
    cls = ARTModel if kind == "art" else InterpolationModel
    real = cls(ReferenceStructure(numbers, LATTICE, positions), ref_pol)
    model = RefModel(LATTICE, positions, numbers, ref_pol, [(np.eye(3, dtype=int), np.zeros(3), np.arange(n))])
    for k in range(count):
        add(real, model)
    return real, model


def add(real, model):
    k = len(model.basis)
    n = len(model.numbers)
    u = np.eye(3 * n)[k].reshape(n, 3)
    amps = np.array([0.05, -0.06])
    pols = model.ref + ref.sym((2,), 40 + k, 2.0)
    art = isinstance(real, ARTModel)
    if art:
        real.add_art(k // 3, np.eye(3)[k % 3], amps, pols)
    else:
        real.add_dof(u, amps, pols, 1)
    error = model.adopt(model.prepare(u, amps, pols, 1, not art), real.cart_basis_vectors[k:])
    if error:
        raise Violation(error)


def agree(real, model, what):
    got = real.calc_polarizabilities(model.probes())
    if not ref.close(got, model.predict(model.probes()), 1e-7, 1e-8):
        raise Violation(f"{what}: prediction is not the sum over the unmasked DOFs")
    if list(real.mask) != list(model.mask):
        raise Violation(f"{what}: mask is {real.mask}, expected {model.mask}")


def masks(ch):
    """Every mask, set in place or on a copy, as list or array of indexes."""
    kind = ch.choose("kind", ["interp", "art"])
    count = ch.choose("dofs", [1, 2, 4, 6])
    real, model = make(kind, 2, count)
    mask = ch.choose("mask", ["".join(b) for b in itertools.product("01", repeat=count)])
    hidden = [k for k in range(count) if mask[k] == "1"]
    how = ch.choose("how", ["setter", "copy", "copy_unsorted", "copy_repeated", "copy_missing"])
    masked = model.copy()
    masked.mask = [c == "1" for c in mask]
    ch.step()
    if how == "setter":
        real.mask = np.array(masked.mask, dtype=bool)
        agree(real, masked, "masked in place")
        real.unmask()
        agree(real, model, "unmasked")
        return ch.observe(mask)
    if how == "copy_missing":
        for extra in (count, count + 1, 10 * count):
            for indexes in (hidden + [extra], [extra] + hidden):
                try:
                    real.get_masked_model(indexes)
                except Exception:  # any refusal will do  # pylint: disable=broad-except
                    agree(real, model, "original after a refused mask")
                else:
                    ch.check(False, f"index {extra} of {count} degrees of freedom accepted")
        return ch.observe(mask, how)
    indexes = {"copy": hidden, "copy_unsorted": hidden[::-1], "copy_repeated": hidden * 2}[how]
    given = list(indexes)
    other = real.get_masked_model(indexes)
    ch.check(indexes == given, "argument modified")
    ch.check(type(other) is type(real), "masked model has another type")
    agree(other, masked, "masked copy")
    agree(real, model, "original of a masked copy")
    # linearity: parts of complementary masks add up
    rest = real.get_masked_model([k for k in range(count) if k not in hidden])
    probes = model.probes()
    total = (other.calc_polarizabilities(probes) + rest.calc_polarizabilities(probes)
             - model.ref)
    ch.check(ref.close(total, real.calc_polarizabilities(probes), 1e-7, 1e-8),
             "complementary masks do not add up")
    again = other.get_masked_model([])
    agree(again, model, "mask replaced by an empty one")
    other.unmask()
    agree(other, model, "masked copy unmasked")
    ch.observe(mask)


# histories: up to three models derived from each other
def build(root):
    kind, count = root.split(":")
    real, model = make(kind, 2, int(count))
    return [real], [model]


def events(models):
    out = []
    for m, model in enumerate(models):
        out += [f"set:{m}:even", f"set:{m}:last", f"unmask:{m}", f"inplace:{m}"]
        if len(models) < 3:
            out += [f"copy:{m}:first", f"copy:{m}:all", f"copy:{m}:none"]
        if len(model.basis) < 6:
            out.append(f"add:{m}")
    return out


def apply(reals, models, label):
    what, m, *rest = label.split(":")
    real, model = reals[int(m)], models[int(m)]
    count = len(model.basis)
    if what == "set":
        mask = [(k % 2 == 0) if rest[0] == "even" else k == count - 1 for k in range(count)]
        real.mask = np.array(mask, dtype=bool)
        model.mask = mask
    elif what == "unmask":
        real.unmask()
        model.mask = [False] * count
    elif what == "inplace":  # accessors return copies
        view = real.mask
        view[:] = ~view
    elif what == "add":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            add(real, model)
    elif what == "copy":
        hidden = {"first": [0], "all": list(range(count)), "none": []}[rest[0]]
        reals.append(real.get_masked_model(hidden))
        new = model.copy()
        new.mask = [k in hidden for k in range(count)]
        models.append(new)
    for k, (r, o) in enumerate(zip(reals, models)):
        agree(r, o, f"model {k} after {label}")


def state(_reals, models):
    return tuple((len(m.basis), tuple(m.mask)) for m in models)


def scenarios(tier):
    return [
        Tree("masks", masks, shard_depth=3),
        Graph("histories", build, events, apply, state, 4 if tier == "quick" else 6,
              roots=["interp:2", "interp:3", "art:2", "art:3", "interp:1", "art:5"]),
        in_place.tree("C06", tier),
    ]
