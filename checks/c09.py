"""C09: Raman tensors of phonons."""

import numpy as np

from mc import in_place, ref
from mc.core import Tree
from ramannoodle.abstract import PolarizabilityModel
from ramannoodle.constants import RAMAN_TENSOR_CENTRAL_DIFFERENCE as STEP
from ramannoodle.dynamics import Phonons
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.structure import ReferenceStructure

PROPERTY = "C09"
LEVEL = "exploration"
RULE = (
    "one execution per combination of number of atoms and modes, reference positions, mode "
    "displacements, wavenumbers and polarizability model; non-trivial: at least one tensor "
    "compared (distinct by tensors)"
)
BOUNDS = (
    "1..13 atoms, 1..40 (3 families: up to 2049) modes, 8 mode families (generic, zero, duplicate, opposite, translation, "
    "tiny, large, single-atom), 4 placements of reference positions, wavenumbers positive, zero, "
    "negative, repeated and unsorted, 6 polarizability models (linear, quadratic, cubic, "
    "batch-recording, interpolation, ART); spectra derived repeatedly"
)
ASSUMPTIONS = ["tensors are in arbitrary units: the difference is divided by the step, not twice it"]

LATTICE = ref.LATTICES["general"]


class Toy(PolarizabilityModel):
    """An analytic model of fractional positions, as smooth or rough as requested."""

    def __init__(self, positions, kind, offset):
        self.positions, self.kind = positions, kind
        n = len(positions)
        self.a, self.b = ref.sym((n, 3), 1, 3.0), ref.sym((n, 3), 2, 50.0)
        self.offset = offset
        self.calls = 0
        # not symmetric in general: tensors must be passed through as they are
        self.a = self.a + (ref.fill((n, 3, 3, 3), 4, 1.0) if kind == "asymmetric" else 0)

    def value(self, positions):
        u = positions - self.positions
        out = self.offset + np.einsum("nc,ncij->ij", u, self.a)
        if self.kind in ("quadratic", "cubic"):
            out = out + np.einsum("nc,ncij->ij", u * np.abs(u) if self.kind == "cubic" else u * u, self.b)
        return out

    def calc_polarizabilities(self, positions_batch):
        self.calls += 1
        if positions_batch.ndim != 3 or positions_batch.shape[1:] != self.positions.shape:
            raise ValueError("positions has wrong shape")
        return np.array([self.value(p) for p in positions_batch]).reshape(-1, 3, 3)


def modes(kind, m, n):
    d = ref.fill((m, n, 3), 3, 0.2)
    if kind == "zero":
        d[m // 2] = 0
    elif kind == "duplicate":
        d[-1] = d[0]
    elif kind == "opposite":
        d[-1] = -2 * d[0]
    elif kind == "translation":
        d[0] = 0.1
    elif kind == "tiny":
        d *= 1e-4
    elif kind == "large":
        d *= 12.0
    elif kind == "atom":
        d = np.zeros((m, n, 3))
        for k in range(m):
            d[k, k % n, (k // n) % 3] = 0.1 + 0.01 * k
    return d


def tensors(ch):
    n = ch.choose("atoms", [1, 2, 3, 7, 13])
    m = ch.choose("modes", [1, 2, 3, 10, 39, 40])
    kind = ch.choose("displacements", ["generic", "zero", "duplicate", "opposite", "translation",
                                       "tiny", "large", "atom"])
    where = ch.choose("positions", ["inside", "border", "outside", "origin"])
    model_kind = ch.choose("model", ["linear", "asymmetric", "quadratic", "cubic"])
    positions = {"inside": ref.p1_positions(n), "border": np.round(ref.p1_positions(n)),
                 "outside": ref.p1_positions(n) + 1.5, "origin": np.zeros((n, 3))}[where]
    nus = ch.choose("wavenumbers", {
        "ascending": 100.0 * (1 + np.arange(m)), "mixed": 300 * ref.fill((m,), 2),
        "equal": np.full(m, 55.0), "integers": np.arange(m) - 1})
    d = modes(kind, m, n)
    model = Toy(positions, model_kind, ref.fill((3, 3), 5, 9.0))
    given = [positions.copy(), nus.copy(), d.copy()]
    phonons = Phonons(positions, nus, d)
    results = []
    for _ in range(2):
        spectrum = phonons.get_raman_spectrum(model)
        ch.step()
        results.append(spectrum.raman_tensors)
        ch.check(np.array_equal(spectrum.phonon_wavenumbers, given[1]), "wavenumbers differ")
    want = np.array([(model.value(positions + STEP * x) - model.value(positions - STEP * x)) / STEP
                     for x in given[2]])
    ch.check(want.shape == results[0].shape and ref.close(results[0], want, 1e-6, 1e-8 / STEP * 1e-3),
             "tensors differ from central differences")
    ch.check(np.array_equal(results[0], results[1]), "second derivation differs")
    if model_kind in ("linear", "asymmetric"):
        linear = 2 * np.einsum("mnc,ncij->mij", given[2], model.a)
        ch.check(ref.close(results[0], linear, 1e-6, 1e-6), "not linear")
    ch.check(np.array_equal(phonons.ref_positions, given[0])
             and np.array_equal(phonons.wavenumbers, given[1])
             and np.array_equal(phonons.displacements, given[2]), "phonons modified")
    ch.check(np.array_equal(positions, given[0]) and np.array_equal(d, given[2]), "arguments modified")
    # each mode alone, and modes in reverse order
    k = m // 2
    alone = Phonons(positions, nus[k:k + 1], d[k:k + 1]).get_raman_spectrum(model).raman_tensors
    ch.check(ref.close(alone[0], results[0][k], 1e-7, 1e-9), "depends on the other modes")
    back = Phonons(positions, nus[::-1].copy(), d[::-1].copy()).get_raman_spectrum(model)
    ch.check(ref.close(back.raman_tensors[::-1], results[0], 1e-7, 1e-9), "depends on the order")
    ch.observe(results[0])


def real_models(ch):
    """Interpolation and ART models; mode directions against atomic derivatives."""
    kind = ch.choose("kind", ["interp1", "interp2", "interp3", "art", "art_masked"])
    n = ch.choose("atoms", [3, 4])
    lattice = ref.LATTICES[ch.choose("lattice", ["cubic", "hex", "general", "lefthanded", "short", "nearly"])]
    numbers, positions = ref.p1_species(n), ref.wrap(ref.p1_positions(n) - ch.choose("origin", [0.0, 0.45]))
    structure = ReferenceStructure(numbers, lattice, positions)
    ref_pol = ref.sym((), 6, 7.0)
    response = ref.sym((n, 3), 8, 2.0)
    model = (ARTModel if "art" in kind else InterpolationModel)(structure, ref_pol)
    amps = {"interp1": [0.1, -0.1], "interp2": [0.1, -0.1], "interp3": [0.1, -0.1, 0.2, -0.15]}.get(
        kind, [0.1, -0.1])
    for k in range(3 * n):
        u = np.eye(3 * n)[k].reshape(n, 3)
        pols = np.array([ref_pol + ref.respond(response, u * a) for a in amps])
        if "art" in kind:
            model.add_art(k // 3, np.eye(3)[k % 3], np.array(amps), pols)
        else:
            model.add_dof(u, np.array(amps), pols, int(kind[-1]))
        ch.step()
    hidden = []
    if kind == "art_masked":
        hidden = [0, 3 * n - 1]
        model = model.get_masked_model(hidden)
    m = ch.choose("modes", [1, 3, 12])
    d = ref.fill((m, n, 3), 5, 0.1)
    got = Phonons(positions, 100.0 + np.arange(m), d).get_raman_spectrum(model).raman_tensors
    cart = (d @ lattice).reshape(m, 3 * n)
    cart[:, hidden] = 0
    want = 2 * np.einsum("mnc,ncij->mij", cart.reshape(m, n, 3), response)
    ch.check(ref.close(got, want, 1e-6, 1e-7), "tensor is not twice the derivative along the mode")
    ch.observe(got)


def many(ch):
    """Numbers of modes beyond those of small cells."""
    n = ch.choose("atoms", [1, 3])
    m = ch.choose("modes", [99, 100, 101, 127, 128, 129, 256, 257, 500, 1000, 1001, 2049])
    kind = ch.choose("displacements", ["generic", "zero", "graded"])
    model = Toy(ref.p1_positions(n), ch.choose("model", ["linear", "asymmetric"]), ref.fill((3, 3), 5, 9.0))
    d = modes(kind, m, n)
    if kind == "graded":
        d *= (10.0 ** -(np.arange(m) % 7))[:, None, None]
    nus = 300 * ref.fill((m,), 2)
    spectrum = Phonons(ref.p1_positions(n), nus, d.copy()).get_raman_spectrum(model)
    ch.step()
    ch.check(np.array_equal(spectrum.phonon_wavenumbers, nus), "wavenumbers differ")
    want = 2 * np.einsum("mnc,ncij->mij", d, model.a)
    got = spectrum.raman_tensors
    ch.check(got.shape == want.shape and ref.close(got, want, 1e-6, 1e-9 / STEP * 1e-3), "tensors differ")
    ch.observe(got)


def incompatible(ch):
    n = ch.choose("atoms", [1, 2, 5])
    other = ch.choose("model_atoms", [k for k in (1, 2, 3, 6) if k != n])
    kind = ch.choose("kind", ["toy", "interp"])
    if kind == "toy":
        model = Toy(ref.p1_positions(other), "linear", np.eye(3))
    else:
        model = InterpolationModel(
            ReferenceStructure(ref.p1_species(other), LATTICE, ref.p1_positions(other)), np.eye(3))
    phonons = Phonons(ref.p1_positions(n), np.array([1.0, 2.0]), ref.fill((2, n, 3)))
    try:
        phonons.get_raman_spectrum(model)
    except ValueError:
        ch.step()
        return ch.observe(n, other, kind)
    ch.check(False, "incompatible model accepted")


def scenarios(tier):
    return [Tree("tensors", tensors, shard_depth=3), Tree("real_models", real_models, shard_depth=3),
            Tree("many", many), Tree("incompatible", incompatible),
            in_place.tree("C09", tier)]
