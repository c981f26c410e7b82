"""C10: polycrystalline intensities and corrections of phonon spectra."""

import itertools

import numpy as np

from mc import in_place, ref
from mc.core import Graph, Tree, Violation
from ramannoodle.spectrum import PhononRamanSpectrum
from ramannoodle.spectrum._raman import get_bose_einstein_correction, get_laser_correction

PROPERTY = "C10"
LEVEL = "model_checking"
RULE = "every tensor of a grid under every correction setting; all measurement histories"
BOUNDS = (
    "all symmetric tensors with components in {-1, 0, 2} (729) and generic ones in sets of 1..60 and up to 2050 "
    "modes; wavenumbers 0.5..4000/cm, negative ones, unsorted; wavelengths 200..1064 nm (integer "
    "and float), temperatures 1..2000 K, all flag combinations; 24 rotations and 6 generic ones; "
    "all histories of depth 3 (quick) or 4 (thorough) of 12 measurements and accesses"
)
ASSUMPTIONS = ["zero wavenumbers are excluded when a correction is requested (infinite by definition)"]

GRID = [np.array([[a, d, e], [d, b, f], [e, f, c]], float)
        for a, b, c, d, e, f in itertools.product((-1, 0, 2), repeat=6)]
SETTINGS = {
    "plain": {}, "laser": {"laser_correction": True},
    "bose": {"bose_einstein_correction": True},
    "both": {"laser_correction": True, "bose_einstein_correction": True},
}


def expected(tensors, nus, laser, wavelength, bose, temperature):
    out = []
    for t, nu in zip(tensors, nus):
        value = ref.powder_intensity(t)
        if laser:
            value *= ref.laser_factor(nu, wavelength)
        if bose:
            value *= ref.bose_factor(nu, temperature)
        out.append(value)
    return np.array(out)


def measure(ch, spectrum, tensors, nus, kwargs):
    got = spectrum.measure(**kwargs)
    ch.step()
    want = expected(tensors, nus, kwargs.get("laser_correction", False),
                    kwargs.get("laser_wavelength", 522),
                    kwargs.get("bose_einstein_correction", False), kwargs.get("temperature", 300))
    ch.check(np.array_equal(got[0], nus), "wavenumbers differ")
    size = np.abs(tensors).max(initial=0, axis=(1, 2)) ** 2
    size = size * np.abs(want / [max(ref.powder_intensity(t), 1e-300) for t in tensors])
    ch.check(got[1].shape == want.shape and bool((np.abs(got[1] - want) <= 1e-9 * np.abs(want) + 1e-11 * size).all()),
             lambda: f"intensities {got[1][:3]}, expected {want[:3]}")
    return got[1]


def grid(ch):
    part = ch.choose("part", list(range(27)))
    settings = ch.choose("settings", SETTINGS)
    count = ch.choose("modes", [1, 2, 27])
    pool = GRID[part * 27:(part + 1) * 27]
    for start in range(0, 27, count):
        tensors = np.array(pool[start:start + count])
        nus = 40.0 + 13.7 * np.arange(len(tensors)) * (part + 1)
        measure(ch, PhononRamanSpectrum(nus.copy(), tensors.copy()), tensors, nus, settings)
        ch.observe(part, start)


def corrections(ch):
    settings = dict(ch.choose("settings", SETTINGS))
    m = ch.choose("modes", [1, 3, 60])
    nus = ch.choose("wavenumbers", {
        "low": 0.5 + np.arange(m), "high": 4000.0 - 60 * np.arange(m),
        "unsorted": 2000 + 1900 * ref.fill((m,), 3), "negative": -30.0 - np.arange(m),
        "mixed": 700 * ref.fill((m,), 1), "repeated": np.full(m, 812.5)})
    tensors = ref.sym((m,), 4, 6.0)
    size = ch.choose("size", ["even", "graded"])
    if size == "graded":
        tensors = tensors * (10.0 ** -(np.arange(m) % 9))[:, None, None]
    wavelength = ch.choose("wavelength", [522, 532.0, 1064, 200.5, 785])
    temperature = ch.choose("temperature", [300, 1, 77.5, 2000, 298.15])
    settings["laser_wavelength"], settings["temperature"] = wavelength, temperature
    settings["orientation"] = "polycrystalline"
    spectrum = PhononRamanSpectrum(nus.copy(), tensors.copy())
    with np.errstate(all="ignore"):
        base = measure(ch, spectrum, tensors, nus, settings)
    ch.check(ref.close(spectrum.measure()[1], expected(tensors, nus, 0, 1, 0, 1), 1e-9, 1e-9),
             "plain measurement after a corrected one differs")
    # scale, sign, order
    for factor in (-1.0, 3.0):
        scaled = PhononRamanSpectrum(nus, tensors * factor).measure(**settings)[1]
        ch.check(ref.close(scaled, base * factor**2, 1e-9, 1e-9), "not quadratic in the tensor")
    perm = np.argsort(ref.fill((m,), 9))
    other = PhononRamanSpectrum(nus[perm], tensors[perm]).measure(**settings)[1]
    ch.check(ref.close(other, base[perm], 1e-9, 1e-12), "modes influence each other")
    ch.observe(base)


def many(ch):
    """Numbers of modes beyond those of small cells."""
    m = ch.choose("modes", [99, 100, 101, 128, 129, 256, 257, 1000, 1001, 2050])
    settings = ch.choose("settings", SETTINGS)
    kind = ch.choose("wavenumbers", {"ascending": 5.0 + np.arange(m), "scattered": 2000 + 1900 * ref.fill((m,), 3)})
    tensors = ref.sym((m,), 4, 6.0) * (10.0 ** -(np.arange(m) % 5))[:, None, None]
    ch.observe(measure(ch, PhononRamanSpectrum(kind.copy(), tensors.copy()), tensors, kind, settings))


def rotations(ch):
    k = ch.choose("rotation", list(range(30)))
    if k < 24:
        proper = [np.array(p) @ np.diag(s) for p in
                  [np.eye(3)[list(q)] for q in itertools.permutations(range(3))]
                  for s in itertools.product((1, -1), repeat=3)]
        r = [p for p in proper if np.linalg.det(p) > 0][k]
    else:
        r = np.linalg.qr(ref.fill((3, 3), k))[0]
    tensors = np.concatenate([ref.sym((20,), 4, 6.0), np.array(GRID[::29])])
    nus = 100.0 + np.arange(len(tensors))
    a = PhononRamanSpectrum(nus, tensors).measure()[1]
    b = PhononRamanSpectrum(nus, np.einsum("ai,mij,bj->mab", r, tensors, r)).measure()[1]
    ch.step(2)
    ch.check(ref.close(a, b, 1e-9, 1e-9), "powder intensity is not invariant under rotation")
    ch.check(bool((a >= -1e-12).all()), "negative intensity")
    ch.observe(k, b)


def factors(ch):
    """The correction functions themselves."""
    nu = ch.choose("nu", [0.5, 10, 433.25, 2999.0, 12000.0, -50.0])
    which = ch.choose("which", ["laser", "bose"])
    value = ch.choose("value", [0.1, 1, 300, 9000.5, 20000])
    nus = np.array([nu, nu * 2, nu])
    if which == "laser":
        got = get_laser_correction(nus, value)
        want = [((x - value) / 1e4) ** 4 / x for x in nus]
    else:
        with np.errstate(over="ignore"):
            got = get_bose_einstein_correction(nus, value)
            want = [ref.bose_factor(x, value) if abs(x / value) < 400 else float(x > 0) for x in nus]
    ch.step()
    ch.check(ref.close(got, want, 1e-9, 1e-12), f"{got} != {want}")
    ch.observe(got)


def refused(ch):
    spectrum = PhononRamanSpectrum(np.array([100.0, 200]), ref.sym((2,), 1))
    what = ch.choose("what", {
        "orientation": ({"orientation": "single"}, NotImplementedError),
        "empty": ({"orientation": ""}, NotImplementedError),
        "case": ({"orientation": "Polycrystalline"}, NotImplementedError),
        "array": ({"orientation": np.eye(3)}, NotImplementedError),
        "vector": ({"orientation": np.array([1.0, 0, 0])}, NotImplementedError),
        "zero temperature": ({"bose_einstein_correction": True, "temperature": 0}, ValueError),
        "negative temperature": ({"bose_einstein_correction": True, "temperature": -5.0}, ValueError),
        "negative wavelength": ({"laser_correction": True, "laser_wavelength": -522}, ValueError),
    })
    ok_first = ch.flag("measured_before")
    if ok_first:
        spectrum.measure(laser_correction=True)
    try:
        spectrum.measure(**what[0])
    except what[1]:
        ch.step()
    else:
        ch.check(False, "accepted")
    ch.check(ref.close(spectrum.measure()[1], expected(ref.sym((2,), 1), [1, 1], 0, 1, 0, 1)),
             "a refused measurement changed the spectrum")
    # parameters of corrections not requested are ignored
    ignored = spectrum.measure(laser_wavelength=-1, temperature=-1)[1]
    ch.check(ref.close(ignored, spectrum.measure()[1]), "unused parameters matter")
    ch.observe(what[1].__name__, ok_first)


# histories of measurements on one object
NUS, TENSORS = np.array([321.5, -40.0, 88.0, 321.5]), ref.sym((4,), 7, 3.0)


def build(_root):
    return PhononRamanSpectrum(NUS.copy(), TENSORS.copy()), []


def events(_m):
    return ["plain", "laser", "bose", "both", "laser785", "bose10", "write_nu", "write_intensity",
            "write_tensors", "write_accessor", "refused", "integer"]


def apply(real, model, label):
    kwargs = dict(SETTINGS.get(label, {}))
    if label == "laser785":
        kwargs = {"laser_correction": True, "laser_wavelength": 785}
    if label == "bose10":
        kwargs = {"bose_einstein_correction": True, "temperature": 10}
    if label == "integer":
        kwargs = {"laser_correction": True, "laser_wavelength": 600, "temperature": 5}
    if label == "refused":
        try:
            real.measure(orientation="x", laser_correction=True)
        except NotImplementedError:
            pass
    nu, intensity = real.measure(**kwargs)
    want = expected(TENSORS, NUS, kwargs.get("laser_correction"), kwargs.get("laser_wavelength", 522),
                    kwargs.get("bose_einstein_correction"), kwargs.get("temperature", 300))
    if not (np.array_equal(nu, NUS) and ref.close(intensity, want, 1e-9, 1e-9)):
        raise Violation(f"measurement {label} differs")
    if label == "write_nu":
        nu[:] = 0
    if label == "write_intensity":
        intensity[:] = 7
    if label == "write_tensors":
        real.raman_tensors[:] = 0
    if label == "write_accessor":
        real.phonon_wavenumbers[:] = 1
    model.append(label)


def state(_real, model):
    # all histories are distinct executions: the object must not have any state
    return tuple(model)


def scenarios(tier):
    return [Tree("grid", grid, shard_depth=2), Tree("corrections", corrections, shard_depth=2),
            Tree("rotations", rotations), Tree("many", many), Tree("factors", factors), Tree("refused", refused),
            Graph("histories", build, events, apply, state, 3 if tier == "quick" else 4),
            in_place.tree("C10", tier)]
