"""C11: molecular-dynamics Raman spectra."""

import numpy as np

from mc import in_place, ref
from mc.core import Graph, Tree, Violation
from ramannoodle.abstract import PolarizabilityModel
from ramannoodle.dynamics import Trajectory
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.spectrum import MDRamanSpectrum
from ramannoodle.spectrum.utils import calc_signal_spectrum
from ramannoodle.structure import ReferenceStructure

PROPERTY = "C11"
LEVEL = "model_checking"
RULE = "every series length and kind under every setting; all measurement histories"
BOUNDS = (
    "series of 3..34 configurations (every length, odd and even) and 63, 64, 127, 200, 5 families up to 4099; 9 families "
    "(generic, one component only for each of 9 components, oscillating, constant, integer-valued, "
    "large offset), 4 timesteps, 6 correction settings; signals of 1..40 samples; trajectories of "
    "3..12 configurations with 3 models; all histories of depth 3 (quick) or 4 (thorough)"
)
ASSUMPTIONS = ["the oracle is a naive O(S^2) evaluation of the definition"]

SETTINGS = {
    "plain": {}, "laser": {"laser_correction": True},
    "laser785": {"laser_correction": True, "laser_wavelength": 785, "temperature": 10},
    "bose": {"bose_einstein_correction": True},
    "bose50": {"bose_einstein_correction": True, "temperature": 50.0, "laser_wavelength": 1000},
    "both": {"laser_correction": True, "bose_einstein_correction": True},
}


def series(kind, s):
    alpha = ref.fill((s, 3, 3), 2, 3.0)
    alpha = (alpha + alpha.transpose(0, 2, 1)) / 2
    t = np.arange(s)
    if kind.startswith("only"):
        a, b = int(kind[4]), int(kind[5])
        out = np.zeros((s, 3, 3))
        out[:, a, b] = alpha[:, 0, 1]
        out[:, b, a] = alpha[:, 0, 1]
        return out
    if kind == "oscillating":
        return np.cos(0.7 * t)[:, None, None] * ref.sym((), 1) + np.sin(1.9 * t)[:, None, None] * ref.sym((), 5)
    if kind == "offset":
        return alpha + 40 * ref.sym((), 8)
    if kind == "constant":
        return np.repeat(ref.sym((1,), 3), s, 0)
    if kind == "drift":
        return alpha + 0.4 * t[:, None, None] * ref.sym((), 6)
    if kind == "tiny":
        return alpha * 1e-6
    if kind == "integer":
        return np.round(alpha * 3).astype(int)
    return alpha


def expected(alpha, timestep, settings):
    nu, intensity = ref.md_spectrum(np.asarray(alpha, float), timestep)
    if settings.get("laser_correction"):
        intensity = intensity * [ref.laser_factor(x, settings.get("laser_wavelength", 522)) for x in nu]
    if settings.get("bose_einstein_correction"):
        intensity = intensity * [ref.bose_factor(x, settings.get("temperature", 300)) for x in nu]
    return nu, intensity


def same(got, want, tol=1e-7):
    scale = float(np.abs(want[1]).max()) if len(want[1]) else 1.0
    return (got[0].shape == want[0].shape and got[1].shape == want[1].shape
            and ref.close(got[0], want[0], 1e-9, 1e-9)
            and ref.close(got[1], want[1], tol, 1e-9 * scale + 1e-24))


KINDS = ["generic", "tiny", "only00", "only11", "only22", "only01", "only02", "only12", "oscillating",
         "constant", "offset", "integer", "drift"]


def spectra(ch):
    s = ch.choose("length", list(range(3, 35)) + [63, 64, 127, 200])
    kind = ch.choose("kind", KINDS)
    timestep = ch.choose("timestep", [1.0, 0.5, 2, 7.3])
    alpha = series(kind, s)
    base = ref.md_spectrum(np.asarray(alpha, float), timestep)
    spectrum = MDRamanSpectrum(alpha.copy(), timestep)
    for settings in SETTINGS.values():
        want = base[0], base[1].copy()
        if settings.get("laser_correction"):
            want = want[0], want[1] * [ref.laser_factor(x, settings.get("laser_wavelength", 522)) for x in base[0]]
        if settings.get("bose_einstein_correction"):
            want = want[0], want[1] * [ref.bose_factor(x, settings.get("temperature", 300)) for x in base[0]]
        got = spectrum.measure(**settings)
        ch.step()
        ch.check(same(got, want), lambda: f"{settings}: {got[1][:3]} expected {want[1][:3]}")
        ch.observe(got)
    ch.check(np.array_equal(spectrum.polarizability_ts, alpha) and spectrum.timestep == timestep,
             "spectrum changed")
    if kind in ("generic", "oscillating"):
        shifted = MDRamanSpectrum(alpha + ref.sym((), 8), timestep).measure()
        ch.check(same(shifted, base), "depends on a constant tensor")
        scaled = MDRamanSpectrum(-2.0 * alpha, timestep).measure()
        ch.check(same(scaled, (base[0], 4 * base[1])), "not quadratic")
        slow = MDRamanSpectrum(alpha, timestep * 2).measure()
        ch.check(same(slow, (base[0] / 2, base[1])), "timestep")


def fast(signal, timestep):
    """As ref.signal_spectrum, for long series."""
    s = len(signal)
    ac = np.correlate(signal, signal, "full")[s - 1:]
    k = np.arange((s + 1) // 2)
    return k / (s * timestep) * 33356.40951981521, np.real(np.fft.fft(ac))[: len(k)]


def long(ch):
    """Series as long as those of real simulations."""
    s = ch.choose("length", [999, 1000, 1001, 1024, 1025, 2048, 4099])
    kind = ch.choose("kind", ["generic", "only12", "oscillating", "offset", "drift"])
    size = ch.choose("size", [1.0, 1e-6])
    timestep = ch.choose("timestep", [1.0, 0.5])
    alpha = series(kind, s) * size
    d = np.diff(alpha, axis=0)
    nu, iso = fast(d[:, 0, 0] + d[:, 1, 1] + d[:, 2, 2], timestep)
    g = sum(0.5 * fast(d[:, a, a] - d[:, b, b], timestep)[1] + 3 * fast(d[:, a, b], timestep)[1]
            for a, b in ((0, 1), (1, 2), (0, 2)))
    got = MDRamanSpectrum(alpha.copy(), timestep).measure()
    ch.step()
    ch.check(same(got, (nu[1:], (45 * iso / 9 + 7 * g)[1:])), "spectrum of a long series")
    ch.observe(got)


def signals(ch):
    s = ch.choose("length", list(range(1, 41)))
    kind = ch.choose("kind", ["generic", "pulse_first", "pulse_last", "constant", "cosine"])
    rate = ch.choose("rate", [1.0, 0.5, 3])
    signal = {"generic": ref.fill((s,), 4, 2.0), "pulse_first": np.eye(s)[0], "pulse_last": np.eye(s)[-1],
              "constant": np.ones(s), "cosine": np.cos(1.3 * np.arange(s))}[kind]
    given = signal.copy()
    got, want = calc_signal_spectrum(signal, rate), ref.signal_spectrum(signal, rate)
    ch.step()
    ch.check(len(got[0]) == (s + 1) // 2, "number of wavenumbers")
    ch.check(same(got, want), lambda: f"{got[1][:4]}, expected {want[1][:4]}")
    ch.check(np.array_equal(signal, given), "signal modified")
    ch.observe(got)


class Toy(PolarizabilityModel):
    """Analytic model depending on the configuration (through periodic functions)."""

    def calc_polarizabilities(self, positions_batch):
        if positions_batch.ndim != 3 or positions_batch.shape[1] != 3:
            raise ValueError("shape")
        x = np.sin(2 * np.pi * positions_batch)
        return np.einsum("snc,ncij->sij", x, ref.sym((3, 3), 4, 2.0)) + ref.sym((), 1)


def trajectories(ch):
    s = ch.choose("length", list(range(3, 13)) + [101, 200, 257])
    timestep = ch.choose("timestep", [1.0, 0.25, 5])
    kind = ch.choose("model", ["toy", "interpolation", "masked"])
    numbers, positions = ref.p1_species(3), ref.p1_positions(3)
    frames = positions + ref.fill((s, 3, 3), 2, 0.02)
    if kind == "toy":
        model = Toy()
    else:
        model = InterpolationModel(ReferenceStructure(numbers, ref.LATTICES["general"], positions), ref.sym((), 3))
        for k in range(9):
            model.add_dof(np.eye(9)[k].reshape(3, 3), np.array([0.1, -0.1]), ref.sym((2,), k, 3.0), 1)
        if kind == "masked":
            model = model.get_masked_model([0, 5])
    trajectory = Trajectory(frames.copy(), timestep)
    cells = np.round(ref.fill((s, 3, 3), 6, 2.4))
    moved = Trajectory(frames + cells, timestep)
    alpha = model.calc_polarizabilities(frames)
    alone = np.array([model.calc_polarizabilities(f[None])[0] for f in frames])
    want = expected(alone, timestep, {})
    for _ in range(2):
        spectrum = trajectory.get_raman_spectrum(model)
        ch.step()
        ch.check(ref.close(spectrum.polarizability_ts, alone, 1e-7, 1e-8), "polarizability time series")
        ch.check(spectrum.timestep == timestep, "timestep")
        ch.check(same(spectrum.measure(), want, 1e-6), "spectrum")
    ch.check(same(moved.get_raman_spectrum(model).measure(), want, 1e-5), "depends on periodic images")
    ch.check(np.array_equal(model.calc_polarizabilities(frames), alpha), "model changed")
    ch.observe(want)


def incompatible(ch):
    n = ch.choose("atoms", [1, 2, 4])
    trajectory = Trajectory(ref.fill((5, n, 3), 1), 1.0)
    try:
        trajectory.get_raman_spectrum(Toy())
    except ValueError:
        return ch.observe(n)
    ch.check(False, "incompatible model accepted")


def refused(ch):
    spectrum = MDRamanSpectrum(series("generic", 12), 1.0)
    bad = ch.choose("what", {
        "orientation": ({"orientation": "x"}, NotImplementedError),
        "array": ({"orientation": np.eye(3)}, NotImplementedError),
        "temperature": ({"bose_einstein_correction": True, "temperature": 0}, ValueError),
        "wavelength": ({"laser_correction": True, "laser_wavelength": -1}, ValueError)})
    try:
        spectrum.measure(**bad[0])
    except bad[1]:
        ch.check(same(spectrum.measure(), expected(series("generic", 12), 1.0, {})), "changed")
        return ch.observe(bad[1].__name__)
    ch.check(False, "accepted")


ALPHA = series("generic", 14)
WANT = {}


def build(_root):
    return MDRamanSpectrum(ALPHA.copy(), 0.8), []


def events(_m):
    return list(SETTINGS) + ["write_nu", "write_intensity", "write_accessor"]


def apply(real, model, label):
    settings = SETTINGS.get(label, {})
    if label not in WANT:
        WANT[label] = expected(ALPHA, 0.8, settings)
    got = real.measure(**settings)
    if not same(got, WANT[label]):
        raise Violation(f"measurement {label} differs")
    if label == "write_nu":
        got[0][:] = 0
    elif label == "write_intensity":
        got[1][:] = 0
    elif label == "write_accessor":
        real.polarizability_ts[:] = 0
    model.append(label)


def state(_real, model):
    return tuple(model)


def scenarios(tier):
    return [Tree("spectra", spectra, shard_depth=2), Tree("long", long), Tree("signals", signals, shard_depth=2),
            Tree("trajectories", trajectories, shard_depth=2), Tree("incompatible", incompatible, procs=1),
            Tree("refused", refused, procs=1),
            Graph("histories", build, events, apply, state, 3 if tier == "quick" else 4),
            in_place.tree("C11", tier)]
