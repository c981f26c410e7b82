"""C12: convolution of spectra."""

import math

import numpy as np

from mc import in_place, ref
from mc.core import Tree
from ramannoodle.spectrum.utils import convolve_spectrum

PROPERTY = "C12"
LEVEL = "exploration"
RULE = (
    "one execution per combination of lines, widths, function and output grid; non-trivial: all "
    "output values compared with the definition (distinct by values)"
)
BOUNDS = (
    "1..50 and up to 2049 lines (unsorted, repeated, negative, integer), intensities of both signs and integer, "
    "widths 0.1..200 (int and float), both line shapes, 9 output grids (automatic, ascending, "
    "descending, scattered, repeated, integer, single, empty, float32)"
)
ASSUMPTIONS = []


def line(kind, x, width):
    if kind == "gaussian":
        return math.exp(-x * x / (2 * width * width)) / (width * math.sqrt(2 * math.pi))
    return (width / 2) / math.pi / (x * x + width * width / 4)


GRIDS = {
    "automatic": None, "ascending": np.linspace(-50, 900, 77), "descending": np.linspace(900.0, 3, 40),
    "scattered": 500 + 480 * ref.fill((33,), 4), "repeated": np.array([100.0, 100, 250, 100]),
    "integer": np.arange(0, 800, 13), "single": np.array([321.0]), "empty": np.array([]),
    "float32": np.linspace(10, 500, 30).astype(np.float32),
}


def lines(kind, m):
    nus = 40.0 + 700 * np.abs(ref.fill((m,), 2))
    if kind == "sorted":
        nus = np.sort(nus)
    elif kind == "repeated":
        nus[:] = 333.0
    elif kind == "negative":
        nus -= 400
    elif kind == "integer":
        nus = np.round(nus).astype(int)
    elif kind == "narrow":
        nus = 100 + 0.001 * np.arange(m)
    return nus


def convolution(ch):
    m = ch.choose("lines", [1, 2, 3, 17, 50])
    kind = ch.choose("kind", ["sorted", "scattered", "repeated", "negative", "integer", "narrow"])
    intensities = ch.choose("intensities", {
        "positive": 1 + np.abs(ref.fill((m,), 5, 9.0)), "signed": ref.fill((m,), 6, 3.0),
        "integer": np.arange(m) + 1, "graded": 10.0 ** -(7 * np.arange(m) % 13), "zero": np.zeros(m), "huge": 1e12 * (1 + np.arange(m))})
    function = ch.choose("function", ["gaussian", "lorentzian"])
    width = ch.choose("width", [5, 0.1, 1.0, 33.3, 200])
    grid = ch.choose("grid", list(GRIDS))
    nus = lines(kind, m)
    out = None if GRIDS[grid] is None else GRIDS[grid].copy()
    keep = nus.copy(), intensities.copy()
    x, y = convolve_spectrum(nus, intensities, function, width, out)
    ch.step()
    ch.check(np.array_equal(nus, keep[0]) and np.array_equal(intensities, keep[1]), "inputs modified")
    if out is None:
        steps = np.diff(x)
        ch.check(x.ndim == 1 and abs(x[0] - (nus.min() - 100)) < 1e-6
                 and abs(x[-1] - (nus.max() + 100)) < 1e-6, "automatic range")
        ch.check(np.allclose(steps, steps[0]) and abs(steps[0] - 1) < 0.02, "automatic spacing")
        check_at = list(range(0, len(x), max(1, len(x) // 60)))
    else:
        ch.check(np.array_equal(x, GRIDS[grid]) and np.array_equal(out, GRIDS[grid]), "given grid changed")
        check_at = list(range(len(x)))
    ch.check(y.shape == x.shape, "shape")
    scale = float(np.abs(intensities).max()) or 1.0
    rtol = 1e-9 if grid != "float32" else 1e-4
    want = np.array([sum(float(i) * line(function, float(nu) - float(x[k]), width)
                         for nu, i in zip(nus, intensities)) for k in check_at])
    got = np.array([y[k] for k in check_at], float)
    atol = 1e-13 * scale if grid != "float32" else rtol * scale
    ch.check(got.shape == want.shape and np.allclose(got, want, rtol=rtol, atol=atol),
             lambda: f"values {got[:3]}, expected {want[:3]}")
    if out is not None and m > 1:
        perm = np.argsort(ref.fill((m,), 8))
        other = convolve_spectrum(nus[perm], intensities[perm], function, width, out)[1]
        ch.check(np.allclose(other, y, rtol=rtol, atol=rtol * scale), "depends on the order of lines")
        half = m // 2
        parts = (convolve_spectrum(nus[:half], intensities[:half], function, width, out)[1]
                 + convolve_spectrum(nus[half:], intensities[half:], function, width, out)[1])
        ch.check(np.allclose(parts, y, rtol=rtol, atol=rtol * scale), "not additive")
    ch.observe(got)


def many(ch):
    """Numbers of lines and grid points beyond those of small cells."""
    m = ch.choose("lines", [100, 101, 256, 257, 1000, 1001, 2049])
    function = ch.choose("function", ["gaussian", "lorentzian"])
    points = ch.choose("points", [1, 2, 999, 1000, 1001, 4099, None])
    nus, intensities = 40.0 + 5000 * np.abs(ref.fill((m,), 2)), 10.0 ** -(np.arange(m) % 9)
    grid = None if points is None else np.linspace(-100, 5200, points)
    x, y = convolve_spectrum(nus, intensities, function, 7.5, grid)
    ch.step()
    ch.check(x.shape == y.shape and (grid is None or np.array_equal(x, grid)), "grid")
    if grid is None:
        ch.check(abs(x[0] - nus.min() + 100) < 1e-6 and abs(x[-1] - nus.max() - 100) < 1e-6
                 and abs(np.diff(x) - 1).max() < 0.02, "automatic grid")
    at = np.unique(np.r_[0:len(x):max(1, len(x) // 97), len(x) - 1])
    d = nus[None] - x[at][:, None]
    if function == "gaussian":
        shape = np.exp(-d * d / (2 * 7.5**2)) / (7.5 * math.sqrt(2 * math.pi))
    else:
        shape = 3.75 / math.pi / (d * d + 3.75**2)
    ch.check(np.allclose(y[at], shape @ intensities, rtol=1e-9, atol=1e-12), "values")
    ch.observe(y[at])


def defaults(ch):
    """Default arguments: Gaussian of width 5, automatic grid; keyword order irrelevant."""
    m = ch.choose("lines", [1, 4, 9])
    nus, inten = lines("scattered", m), 1 + np.abs(ref.fill((m,), 3))
    a = convolve_spectrum(nus, inten)
    b = convolve_spectrum(intensities=inten, wavenumbers=nus, width=5, function="gaussian")
    ch.step(2)
    ch.check(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]), "defaults")
    ch.check(abs(np.sum((a[1][1:] + a[1][:-1]) / 2 * np.diff(a[0])) - inten.sum()) < 1e-3 * inten.sum(),
             "area is not the total intensity")
    c = convolve_spectrum(nus, inten, out_wavenumbers=a[0])
    ch.check(ref.close(c[1], a[1], 1e-12, 1e-12), "given and automatic grid differ")
    ch.observe(a)


def refused(ch):
    bad = ch.choose("what", {
        "function": {"function": "voigt"}, "case": {"function": "Gaussian"}, "empty": {"function": ""},
        "zero": {"width": 0}, "negative": {"width": -1.5},
        "2d": {"out_wavenumbers": np.ones((2, 2))}})
    nus, inten = np.array([100.0, 200]), np.array([1.0, 2])
    try:
        convolve_spectrum(nus, inten, **bad)
    except ValueError:
        ch.step()
        return ch.observe(str(bad))
    ch.check(False, "accepted")


def scenarios(tier):
    return [Tree("convolution", convolution, shard_depth=3), Tree("many", many), Tree("defaults", defaults, procs=1),
            Tree("refused", refused, procs=1),
            in_place.tree("C12", tier)]
