"""Reference models and generators. Nothing in this file imports ramannoodle.

Everything here is written from first principles (or from the file-format documentation) and
serves as the oracle the real code is compared with.
"""

from __future__ import annotations

import itertools
import math

import numpy as np

PHI = 0.6180339887498949
SQ2 = math.sqrt(2.0)


# ------------------------------------------------------------------ deterministic filler values
def fill(shape, tag=0, scale=1.0):
    """Deterministic 'generic' numbers in (-scale, scale): no ties, no symmetry."""
    size = int(np.prod(shape)) if shape else 1
    k = np.arange(1, size + 1, dtype=float)
    x = (k * PHI + k * k * 0.3819660112501 * SQ2 + (tag + 1) * 0.7548776662466927) % 1.0
    return ((2 * x - 1) * scale).reshape(shape)


def sym(shape, tag=0, scale=1.0):
    """Symmetric 3x3 tensors."""
    x = fill(tuple(shape) + (3, 3), tag, scale)
    return (x + np.swapaxes(x, -1, -2)) / 2


# ------------------------------------------------------------------ periodic boundary conditions
def wrap(x):
    return x - np.floor(x)


def min_image(d):
    """Smallest displacement congruent with d, componentwise."""
    return d - np.round(d)


def congruent(a, b, tol=1e-9):
    """a == b modulo lattice vectors (fractional)."""
    d = np.asarray(a) - np.asarray(b)
    return d.shape == np.asarray(a).shape and bool(np.all(np.abs(d - np.round(d)) < tol))


def close(a, b, rtol=1e-7, atol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=False))


# ------------------------------------------------------------------ lattices
LATTICES = {
    "cubic": np.eye(3) * 4.0,
    "ortho": np.diag([3.0, 5.0, 8.0]),
    "mono": np.array([[4.0, 0, 0], [0, 5, 0], [-1.0, 0, 6]]),
    "tricl": np.array([[4.0, 0, 0], [0.5, 5, 0], [-1.0, 0.7, 6]]),
    "hex": np.array([[3.0, 0, 0], [-1.5, 1.5 * 3**0.5, 0], [0, 0, 5.0]]),
    "fcc": np.array([[0, 2.0, 2], [2, 0, 2], [2, 2, 0]]),
    "lefthanded": np.array([[0.3, 5.0, 0.1], [4.0, 0.2, 0.4], [0.5, -0.7, 6.0]]),
    "short": np.array([[1.3, 0.1, 0], [0.2, 1.7, -0.1], [0.4, 0.3, 25.0]]),
    "nearly": np.array([[3.9, 2e-4, -3e-4], [1e-4, 4.2, 3e-4], [-2e-4, 4e-4, 4.5]]),
    "general": np.array([[4.1, 0.3, -0.2], [-0.4, 5.2, 0.6], [0.7, -0.8, 6.3]]),
}


def p1_positions(n, tag=0):
    """n well separated positions without symmetry, inside the cell."""
    m = int(math.ceil(n ** (1 / 3)))
    grid = np.array(list(itertools.product(range(m), repeat=3)), float)[:n] / m
    return wrap(grid + 0.5 / m + fill((n, 3), 7 + tag, 0.18 / m))


SPECIES = [22, 8, 6, 14, 1, 38, 7, 9]  # Ti O C Si H Sr N F


def p1_species(n):
    """Grouped atomic numbers with several species."""
    k = min(n, 3)
    sizes = [n // k] * k
    for i in range(n - sum(sizes)):
        sizes[i] += 1
    return [z for z, s in zip(SPECIES, sizes) for _ in range(s)]


# ------------------------------------------------------------------ crystals with symmetry
def crystals():
    """name -> (lattice, positions, atomic numbers)."""
    s = {}
    s["sc"] = (np.eye(3) * 4, [[0.1, 0.1, 0.1]], [11])
    s["sc0"] = (np.eye(3) * 3.3, [[0.0, 0, 0]], [84])  # one orbit spans all directions
    s["tet0"] = (np.diag([3.0, 3, 4.7]), [[0.0, 0, 0]], [91])
    s["ortho0"] = (np.diag([3.0, 3.9, 4.7]), [[0.0, 0, 0]], [92])
    s["bcc"] = (np.eye(3) * 3.2, [[0.0, 0, 0], [0.5, 0.5, 0.5]], [23, 23])
    s["cscl"] = (np.eye(3) * 4, [[0.0, 0, 0], [0.5, 0.5, 0.5]], [55, 17])
    s["perov"] = (
        np.eye(3) * 4,
        [[0.0, 0, 0], [0.5, 0.5, 0.5], [0.5, 0.5, 0], [0.5, 0, 0.5], [0, 0.5, 0.5]],
        [38, 22, 8, 8, 8],
    )
    s["tet"] = (np.diag([4.0, 4, 6]), [[0.0, 0, 0], [0.5, 0.5, 0.3]], [82, 8])
    s["ortho"] = (np.diag([4.0, 5, 6]), [[0.0, 0, 0], [0.5, 0.5, 0.3]], [82, 8])
    u = 0.305
    s["rutile"] = (
        np.diag([4.6, 4.6, 2.96]),
        [[0, 0, 0], [0.5, 0.5, 0.5], [u, u, 0], [1 - u, 1 - u, 0],
         [0.5 + u, 0.5 - u, 0.5], [0.5 - u, 0.5 + u, 0.5]],
        [22, 22, 8, 8, 8, 8],
    )
    u = 0.208
    s["anatase"] = (
        np.diag([3.78, 3.78, 9.51]),
        [[0, 0, 0], [0.5, 0.5, 0.5], [0, 0.5, 0.25], [0.5, 0, 0.75]]
        + [[0, 0, u], [0, 0, 1 - u], [0.5, 0.5, 0.5 + u], [0.5, 0.5, 0.5 - u],
           [0, 0.5, 0.25 + u], [0, 0.5, 0.25 - u], [0.5, 0, 0.75 + u], [0.5, 0, 0.75 - u]],
        [22] * 4 + [8] * 8,
    )
    s["rocksaltprim"] = (
        np.array([[0, 2.0, 2], [2, 0, 2], [2, 2, 0]]),
        [[0.0, 0, 0], [0.5, 0.5, 0.5]], [11, 17],
    )
    s["bccprim"] = (
        np.array([[-2, 2.0, 2], [2, -2, 2], [2, 2, -2]]),
        [[0.0, 0, 0], [0.5, 0.5, 0], [0.5, 0, 0.5], [0, 0.5, 0.5]], [11, 8, 8, 8],
    )
    m = np.array([[4.0, 0, 0], [0, 5, 0], [-1.0, 0, 6]])
    s["p21"] = (
        m, [[0.1, 0.2, 0.3], [0.9, 0.7, 0.7], [0.3, 0.1, 0.6], [0.7, 0.6, 0.4]], [8, 8, 6, 6],
    )
    s["p21c"] = (
        m, [[0.1, 0.2, 0.3], [0.9, 0.7, 0.2], [0.9, 0.8, 0.7], [0.1, 0.3, 0.8]], [8] * 4,
    )
    t = LATTICES["tricl"]
    s["pbar1"] = (t, [[0.1, 0.2, 0.3], [0.9, 0.8, 0.7]], [8, 8])
    s["p1"] = (t, [[0.1, 0.2, 0.3], [0.6, 0.85, 0.72], [0.3, 0.4, 0.1]], [8, 8, 6])
    s["pm"] = (  # a mirror that swaps atoms, another that fixes one
        np.diag([4.0, 5, 6]),
        [[0.1, 0.2, 0.3], [0.1, 0.8, 0.3], [0.6, 0.0, 0.75], [0.45, 0.5, 0.1]], [8, 8, 6, 7],
    )
    s["third"] = (  # every atom is half a cell away from the mean of some orders and origins
        np.diag([4.0, 5, 6]),
        [[0.0, 0, 0], [1 / 6, 1 / 6, 1 / 6], [5 / 6, 5 / 6, 5 / 6]], [22, 8, 8],
    )
    s["thirds"] = (
        np.diag([4.0, 5, 6]),
        [[0.0, 0, 0], [1 / 6, 0, 0], [5 / 6, 0, 0]], [22, 8, 8],
    )
    h = LATTICES["hex"]
    s["wurtzite"] = (
        h, [[1 / 3, 2 / 3, 0], [2 / 3, 1 / 3, 0.5], [1 / 3, 2 / 3, 0.38], [2 / 3, 1 / 3, 0.88]],
        [30, 30, 8, 8],
    )
    s["graphene"] = (h, [[1 / 3, 2 / 3, 0.5], [2 / 3, 1 / 3, 0.5]], [5, 7])
    s["fccprim"] = (LATTICES["fcc"], [[0.0, 0, 0], [0.25, 0.25, 0.25]], [14, 14])
    x, y = 0.2, 0.3
    s["p41"] = (
        np.diag([4.0, 4, 7]),
        [[x, y, 0], [-y % 1, x, 0.25], [-x % 1, -y % 1, 0.5], [y, -x % 1, 0.75]], [8] * 4,
    )
    x = 0.1
    s["p213"] = (
        np.eye(3) * 5,
        [[x, x, x], [0.5 - x, -x % 1, 0.5 + x], [-x % 1, 0.5 + x, 0.5 - x],
         [0.5 + x, 0.5 - x, -x % 1]],
        [26] * 4,
    )
    r = np.array([[2.0, 0, 3], [-1, 3**0.5, 3], [-1, -(3**0.5), 3]])
    s["rhomb"] = (r, [[0.2, 0.2, 0.2], [0.8, 0.8, 0.8]], [33, 33])
    a = np.array([[3.0, 0, 0], [1.5, 1.5 * 3**0.5, 0], [0, 0, 5.0]])  # the other hexagonal setting
    s["hcp60"] = (a, [[1 / 3, 1 / 3, 0.25], [2 / 3, 2 / 3, 0.75]], [12, 12])
    c = np.array([[2.5, -2.0, 0], [2.5, 2.0, 0], [-1.0, 0, 6]])  # base-centred, primitive
    s["c2m"] = (c, [[0.0, 0, 0], [0.3, 0.3, 0.2], [0.7, 0.7, 0.8]], [22, 8, 8])
    s["hollow"] = (  # trigonal, atoms in general positions
        h, [[0.2, 0.35, 0.1], [-0.35 % 1, (0.2 - 0.35) % 1, 0.1], [0.15, -0.2 % 1, 0.1]], [7, 7, 7],
    )
    return {
        k: (np.array(l, float), np.array(p, float), list(z)) for k, (l, p, z) in s.items()
    }


_MATRICES = None
_OPERATIONS = {}


def reduced_basis(lattice):
    """Integer matrix B for which B @ lattice has short vectors."""
    basis = np.eye(3, dtype=int)
    while True:
        vectors = basis @ lattice
        best = None
        for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
            for a, b in itertools.product((-1, 0, 1), repeat=2):
                change = a * basis[j] + b * basis[k]
                gain = np.sum(vectors[i] ** 2) - np.sum(((basis[i] + change) @ lattice) ** 2)
                if gain > 1e-6 and (best is None or gain > best[0] + 1e-6):
                    best = gain, i, change
        if best is None:
            return basis
        basis[best[1]] += best[2]


def operations(lattice, positions, numbers, tol=1e-4):
    """All space-group operations, by brute force over integer matrices.

    Returns a list of (W, t, perm): x' = W x + t maps atom i on atom perm[i].
    """
    key = lattice.tobytes(), positions.tobytes(), tuple(numbers), tol
    if key not in _OPERATIONS:
        basis = reduced_basis(lattice)
        found = reduced_operations(basis @ lattice, positions @ np.linalg.inv(basis), numbers, tol)
        back, there = basis.T, np.linalg.inv(basis.T)
        _OPERATIONS[key] = [(np.round(back @ w @ there).astype(int), back @ t, p) for w, t, p in found]
    return _OPERATIONS[key]


def reduced_operations(lattice, positions, numbers, tol):
    """Operations in a reduced basis, where the entries of the matrices are at most one."""
    global _MATRICES
    if _MATRICES is None:
        mats = np.array(list(itertools.product((-1, 0, 1), repeat=9)), int).reshape(-1, 3, 3)
        _MATRICES = mats[np.abs(np.round(np.linalg.det(mats))) == 1]
    metric = lattice @ lattice.T
    g = np.einsum("nji,jk,nkl->nil", _MATRICES, metric, _MATRICES)
    candidates = _MATRICES[np.abs(g - metric).max((1, 2)) < 1e-6]
    numbers = np.array(numbers)
    rarest = min(range(len(numbers)), key=lambda i: (np.sum(numbers == numbers[i]), i))
    found = []
    for w in candidates:
        rotated = positions @ w.T
        for j in np.where(numbers == numbers[rarest])[0]:
            t = positions[j] - rotated[rarest]
            d = positions[None] - (rotated + t)[:, None]
            d -= np.round(d)
            match = (np.abs(d).max(-1) < tol) & (numbers[None] == numbers[:, None])
            if (match.sum(1) == 1).all():
                found.append((w, t, match.argmax(1)))
    return found


def cartesian(lattice, w):
    """Cartesian matrix of a fractional operation acting on column vectors."""
    return lattice.T @ w @ np.linalg.inv(lattice.T)


def transform_displacement(lattice, op, u):
    """Image of a Cartesian displacement (N,3) under a space-group operation."""
    w, _, perm = op
    out = np.zeros_like(u)
    out[perm] = u @ cartesian(lattice, w).T
    return out


def symmetric_response(lattice, ops, n, tag=0):
    """Linear response (N,3,3,3) obeying the symmetry of the crystal, by group averaging."""
    a = sym((n, 3), tag)
    out = np.zeros_like(a)
    for w, _, perm in ops:
        c = cartesian(lattice, w)
        out[perm] += np.einsum("ca,id,je,nade->ncij", c, c, c, a)
    return out / len(ops)


def respond(response, u):
    return np.einsum("nc,ncij->ij", u, response)


# ------------------------------------------------------------------ interpolation
def spline_value(xs, ys, order, x):
    """Interpolating spline through (xs, ys), from scipy's B-spline collocation.

    For order 1 evaluated here directly (piecewise linear, end segments extended); for points
    == order + 1 the Lagrange polynomial; otherwise scipy's not-a-knot spline.
    """
    idx = np.argsort(xs)
    xs = np.asarray(xs, float)[idx]
    ys = np.asarray(ys, float)[idx]
    if order == 1:
        k = int(np.clip(np.searchsorted(xs, x, side="right") - 1, 0, len(xs) - 2))
        w = (x - xs[k]) / (xs[k + 1] - xs[k])
        return ys[k] * (1 - w) + ys[k + 1] * w
    if len(xs) == order + 1:
        out = np.zeros_like(ys[0])
        for i in range(len(xs)):
            li = 1.0
            for j in range(len(xs)):
                if j != i:
                    li *= (x - xs[j]) / (xs[i] - xs[j])
            out = out + li * ys[i]
        return out
    from scipy.interpolate import make_interp_spline

    return make_interp_spline(xs, ys, k=order)(x)


# ------------------------------------------------------------------ spectra
PLANCK_EV_CM = 29979245800.0 * 4.1357e-15
BOLTZMANN = 8.617333262e-5


def powder_intensity(t):
    """45 a^2 + 7 g^2 of one Raman tensor (g^2 from the off-diagonal upper triangle)."""
    a = (t[0][0] + t[1][1] + t[2][2]) / 3
    g2 = 0.5 * (
        (t[0][0] - t[1][1]) ** 2 + (t[1][1] - t[2][2]) ** 2 + (t[2][2] - t[0][0]) ** 2
        + 6 * (t[0][1] ** 2 + t[0][2] ** 2 + t[1][2] ** 2)
    )
    return 45 * a * a + 7 * g2


def laser_factor(nu, wavelength):
    nu0 = 1e7 / wavelength
    return ((nu - nu0) / 1e4) ** 4 / nu


def bose_factor(nu, temperature):
    if nu * PLANCK_EV_CM / (BOLTZMANN * temperature) < -700:
        return 0.0
    return 1 / (1 - math.exp(-nu * PLANCK_EV_CM / (BOLTZMANN * temperature)))


def signal_spectrum(signal, timestep):
    """Positive-frequency Fourier transform of the (positive-lag) autocorrelation. Naive."""
    s = len(signal)
    ac = np.array([sum(signal[i] * signal[i + lag] for i in range(s - lag)) for lag in range(s)])
    freq, spec = [], []
    for k in range((s + 1) // 2):
        freq.append(k / (s * timestep) * 33356.40951981521)
        spec.append(np.sum(ac * np.cos(2 * np.pi * k * np.arange(s) / s)))
    return np.array(freq), np.array(spec)


def md_spectrum(alpha, timestep):
    d = [[np.array([alpha[i + 1][a][b] - alpha[i][a][b] for i in range(len(alpha) - 1)])
          for b in range(3)] for a in range(3)]
    nu, iso = signal_spectrum(d[0][0] + d[1][1] + d[2][2], timestep)
    g = 0
    for a, b in ((0, 1), (1, 2), (2, 0)):
        g = g + 0.5 * signal_spectrum(d[a][a] - d[b][b], timestep)[1]
    for a, b in ((0, 1), (1, 2), (0, 2)):
        g = g + 3 * signal_spectrum(d[a][b], timestep)[1]
    return nu[1:], (45 * iso / 9 + 7 * g)[1:]


# ------------------------------------------------------------------ elements
SYMBOLS = (
    "H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As "
    "Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu "
    "Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np "
    "Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og"
).split()
Z = {s: i + 1 for i, s in enumerate(SYMBOLS)}

# Standard atomic weights (IUPAC, abridged)
WEIGHTS = {
    "H": 1.008, "He": 4.0026, "Li": 6.94, "Be": 9.0122, "B": 10.81, "C": 12.011, "N": 14.007,
    "O": 15.999, "F": 18.998, "Ne": 20.18, "Na": 22.99, "Mg": 24.305, "Al": 26.982,
    "Si": 28.085, "P": 30.974, "S": 32.06, "Cl": 35.45, "Ar": 39.95, "K": 39.098, "Ca": 40.078,
    "Sc": 44.956, "Ti": 47.867, "V": 50.942, "Cr": 51.996, "Mn": 54.938, "Fe": 55.845,
    "Co": 58.933, "Ni": 58.693, "Cu": 63.546, "Zn": 65.38, "Ga": 69.723, "Ge": 72.63,
    "As": 74.922, "Se": 78.971, "Br": 79.904, "Kr": 83.798, "Rb": 85.468, "Sr": 87.62,
    "Y": 88.906, "Zr": 91.224, "Nb": 92.906, "Mo": 95.95, "Ru": 101.07, "Rh": 102.91,
    "Pd": 106.42, "Ag": 107.87, "Cd": 112.41, "In": 114.82, "Sn": 118.71, "Sb": 121.76,
    "Te": 127.6, "I": 126.9, "Xe": 131.29, "Cs": 132.91, "Ba": 137.33, "La": 138.91,
    "Ce": 140.12, "Pr": 140.91, "Nd": 144.24, "Sm": 150.36, "Eu": 151.96, "Gd": 157.25,
    "Tb": 158.93, "Dy": 162.5, "Ho": 164.93, "Er": 167.26, "Tm": 168.93, "Yb": 173.05,
    "Lu": 174.97, "Hf": 178.49, "Ta": 180.95, "W": 183.84, "Re": 186.21, "Os": 190.23,
    "Ir": 192.22, "Pt": 195.08, "Au": 196.97, "Hg": 200.59, "Tl": 204.38, "Pb": 207.2,
    "Bi": 208.98, "Th": 232.04, "Pa": 231.04, "U": 238.03,
}


def symbols_of(numbers):
    return [SYMBOLS[n - 1] for n in numbers]


def groups(numbers):
    """[(symbol, count)] of consecutive equal atomic numbers."""
    return [(SYMBOLS[k - 1], len(list(g))) for k, g in itertools.groupby(numbers)]


# ------------------------------------------------------------------ file writers
def _row(v, fmt="%22.16f"):
    return " ".join(fmt % x for x in v)


def poscar(lattice, numbers, positions, scale=1.0, mode="Direct", selective=None,
           comment="comment", trailing="", fmt="%22.16f", tail=""):
    """Text of a POSCAR. ``lattice`` and fractional ``positions`` are the true values.

    A positive scale multiplies lattice and Cartesian coordinates; a negative one gives the
    cell volume.
    """
    factor = scale
    if scale < 0:  # lattice written in arbitrary units, volume given
        factor = 1.7
        scale = -abs(np.linalg.det(lattice))
    lines = [comment, "  %.16f" % scale]
    lines += [_row(v, fmt) for v in lattice / factor]
    g = groups(numbers)
    lines.append("  " + "  ".join(s for s, _ in g))
    lines.append("  " + "  ".join(str(c) for _, c in g))
    if selective is not None:
        lines.append(selective)
    lines.append(mode)
    cart = mode[:1].lower() in ("c", "k")
    rows = positions @ lattice / factor if cart else positions
    lines += [_row(v, fmt) + trailing for v in rows]
    return "\n".join(lines) + "\n" + tail


def xdatcar(lattice, numbers, positions_ts, scale=1.0, comment="comment", label=None, tail=""):
    text = poscar(lattice, numbers, positions_ts[0][:0], scale, comment=comment)
    head = text.splitlines()[:7]
    for index, positions in enumerate(positions_ts):
        head.append((label or "Direct configuration= %6d") % (index + 1)
                    if "%" in (label or "%") else label)
        head += [_row(p) for p in positions]
    return "\n".join(head) + "\n" + tail


POTENTIALS = ("PAW_PBE %s 08Apr2002", "PAW_PBE %s_pv 07Sep2000", "PAW %s_sv_GW 05Dec2013",
              "US %s   ", "PAW_PBE %s_s 1Jan1")


def outcar(lattice, numbers, positions=None, polarizability=None, phonons=None, frames=None,
           timestep=0.5, ml=None, potcar_style="repeat", potential=1, symmetry_block=False,
           extra=False):
    """Text of an OUTCAR with the given sections.

    phonons: list of (wavenumber [negative: imaginary], Cartesian eigenvector (N,3));
    frames: list of Cartesian positions; ml: list of booleans for the frames.
    """
    g = groups(numbers)
    out = [" vasp.6.4.1 05Apr23 (build) complex", " executed on             LinuxGNU date", ""]
    names = [POTENTIALS[potential] % s for s, _ in g]
    out.append(" INCAR:")
    out.append(" POTCAR:    " + names[0])
    out += [" POTCAR:    " + n for n in names[1:]]
    if potcar_style == "repeat":
        out.append(" POTCAR:    " + names[0])
        out.append("   VRHFIN =%s: s2" % g[0][0])
        out.append("   LEXCH  = PE")
    elif potcar_style == "vrhfin":
        out.append(" POTCAR:    " + names[0])
        out.append(" local pseudopotential read in")
        out.append("   VRHFIN =%s: s2" % g[0][0])
    else:  # once
        out.append("  -----------------------------------------------------------------")
        out.append("|  some other line |")
    out.append("   POMASS =   47.880; ZVAL   =   10.000    mass and valenz")
    if symmetry_block:
        out.append("  Lattice vectors:")
        out.append(" A1 = (  11.1, 0.0, 0.0)")
        out.append("      direct lattice vectors                 reciprocal lattice vectors")
        out += ["  99.0 98.0 97.0  1.0 1.0 1.0"] * 3
    out.append("   number of dos      NEDOS =    301   number of ions     NIONS = %6d" % len(numbers))
    out.append("   ions per type = " + " ".join("%6d" % c for _, c in g))
    out.append("")
    out.append("   IBRION =      0    ionic relax: 0-MD 1-quasi-New 2-CG")
    out.append("   POTIM  = %s    time-step for ionic-motion" % repr(float(timestep)))
    out.append("")
    out.append(" Write flags")
    out.append("   LWAVE        =      F    write WAVECAR")
    out.append("")
    out.append("  energy-cutoff  :      500.00")
    out.append("  volume of cell :      %.2f" % abs(np.linalg.det(lattice)))
    out.append("      direct lattice vectors                 reciprocal lattice vectors")
    rec = np.linalg.inv(lattice).T
    out += ["  " + _row(a, "%18.12f") + "  " + _row(b, "%18.12f") for a, b in zip(lattice, rec)]
    out.append("")
    if positions is not None:
        out.append(" position of ions in fractional coordinates (direct lattice) ")
        out += ["  " + _row(p, "%20.14f") for p in positions]
        out.append("")
        out.append(" position of ions in cartesian coordinates  (Angst):")
        out += ["  " + _row(p, "%20.14f") for p in positions @ lattice]
        out.append("")
    for index, frame in enumerate(frames or []):
        is_ml = bool(ml[index]) if ml is not None else False
        if extra:
            out.append("--------------------------------------- Iteration %6d(   1)" % (index + 1))
            out.append("      direct lattice vectors                 reciprocal lattice vectors")
            out += ["  " + _row(a) + "  " + _row(b) for a, b in zip(lattice, rec)]
        out.append((" " * is_ml) + " POSITION                                       TOTAL-FORCE (eV/Angst)"
                   + (" (ML)" if is_ml else ""))
        out.append(" " + "-" * 83)
        out += ["  " + _row(p, "%20.14f") + "  " + _row((0.1, -0.2, 0.3), "%12.6f") for p in frame]
        out.append(" " + "-" * 83)
        out.append("    total drift:                                0.0   0.0   0.0")
    if phonons is not None:
        out.append("")
        out.append(" Eigenvectors and eigenvalues of the dynamical matrix")
        out.append(" ----------------------------------------------------")
        out.append("")
        for index, (nu, vectors) in enumerate(phonons):
            thz = abs(nu) * 0.0299792458
            kind = "f  =" if nu >= 0 else "f/i="
            out.append(" %3d %s %11.6f THz %11.6f 2PiTHz %16.9f cm-1 %11.6f meV" % (
                index + 1, kind, thz, thz * 2 * math.pi, abs(nu), abs(nu) * 0.12398))
            out.append("             X         Y         Z           dx          dy          dz")
            cart = positions @ lattice
            out += ["  " + _row(c, "%10.6f") + " " + _row(v, "%20.14f")
                    for c, v in zip(cart, vectors)]
            out.append("")
        out.append(" Eigenvectors after division by SQRT(mass)")
        out.append("")
    if polarizability is not None:
        out.append(" MACROSCOPIC STATIC DIELECTRIC TENSOR (including local field effects in DFT)")
        out.append(" " + "-" * 54)
        out += ["  " + _row(v, "%20.12f") for v in polarizability]
        out.append(" " + "-" * 54)
    out.append("")
    out.append(" General timing and accounting informations for this job:")
    return "\n".join(out) + "\n"


def vasprun(lattice, numbers, positions=None, polarizability=None, phonons=None, frames=None,
            timestep=0.5, final=None):
    """Text of a vasprun.xml with the given sections (same conventions as outcar)."""
    def varray(name, rows, fmt="%.16f"):
        body = "".join("   <v> %s </v>\n" % _row(r, fmt) for r in rows)
        return '  <varray name="%s" >\n%s  </varray>\n' % (name, body)

    def structure(name, pos):
        tag = ' name="%s"' % name if name else ""
        return (' <structure%s >\n <crystal>\n%s  <i name="volume"> %.8f </i>\n%s </crystal>\n%s'
                ' </structure>\n' % (
                    tag, varray("basis", lattice), abs(np.linalg.det(lattice)),
                    varray("rec_basis", np.linalg.inv(lattice).T), varray("positions", pos)))

    out = ['<?xml version="1.0" encoding="ISO-8859-1"?>\n<modeling>\n']
    out.append(' <generator>\n  <i name="program" type="string">vasp </i>\n </generator>\n')
    out.append(' <parameters>\n  <separator name="electronic" >\n   <i name="NSW">0</i>\n'
               '  </separator>\n  <separator name="ionic" >\n   <i type="int" name="NSW"> 3</i>\n'
               '   <i name="POTIM"> %s</i>\n  </separator>\n </parameters>\n'
               % repr(float(timestep)))
    atoms = "".join("    <rc><c>%-2s</c><c>%4d</c></rc>\n" % (s, i + 1)
                    for i, (s, c) in enumerate(groups(numbers)) for _ in range(c))
    out.append(' <atominfo>\n  <atoms> %d </atoms>\n  <array name="atoms" >\n   <dimension dim="1">'
               'ion</dimension>\n   <field type="string">element</field>\n   <set>\n%s   </set>\n'
               '  </array>\n' % (len(numbers), atoms))
    types = "".join("    <rc><c>%4d</c><c>%-2s</c><c>1.0</c></rc>\n" % (c, s)
                    for s, c in groups(numbers))
    out.append('  <array name="atomtypes" >\n   <set>\n%s   </set>\n  </array>\n </atominfo>\n'
               % types)
    out.append(structure("primitive_cell", np.array([[0.5, 0.5, 0.5]])))
    if positions is not None:
        out.append(structure("initialpos", positions))
    for frame in frames or []:
        out.append(structure("", frame))
    calc = []
    if phonons is not None:
        vals = _row([-np.sign(nu) * (abs(nu) * 0.0299792458) ** 2 for nu, _ in phonons], "%.14f")
        vecs = "".join("   <v>%s</v>\n" % _row(v.ravel(), "%.14f") for _, v in phonons)
        calc.append(' <dynmat>\n%s  <v name="eigenvalues"> %s</v>\n  <varray name="eigenvectors" >\n'
                    '%s  </varray>\n </dynmat>\n'
                    % (varray("hessian", np.eye(3)), vals, vecs))
    if polarizability is not None:
        calc.append(varray("epsilon_rpa", np.eye(3) * 7))
        calc.append(varray("dielectric_dft", polarizability, "%.12f"))
    if calc:
        out.append(" <calculation>\n" + "".join(calc) + " </calculation>\n")
    if positions is not None:
        out.append(structure("finalpos", positions if final is None else final))
    out.append("</modeling>\n")
    return "".join(out)
