"""Runs steps in a process in which some packages cannot be imported; prints their outcomes.

Usage: environment.py BLOCKED FIRST SCRATCH, where BLOCKED is a comma-separated list of packages and
FIRST the name of the step to take first. Every step is taken twice, in the same order.
"""

import importlib
import io
import json
import os
import sys
import warnings
from contextlib import redirect_stdout

BLOCKED = {name for name in sys.argv[1].split(",") if name}
FIRST = sys.argv[2]
FOLDER = sys.argv[3]


class Blocker:
    """Makes packages look as if they were not installed."""

    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.split(".")[0] in BLOCKED:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)


sys.meta_path.insert(0, Blocker)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402


def digest(*values):
    """Flat list of the numbers and texts given."""
    out = []
    for v in values:
        if isinstance(v, str):
            out.append(v)
        else:
            v = v.detach().numpy() if hasattr(v, "detach") else v
            out += np.asarray(v, float).ravel().tolist()
    return out


def path(name):
    return os.path.join(FOLDER, name)


def rn(name=""):
    return importlib.import_module("ramannoodle" + name)


def structure():
    return rn(".structure").ReferenceStructure([22, 8, 38], np.diag([4.0, 5.0, 6.0]), np.array([[0.1, 0.2, 0.3], [0.6, 0.5, 0.8], [0.3, 0.9, 0.55]]))


def model(kind="InterpolationModel"):
    m = getattr(rn(".pmodel"), kind)(structure(), np.diag([3.0, 4.0, 5.0]))
    return m


def trained():
    m = model()
    for k in range(9):
        u = np.zeros(9)
        u[k] = 1
        m.add_dof(u.reshape(3, 3), np.array([0.05, -0.04]), np.diag([3.0, 4.0, 5.0]) + 0.1 * (k + 1) * np.arange(18).reshape(2, 3, 3), 1)
    return m


class Anything:
    """Stands for an object of a package which is not installed."""


def pymatgen_structures():
    if "pymatgen" in BLOCKED:
        return [Anything(), Anything()]
    import pymatgen.core

    s = structure()
    return [pymatgen.core.Structure(s.lattice, s.atomic_numbers, s.positions + np.array([[d, 0, 0], [0, 0, 0], [0, 0, 0]]) / 4) for d in (0.05, -0.05)]


TENSORS = np.diag([3.0, 4.0, 5.0]) + np.arange(18).reshape(2, 3, 3) / 10


def dataset(d):
    return digest(d.atomic_numbers, d.positions, d.polarizabilities, d.num_samples)


def core_models():
    m = trained()
    p = model("ARTModel")
    p.add_art(0, np.array([0, 0, 1.0]), np.array([0.05, -0.05]), TENSORS)
    x = structure().positions + np.arange(18).reshape(2, 3, 3) / 300
    return digest(m.calc_polarizabilities(x), p.calc_polarizabilities(x), len(p.cart_basis_vectors))


def core_spectra():
    m = trained()
    s = structure()
    d = rn(".dynamics")
    phonons = d.Phonons(s.positions, np.array([100.0, 300.0]), np.arange(18).reshape(2, 3, 3) / 50)
    trajectory = d.Trajectory(s.positions + np.sin(np.arange(72)).reshape(8, 3, 3) / 100, 1.5)
    out = []
    for spectrum in (phonons.get_raman_spectrum(m), trajectory.get_raman_spectrum(m)):
        out += spectrum.measure("polycrystalline", laser_correction=True, laser_wavelength=532)
    out += rn(".spectrum").utils.convolve_spectrum(*out[:2])
    return digest(*out)


def core_files():
    s = structure()
    poscar, outcar, vasprun, xdatcar = (rn(".io.vasp." + k) for k in ("poscar", "outcar", "vasprun", "xdatcar"))
    poscar.write_structure(s.lattice, s.atomic_numbers, s.positions, path("written"), overwrite=True)
    xdatcar.write_trajectory(s.lattice, s.atomic_numbers, s.positions[None], path("written_x"), overwrite=True)
    out = [poscar.read_positions(path("written")), xdatcar.read_positions_ts(path("written_x"))]
    for m, f in ((outcar, "OUTCAR"), (vasprun, "vasprun.xml")):
        ph = m.read_phonons(path(f))
        x, p = m.read_positions_and_polarizability(path(f))
        out += [ph.wavenumbers, ph.displacements, x, p, m.read_trajectory(path("MD_" + f)).positions_ts]
    return digest(*out)


def core_generic():
    g = rn(".io.generic")
    out = []
    for f in ("outcar", "vasprun.xml"):
        name = path("OUTCAR" if f == "outcar" else f)
        out += [g.read_phonons(name, f).wavenumbers, g.read_ref_structure(name, f).positions, g.read_positions(name, f)]
    return digest(*out)


def core_displace():
    s = structure()
    rn(".structure").write_displaced_structures(s, np.eye(9)[2].reshape(3, 3), np.array([0.1, -0.1]), [path("a"), path("b")], "poscar", overwrite=True)
    return digest(open(path("a")).read(), open(path("b")).read())


def gnn():
    torch_module = rn(".pmodel.torch")
    import torch

    torch.manual_seed(2)
    m = torch_module.PotGNN(structure(), 3.5, 3, 4, 1, 0.3, 4.0, np.eye(3), np.ones((3, 3)))
    with redirect_stdout(io.StringIO()):
        return digest(np.round(m.calc_polarizabilities(structure().positions[None] + 0.0), 3).shape)


def pymatgen_io():
    m = rn(".io.pymatgen")
    s = pymatgen_structures()[0]
    return digest(m.get_positions(s), m.construct_ref_structure(s).positions, m.get_structure(s)[0])


def pymatgen_trajectory():
    m = rn(".io.pymatgen")
    import pymatgen.core.trajectory as t

    s = pymatgen_structures()
    return digest(m.construct_trajectory(t.Trajectory.from_structures(s, constant_lattice=True), 1.0).positions_ts)


def from_pymatgen(kind):
    m = model(kind)
    args = pymatgen_structures(), TENSORS
    if kind == "ARTModel":
        m.add_art_from_pymatgen(*args)
    else:
        m.add_dof_from_pymatgen(*args, 1)
    return digest(m.calc_polarizabilities(structure().positions[None] + 0.01))


DATA = ("OUTCAR", "outcar"), ("vasprun.xml", "vasprun")
STEPS = {
    "import ramannoodle": lambda: digest(*sorted(k for k in dir(rn()) if k in (
        "exceptions", "constants", "spectrum", "io", "structure", "pmodel", "dynamics", "dataset", "abstract"))),
    "import pmodel.torch": lambda: rn(".pmodel.torch").__name__,
    "import dataset.torch": lambda: rn(".dataset.torch").__name__,
    "import io.pymatgen": lambda: rn(".io.pymatgen").__name__,
    "models": core_models,
    "spectra": core_spectra,
    "files": core_files,
    "generic": core_generic,
    "displaced structures": core_displace,
    "OUTCAR dataset": lambda: dataset(rn(".io.vasp.outcar").read_polarizability_dataset(path("OUTCAR"))),
    "vasprun dataset": lambda: dataset(rn(".io.vasp.vasprun").read_polarizability_dataset([path("vasprun.xml")])),
    "generic dataset": lambda: dataset(rn(".io.generic").read_polarizability_dataset(path("OUTCAR"), "outcar")),
    "dataset": lambda: dataset(rn(".dataset.torch").PolarizabilityDataset(np.eye(3), [8], np.zeros((2, 1, 3)), TENSORS)),
    "tensor conversion": lambda: digest(rn(".dataset.torch.utils").polarizability_tensors_to_vectors(
        importlib.import_module("torch").tensor(TENSORS + TENSORS.swapaxes(1, 2)))),
    "network": gnn,
    "pymatgen structures": pymatgen_io,
    "pymatgen trajectory": pymatgen_trajectory,
    "pymatgen dataset": lambda: dataset(rn(".io.pymatgen").construct_polarizability_dataset(pymatgen_structures(), TENSORS)),
    "interpolation from pymatgen": lambda: from_pymatgen("InterpolationModel"),
    "ART from pymatgen": lambda: from_pymatgen("ARTModel"),
}

if __name__ == "__main__":
    outcomes = []
    order = [FIRST] + [k for k in STEPS if k != FIRST]
    for name in order * 2:
        try:
            outcomes.append([name, "ok", STEPS[name]()])
        except Exception as exc:  # pylint: disable=broad-except
            try:
                user = isinstance(exc, rn(".exceptions").UserError)
            except Exception:  # pylint: disable=broad-except
                user = False
            outcomes.append([name, "UserError" if user else "error", f"{type(exc).__name__}: {exc}"])
    sys.stdout.flush()
    print("\nOUTCOMES " + json.dumps(outcomes))
