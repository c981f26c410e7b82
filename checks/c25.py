"""C25: results do not depend on what was done before."""

import os
import pickle
import traceback

import numpy as np
import pymatgen.core
import pymatgen.core.trajectory
import torch

import ramannoodle.io.vasp as vasp_io
from mc import core, in_place, ref
from mc.core import Tree
from ramannoodle.dataset.torch import PolarizabilityDataset
from ramannoodle.dynamics import Phonons, Trajectory
from ramannoodle.io import generic
from ramannoodle.io import pymatgen as pymatgen_io
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.pmodel.torch import PotGNN
from ramannoodle.spectrum import MDRamanSpectrum, PhononRamanSpectrum
from ramannoodle.spectrum.utils import convolve_spectrum
from ramannoodle.structure import (
    ReferenceStructure,
    get_ast_displaced_positions,
    get_displaced_positions,
    write_displaced_structures,
)

PROPERTY = "C25"
LEVEL = "model_checking"
RULE = ""
BOUNDS = (
    "68 library calls (readers of all formats on files of different sizes and contents, also at the same path, damaged and missing files, structures, models, "
    "additions, refused additions, masks, displaced structures, writers, spectra, datasets, networks) on fresh and on shared objects; all sequences "
    "a, b, a of them (thorough: also all sequences a, b, c, a with c among 12 calls), each in its own process; every result is compared with that of a process which made only that call"
)
ASSUMPTIONS = ["calls documented to change an object are followed by the same change in the fresh process"]

torch.set_num_threads(1)
L, L2 = ref.LATTICES["general"], ref.LATTICES["tricl"]
_FILES = []


def files():
    """Input files, written once per run."""
    if not _FILES:
        folder = core.scratch()
        z2, p2, z5, p5 = ref.p1_species(2), ref.p1_positions(2), ref.p1_species(5), ref.p1_positions(5)
        a2, a5 = ref.sym((), 1, 3.0), ref.sym((), 2, 7.0)
        m2 = [(90.0 * k - 100, ref.fill((2, 3), k)) for k in range(6)]
        m5 = [(33.0 * k + 5, ref.fill((5, 3), 20 + k)) for k in range(15)]
        f2 = [ref.p1_positions(2, k) for k in range(3)]
        f5 = [ref.p1_positions(5, k) for k in range(6)]
        texts = {
            "outcar2": ref.outcar(L, z2, p2, a2, m2), "outcar5": ref.outcar(L2, z5, p5, a5, m5, potcar_style="vrhfin", timestep=3.0),
            "md2": ref.outcar(L, z2, p2, frames=[f @ L for f in f2], timestep=1.5),
            "ml5": ref.outcar(L2, z5, p5, frames=[f @ L2 for f in f5], ml=[True, True, False, False, True, False]),
            "vasprun2": ref.vasprun(L, z2, p2, a2, m2, f2, 2.5), "vasprun5": ref.vasprun(L2, z5, p5, a5, m5, f5),
            "poscar2": ref.poscar(L, z2, p2), "poscar5": ref.poscar(L2, z5, p5, 2.0, "Cartesian", "Selective", trailing=" T F T"),
            "xdatcar2": ref.xdatcar(L, z2, f2), "xdatcar5": ref.xdatcar(L2, z5, f5),
            "empty": "",
        }
        texts["cut_outcar"] = texts["outcar5"][: len(texts["outcar5"]) * 3 // 4]
        texts["cut_vasprun"] = texts["vasprun5"][: len(texts["vasprun5"]) // 2]
        texts["cut_poscar"] = texts["poscar5"][:-30]
        texts["cut_xdatcar"] = texts["xdatcar5"][:-30]
        amplitudes = [0.05, -0.05, 0.1]
        move = np.zeros((2, 3))
        move[0, 2] = 1
        for k, x in enumerate(amplitudes):
            texts[f"dof{k}"] = ref.outcar(L, z2, p2 + x * move @ np.linalg.inv(L), a2 + x * a5)
        for name, text in texts.items():
            (folder / name).write_text(text)
        _FILES.append(folder)
    return _FILES[0]


# ------------------------------------------------------------------ shared objects of a process
SHARED = {}


def shared(name):
    if name not in SHARED:
        SHARED[name] = MAKERS[name]()
    return SHARED[name]


def crystal(name):
    lattice, positions, numbers = ref.crystals()[name]
    return ReferenceStructure(numbers, lattice, positions)


def make_model(n=3, tag=0):
    s = ReferenceStructure(ref.p1_species(n), L, ref.p1_positions(n))
    m = InterpolationModel(s, ref.sym((), 1 + tag, 4.0))
    for k in range(2 + tag):
        move = np.eye(3 * n)[k + tag].reshape(n, 3)
        m.add_dof(move, np.array([-0.1, 0.12, 0.2]), ref.sym((3,), 2 + k + tag), 1 + k % 2)
    return m


def make_art():
    m = ARTModel(crystal("rutile"), ref.sym((), 4, 2.0))
    m.add_art(0, np.array([0.0, 0, 1]), np.array([0.1]), ref.sym((1,), 3))
    m.add_art(2, np.array([0.0, 0, 1]), np.array([-0.1]), ref.sym((1,), 5))
    return m


def make_gnn(n=3, cutoff=9.0, seed=3):
    state = torch.get_rng_state()
    torch.manual_seed(seed)
    m = PotGNN(ReferenceStructure(ref.p1_species(n), L, ref.p1_positions(n)), cutoff, 3, 4, 1, 0.0, 10.0, ref.sym((), 1), np.ones((3, 3)))
    torch.set_rng_state(state)
    m.eval()
    return m


def make_dataset(n=2, tag=0):
    return PolarizabilityDataset(L, ref.p1_species(n), ref.fill((4, n, 3), tag), ref.sym((4,), tag + 1, 3.0))


MAKERS = {
    "model": make_model, "model2": lambda: make_model(2, 1), "art": make_art, "rutile": lambda: crystal("rutile"),
    "dummy": lambda: InterpolationModel(crystal("p21"), np.zeros((3, 3)), is_dummy_model=True),
    "spectrum": lambda: PhononRamanSpectrum(np.array([100.0, 350, 720]), ref.sym((3,), 2)),
    "md": lambda: MDRamanSpectrum(ref.sym((9,), 3), 1.5),
    "md2": lambda: MDRamanSpectrum(ref.sym((12,), 5), 0.5),
    "gnn": make_gnn, "gnn2": lambda: make_gnn(4, 6.0, 8), "dataset": make_dataset,
    "trajectory": lambda: Trajectory(ref.p1_positions(3) + ref.fill((6, 3, 3), 3, 0.02), 2.0),
    "phonons": lambda: Phonons(ref.p1_positions(3), np.array([50.0, 100, 400]), ref.fill((3, 3, 3), 8, 0.05)),
    "bad_phonons": lambda: Phonons(ref.p1_positions(5), np.array([50.0]), ref.fill((1, 5, 3), 8, 0.05)),
}


# ------------------------------------------------------------------ the calls
def view(x):
    if isinstance(x, Phonons):
        return ["phonons", x.ref_positions, x.wavenumbers, x.displacements]
    if isinstance(x, Trajectory):
        return ["trajectory", x.positions_ts, x.timestep]
    if isinstance(x, ReferenceStructure):
        return ["structure", x.lattice, x.positions, x.atomic_numbers, x.num_nonequivalent_atoms]
    if isinstance(x, PolarizabilityDataset):
        return ["dataset", x.atomic_numbers, x.positions, x.polarizabilities, x.scaled_polarizabilities, [view(x[k]) for k in range(len(x))]]
    if isinstance(x, ARTModel):
        return ["art", x.cart_basis_vectors, x.mask, x.get_specification_tuples(), str(x)]
    if isinstance(x, InterpolationModel):
        return ["model", x.cart_basis_vectors, x.mask, str(x)]
    if isinstance(x, PhononRamanSpectrum):
        return ["spectrum", x.phonon_wavenumbers, x.raman_tensors]
    if isinstance(x, MDRamanSpectrum):
        return ["md", x.polarizability_ts, x.timestep]
    if isinstance(x, torch.Tensor):
        return x.detach().numpy().copy()
    if isinstance(x, dict):
        return {k: view(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [view(v) for v in x]
    return x


def read(name, function, *args):
    return lambda: function(files() / name, *args)


def positions(n, count, tag=0):
    return ref.p1_positions(n) + ref.fill((count, n, 3), tag, 0.03)


def write_and_read(path, n, overwrite):
    vasp_io.poscar.write_structure(L, ref.p1_species(n), ref.p1_positions(n), path, overwrite=overwrite)
    return path.read_text()


def out():
    return core._SCRATCH[1]  # private to the process, emptied before it starts


def displaced_files(overwrite):
    paths = [out() / f"d{k}" for k in range(3)]
    write_displaced_structures(shared("rutile"), ref.fill((6, 3), 3), np.array([0.1, -0.2, 0.3]), paths, "poscar", overwrite)
    return [p.read_text() for p in paths]


def rescaled():
    d = shared("dataset")
    d.scale_polarizabilities(ref.sym((), 8), np.full((3, 3), 2.5))
    return d


def grown():
    m = make_model(2)
    m.add_dof_from_files([files() / f"dof{k}" for k in range(3)], "outcar", 2)
    return [m, m.calc_polarizabilities(positions(2, 3))]


def masked():
    m = shared("model").get_masked_model([1])
    return [m, m.calc_polarizabilities(positions(3, 4))]


def unmasked():
    m = shared("model").get_masked_model([0])
    m.unmask()
    m.mask = np.array([True, True])
    return [m.mask, m.calc_polarizabilities(positions(3, 2)), shared("model")]


def refused_dof():
    m = shared("model")
    m.add_dof(np.ones((3, 3)), np.array([0.1, 0.2]), ref.sym((2,), 4), 1)


def refused_art():
    shared("art").add_art(0, np.array([0.0, 1, 1]), np.array([0.1]), ref.sym((1,), 3))


SAME_PATH = {
    "outcar": (lambda k: ref.outcar(L, ref.p1_species(2), ref.p1_positions(2, k), ref.sym((), 1 + k, 3.0)), vasp_io.outcar.read_structure_and_polarizability),
    "vasprun": (lambda k: ref.vasprun(L, ref.p1_species(2), ref.p1_positions(2, k), ref.sym((), 1 + k, 3.0)),
                vasp_io.vasprun.read_structure_and_polarizability),
    "poscar": (lambda k: ref.poscar(L, ref.p1_species(2), ref.p1_positions(2, k)), vasp_io.poscar.read_ref_structure),
    "xdatcar": (lambda k: ref.xdatcar(L, ref.p1_species(2), [ref.p1_positions(2, k + s) for s in range(2)]),
                lambda path: vasp_io.xdatcar.read_trajectory(path, 1.0)),
}


def rewritten(kind, k):
    """Another content of the same size at the same path."""
    def call():
        path = out() / f"same {kind}"
        texts = [SAME_PATH[kind][0](i) for i in range(2)]
        path.write_text(texts[k].ljust(max(map(len, texts)), "\n"))
        return SAME_PATH[kind][1](path)
    return call


SETTINGS = {"laser_correction": True, "laser_wavelength": 633, "bose_einstein_correction": True, "temperature": 500}
CALLS = {
    "outcar phonons 2": read("outcar2", vasp_io.outcar.read_phonons),
    "outcar phonons 5": read("outcar5", vasp_io.outcar.read_phonons),
    "outcar structure 5": read("outcar5", vasp_io.outcar.read_structure_and_polarizability),
    "outcar md": read("md2", vasp_io.outcar.read_trajectory),
    "outcar ml": read("ml5", vasp_io.outcar.read_trajectory),
    "outcar cut": read("cut_outcar", vasp_io.outcar.read_phonons),
    "outcar other": read("poscar2", vasp_io.outcar.read_structure_and_polarizability),
    "vasprun phonons 2": read("vasprun2", vasp_io.vasprun.read_phonons),
    "vasprun phonons 5": read("vasprun5", vasp_io.vasprun.read_phonons),
    "vasprun structure 2": read("vasprun2", vasp_io.vasprun.read_structure_and_polarizability),
    "vasprun md 2": read("vasprun2", vasp_io.vasprun.read_trajectory),
    "vasprun md 5": read("vasprun5", vasp_io.vasprun.read_trajectory),
    "vasprun cut": read("cut_vasprun", vasp_io.vasprun.read_trajectory),
    "poscar 2": read("poscar2", vasp_io.poscar.read_structure),
    "poscar 5": read("poscar5", vasp_io.poscar.read_ref_structure),
    "poscar cut": read("cut_poscar", vasp_io.poscar.read_positions),
    "poscar empty": read("empty", vasp_io.poscar.read_positions),
    "xdatcar 2": read("xdatcar2", vasp_io.xdatcar.read_trajectory, 1.0),
    "xdatcar 5": read("xdatcar5", vasp_io.xdatcar.read_trajectory, 2.0),
    "xdatcar cut": read("cut_xdatcar", vasp_io.xdatcar.read_trajectory, 2.0),
    "missing": read("missing", vasp_io.outcar.read_phonons),
    "unsupported": lambda: generic.read_phonons(files() / "outcar2", "cif"),
    "dataset files": lambda: generic.read_polarizability_dataset([files() / f"dof{k}" for k in range(3)], "outcar"),
    "dataset mixed": lambda: generic.read_polarizability_dataset([files() / "dof0", files() / "outcar5"], "outcar"),
    "rutile": lambda: crystal("rutile"),
    "perovskite displacements": lambda: crystal("perov").get_equivalent_displacements(np.eye(15)[3].reshape(5, 3) * 0.02),
    "rutile displacements": lambda: shared("rutile").get_equivalent_displacements(np.eye(18)[2].reshape(6, 3) * 0.02),
    "rutile table": lambda: [shared("rutile").get_equivalent_atom_dict(), shared("rutile").get_atom_indexes(["O", "Ti"])],
    "pymatgen structure": lambda: pymatgen_io.construct_ref_structure(
        pymatgen.core.Structure(L, ref.symbols_of(ref.p1_species(4)), ref.p1_positions(4))),
    "model": lambda: [make_model(), make_model().calc_polarizabilities(positions(3, 3))],
    "model 2": lambda: [make_model(2, 1), make_model(2, 1).calc_polarizabilities(positions(2, 5))],
    "shared model": lambda: [shared("model"), shared("model").calc_polarizabilities(positions(3, 3))],
    "shared model 2": lambda: shared("model2").calc_polarizabilities(positions(2, 150)),
    "shared art": lambda: [shared("art"), shared("art").calc_polarizabilities(ref.crystals()["rutile"][1] + ref.fill((2, 6, 3), 1, 0.02))],
    "art": make_art,
    "refused dof": refused_dof, "refused art": refused_art, "masked": masked, "unmasked": unmasked, "dof files": grown,
    "wrong shape": lambda: shared("model").calc_polarizabilities(positions(2, 2)),
    "dummy": lambda: shared("dummy").calc_polarizabilities(ref.crystals()["p21"][1][None]),
    "displaced": lambda: [get_displaced_positions(shared("rutile"), ref.fill((6, 3), 3), np.array([0.1, -0.2])),
                          get_ast_displaced_positions(shared("rutile"), 3, np.array([1.0, 2, 3]), np.array([0.3, 0.0]))],
    "write": lambda: write_and_read(out() / "new", 3, True),
    "write longer": lambda: write_and_read(out() / "new", 40, True),
    "write displaced": lambda: displaced_files(True),
    "measure": lambda: shared("spectrum").measure(),
    "measure corrected": lambda: shared("spectrum").measure(**SETTINGS),
    "measure refused": lambda: shared("spectrum").measure(bose_einstein_correction=True, temperature=-1),
    "measure md": lambda: [shared("md").measure(), shared("md").measure(**SETTINGS), shared("md2").measure()],
    "phonon spectrum": lambda: [shared("phonons").get_raman_spectrum(shared("model")), shared("phonons").get_raman_spectrum(make_model(3, 1))],
    "phonon spectrum refused": lambda: shared("bad_phonons").get_raman_spectrum(shared("model")),
    "trajectory spectrum": lambda: [shared("trajectory").get_raman_spectrum(shared("model")), shared("trajectory")[1:3].copy()],
    "convolve": lambda: [convolve_spectrum(np.array([100.0, 250]), np.array([1.0, 3])), convolve_spectrum(
        np.array([100.0, 250]), np.array([1.0, 3]), "lorentzian", 8, np.linspace(0, 300, 31))],
    "gnn 3": lambda: shared("gnn").calc_polarizabilities(positions(3, 3)),
    "gnn 1": lambda: shared("gnn").calc_polarizabilities(positions(3, 1, 4)),
    "gnn2 2": lambda: shared("gnn2").calc_polarizabilities(positions(4, 2)),
    "dataset": make_dataset, "shared dataset": rescaled, "dataset 3": lambda: make_dataset(3, 4),
}
CALLS |= {f"same path {kind} {k}": rewritten(kind, k) for kind in SAME_PATH for k in range(2)}
TOLERANT = ("gnn",)


def environment():
    return [np.geterr(), str(torch.get_default_dtype()), os.getcwd(), np.get_printoptions()["precision"],
            torch.is_grad_enabled(), np.random.get_state()[1][:8].tolist(), len(os.listdir("/dev/fd"))]


def perform(name):
    before = environment()
    try:
        result = ["returned", view(CALLS[name]())]
    except Exception as exc:  # pylint: disable=broad-except
        result = ["raised", type(exc).__name__, str(exc).replace(str(out()), "")]
    after = environment()
    return result, [str(a) for a, b in zip(after, before) if a != b]


def same(a, b, tol):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and (
            bool(np.array_equal(a, b)) or (a.dtype.kind in "fc" and bool(np.allclose(a, b, rtol=tol, atol=tol))))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k], tol) for k in a)
    return type(a) is type(b) and a == b


def isolated(sequence, judge):
    """Perform calls in a process of their own; judge turns their results into the answer."""
    folder = core.scratch() if core._SCRATCH is None or core._SCRATCH[0] != os.getpid() or core._SCRATCH[1] != files() else None
    if folder is None:  # the process which owns the input files
        folder = files() / "out"
        folder.mkdir(exist_ok=True)
        for entry in folder.iterdir():
            entry.unlink()
    receive, send = os.pipe()
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            os.close(receive)
            core._SCRATCH = (os.getpid(), folder)
            answer = pickle.dumps(judge([perform(name) for name in sequence]))
            with os.fdopen(send, "wb") as pipe:
                pipe.write(answer)
            status = 0
        except BaseException:  # pylint: disable=broad-except
            traceback.print_exc()
        finally:
            os._exit(status)
    os.close(send)
    with os.fdopen(receive, "rb") as pipe:
        answer = pipe.read()
    os.waitpid(pid, 0)
    if not answer:
        raise RuntimeError(f"process ended: {sequence}")
    return pickle.loads(answer)


_FRESH = {}


def fresh(name):
    if name not in _FRESH:
        _FRESH[name] = isolated([name], lambda results: results)[0][0]
    return _FRESH[name]


EXPECTED_ERRORS = {"outcar cut", "outcar other", "vasprun cut", "poscar cut", "poscar empty", "xdatcar cut", "missing", "unsupported",
                   "dataset mixed", "refused dof", "refused art", "wrong shape", "dummy", "measure refused", "phonon spectrum refused"}


THIRD = ["outcar phonons 5", "outcar ml", "xdatcar 5", "poscar cut", "rutile", "shared model", "shared art", "refused dof", "masked", "measure corrected",
         "gnn 3", "dataset"]


def sequences(tier):
    def scenario(ch):
        names = [ch.choose("first", list(CALLS))]
        names.append(ch.choose("then", list(CALLS)))
        if tier != "quick":
            names += ch.choose("between", [[]] + [[name] for name in THIRD])
        names.append(names[0])
        wants = [fresh(name) for name in names]
        ch.check((wants[0][0] == "raised") == (names[0] in EXPECTED_ERRORS), lambda: f"{names[0]}: {wants[0]}")

        def judge(results):
            for k, ((got, changed), name, want) in enumerate(zip(results, names, wants)):
                if not same(got, want, 2e-5 if name.startswith(TOLERANT) else 1e-10):
                    return f"call {k} ({name}) of {names} gives\n{str(got)[:500]}\ninstead of\n{str(want)[:500]}"
                if changed:
                    return f"call {k} ({name}) of {names} leaves the process changed: {changed}"
            return None

        message = isolated(names, judge)
        ch.step(len(names))
        ch.check(message is None, message)
        ch.observe(names)

    return scenario


def scenarios(tier):
    files()
    return [Tree("sequences", sequences(tier), shard_depth=2),
            in_place.tree("C25", tier)]
