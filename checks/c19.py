"""C19: results are independent copies and arguments are never modified."""

import copy

import numpy as np
import pymatgen.core
import pymatgen.core.trajectory
import torch

import ramannoodle.io.vasp as vasp_io
from mc import ref
from mc.core import Tree, digest, scratch
from ramannoodle.dataset.torch import PolarizabilityDataset
from ramannoodle.dataset.torch import utils as tensor_utils
from ramannoodle.dynamics import Phonons, Trajectory
from ramannoodle.io import generic
from ramannoodle.io import pymatgen as pymatgen_io
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.pmodel.torch import PotGNN
from ramannoodle.pmodel.torch import _utils as gnn_utils
from ramannoodle.spectrum import MDRamanSpectrum, PhononRamanSpectrum
from ramannoodle.spectrum.utils import calc_signal_spectrum, convolve_spectrum
from ramannoodle.structure import (
    ReferenceStructure,
    get_ast_displaced_positions,
    get_displaced_positions,
    write_ast_displaced_structures,
    write_displaced_structures,
)
from ramannoodle.structure.utils import (
    apply_pbc,
    apply_pbc_displacement,
    calc_displacement,
    displace_positions,
    transform_positions,
)

PROPERTY = "C19"
LEVEL = "model_checking"
RULE = ""
BOUNDS = (
    "10 kinds of objects; all sequences of two (thorough: three) of their 5..16 accessors and operations, each followed by "
    "overwriting everything it returned (recursively) or keeping it; 50 functions, constructors and additions with 3 memory "
    "layouts of every array argument, called twice"
)
ASSUMPTIONS = ["items of trajectories and datasets, and arrays given to constructors, are shared by design"]

A = ref.fill
CRYSTAL = ref.crystals()["tet"]
LATTICE, POSITIONS, NUMBERS = CRYSTAL
N = len(NUMBERS)


# ------------------------------------------------------------------ arguments and results
def scribble(value, private=False, seen=None):
    """Overwrite everything reachable from a returned value."""
    seen = set() if seen is None else seen
    if id(value) in seen:
        return
    seen.add(id(value))
    if isinstance(value, np.ndarray):
        if value.flags.writeable:
            if value.dtype == bool:
                value[...] = ~value
            elif value.dtype == object:
                for item in value.ravel():
                    scribble(item, private, seen)
            elif value.dtype.kind in "iufc":
                value[...] = value * 3 + 11
    elif isinstance(value, torch.Tensor):
        with torch.no_grad():
            value.mul_(3).add_(11)
    elif isinstance(value, dict):
        for item in value.values():
            scribble(item, private, seen)
        value.clear()
    elif isinstance(value, list):
        for item in value:
            scribble(item, private, seen)
        value.append(99)
        value.reverse()
    elif isinstance(value, tuple):
        for item in value:
            scribble(item, private, seen)
    elif private or type(value).__name__ == "BSpline":
        for item in list(getattr(value, "__dict__", {}).values()):
            scribble(item, private, seen)


def image(value, depth=0):
    """Exact rendering of a value."""
    if isinstance(value, np.ndarray):
        if value.dtype == object:
            return [image(v, depth + 1) for v in value.ravel()]
        return str(value.dtype), value.shape, value.tobytes()
    if isinstance(value, torch.Tensor):
        return str(value.dtype), tuple(value.shape), value.detach().numpy().tobytes()
    if isinstance(value, dict):
        return [(repr(k), image(v, depth + 1)) for k, v in value.items()]
    if isinstance(value, (list, tuple)):
        return type(value).__name__, [image(v, depth + 1) for v in value]
    if type(value).__name__ == "BSpline":
        return image([value.t, value.c, value.k])
    if isinstance(value, pymatgen.core.Structure):
        return [image(np.array(value.lattice.matrix)), image(np.array(value.frac_coords)),
                list(value.atomic_numbers)]
    if isinstance(value, pymatgen.core.trajectory.Trajectory):
        return [image(np.array(value.coords)), image(np.array(value.lattice))]
    for cls, names in PLAIN:
        if isinstance(value, cls):
            return [image(getattr(value, name)) for name in names]
    if isinstance(value, torch.nn.Module):
        return image(dict(value.state_dict()))
    return repr(value)


def same(a, b):
    """Whether two renderings agree up to rounding errors."""
    if isinstance(a, tuple) and len(a) == 3 and isinstance(a[2], bytes):
        if a[:2] != b[:2]:
            return False
        if not a[0].startswith(("float", "torch.float")):
            return a[2] == b[2]
        dtype = a[0].replace("torch.", "")
        tol = 1e-4 if dtype == "float32" else 1e-9
        return np.allclose(np.frombuffer(a[2], dtype), np.frombuffer(b[2], dtype), tol, tol, True)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


# ------------------------------------------------------------------ objects and their accessors
PLAIN = [
    (ReferenceStructure, ["atomic_numbers", "lattice", "positions", "num_atoms", "num_nonequivalent_atoms"]),
    (InterpolationModel, ["ref_structure", "ref_polarizability", "cart_basis_vectors", "interpolations", "mask"]),
    (Phonons, ["ref_positions", "wavenumbers", "displacements"]),
    (Trajectory, ["positions_ts", "timestep"]),
    (PhononRamanSpectrum, ["phonon_wavenumbers", "raman_tensors"]),
    (MDRamanSpectrum, ["polarizability_ts", "timestep"]),
    (PolarizabilityDataset, ["atomic_numbers", "positions", "polarizabilities", "scaled_polarizabilities"]),
]
def structure():
    return ReferenceStructure(list(NUMBERS), LATTICE.copy(), POSITIONS.copy())


def structure_p1(n=4):
    return ReferenceStructure(ref.p1_species(n), LATTICE.copy(), ref.p1_positions(n))


MOVES = np.eye(3 * N).reshape(3 * N, N, 3)
STRUCTURE = {
    "atomic_numbers": lambda s: s.atomic_numbers,
    "lattice": lambda s: s.lattice,
    "positions": lambda s: s.positions,
    "counts": lambda s: (s.num_atoms, s.num_nonequivalent_atoms),
    "equivalent_atoms": lambda s: s.get_equivalent_atom_dict(),
    "displacements_z": lambda s: s.get_equivalent_displacements(0.1 * MOVES[2]),
    "displacements_x": lambda s: s.get_equivalent_displacements(0.1 * MOVES[3 * N - 3]),
    "cart": lambda s: s.get_cart_displacement(np.full((N, 3), 0.7)),
    "cart_direction": lambda s: s.get_cart_direction(np.array([0.1, 0.2, 0.9])),
    "frac": lambda s: s.get_frac_displacement(np.full((N, 3), 0.7)),
    "frac_direction": lambda s: s.get_frac_direction(np.array([0.1, 0.2, 0.9])),
    "atom_indexes": lambda s: s.get_atom_indexes(["O", "Pb"]),
    "displaced": lambda s: get_displaced_positions(s, MOVES[2], np.array([0.0, 0.1])),
    "ast_displaced": lambda s: get_ast_displaced_positions(s, 0, np.array([0, 0, 2.0]), np.array([0.0, 0.1])),
}
PROBES = np.array([POSITIONS, POSITIONS + A((N, 3), 1, 0.01), POSITIONS + A((N, 3), 2, 0.01)])
REF_POL = ref.sym((), 5, 4.0)


def pols(count, tag=0):
    return REF_POL + ref.sym((count,), tag, 0.2)


def model():
    m = InterpolationModel(structure(), REF_POL.copy())
    m.add_dof(MOVES[2], np.array([-0.1, 0.1, 0.05]), pols(3, 1), 2)
    m.add_dof(MOVES[0], np.array([0.1]), pols(1, 2), 1)
    m.mask = np.arange(len(m.mask)) == 1
    return m


def art():
    m = ARTModel(structure(), REF_POL.copy())
    m.add_art(0, np.array([0, 0, 1.0]), np.array([-0.1, 0.1]), pols(2, 1))
    m.add_art(1, np.array([1.0, 0, 0]), np.array([0.1]), pols(1, 2))
    m.mask = np.arange(len(m.mask)) == 1
    return m


MODEL = {
    "ref_structure": lambda m: m.ref_structure,
    "ref_polarizability": lambda m: m.ref_polarizability,
    "basis": lambda m: m.cart_basis_vectors,
    "interpolations": lambda m: m.interpolations,
    "mask": lambda m: m.mask,
    "predict": lambda m: m.calc_polarizabilities(PROBES.copy()),
    "predict_reference": lambda m: m.calc_polarizabilities(PROBES[:1].copy()),
    "predict_masked": lambda m: m.get_masked_model(list(range(len(m.mask)))).calc_polarizabilities(PROBES[:1].copy()),
    "masked_mask": lambda m: m.get_masked_model([0]).mask,
    "masked_basis": lambda m: m.get_masked_model([0]).cart_basis_vectors,
}
ART = {
    **MODEL,
    "tuples": lambda m: m.get_specification_tuples(),
    "dof_indexes": lambda m: m.get_dof_indexes(["Pb", 1]),
    "repr": repr,
}


def phonons():
    return Phonons(POSITIONS.copy(), np.array([-50.0, 10.0, 700.0]), A((3, N, 3), 3, 0.05))


def trajectory():
    return Trajectory(POSITIONS + A((5, N, 3), 4, 0.01) + 2, 0.5)


def phonon_spectrum():
    return PhononRamanSpectrum(np.array([10.0, 300.0, 700.0]), ref.sym((3,), 6, 2.0))


def md_spectrum():
    return MDRamanSpectrum(ref.sym((7,), 7, 2.0), 0.5)


def dataset():
    d = PolarizabilityDataset(LATTICE.copy(), list(NUMBERS), np.array([POSITIONS] * 4), ref.sym((4,), 8, 2.0))
    d.scale_polarizabilities(np.eye(3), np.full((3, 3), 2.0))
    return d


SPECTRUM = {
    "measure": lambda s: s.measure(),
    "measure_plain": lambda s: s.measure(laser_correction=False, bose_einstein_correction=False),
    "measure_laser": lambda s: s.measure(laser_correction=True, laser_wavelength=532),
    "measure_bose": lambda s: s.measure(bose_einstein_correction=True, temperature=200),
}
_GNN = []


def gnn():
    if not _GNN:
        torch.manual_seed(1)
        _GNN.append(PotGNN(structure_p1(), 4.0, 3, 4, 1, 0.0, 4.0, REF_POL.copy(), np.full((3, 3), 1.5)))
    return copy.deepcopy(_GNN[0])


OBJECTS = {
    "structure": (structure, STRUCTURE),
    "model": (model, MODEL),
    "art": (art, ART),
    "phonons": (phonons, {
        "ref_positions": lambda p: p.ref_positions,
        "wavenumbers": lambda p: p.wavenumbers,
        "displacements": lambda p: p.displacements,
        "spectrum_wavenumbers": lambda p: p.get_raman_spectrum(model()).phonon_wavenumbers,
        "spectrum_tensors": lambda p: p.get_raman_spectrum(model()).raman_tensors,
        "measured": lambda p: p.get_raman_spectrum(model()).measure(),
    }),
    "trajectory": (trajectory, {
        "positions_ts": lambda t: t.positions_ts,
        "timestep": lambda t: (t.timestep, len(t)),
        "spectrum_ts": lambda t: t.get_raman_spectrum(model()).polarizability_ts,
        "measured": lambda t: t.get_raman_spectrum(model()).measure(),
    }),
    "phonon_spectrum": (phonon_spectrum, {
        "wavenumbers": lambda s: s.phonon_wavenumbers,
        "tensors": lambda s: s.raman_tensors,
        **SPECTRUM,
    }),
    "md_spectrum": (md_spectrum, {
        "polarizability_ts": lambda s: s.polarizability_ts,
        "timestep": lambda s: s.timestep,
        **SPECTRUM,
    }),
    "dataset": (dataset, {
        "atomic_numbers": lambda d: d.atomic_numbers,
        "positions": lambda d: d.positions,
        "polarizabilities": lambda d: d.polarizabilities,
        "scaled": lambda d: d.scaled_polarizabilities,
        "mean": lambda d: d.mean_polarizability,
        "stddev": lambda d: d.stddev_polarizability,
        "counts": lambda d: (d.num_atoms, d.num_samples, len(d)),
    }),
    "single_sample": (lambda: PolarizabilityDataset(
        LATTICE.copy(), list(NUMBERS), POSITIONS[None].copy(), ref.sym((1,), 8, 2.0)), {
        "positions": lambda d: d.positions,
        "polarizabilities": lambda d: d.polarizabilities,
        "mean": lambda d: d.mean_polarizability,
        "stddev": lambda d: d.stddev_polarizability,
    }),
    "gnn": (gnn, {
        "predict_one": lambda m: m.calc_polarizabilities(ref.p1_positions(4)[None]),
        "predict_three": lambda m: m.calc_polarizabilities(ref.p1_positions(4) + A((3, 4, 3), 9, 0.02)),
    }),
}
_BASE = {}


def baseline(kind):
    if kind not in _BASE:
        make, ops = OBJECTS[kind]
        _BASE[kind] = {name: image(op(make())) for name, op in ops.items()}
    return _BASE[kind]


def accessors(depth):
    def run(ch):
        kind = ch.choose("object", list(OBJECTS))
        make, ops = OBJECTS[kind]
        base = baseline(kind)
        real, kept = make(), []
        for step in range(min(depth, 2) if kind == "gnn" else depth):
            name = ch.choose(f"call{step}", list(ops))
            returned = ops[name](real)
            ch.step()
            ch.check(same(image(returned), base[name]),
                     f"{name} of the {kind} differs after earlier results were used")
            if ch.choose(f"use{step}", ["overwrite", "keep"]) == "overwrite":
                scribble(returned, private=name == "ref_structure")
            else:
                kept.append((name, returned, image(returned)))
        for name, op in ops.items():
            if kind == "gnn" and step:
                continue
            ch.check(same(image(op(real)), base[name]),
                     f"{name} of the {kind} changed when a returned value was overwritten")
        for name, returned, as_returned in kept:
            ch.check(image(returned) == as_returned, f"value returned by {name} of the {kind} changed later")
        ch.observe(kind, ch.labels)

    return run


# ------------------------------------------------------------------ arguments
def layouts(value, layout):
    if isinstance(value, np.ndarray) and value.ndim:
        if layout == "strided":
            big = np.empty(value.shape[:-1] + (value.shape[-1] * 2,), value.dtype)
            big[..., ::2] = value
            return big[..., ::2]
        if layout == "fortran":
            return np.asfortranarray(value)
        return value.copy()
    if isinstance(value, torch.Tensor):
        if layout == "fortran" and value.ndim > 1:
            return value.transpose(0, -1).contiguous().transpose(0, -1)
        return value.clone()
    if isinstance(value, list):
        return [layouts(v, layout) for v in value]
    return value


def wild(shape, tag=0):
    """Positions in and out of the cell, on its faces and halfway."""
    x = A(shape, tag, 2.3)
    flat = x.reshape(-1)
    flat[:: 7] = np.round(flat[:: 7])
    flat[3:: 7] = np.round(flat[3:: 7]) + 0.5
    return x


def pymatgen_structures():
    return [pymatgen.core.Structure(LATTICE, ref.symbols_of(NUMBERS), POSITIONS + a * MOVES[2] @ np.linalg.inv(LATTICE)
                                    + 1) for a in (0.1, -0.1)]


def outcars(fmt="outcar"):
    folder, paths = scratch(), []
    for k, a in enumerate((0.1, -0.1)):
        frame = ref.wrap(POSITIONS + a * MOVES[2] @ np.linalg.inv(LATTICE))
        text = (ref.outcar if fmt == "outcar" else ref.vasprun)(LATTICE, NUMBERS, frame, pols(2)[k])
        paths.append(folder / f"{k}")
        paths[-1].write_text(text)
    return paths


def new_model(cls=InterpolationModel):
    return cls(structure(), REF_POL.copy())


def out(name):
    return scratch() / name


P4, Z4 = ref.p1_positions(4), ref.p1_species(4)
UNSORTED = np.array([0.15, -0.1, 0.05])
CALLS = {
    "apply_pbc": lambda: (apply_pbc, [wild((4, 3))]),
    "apply_pbc_batch": lambda: (apply_pbc, [wild((2, 4, 3))]),
    "apply_pbc_displacement": lambda: (apply_pbc_displacement, [wild((4, 3))]),
    "displace_positions": lambda: (displace_positions, [wild((4, 3)), wild((4, 3), 1)]),
    "transform_positions": lambda: (transform_positions, [ref.wrap(wild((4, 3))), np.diag([-1.0, 1, 1]), np.array([.5, 1.5, -.5])]),
    "calc_displacement": lambda: (calc_displacement, [wild((4, 3)), wild((4, 3), 1)]),
    "convolve": lambda: (convolve_spectrum, [np.array([300.0, 10, 700]), np.array([1.0, 3, 2])]),
    "convolve_out": lambda: (convolve_spectrum, [np.array([300.0, 10, 700]), np.array([1.0, 3, 2]), "lorentzian", 7.0,
                                                 np.array([500.0, 100, 300, 900])]),
    "signal_spectrum": lambda: (calc_signal_spectrum, [A((9,)), 1.5]),
    "structure": lambda: (ReferenceStructure, [list(NUMBERS), LATTICE, POSITIONS]),
    "structure_p1": lambda: (ReferenceStructure, [Z4, LATTICE, P4]),
    "cart_displacement": lambda: (structure_p1().get_cart_displacement, [wild((4, 3))]),
    "cart_displacement_batch": lambda: (structure_p1().get_cart_displacement, [wild((2, 4, 3))]),
    "frac_displacement": lambda: (structure_p1().get_frac_displacement, [wild((4, 3))]),
    "cart_direction": lambda: (structure_p1().get_cart_direction, [wild((3,))]),
    "frac_direction": lambda: (structure_p1().get_frac_direction, [wild((3,))]),
    "equivalent_displacements": lambda: (structure().get_equivalent_displacements, [0.9 * MOVES[2]]),
    "atom_indexes": lambda: (structure_p1().get_atom_indexes, [["O", "Ti"]]),
    "displaced": lambda: (get_displaced_positions, [structure_p1(), A((4, 3), 1, 2.0), UNSORTED]),
    "ast_displaced": lambda: (get_ast_displaced_positions, [structure_p1(), 1, np.array([0, 3.0, 1]), UNSORTED]),
    "write_displaced": lambda: (write_displaced_structures, [
        structure_p1(), A((4, 3), 1, 2.0), UNSORTED, [out("a"), out("b"), out("c")], "poscar", True]),
    "write_ast_displaced": lambda: (write_ast_displaced_structures, [
        structure_p1(), 1, np.array([0, 3.0, 1]), UNSORTED, [str(out("a")), str(out("b")), str(out("c"))], "poscar",
        True]),
    "write_poscar": lambda: (vasp_io.poscar.write_structure, [LATTICE, Z4, P4, out("a"), True]),
    "write_xdatcar": lambda: (vasp_io.xdatcar.write_trajectory, [LATTICE, Z4, np.array([P4, P4]), out("a"), True]),
    "write_generic": lambda: (generic.write_structure, [LATTICE, Z4, P4, out("a"), "poscar", True]),
    "write_generic_trajectory": lambda: (generic.write_trajectory, [
        LATTICE, Z4, np.array([P4, P4]), out("a"), "xdatcar", True]),
    "phonons": lambda: (Phonons, [POSITIONS, np.array([30.0, -10, 70]), A((3, N, 3))]),
    "phonon_raman": lambda: (phonons().get_raman_spectrum, [model()]),
    "trajectory": lambda: (Trajectory, [wild((5, 4, 3)), 0.5]),
    "trajectory_raman": lambda: (trajectory().get_raman_spectrum, [model()]),
    "phonon_spectrum": lambda: (PhononRamanSpectrum, [np.array([30.0, 10, 70]), A((3, 3, 3))]),
    "phonon_measure": lambda: (lambda a, b: PhononRamanSpectrum(a, b).measure(
        laser_correction=True, laser_wavelength=532, bose_einstein_correction=True, temperature=300),
        [np.array([30.0, 10, 70]), A((3, 3, 3))]),
    "md_spectrum": lambda: (MDRamanSpectrum, [A((9, 3, 3)), 0.5]),
    "md_measure": lambda: (lambda a: MDRamanSpectrum(a, 0.5).measure(
        laser_correction=True, laser_wavelength=532, bose_einstein_correction=True, temperature=300),
        [A((9, 3, 3))]),
    "model": lambda: (InterpolationModel, [structure(), REF_POL]),
    "predict": lambda: (model().calc_polarizabilities, [PROBES + np.array([1, -2, 3])]),
    "predict_gnn": lambda: (gnn().calc_polarizabilities, [P4 + A((3, 4, 3), 9, 0.02) + np.array([1, -2, 3])]),
    "add_dof": lambda: (new_model().add_dof, [3 * MOVES[2], UNSORTED, pols(3), 2]),
    "add_dof_symmetric": lambda: (new_model().add_dof, [3 * MOVES[0], np.array([0.15]), pols(1), 1]),
    "add_dof_no_reference": lambda: (new_model().add_dof, [3 * MOVES[2], UNSORTED, pols(3), 1, False]),
    "add_art": lambda: (new_model(ARTModel).add_art, [0, np.array([0, 0, 3.0]), np.array([0.1, -0.1]), pols(2)]),
    "add_dof_files": lambda: (new_model().add_dof_from_files, [outcars(), "outcar", 2]),
    "add_dof_vasprun": lambda: (new_model().add_dof_from_files, [outcars("v"), "vasprun.xml", 1]),
    "add_art_files": lambda: (new_model(ARTModel).add_art_from_files, [outcars(), "outcar"]),
    "add_dof_pymatgen": lambda: (new_model().add_dof_from_pymatgen, [pymatgen_structures(), pols(2), 2]),
    "add_art_pymatgen": lambda: (new_model(ARTModel).add_art_from_pymatgen, [pymatgen_structures(), pols(2)]),
    "masked_model": lambda: (model().get_masked_model, [[1, 0]]),
    "dof_indexes": lambda: (art().get_dof_indexes, [["O", 0]]),
    "read_dataset": lambda: (generic.read_polarizability_dataset, [outcars(), "outcar"]),
    "dataset": lambda: (PolarizabilityDataset, [LATTICE, Z4, wild((3, 4, 3)), A((3, 3, 3))]),
    "dataset_scale": lambda: (dataset().scale_polarizabilities, [A((3, 3), 1), A((3, 3), 2) + 3]),
    "pymatgen_dataset": lambda: (pymatgen_io.construct_polarizability_dataset, [pymatgen_structures(), pols(2)]),
    "pymatgen_structure": lambda: (pymatgen_io.construct_ref_structure, [
        pymatgen.core.Structure(LATTICE, ref.symbols_of(NUMBERS), POSITIONS)]),
    "pymatgen_trajectory": lambda: (pymatgen_io.construct_trajectory, [
        pymatgen.core.trajectory.Trajectory.from_structures(pymatgen_structures(), constant_lattice=True), 0.5]),
    "gnn": lambda: (PotGNN, [structure_p1(), 4.0, 3, 4, 1, 0.0, 4.0, REF_POL, np.full((3, 3), 1.5)]),
    "to_vectors": lambda: (tensor_utils.polarizability_tensors_to_vectors, [torch.tensor(A((3, 3, 3)))]),
    "to_tensors": lambda: (tensor_utils.polarizability_vectors_to_tensors, [torch.tensor(A((3, 6)))]),
    "rotations": lambda: (gnn_utils.get_rotations, [torch.tensor(A((3, 3))).float()]),
    "radius_graph": lambda: (gnn_utils._radius_graph_pbc, [
        torch.tensor(LATTICE)[None].float(), torch.tensor(wild((1, 4, 3), 3)).float(), 4.0]),
}


def arguments(ch):
    name = ch.choose("call", list(CALLS))
    layout = ch.choose("layout", ["plain", "strided", "fortran"])
    function, args = CALLS[name]()
    args = [layouts(a, layout) for a in args]
    before = [image(a) for a in args]
    first = function(*args)
    ch.step()
    after = [image(a) for a in args]
    for k, (x, y) in enumerate(zip(before, after)):
        ch.check(x == y, f"{name} modified its argument {k}")
    rendered = image(first)
    if not name.startswith(("add_", "write_")):  # the same call again, on the same arguments
        second = function(*args)
        ch.step()
        ch.check(name == "gnn" or same(image(second), rendered), f"{name} returns something else when called again")
        ch.check([image(a) for a in args] == before, f"{name} modified its arguments when called again")
        ch.check(image(first) == rendered, f"{name} changed the result of an earlier call")
    ch.observe(name, layout, digest(repr(rendered)))


def scenarios(tier):
    return [
        Tree("accessors", accessors(3 if tier == "thorough" else 2), shard_depth=2),
        Tree("arguments", arguments, shard_depth=2),
    ]
