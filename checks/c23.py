"""C23: arguments of the wrong shape or type are rejected, never broadcast."""

import os

import numpy as np
import pymatgen.core
import torch

import ramannoodle.io.vasp as vasp_io
from mc import core, ref
from mc.core import Tree, canon, scratch
from ramannoodle.dataset.torch import PolarizabilityDataset
from ramannoodle.dataset.torch import utils as tensor_utils
from ramannoodle.dynamics import Phonons, Trajectory
from ramannoodle.io import generic
from ramannoodle.io import pymatgen as pymatgen_io
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.pmodel.torch import PotGNN
from ramannoodle.spectrum import MDRamanSpectrum, PhononRamanSpectrum
from ramannoodle.spectrum.utils import convolve_spectrum
from ramannoodle.structure import (
    ReferenceStructure,
    get_ast_displaced_positions,
    get_displaced_positions,
    write_ast_displaced_structures,
    write_displaced_structures,
)

PROPERTY = "C23"
LEVEL = "exploration"
RULE = (
    "one execution per combination of function, sizes, argument and wrong shape or type (or the documented shape, which "
    "has to be accepted); non-trivial: the call was made and refused or accepted as documented (distinct by labels)"
)
BOUNDS = (
    "36 functions and constructors, every documented array or list argument, 1..13 atoms and 2..6 items, up to 24 wrong shapes (other "
    "dimensions, transposed, shorter, longer, doubled, broadcastable, empty, something where nothing belongs) and 10 wrong types; lists and arrays of up to 1100 entries; every coordinate of structures and trajectories set to 14 values in and outside [0,1]"
)
ASSUMPTIONS = ["axes whose length the documentation leaves free may have any length (zero is not tried)"]

torch.set_num_threads(1)
LATTICE = ref.LATTICES["general"]
F = ref.fill


def structure(n):
    return ReferenceStructure(ref.p1_species(n), LATTICE.copy(), ref.p1_positions(n))


def model(n, cls=InterpolationModel):
    m = cls(structure(n), ref.sym((), 1, 2.0))
    if cls is InterpolationModel:
        m.add_dof(np.eye(3 * n)[0].reshape(n, 3), np.array([0.1]), ref.sym((1,), 2), 1)
        m.add_dof(np.eye(3 * n)[1].reshape(n, 3), np.array([0.1]), ref.sym((1,), 3), 1)
    return m


def pymatgen_structures(n, m):
    move = np.eye(3 * n)[2].reshape(n, 3) @ np.linalg.inv(LATTICE) * 4
    return [pymatgen.core.Structure(LATTICE, ref.symbols_of(ref.p1_species(n)), ref.p1_positions(n) + 0.01 * (-1) ** k * (1 + k // 2) * move)
            for k in range(m)]


def set_mask(m, value):
    m.mask = value


def gnn(n):
    return PotGNN(structure(n), 20.0, 2, 3, 1, 0.0, 5.0, np.zeros((3, 3)), np.ones((3, 3)))


def out(k):
    return [scratch() / f"{i}" for i in range(k)]


def z_move(n):
    return np.eye(3 * n)[2].reshape(n, 3)


# name: function of the sizes (n atoms, m items) giving (callable, arguments, {argument index: kind})
CALLS = {
    "structure": lambda n, m: (ReferenceStructure, [ref.p1_species(n), LATTICE, ref.p1_positions(n)], {0: "list", 1: "array", 2: "array"}),
    "cart_direction": lambda n, m: (structure(n).get_cart_direction, [F((3,))], {0: "array"}),
    "frac_direction": lambda n, m: (structure(n).get_frac_direction, [F((3,))], {0: "array"}),
    "frac_displacement": lambda n, m: (structure(n).get_frac_displacement, [F((n, 3))], {0: "array"}),
    "cart_displacement": lambda n, m: (structure(n).get_cart_displacement, [F((n, 3))], {0: "array"}),
    "equivalent": lambda n, m: (structure(n).get_equivalent_displacements, [F((n, 3))], {0: "array"}),
    "model": lambda n, m: (InterpolationModel, [structure(n), F((3, 3))], {1: "array"}),
    "art_model": lambda n, m: (ARTModel, [structure(n), F((3, 3))], {1: "array"}),
    "mask": lambda n, m: (lambda v, x=model(n): set_mask(x, v), [np.array([True, False])], {0: "array"}),
    "predict": lambda n, m: (model(n).calc_polarizabilities, [F((m, n, 3))], {0: "array"}),
    "add_dof": lambda n, m: (model(n).add_dof, [z_move(n), F((m,), 1), ref.sym((m,), 2), 1], {0: "array", 1: "array", 2: "array"}),
    "add_art": lambda n, m: (model(n, ARTModel).add_art, [0, F((3,)), np.array([0.1, -0.1]), ref.sym((2,), 2)], {1: "array", 2: "array", 3: "array"}),
    "add_dof_pymatgen": lambda n, m: (model(n).add_dof_from_pymatgen, [pymatgen_structures(n, m), ref.sym((m,), 2), 1], {0: "list", 1: "array"}),
    "add_art_pymatgen": lambda n, m: (model(n, ARTModel).add_art_from_pymatgen, [pymatgen_structures(n, 2), ref.sym((2,), 2)], {0: "list", 1: "array"}),
    "phonons": lambda n, m: (Phonons, [ref.p1_positions(n), F((m,)), F((m, n, 3))], {0: "array", 1: "array", 2: "array"}),
    "trajectory": lambda n, m: (Trajectory, [F((m, n, 3)), 1.0], {0: "array"}),
    "phonon_spectrum": lambda n, m: (PhononRamanSpectrum, [F((m,)), F((m, 3, 3))], {0: "array", 1: "array"}),
    "md_spectrum": lambda n, m: (MDRamanSpectrum, [F((m, 3, 3)), 1.0], {0: "array"}),
    "dataset": lambda n, m: (PolarizabilityDataset, [LATTICE, ref.p1_species(n), F((m, n, 3)), F((m, 3, 3))], {0: "array", 1: "list", 2: "array", 3: "array"}),
    "scale": lambda n, m: (PolarizabilityDataset(LATTICE, ref.p1_species(n), F((m, n, 3)), F((m, 3, 3))).scale_polarizabilities, [F((3, 3)), F((3, 3), 1) + 3], {0: "array", 1: "array"}),
    "pymatgen_dataset": lambda n, m: (pymatgen_io.construct_polarizability_dataset, [pymatgen_structures(n, m), ref.sym((m,), 2)], {0: "list", 1: "array"}),
    "gnn": lambda n, m: (PotGNN, [structure(n), 20.0, 2, 3, 1, 0.0, 5.0, F((3, 3)), F((3, 3))], {7: "array", 8: "array"}),
    "gnn_predict": lambda n, m: (gnn(n).calc_polarizabilities, [ref.p1_positions(n) + F((m, n, 3), 1, 0.01)], {0: "array"}),
    "displaced": lambda n, m: (get_displaced_positions, [structure(n), F((n, 3)), F((m,))], {1: "array", 2: "array"}),
    "ast_displaced": lambda n, m: (get_ast_displaced_positions, [structure(n), 0, F((3,)), F((m,))], {2: "array", 3: "array"}),
    "write_displaced": lambda n, m: (write_displaced_structures, [structure(n), F((n, 3)), F((m,)), out(m), "poscar"], {1: "array", 2: "array", 3: "paths"}),
    "write_ast": lambda n, m: (write_ast_displaced_structures, [structure(n), 0, F((3,)), F((m,)), out(m), "poscar"], {2: "array", 3: "array", 4: "paths"}),
    "poscar": lambda n, m: (vasp_io.poscar.write_structure, [LATTICE, ref.p1_species(n), ref.p1_positions(n), out(1)[0]], {0: "array", 1: "list", 2: "array"}),
    "xdatcar": lambda n, m: (vasp_io.xdatcar.write_trajectory, [LATTICE, ref.p1_species(n), np.array([ref.p1_positions(n)] * m), out(1)[0]], {0: "array", 1: "list", 2: "array"}),
    "generic_poscar": lambda n, m: (generic.write_structure, [LATTICE, ref.p1_species(n), ref.p1_positions(n), out(1)[0], "poscar"], {0: "array", 1: "list", 2: "array"}),
    "generic_xdatcar": lambda n, m: (generic.write_trajectory, [LATTICE, ref.p1_species(n), np.array([ref.p1_positions(n)] * m), out(1)[0], "xdatcar"], {0: "array", 1: "list", 2: "array"}),
    "convolve": lambda n, m: (convolve_spectrum, [F((m,), 0, 100.0), F((m,))], {0: "array", 1: "array"}),
    "convolve_out": lambda n, m: (convolve_spectrum, [F((m,), 0, 100.0), F((m,)), "gaussian", 5, F((7,))], {0: "array", 1: "array", 4: "array"}),
    "to_vectors": lambda n, m: (tensor_utils.polarizability_tensors_to_vectors, [torch.tensor(F((m, 3, 3)))], {0: "tensor"}),
    "to_tensors": lambda n, m: (tensor_utils.polarizability_vectors_to_tensors, [torch.tensor(F((m, 6)))], {0: "tensor"}),
}


# axes of any length: (function, argument index) -> axes
FREE = {
    ("cart_displacement", 0): (0,), ("frac_displacement", 0): (0,), ("predict", 0): (0,), ("gnn_predict", 0): (0,),
    ("trajectory", 0): (0, 1), ("md_spectrum", 0): (0,), ("displaced", 2): (0,), ("ast_displaced", 3): (0,),
    ("xdatcar", 2): (0,), ("generic_xdatcar", 2): (0,), ("convolve_out", 4): (0,), ("to_vectors", 0): (0,),
    ("to_tensors", 0): (0,),
}
BATCHED = ("cart_displacement",)  # leading axes of any number


def wrong_arrays(x, free, batched):
    """Arrays of other shapes."""
    shape, found = x.shape, {}

    def put(name, value):
        if batched and value.ndim >= 1 and value.shape[-1] == 3:
            return
        if value.ndim != x.ndim or any(
                a != b for k, (a, b) in enumerate(zip(value.shape, shape)) if k not in free):
            found[name] = value

    put("extra_axis_front", x[None])
    put("extra_axis_back", x[..., None])
    put("flattened", x.reshape(-1))
    put("scalar", x.reshape(-1)[0].reshape(()))
    put("transposed", x.T)
    if x.ndim > 1:
        put("first_item", x[0])
        put("swapped", np.swapaxes(x, 0, 1))
    for axis in range(x.ndim):
        index = [slice(None)] * x.ndim
        index[axis] = slice(0, -1)
        put(f"shorter{axis}", x[tuple(index)])
        index[axis] = slice(0, 1)
        put(f"one{axis}", x[tuple(index)])
        index[axis] = slice(0, 0)
        put(f"empty{axis}", x[tuple(index)])
        put(f"longer{axis}", np.concatenate([x, x.take([0], axis)], axis))
        put(f"doubled{axis}", np.concatenate([x, x], axis))
    return found


def shapes(ch):
    name = ch.choose("call", list(CALLS))
    n = ch.choose("atoms", [2, 3, 4, 7])
    m = ch.choose("items", [2, 3, 6])
    function, args, kinds = CALLS[name](n, m)
    at = ch.choose("argument", list(kinds))
    kind = kinds[at]
    if kind in ("array", "tensor"):
        x = args[at] if kind == "array" else args[at].numpy()
        options = wrong_arrays(x, FREE.get((name, at), ()), name in BATCHED)
        bad = options[ch.choose("wrong", list(options))]
        bad = bad.copy() if kind == "array" else torch.tensor(bad.copy())
    else:
        options = {"shorter": args[at][:-1], "longer": args[at] + args[at][:1], "doubled": args[at] * 2}
        bad = options[ch.choose("wrong", list(options))]
    args[at] = bad
    refused(ch, name, function, args, (ValueError,))
    ch.observe(ch.labels)


def look(thing):
    """Observable state of the object a method belongs to."""
    if isinstance(thing, ARTModel):
        return [thing.cart_basis_vectors, thing.mask, thing.get_specification_tuples()]
    if isinstance(thing, InterpolationModel):
        return [thing.cart_basis_vectors, thing.mask, thing.ref_polarizability]
    if isinstance(thing, ReferenceStructure):
        return [thing.positions, thing.lattice, thing.atomic_numbers]
    if isinstance(thing, PolarizabilityDataset):
        return [thing.scaled_polarizabilities, thing.polarizabilities]
    return []


def refused(ch, name, function, args, errors):
    """The call is refused with one of the errors and has no effect."""
    owners = [getattr(function, "__self__", None), *(getattr(function, "__defaults__", None) or ())] + args
    before = [canon(look(o)) for o in owners]
    try:
        function(*args)
    except errors:
        pass
    except Exception as exc:
        ch.check(False, f"refused with {type(exc).__name__} ({exc}) instead of {errors[0].__name__}")
    else:
        ch.check(False, "accepted")
    ch.step()
    ch.check([canon(look(o)) for o in owners] == before, "the refused call had an effect")
    ch.check(not list(_folder().iterdir()), "the refused call wrote a file")


def _folder():
    return core._SCRATCH[1] if core._SCRATCH and core._SCRATCH[0] == os.getpid() else scratch()


def accepted(ch):
    """Documented shapes are accepted, whatever the sizes."""
    name = ch.choose("call", list(CALLS))
    n = ch.choose("atoms", [1, 2, 3, 4, 5, 13] if not name.startswith("gnn") else [2, 3, 4, 5])
    m = ch.choose("items", [2, 3, 4, 6, 11])
    if n == 1 and name.startswith("add_"):
        raise core.Skip()  # the inversion centre supplies further amplitudes
    function, args, _ = CALLS[name](n, m)
    function(*args)
    ch.step()
    ch.observe(ch.labels)


def long(ch):
    """Sizes beyond the range of small integers and small files."""
    count = ch.choose("count", [255, 256, 257, 300, 1100])
    what = ch.choose("what", ["paths", "atoms", "modes", "frames", "wrong paths", "wrong atoms"])
    s = structure(2)
    folder = scratch()
    paths = [folder / str(k) for k in range(count)]
    if what == "paths":
        write_displaced_structures(s, z_move(2), np.linspace(-0.2, 0.2, count), paths, "poscar")
        ch.check(len(list(folder.iterdir())) == count, "files")
    elif what == "wrong paths":
        refused(ch, what, write_displaced_structures,
                [s, z_move(2), np.linspace(-0.2, 0.2, count), paths[:-1], "poscar"], (ValueError,))
    elif what == "atoms":
        numbers, positions = ref.p1_species(count), ref.p1_positions(count)
        vasp_io.poscar.write_structure(LATTICE, numbers, positions, paths[0])
        ch.check(ref.close(vasp_io.poscar.read_positions(paths[0]), positions, 1e-6, 1e-6), "positions")
        PolarizabilityDataset(LATTICE, numbers, positions[None], np.eye(3)[None])
    elif what == "wrong atoms":
        numbers, positions = ref.p1_species(count), ref.p1_positions(count + 1)
        refused(ch, what, vasp_io.poscar.write_structure, [LATTICE, numbers, positions, paths[0]], (ValueError,))
        refused(ch, what, PolarizabilityDataset, [LATTICE, numbers, positions[None], np.eye(3)[None]], (ValueError,))
    elif what == "modes":
        p = Phonons(ref.p1_positions(2), np.arange(count) + 1.0, F((count, 2, 3), 0, 0.02))
        ch.check(len(p.get_raman_spectrum(model(2)).raman_tensors) == count, "modes")
        refused(ch, what, Phonons, [ref.p1_positions(2), np.arange(count - 1) + 1.0, F((count, 2, 3))], (ValueError,))
    else:
        t = Trajectory(F((count, 2, 3)), 1.0)
        ch.check(len(t.get_raman_spectrum(model(2)).polarizability_ts) == count, "frames")
    ch.step()
    ch.observe(ch.labels)


def types(ch):
    name = ch.choose("call", list(CALLS))
    function, args, kinds = CALLS[name](2, 2)
    at = ch.choose("argument", list(kinds))
    kind = kinds[at]
    bads = {"none": None, "number": 3, "text": "x", "float": 1.5, "dict": {}, "object": object()}
    if kind in ("array", "tensor"):
        bads["list"] = args[at].tolist()
        bads["tuple"] = tuple(args[at].tolist())
    elif kind == "list":
        bads["tuple"] = tuple(args[at])
        if isinstance(args[at][0], int):
            bads["array"] = np.array(args[at])
    else:
        bads = {"none": None, "number": 3}
    if (name, at) == ("convolve_out", 4):
        del bads["none"]
    how = ch.choose("wrong", list(bads))
    args[at] = bads[how]
    loose = how in ("number", "float", "text")  # also arrays of no dimension
    refused(ch, name, function, args, (TypeError, ValueError) if loose else (TypeError,))
    ch.observe(ch.labels)


# name: function of the number of items to give where none belong
EMPTY = {
    "mask": lambda m: (lambda v, x=InterpolationModel(structure(2), np.eye(3)): set_mask(x, v), [np.zeros(m, bool)]),
    "art_mask": lambda m: (lambda v, x=ARTModel(structure(2), np.eye(3)): set_mask(x, v), [np.ones(m, bool)]),
    "dummy_mask": lambda m: (lambda v, x=ARTModel(structure(2), np.eye(3), True): set_mask(x, v), [np.ones(m, bool)]),
    "phonons": lambda m: (Phonons, [ref.p1_positions(2), np.zeros(0), F((m, 2, 3))]),
    "phonon_spectrum": lambda m: (PhononRamanSpectrum, [np.zeros(0), F((m, 3, 3))]),
    "add_dof": lambda m: (model(2).add_dof, [z_move(2), np.zeros(0), ref.sym((m,), 2), 1]),
    "add_art": lambda m: (model(2, ARTModel).add_art, [0, F((3,)), np.zeros(0), ref.sym((m,), 2)]),
    "displaced": lambda m: (write_displaced_structures, [structure(2), F((2, 3)), np.zeros(0), out(m), "poscar"]),
    "ast_displaced": lambda m: (write_ast_displaced_structures, [structure(2), 0, F((3,)), np.zeros(0), out(m), "poscar"]),
    "structure": lambda m: (ReferenceStructure, [[], LATTICE, ref.p1_positions(m)]),
    "poscar": lambda m: (vasp_io.poscar.write_structure, [LATTICE, [], ref.p1_positions(m), out(1)[0]]),
    "xdatcar": lambda m: (vasp_io.xdatcar.write_trajectory, [LATTICE, [], np.array([ref.p1_positions(m)] * 2), out(1)[0]]),
}


def empty(ch):
    """Something is given where nothing belongs."""
    name = ch.choose("call", list(EMPTY))
    m = ch.choose("items", [1, 2, 3])
    function, args = EMPTY[name](m)
    refused(ch, name, function, args, (ValueError,))
    ch.observe(ch.labels)


POSITIONS = {
    "structure": 2, "poscar": 2, "generic_poscar": 2, "xdatcar": 2, "generic_xdatcar": 2,
}


def ranges(ch):
    """Fractional coordinates outside [0,1] are refused wherever structures are created or written, the borders are not."""
    name = ch.choose("call", list(POSITIONS))
    n = ch.choose("atoms", [2, 3, 5])
    m = ch.choose("items", [1, 3])
    function, args, _ = CALLS[name](n, m)
    at = POSITIONS[name]
    x = args[at].copy()
    which = ch.choose("coordinate", list(range(x.size)))
    value = ch.choose("value", [0.0, 1.0, -1e-9, -0.005, -0.25, -1.0, -7.5, 1 + 1e-9, 1.005, 1.25, 1.75, 2.0, 2.5, 11.0])
    x.reshape(-1)[which] = value
    args[at] = x
    if 0 <= value <= 1:
        function(*args)
        ch.step()
    else:
        refused(ch, name, function, args, (ValueError,))
    ch.observe(ch.labels)


def scenarios(tier):
    return [
        Tree("empty", empty), Tree("ranges", ranges, shard_depth=2),
        Tree("shapes", shapes, shard_depth=3),
        Tree("types", types, shard_depth=2),
        Tree("accepted", accepted, shard_depth=2),
        Tree("long", long, shard_depth=2),
    ]
