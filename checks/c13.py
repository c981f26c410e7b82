"""C13: displaced structures."""

import itertools
import os
from pathlib import Path

import numpy as np

from mc import in_place, ref
from mc.core import Tree, scratch
from ramannoodle.io import generic
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.structure import (
    ReferenceStructure,
    get_ast_displaced_positions,
    get_displaced_positions,
    write_ast_displaced_structures,
    write_displaced_structures,
)

PROPERTY = "C13"
LEVEL = "exploration"
RULE = (
    "one execution per combination of lattice, atoms, direction, magnitude, amplitude list, "
    "function and spelling of paths; non-trivial: all displaced positions compared with the "
    "definition (distinct by positions)"
)
BOUNDS = (
    "10 lattices, 1..13 (many: 130) atoms inside and on the border of the cell, 7 direction families scaled by "
    "1e-3..1e3, 9 amplitude lists and long ones (empty, single, tiny, zero, negative, unsorted, repeated, beyond half "
    "a cell), single-atom displacements of every atom, poscar and xdatcar files, string, Path, "
    "list and single paths; every refused argument with pre-existing and absent files"
)
ASSUMPTIONS = []

AMPS = {
    "pm": [0.05, -0.05], "one": [0.1], "negative": [-0.2], "unsorted": [0.1, -0.3, 0.02, 0.5],
    "zero": [0.0, 0.1], "repeated": [0.1, 0.1, -0.1], "large": [3.7, -11.0, 0.2], "none": [],
    "tiny": [4e-7, -6e-5, 2e-3],
}


def directions(n):
    e = np.eye(3 * n).reshape(3 * n, n, 3)
    out = {"first": e[0], "last": -e[-1], "generic": ref.fill((n, 3), 3), "all_x": np.zeros((n, 3)),
           "integer": np.round(4 * ref.fill((n, 3), 8)).astype(int)}
    out["all_x"][:, 0] = 1
    out["mixed"] = out["all_x"] - 2 * e[-1] + 0.5 * e[n]
    out["diagonal"] = np.ones((n, 3))
    return out


def setting(ch):
    lattice = ref.LATTICES[ch.choose("lattice", list(ref.LATTICES))]
    n = ch.choose("atoms", [1, 2, 5, 13])
    where = ch.choose("where", ["inside", "border"])
    positions = ref.p1_positions(n)
    if where == "border":
        positions = ref.wrap(positions - positions[0])
        positions[0] = [0.0, 1.0, 0.999999]
    return ReferenceStructure(ref.p1_species(n), lattice, positions), lattice, positions, n


def judge(ch, got, positions, lattice, u, amps):
    unit = np.array(u, float) / np.linalg.norm(u)
    ch.check(isinstance(got, list) and len(got) == len(amps), "number of structures")
    for amp, p in zip(amps, got):
        want = positions + unit * amp @ np.linalg.inv(lattice)
        ch.check(p.shape == positions.shape, "shape")
        ch.check(ref.congruent(p, want, 1e-9), f"amplitude {amp}: wrong positions")
        ch.check(bool((p >= 0).all() and (p <= 1).all()), "positions outside the cell")
        if np.abs(unit * amp @ np.linalg.inv(lattice)).max() < 0.49:
            cart = ref.min_image(p - positions) @ lattice
            ch.check(np.abs(cart - unit * amp).max() < 1e-8, "displacement")
    ch.observe(got)


def displaced(ch):
    structure, lattice, positions, n = setting(ch)
    options = directions(n)
    u = options[ch.choose("direction", list(options))]
    if not np.any(u):
        u = u + 1
    scale = ch.choose("magnitude", [1, 1e-3, 1e3])
    amps = np.array(AMPS[ch.choose("amplitudes", list(AMPS))])
    given = u * scale
    keep = given.copy(), amps.copy()
    for _ in range(2):
        got = get_displaced_positions(structure, given, amps)
        ch.step()
        judge(ch, got, positions, lattice, u, amps)
    ch.check(np.array_equal(given, keep[0]) and np.array_equal(amps, keep[1]), "arguments modified")
    for p in got:
        p[:] = 7
    ch.check(np.array_equal(structure.positions, positions), "structure modified")


def single(ch):
    structure, lattice, positions, n = setting(ch)
    atom = ch.choose("atom", sorted({0, n // 2, n - 1}))
    d = ch.choose("direction", {"x": np.array([1.0, 0, 0]), "y": np.array([0, -7.0, 0]),
                                "generic": np.array([0.3, -0.5, 0.2]), "int": np.array([1, 2, -2]),
                                "tiny": np.array([0, 0, 1e-4])})
    amps = np.array(AMPS[ch.choose("amplitudes", list(AMPS))])
    keep = d.copy()
    got = get_ast_displaced_positions(structure, atom, d, amps)
    ch.step()
    u = np.zeros((n, 3))
    u[atom] = d
    judge(ch, got, positions, lattice, u, amps)
    for p in got:
        others = [k for k in range(n) if k != atom]
        ch.check(np.abs(ref.min_image(p - positions)[others]).max(initial=0) < 1e-12, "another atom moved")
    ch.check(np.array_equal(d, keep), "direction modified")


def many(ch):
    """More atoms and amplitudes than in small cells."""
    n = ch.choose("atoms", [1, 40, 130])
    count = ch.choose("amplitudes", [99, 100, 101, 128, 129, 257, 1001] if n == 1 else [3, 101])
    lattice = ref.LATTICES["general"] * max(1, n // 10)
    positions = ref.p1_positions(n)
    structure = ReferenceStructure(ref.p1_species(n), lattice, positions)
    amps = 0.3 * ref.fill((count,), 3)
    kind = ch.choose("kind", ["all", "atom"])
    if kind == "all":
        u = ref.fill((n, 3), 3)
        got = get_displaced_positions(structure, u, amps)
    else:
        u = np.zeros((n, 3))
        u[n - 1] = [0.3, 0.1, -0.2]
        got = get_ast_displaced_positions(structure, n - 1, u[n - 1], amps)
    ch.step()
    judge(ch, got, positions, lattice, u, amps)


def files(ch):
    """Written structures hold the displaced positions and give back the amplitudes."""
    structure, lattice, positions, n = setting(ch)
    kind = ch.choose("kind", ["displacement", "atom"])
    file_format = ch.choose("format", ["poscar", "xdatcar"])
    amps = np.array(AMPS[ch.choose("amplitudes", ["pm", "one", "unsorted", "negative"])])
    spelling = ch.choose("paths", ["path", "str"] + (["bare"] if len(amps) == 1 else []))
    folder = scratch()
    paths = [folder / f"{9 - k}_{k}" for k in range(len(amps))]
    given = [str(p) if spelling == "str" else p for p in paths]
    if spelling == "bare":
        given = given[0]
    u = np.zeros((n, 3))
    if kind == "atom":
        u[n - 1] = [0.2, -0.3, 0.4]
        write_ast_displaced_structures(structure, n - 1, u[n - 1], amps, given, file_format)
    else:
        u = directions(n)["generic"]
        write_displaced_structures(structure, u, amps, given, file_format)
    ch.step()
    ch.check(sorted(os.listdir(folder)) == sorted(p.name for p in paths), "files written")
    got = []
    for path in paths:
        read = generic.read_ref_structure(path, file_format)
        ch.check(read.atomic_numbers == structure.atomic_numbers and ref.close(read.lattice, lattice, 1e-9, 1e-9),
                 "structure in file")
        got.append(read.positions)
    judge(ch, got, positions, lattice, u, amps)
    # reading them into a model gives the amplitudes (one atom: inversion symmetry, see C07)
    if n > 1 and (len(amps) == 2 or kind == "displacement"):
        dummy = (ARTModel if kind == "atom" else InterpolationModel)(structure, None, True)
        if kind == "atom":
            dummy.add_art_from_files(given, file_format)
        else:
            dummy.add_dof_from_files(given, file_format, 1)
        first = dummy.cart_basis_vectors[0]
        unit = u / np.linalg.norm(u)
        ch.check(min(np.abs(first - unit).max(), np.abs(first + unit).max()) < 1e-6, "degree of freedom")


def refused(ch):
    """Invalid requests are refused before any file is written or changed."""
    n = ch.choose("atoms", [1, 3])
    structure = ReferenceStructure(ref.p1_species(n), ref.LATTICES["general"], ref.p1_positions(n))
    kind = ch.choose("kind", ["displacement", "atom"])
    existing = ch.choose("existing", ["none", "first", "last"])
    overwrite = ch.flag("overwrite")
    what = ch.choose("what", ["fewer_paths", "more_paths", "bare_path", "no_paths", "shape_1d", "shape_more",
                              "shape_less", "not_array", "amps_2d", "amps_list", "atom_high", "atom_low",
                              "format"])
    folder = scratch()
    paths = [folder / "a", folder / "b", folder / "c"]
    amps, u, d, atom, file_format = np.array([0.1, -0.1, 0.2]), ref.fill((n, 3), 3), np.array([1.0, 0, 0]), 0, "poscar"
    errors = (ValueError, TypeError, IndexError)
    if what == "fewer_paths":
        paths = paths[:2]
    elif what == "more_paths":
        paths = paths + [folder / "d"]
    elif what == "bare_path":
        paths = paths[0]
    elif what == "no_paths":
        paths = []
    elif what == "shape_1d":
        u, d = u.ravel(), d[:, None]
    elif what == "shape_more":
        u, d = np.vstack([u, u[:1]]), np.ones(4)
    elif what == "shape_less":
        u, d = u[:, :2], np.ones(2)
    elif what == "not_array":
        u, d = "xyz", "xyz"
    elif what == "amps_2d":
        amps = amps[None]
    elif what == "amps_list":
        amps = [0.1, -0.1, 0.2]
    elif what == "atom_high":
        atom = n
    elif what == "atom_low":
        atom = -n - 1
    elif what == "format":
        file_format = "outcar"
    if what.startswith("atom") and kind == "displacement":
        return
    content = {}
    for name in {"none": [], "first": ["a"], "last": ["c"]}[existing]:
        (folder / name).write_text("precious")
        content[name] = "precious"
    try:
        if kind == "atom":
            write_ast_displaced_structures(structure, atom, d, amps, paths, file_format, overwrite)
        else:
            write_displaced_structures(structure, u, amps, paths, file_format, overwrite)
    except errors:
        ch.step()
        ch.check({p.name: p.read_text() for p in folder.iterdir()} == content, "files changed or created")
        return ch.observe(what, kind, n)
    ch.check(False, "accepted")


def scenarios(tier):
    return [Tree("displaced", displaced, shard_depth=3), Tree("many", many), Tree("single", single, shard_depth=3),
            Tree("files", files, shard_depth=3), Tree("refused", refused, shard_depth=3),
            in_place.tree("C13", tier)]
