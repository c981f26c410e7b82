"""C07: degrees of freedom specified by arrays, files or pymatgen structures are equivalent."""

import warnings

import numpy as np
import pymatgen.core

from mc import in_place, ref
from mc.core import Tree, scratch
from mc.dofs import RefModel
from ramannoodle.exceptions import InvalidDOFException
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.structure import ReferenceStructure

PROPERTY = "C07"
LEVEL = "exploration"
RULE = (
    "one execution per combination of model kind, crystal, displacement, amplitude list, route "
    "and spelling of the paths, followed by a second degree of freedom from another route; "
    "non-trivial: predictions compared with the reference interpolation (distinct by predictions)"
)
BOUNDS = (
    "7 crystals (1..6 atoms, skewed cells, atoms at cell boundaries), atomic and collective "
    "displacements, 1..4 displaced structures in 7 amplitude lists with optional lattice "
    "translations of the stored positions, orders 1..3, routes {arrays, outcar, vasprun.xml, "
    "pymatgen}, all spellings of paths; every invalid collection in each file position"
)
ASSUMPTIONS = ["files as written by VASP, 14 decimals"]

CRYSTALS = ref.crystals()
CRYSTALS["one"] = (ref.LATTICES["general"], np.array([[0.01, 0.99, 0.4]]), [14])
CRYSTALS["six"] = (ref.LATTICES["general"], ref.wrap(ref.p1_positions(6) - 0.08), ref.p1_species(6))
NAMES = ["one", "six", "pbar1", "tet", "perov", "hollow", "p41"]
AMPS = {
    "pm": [0.05, -0.05], "mp": [-0.1, 0.1], "one": [0.08], "minus": [-0.08],
    "three": [0.1, -0.04, -0.2], "three_pos": [0.1, 0.02, 0.3], "four": [-0.05, 0.1, 0.3, -0.2],
}


def displacements(n):
    e = np.eye(3 * n).reshape(3 * n, n, 3)
    out = {"x0": e[0] * 2.0, "z_last": -e[3 * n - 1] * 0.2}
    if n > 1:
        out["collective"] = ref.fill((n, 3), 31)
    else:
        out["oblique"] = e[0] * 0.3 - e[1] + 0.5 * e[2]
    return out


def write(route, index, lattice, numbers, positions, polarizability):
    path = scratch_dir / f"{index}.{route}"
    if route == "outcar":
        text = ref.outcar(lattice, numbers, positions, polarizability)
    elif route == "vasprun.xml":
        text = ref.vasprun(lattice, numbers, positions, polarizability)
    elif route == "poscar":
        text = ref.poscar(lattice, numbers, positions)
    else:
        text = ref.xdatcar(lattice, numbers, [positions])
    path.write_text(text)
    return path


scratch_dir = None


def add(model, art, route, spelling, structures, pols, order, world):
    """Specify a degree of freedom by a route (structures: fractional positions)."""
    lattice, positions, numbers = world
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if route == "pymatgen":
            given = [pymatgen.core.Structure(lattice, ref.symbols_of(numbers), p) for p in structures]
            if art:
                model.add_art_from_pymatgen(given, pols)
            else:
                model.add_dof_from_pymatgen(given, pols, order)
        else:
            paths = [write(route, i, lattice, numbers, p, a)
                     for i, (p, a) in enumerate(zip(structures, pols))]
            if spelling == "str":
                paths = [str(p) for p in paths]
            if spelling == "bare":
                paths = paths[0]
            if art:
                model.add_art_from_files(paths, route)
            else:
                model.add_dof_from_files(paths, route, order)


def equivalence(ch):
    global scratch_dir
    kind = ch.choose("kind", ["interp", "art"])
    art = kind == "art"
    name = ch.choose("crystal", NAMES)
    lattice, positions, numbers = world = CRYSTALS[name]
    n = len(numbers)
    cls = ARTModel if art else InterpolationModel
    ref_pol = ref.sym((), 3, 7.0)
    structure = ReferenceStructure(list(numbers), lattice, positions)
    ops = ref.operations(lattice, positions, numbers)
    options = displacements(n)
    if art:
        options = {k: v for k, v in options.items() if np.count_nonzero(np.abs(v).sum(1)) == 1}
    if name in ("tet", "perov", "pbar1", "hollow", "p41"):
        options.pop("collective", None)
    u = options[ch.choose("displacement", list(options))]
    unit = u / np.linalg.norm(u)
    amps = AMPS[ch.choose("amplitudes", [a for a in AMPS if not art or len(AMPS[a]) <= 2])]
    order = 1 if art else ch.choose("order", [1, 2, 3])
    response = ref.symmetric_response(lattice, ops, n, 5)
    pols = np.array([ref_pol + ref.respond(response, unit * a) for a in amps])
    if len(ops) == 1:
        pols += ref.sym((len(amps),), 9, 0.5)
    model = RefModel(lattice, positions, numbers, ref_pol, ops)
    expected = None
    try:
        new = model.prepare(u, amps, pols, order, not art)
    except Exception as exc:  # Rejected
        expected = exc
    route = ch.choose("route", ["arrays", "outcar", "vasprun.xml", "pymatgen"])
    spelling, shift = "list", 0
    if route in ("outcar", "vasprun.xml"):
        spelling = ch.choose("paths", ["list", "str"] + (["bare"] if len(amps) == 1 else []))
    if route != "arrays":
        shift = ch.choose("cells", [0, 1])
    inv = np.linalg.inv(lattice)
    structures = [positions + (unit * a) @ inv for a in amps]
    if route in ("vasprun.xml", "outcar"):
        structures = [ref.wrap(p) for p in structures]
    if shift:
        structures = [p + np.array([k % 2, -k, 1]) for k, p in enumerate(structures)]
    real = cls(structure, ref_pol.copy())
    scratch_dir = scratch()
    before = [p.copy() for p in structures]
    given = pols.copy()
    ch.step()
    try:
        if route == "arrays":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if art:
                    atom = int(np.argmax(np.abs(u).sum(1)))
                    real.add_art(atom, u[atom].copy(), np.array(amps), given)
                else:
                    real.add_dof(u.copy(), np.array(amps), given, order)
        else:
            add(real, art, route, spelling, structures, given, order, world)
    except InvalidDOFException as exc:
        ch.check(expected is not None, f"valid data rejected: {exc}")
        ch.check(len(real.cart_basis_vectors) == 0, "rejected data changed the model")
        return ch.observe(str(type(exc)))
    ch.check(expected is None, f"accepted, but must be rejected: {expected}")
    ch.check(all(np.array_equal(a, b) for a, b in zip(before, structures))
             and np.array_equal(given, pols), "arguments modified")
    error = model.adopt(new, real.cart_basis_vectors)
    ch.check(error is None, error)
    probes = model.probes()
    ch.check(ref.close(real.calc_polarizabilities(probes), model.predict(probes), 1e-6, 1e-6),
             "prediction differs from the reference interpolation")
    # a second degree of freedom through another route
    for v in np.eye(3 * n).reshape(3 * n, n, 3)[::-1]:
        try:
            data = np.array([ref_pol + ref.respond(response, v * a) for a in (0.06, -0.06)])
            extra = model.prepare(v, [0.06, -0.06], data, 1, not art)
            used = [0.06, -0.06]
            break
        except Exception as exc:
            if "duplicate" in str(exc):
                try:
                    extra = model.prepare(v, [0.06], data[:1], 1, not art)
                    used, data = [0.06], data[:1]
                    break
                except Exception:  # not orthogonal
                    pass
    else:
        return ch.observe(real.calc_polarizabilities(probes))
    other = {"arrays": "outcar", "outcar": "pymatgen", "pymatgen": "vasprun.xml",
             "vasprun.xml": "outcar"}[route]
    scratch_dir = scratch()
    add(real, art, other, "list", [positions + (v * a) @ inv for a in used], data, 1, world)
    ch.step()
    error = model.adopt(extra, real.cart_basis_vectors[len(model.basis):])
    ch.check(error is None, error)
    probes = model.probes()
    got = real.calc_polarizabilities(probes)
    ch.check(ref.close(got, model.predict(probes), 1e-6, 1e-6),
             "prediction differs after a second degree of freedom")
    ch.observe(got)


def invalid(ch):
    """Collections which do not define one degree of freedom are rejected without effect."""
    global scratch_dir
    kind = ch.choose("kind", ["interp", "art"])
    art = kind == "art"
    name = ch.choose("crystal", ["six", "pbar1"])
    lattice, positions, numbers = world = CRYSTALS[name]
    n = len(numbers)
    ref_pol = ref.sym((), 3, 7.0)
    real = (ARTModel if art else InterpolationModel)(
        ReferenceStructure(list(numbers), lattice, positions), ref_pol)
    model = RefModel(lattice, positions, numbers, ref_pol)
    route = ch.choose("route", ["outcar", "vasprun.xml", "pymatgen"])
    inv = np.linalg.inv(lattice)
    e = np.eye(3 * n).reshape(3 * n, n, 3)
    if ch.flag("with_previous"):
        scratch_dir = scratch()
        data = np.array([ref_pol + ref.sym((), 4), ref_pol - ref.sym((), 4)])
        amps = [0.05, -0.05]
        add(real, art, route, "list", [positions + (e[-1] * a) @ inv for a in amps], data, 1, world)
    vectors = real.cart_basis_vectors
    probes = model.probes()
    got = real.calc_polarizabilities(probes)
    count = ch.choose("structures", [2, 3])
    where = ch.choose("odd_one", list(range(count)))
    reason = ch.choose("reason", ["slanted", "fewer_atoms", "more_atoms"]
                       + (["two_atoms"] if art else []))
    structures, pols = [], np.array([ref_pol + ref.sym((), k) for k in range(count)])
    worlds = [world] * count
    for k in range(count):
        p = positions + (e[0] * 0.05 * (-1) ** k * (1 + k // 2)) @ inv
        if reason == "two_atoms":
            p = positions + ((e[0] + 0.5 * e[3]) * 0.05 * (-1) ** k * (1 + k // 2)) @ inv
        elif k == where and reason == "slanted":
            p = positions + (e[0] * 0.05 + e[4] * 0.02) @ inv
        structures.append(p)
    if reason == "fewer_atoms":
        worlds[where] = (lattice, positions[:-1], numbers[:-1])
        structures[where] = structures[where][:-1]
    if reason == "more_atoms":
        worlds[where] = (lattice, None, list(numbers) + [numbers[-1]])
        structures[where] = np.vstack([structures[where], [[0.123, 0.7, 0.9]]])
    scratch_dir = scratch()
    raised = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if route == "pymatgen":
                given = [pymatgen.core.Structure(w[0], ref.symbols_of(w[2]), p)
                         for w, p in zip(worlds, structures)]
                if art:
                    real.add_art_from_pymatgen(given, pols)
                else:
                    real.add_dof_from_pymatgen(given, pols, 1)
            else:
                paths = [write(route, i, w[0], w[2], p, a)
                         for i, (w, p, a) in enumerate(zip(worlds, structures, pols))]
                if art:
                    real.add_art_from_files(paths, route)
                else:
                    real.add_dof_from_files(paths, route, 1)
    except InvalidDOFException as exc:
        raised = exc
    ch.step()
    ch.check(raised is not None, f"accepted ({reason})")
    ch.check(len(real.cart_basis_vectors) == len(vectors)
             and len(real.mask) == len(vectors)
             and np.array_equal(real.calc_polarizabilities(probes), got),
             "rejected data changed the model")
    ch.observe(reason, str(raised)[:20])


def scenarios(tier):
    return [Tree("equivalence", equivalence, shard_depth=5), Tree("invalid", invalid, shard_depth=4),
            in_place.tree("C07", tier)]
