"""C17: equivalent files describe the same physics in every format and spelling."""

import math

import numpy as np

import ramannoodle.io.vasp as vasp_io
from mc import ref
from mc.core import Skip, Tree, scratch
from ramannoodle.io import generic

PROPERTY = "C17"
LEVEL = "exploration"
RULE = (
    "one execution per combination of physical contents and file spelling; non-trivial: all data read by all readers "
    "compared with the physical contents (distinct by data read)"
)
BOUNDS = (
    "10 lattices, 1..60 atoms (120 in trajectories), 1..8 species, positions inside, on the border or outside the cell; "
    "OUTCAR (3 POTCAR styles, 4 kinds of titles, symmetry and per-step lattice blocks) and vasprun.xml; POSCAR with 6 scales "
    "(2 as volume), 10 coordinate modes, 4 selective-dynamics spellings, 3 kinds of trailing columns, 4 tails, 4 number formats; "
    "XDATCAR with 3 scales and 5 label styles; mode sets with real, imaginary, mixed, degenerate, minute and zero frequencies; "
    "1..101 steps and 5 timesteps"
)
ASSUMPTIONS = [
    "POTCAR titles end with a date, as those of all PAW potentials do",
    "OUTCAR frequencies are printed with the precision given in the file"]

STYLES = ["repeat", "vrhfin", "once"]


def species(n, kind):
    if kind == "single":
        return [14] * n
    if kind == "grouped":
        return ref.p1_species(n)
    z = ref.SPECIES[: min(n, 8)]
    return z[:-1] + [z[-1]] * (n - len(z) + 1)


def place(n, where, tag=0):
    p = ref.p1_positions(n, tag)
    if where == "outside":
        p = p + np.round(ref.fill((n, 3), tag, 3.0))
    elif where == "border":
        p[0] = [0.0, 1.0, 0.0]
        p[-1, 2] = 0.0
    return p


TIER = "quick"


def static(ch):
    lattice = ref.LATTICES[ch.choose("lattice", list(ref.LATTICES))]
    n = ch.choose("atoms", [1, 2, 3, 8, 30])
    numbers = species(n, ch.choose("species", ["grouped", "single", "many"]))
    where = ch.choose("where", ["inside", "border", "outside"])
    positions = place(n, where)
    tensor = ch.choose("tensor", {"generic": ref.sym((), 3, 40.0), "asymmetric": ref.fill((3, 3), 4, 7.0),
                                  "large": ref.sym((), 5, 1e4), "integers": np.diag([1.0, 2, 3])})
    fmt = ch.choose("format", ["outcar", "vasprun.xml"])
    folder = scratch()
    path = folder / "file"
    if fmt == "outcar":
        style = ch.choose("style", STYLES)
        potential = ch.choose("potential", [0, 1, 2, 4] if n == 3 else [1])
        block = ch.choose("symmetry_block", [False, True] if n in (1, 3) else [True])
        text = ref.outcar(lattice, numbers, positions, tensor, potcar_style=style, potential=potential,
                          symmetry_block=block)
        module = vasp_io.outcar
    else:
        text = ref.vasprun(lattice, numbers, positions, tensor, final=place(n, "inside", 5))
        module = vasp_io.vasprun
    path.write_text(text)
    ch.step()
    got = [module.read_positions(path), generic.read_positions(str(path), fmt)]
    pairs = [module.read_positions_and_polarizability(path), generic.read_positions_and_polarizability(path, fmt)]
    fulls = [module.read_structure_and_polarizability(str(path)), generic.read_structure_and_polarizability(path, fmt)]
    got += [p for p, _ in pairs] + [f[2] for f in fulls]
    if where != "outside" and n <= 8:
        for s in (module.read_ref_structure(path), generic.read_ref_structure(path, fmt)):
            got.append(s.positions)
            ch.check(s.atomic_numbers == numbers, "atomic numbers of reference structure")
            ch.check(ref.close(s.lattice, lattice, 0, 1e-9), "lattice of reference structure")
    for p in got:
        ch.check(ref.congruent(p, positions, 1e-9), "positions")
        ch.check(where == "outside" or ref.close(p, positions, 0, 1e-9), "positions")
    for tensor_read in [t for _, t in pairs] + [f[3] for f in fulls]:
        ch.check(ref.close(tensor_read, tensor, 0, 1e-9), "polarizability")
    for f in fulls:
        ch.check(ref.close(f[0], lattice, 0, 1e-9) and list(f[1]) == numbers, "lattice or atomic numbers")
    ch.observe(fmt, got[0], pairs[0][1], fulls[0][0], fulls[0][1])


MODES = ["Direct", "direct", "D", "d lattice", "Cartesian", "cartesian", "C", "c", "K", "kartesian"]


def poscars(ch):
    lattice = ref.LATTICES[ch.choose("lattice", ["general", "lefthanded"] if TIER == "quick" else list(ref.LATTICES))]
    n = ch.choose("atoms", [3, 1] if TIER == "quick" else [1, 3, 12])
    scale = ch.choose("scale", [1.0, 2.5, 0.031, 100.0, -1.0, -2.0])
    mode = ch.choose("mode", MODES)
    selective = ch.choose("selective", [None, "Selective dynamics", "selective", "S"])
    trailing = ch.choose("columns", ["", " T F T", "  Ti 7 # x"])
    tail = ch.choose("tail", ["", "\n 0.1 0.2 0.3\n", "\nDirect\n 0.5 0.5 0.5\n 0 0 0\n"])
    fmt = ch.choose("numbers", ["%22.16f", "%.15e", "%+.17g"] if n == 3 and not tail else ["%22.16f"])
    comment = ch.choose("comment", ["comment", "", "2.0", "  Direct"] if n == 1 else ["comment"])
    numbers, positions = species(n, "grouped"), place(n, "inside")
    text = ref.poscar(lattice, numbers, positions, scale, mode, selective, comment, trailing, fmt, tail)
    folder = scratch()
    path = folder / "POSCAR"
    path.write_text(text)
    ch.step()
    for p in (vasp_io.poscar.read_positions(path), generic.read_positions(str(path), "poscar"),
              generic.read_positions(path, "xdatcar")):
        ch.check(ref.close(p, positions, 0, 1e-8), "positions")
    if n < 10:
        s = vasp_io.poscar.read_ref_structure(path)
        ch.check(s.atomic_numbers == numbers and ref.close(s.positions, positions, 0, 1e-8), "reference structure")
        ch.check(ref.close(s.lattice, lattice, 1e-9, 1e-9), "lattice")
    ch.observe(p)


def repeated_species(ch):
    """Species listed in several groups."""
    order = ch.choose("species", [[8, 22, 8], [22, 22, 8, 22], [1, 8, 1, 8, 1, 8, 1], [6, 6, 6, 6]])
    fmt = ch.choose("format", ["poscar", "xdatcar", "outcar", "vasprun.xml"])
    style = ch.choose("style", STYLES if fmt == "outcar" else ["-"])
    if style == "once" and order[0] == order[-1]:
        raise Skip()  # such a listing looks like one with the first title repeated
    n = len(order)
    positions, lattice = place(n, "inside"), ref.LATTICES["general"]
    path = scratch() / "file"
    if fmt == "poscar":
        path.write_text(ref.poscar(lattice, order, positions))
    elif fmt == "xdatcar":
        path.write_text(ref.xdatcar(lattice, order, [positions]))
    elif fmt == "outcar":
        path.write_text(ref.outcar(lattice, order, positions, np.eye(3), potcar_style=style))
    else:
        path.write_text(ref.vasprun(lattice, order, positions, np.eye(3)))
    ch.step()
    s = generic.read_ref_structure(path, fmt)
    ch.check(s.atomic_numbers == order, f"atomic numbers {s.atomic_numbers}")
    ch.check(ref.close(s.positions, positions, 0, 1e-9), "positions")
    ch.observe(fmt, style, order)


def spectrum(kind, count):
    base = {"real": lambda k: 17.5 + 31.0 * k, "imaginary": lambda k: -12.25 - 7.0 * k,
            "mixed": lambda k: (-1) ** k * (5.0 + 111.125 * k), "degenerate": lambda k: 300.0 - (k // 3),
            "acoustic": lambda k: [0.0, 0.05, -0.02][k] if k < 3 else 40.0 * k,
            "faint": lambda k: (-1) ** (k + 1) * (k + 1) * 4e-4,
            "high": lambda k: 1234.5 + 222.0 * k}[kind]
    return [base(k) for k in range(count)]


def phonons(ch):
    lattice = ref.LATTICES[ch.choose("lattice", ["general", "lefthanded", "hex", "cubic"])]
    n = ch.choose("atoms", [1, 2, 3, 5, 12])
    numbers = species(n, ch.choose("species", ["grouped", "single", "many"]))
    kind = ch.choose("modes", ["real", "imaginary", "mixed", "degenerate", "acoustic", "faint", "high"])
    fmt = ch.choose("format", ["outcar", "vasprun.xml"])
    style = ch.choose("style", STYLES if fmt == "outcar" and n == 3 else ["repeat"])
    modes = [(nu, ref.fill((n, 3), k) / math.sqrt(n)) for k, nu in enumerate(spectrum(kind, 3 * n))]
    positions = place(n, "inside")
    path = scratch() / "file"
    if fmt == "outcar":
        path.write_text(ref.outcar(lattice, numbers, positions, np.eye(3), modes, potcar_style=style))
        module = vasp_io.outcar
    else:
        path.write_text(ref.vasprun(lattice, numbers, positions, np.eye(3), modes))
        module = vasp_io.vasprun
    ch.step()
    masses = np.array([ref.WEIGHTS[s] for s in ref.symbols_of(numbers)])
    want = np.array([v / np.sqrt(masses)[:, None] @ np.linalg.inv(lattice) for _, v in modes])
    for p in (module.read_phonons(path), generic.read_phonons(str(path), fmt)):
        ch.check(ref.close(p.wavenumbers, np.array([nu for nu, _ in modes]), 1e-6, 2e-5),
                 lambda: f"wavenumbers {p.wavenumbers}")
        ch.check(ref.close(p.ref_positions, positions, 0, 1e-9), "reference positions")
        ch.check(ref.close(np.asarray(p.displacements), want, 3e-4, 1e-9), "displacements")
    ch.observe(fmt, p.wavenumbers, p.displacements)


LABELS = [None, "Direct configuration=%d", "Direct", "direct configuration= %6d", "D"]


def trajectories(ch):
    lattice = ref.LATTICES[ch.choose("lattice", ["general", "lefthanded", "hex", "cubic"])]
    n = ch.choose("atoms", [1, 2, 7, 60])
    steps = ch.choose("steps", [1, 2, 5, 13, 101])
    if steps * n > 700:
        raise Skip()
    where = ch.choose("where", ["inside", "border", "outside"])
    timestep = ch.choose("timestep", [0.5, 1.0, 2.25, 10.0, 0.01])
    fmt = ch.choose("format", ["outcar", "vasprun.xml", "xdatcar"])
    numbers = species(n, "grouped")
    ts = np.array([place(n, where, s) for s in range(steps)])
    path = scratch() / "file"
    if fmt == "outcar":
        extra = ch.choose("extra", [False, True])
        text = ref.outcar(lattice, numbers, ts[0], None, frames=[p @ lattice for p in ts], timestep=timestep,
                          extra=extra, symmetry_block=extra)
        read = vasp_io.outcar.read_trajectory, lambda p: generic.read_trajectory(str(p), fmt)
    elif fmt == "vasprun.xml":
        text = ref.vasprun(lattice, numbers, ts[-1], None, frames=list(ts), timestep=timestep)
        read = vasp_io.vasprun.read_trajectory, lambda p: generic.read_trajectory(str(p), fmt)
    else:
        label = ch.choose("label", LABELS if n < 7 else [None])
        scale = ch.choose("scale", [1.0, 3.0, -1.0])
        text = ref.xdatcar(lattice, numbers, ts, scale, label=label)
        read = [lambda p: vasp_io.xdatcar.read_trajectory(p, timestep)]
        path.write_text(text)
        ch.check(ref.close(vasp_io.xdatcar.read_positions_ts(path), ts, 0, 1e-9), "read_positions_ts")
    path.write_text(text)
    ch.step()
    for function in read:
        t = function(path)
        ch.check(t.timestep == timestep, f"timestep {t.timestep}")
        ch.check(len(t) == steps and ref.congruent(t.positions_ts, ts, 1e-9), "configurations")
    ch.observe(fmt, t.positions_ts, timestep)


def scenarios(tier):
    global TIER
    TIER = tier
    return [Tree("static", static, shard_depth=6), Tree("poscars", poscars, shard_depth=6),
            Tree("repeated_species", repeated_species, procs=1), Tree("phonons", phonons, shard_depth=5),
            Tree("trajectories", trajectories, shard_depth=5)]
