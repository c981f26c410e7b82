"""C14: write/read round trips of POSCAR and XDATCAR files."""

import itertools
from pathlib import Path

import numpy as np

import ramannoodle.io.vasp as vasp_io
from mc import in_place, ref
from mc.core import Graph, Skip, Tree, Violation, scratch
from ramannoodle.io import generic

PROPERTY = "C14"
LEVEL = "model_checking"
RULE = ""
BOUNDS = (
    "10 lattices (also scaled by 1e-2 and 40), 1..200 atoms (up to 10001 in pairs of groups of every number of digits; species of up to 6 (thorough: 7) atoms in every order), 1..118 species, 5 "
    "position families (border values, tiny numbers, exact fractions), 1..1100 configurations, 16 labels, "
    "4 writers, every reader, str and Path; all histories of up to 4 writes (new or overwriting, "
    "longer or shorter contents) on two paths; 14 invalid structures on absent and existing files"
)
ASSUMPTIONS = ["positions within [0,1] and grouped species, as the writers require"]
TOL = 1e-10

LABELS = {
    "default": None, "plain": "a label", "empty": "", "spaces": "   ", "number": "17 0.5", "direct": "Direct",
    "unicode": "Größe αβγ 水", "quotes": "it's \"quoted\"", "backslash": "a\\b\\n", "newline": "one\ntwo\n\nthree",
    "tab": "a\tb", "return": "a\r\nb", "separators": "a\u2028b\x0bc\x0cd\x85e", "long": "x" * 5000,
    "percent": "%s {0} %d", "hash": "# ! comment",
}
PLAIN = ("plain", "empty", "number", "direct", "long", "percent", "hash", "unicode")


def species(n, kind):
    if kind == "grouped":
        return ref.p1_species(n)
    if kind == "single":
        return [14] * n
    # as many species as possible, of one atom each, the rest in the last group
    z = [1, 92, 6, 17, 53, 3, 8, 26][: min(n, 8)]
    return z[:-1] + [z[-1]] * (n - len(z) + 1)


def place(n, kind, tag=0):
    p = ref.p1_positions(n, tag)
    if kind == "border":
        p = ref.wrap(p - p[0])
        p[-1] = [1.0, 0.0, 0.5] if n > 1 else [1.0, 0.0, 1.0]
    elif kind == "tiny":
        p[0] = [1e-9, 1e-17, 5e-324]
    elif kind == "near_one":
        p[0] = [1 - 1e-9, 1 - 1.2e-16, 0.9999999]
    elif kind == "eighths":
        p = np.round(p * 64) / 64
    return p


def same(ch_or_none, condition, message):
    if ch_or_none is None:
        if not condition:
            raise Violation(message)
    else:
        ch_or_none.check(condition, message)


def verify(ch, path, lattice, numbers, positions_ts, is_xdatcar, label=None, structure=True):
    """Read through every reader accepting the file and compare."""
    first = np.asarray(positions_ts[0], float)
    for route in (path, str(path)):
        got = vasp_io.poscar.read_positions(route)
        same(ch, ref.close(got, first, 0, TOL), "poscar.read_positions")
    for fmt in ("poscar", "xdatcar"):
        got = generic.read_positions(path, fmt)
        same(ch, ref.close(got, first, 0, TOL), f"generic.read_positions({fmt})")
    if structure:
        for read in (vasp_io.poscar.read_ref_structure, lambda p: generic.read_ref_structure(str(p), "xdatcar")):
            got = read(path)
            same(ch, got.atomic_numbers == list(numbers), "atomic numbers")
            same(ch, ref.close(got.lattice, lattice, 1e-13, TOL), "lattice")
            same(ch, ref.close(got.positions, first, 0, TOL), "positions of reference structure")
    # neither structures nor trajectories lose configurations (a POSCAR is a one-step XDATCAR)
    got = vasp_io.xdatcar.read_positions_ts(path)
    same(ch, ref.close(got, np.asarray(positions_ts, float), 0, TOL), "xdatcar.read_positions_ts")
    trajectory = vasp_io.xdatcar.read_trajectory(str(path), 0.75)
    same(ch, trajectory.timestep == 0.75, "timestep")
    same(ch, ref.congruent(trajectory.positions_ts, np.asarray(positions_ts, float), TOL), "trajectory")
    if label is not None:
        line = path.read_text(encoding="utf-8").split("\n")[0]
        same(ch, line == label, f"label {line!r}")


def write(how, lattice, numbers, positions, path, overwrite, label):
    extra = {} if label is None else {"label": label}
    if how == "poscar":
        vasp_io.poscar.write_structure(lattice, numbers, positions, path, overwrite, **extra)
    elif how == "generic_poscar":
        generic.write_structure(lattice, numbers, positions, path, "poscar", overwrite)
    elif how == "generic_xdatcar":
        generic.write_structure(lattice, numbers, positions, path, "xdatcar", overwrite)
    elif how == "xdatcar":
        vasp_io.xdatcar.write_trajectory(lattice, numbers, positions, path, overwrite, **extra)
    elif how == "generic_trajectory":
        generic.write_trajectory(lattice, numbers, positions, path, "xdatcar", overwrite)


def structures(ch):
    lattice = ref.LATTICES[ch.choose("lattice", list(ref.LATTICES))] * ch.choose("scale", [1, 0.01, 40])
    n = ch.choose("atoms", [1, 2, 7, 30])
    kind = ch.choose("species", ["grouped", "single", "many"])
    where = ch.choose("positions", ["inside", "border", "tiny", "near_one", "eighths"])
    how = ch.choose("writer", ["poscar", "generic_poscar", "generic_xdatcar"])
    roundtrip(ch, lattice, n, kind, where, how, 1, None, "default")


def sizes(ch):
    n = ch.choose("atoms", [3, 100, 120, 200])
    how = ch.choose("writer", ["poscar", "xdatcar", "generic_trajectory"])
    kind = ch.choose("species", ["grouped", "single", "many"])
    roundtrip(ch, ref.LATTICES["general"] * 4, n, kind, "inside", how, 1 if how == "poscar" else 3, None, "default")


def groups(ch):
    """Every number of digits of the ion counts, and up to 118 species."""
    how = ch.choose("writer", ["poscar", "xdatcar"])
    counts = ch.choose("counts", [list(c) for c in itertools.product([1, 9, 10, 99, 100, 999, 1000], repeat=2)]
                       + [[1, 10000], [10000, 1], [2, 1, 1000], [1000, 1, 2], [100, 1000, 10]]
                       + [[1] * k for k in (9, 20, 60, 118)] + [[1, 2, 3] * 39, [100, 9] * 5])
    numbers = [z % 118 + 1 for z, k in zip(range(7, 700, 5), counts) for _ in range(k)]
    roundtrip(ch, ref.LATTICES["general"] * 8, len(numbers), numbers, "inside", how, 2, None, "default")


def trajectories(ch):
    lattice = ref.LATTICES[ch.choose("lattice", ["general", "lefthanded", "hex"])]
    n = ch.choose("atoms", [1, 2, 3, 7])
    steps = ch.choose("steps", [1, 2, 3, 9, 12, 101, 1100])
    where = ch.choose("positions", ["inside", "border", "tiny", "near_one", "eighths"])
    how = ch.choose("writer", ["xdatcar", "generic_trajectory"])
    if steps > 100 and n > 2:
        raise Skip()
    roundtrip(ch, lattice, n, "grouped", where, how, steps, None, "default")


def labels(ch):
    name = ch.choose("label", list(LABELS))
    n = ch.choose("atoms", [1, 3])
    how = ch.choose("writer", ["poscar", "xdatcar"])
    roundtrip(ch, ref.LATTICES["mono"], n, "grouped", "inside", how, 2 if how == "xdatcar" else 1, LABELS[name], name)


def roundtrip(ch, lattice, n, kind, where, how, steps, label, label_name):
    numbers = kind if isinstance(kind, list) else species(n, kind)
    single = how in ("poscar", "generic_poscar", "generic_xdatcar")
    ts = np.array([place(n, where, s % 50) for s in range(1 if single else steps)])
    given = ts[0] if single else ts
    folder = scratch()
    path = folder / "file"
    keep = lattice.copy(), list(numbers), given.copy()
    write(how, lattice, numbers, given, path if n % 2 else str(path), False, label)
    ch.step()
    ch.check(np.array_equal(keep[0], lattice) and keep[1] == numbers and np.array_equal(keep[2], given),
             "arguments modified")
    ch.check([p.name for p in folder.iterdir()] == ["file"], "other files created")
    structure = how == "poscar" and where in ("inside", "border") and n <= 200
    verify(ch, path, lattice, numbers, ts, how == "xdatcar",
           label if label_name in PLAIN else None, structure)
    # what was read is written identically
    _, numbers2, _ = vasp_io.poscar.read_structure(path) if hasattr(vasp_io.poscar, "read_structure") else (0, numbers, 0)
    ch.check(list(numbers2) == numbers, "atomic numbers")
    again = folder / "again"
    back = vasp_io.xdatcar.read_positions_ts(path)
    write(how, lattice, list(numbers2), back[0] if single else back, again, False, label)
    ch.step()
    ch.check(again.read_bytes() == path.read_bytes(), "writing what was read gives another file")
    ch.observe(path.read_text(encoding="utf-8"))


# ------------------------------------------------------------------ histories of writes
CONTENTS = {
    "small": ("structure", 1, 1), "medium": ("structure", 6, 1), "short_traj": ("trajectory", 2, 2),
    "long_traj": ("trajectory", 2, 7),
}


class World:
    def __init__(self):
        self.folder = scratch()
        self.files = {}


def content(name):
    kind, n, steps = CONTENTS[name]
    tag = list(CONTENTS).index(name)
    lattice = ref.LATTICES["general"] * (1 + 0.1 * tag)
    return kind, lattice, ref.p1_species(n), np.array([ref.p1_positions(n, 10 * tag + s) for s in range(steps)])


def build(_root):
    world = World()
    return world, world


def events(_world):
    return [f"{verb}_{name}_{path}" for verb in ("new", "over") for name in CONTENTS for path in "ab"]


def apply(world, _model, label):
    verb, name, path = label.split("_")[0], "_".join(label.split("_")[1:-1]), label[-1]
    kind, lattice, numbers, ts = content(name)
    target = world.folder / path
    refused = False
    try:
        if kind == "structure":
            vasp_io.poscar.write_structure(lattice, numbers, ts[0], target, verb == "over")
        else:
            vasp_io.xdatcar.write_trajectory(lattice, numbers, ts, target, verb == "over")
    except FileExistsError:
        refused = True
    if refused != (verb == "new" and path in world.files):
        raise Violation("wrongly " + ("refused" if refused else "overwritten"))
    if not refused:
        world.files[path] = name
    if sorted(p.name for p in world.folder.iterdir()) != sorted(world.files):
        raise Violation("unexpected files")
    for p, current in world.files.items():
        _, lattice, numbers, ts = content(current)
        verify(None, world.folder / p, lattice, numbers, ts, current.endswith("traj"))


def state(world, _model):
    return {p: (world.folder / p).read_text() for p in sorted(world.files)}


# ------------------------------------------------------------------ every order of species
def partitions(n):
    """All words of n letters in which new letters appear in alphabetical order."""
    words = [(0,)]
    for _ in range(n - 1):
        words = [w + (k,) for w in words for k in range(max(w) + 2)]
    return words


def words(ch):
    """Species in every order: read back atom by atom, or refused if they are not grouped."""
    n = ch.choose("atoms", list(range(1, LONGEST + 1)))
    word = ch.choose("word", {"".join(map(str, w)): w for w in partitions(n)})
    how = ch.choose("writer", ["poscar", "generic_poscar", "generic_xdatcar", "xdatcar", "generic_trajectory"])
    grouped = all(k in (word[i - 1], max(word[:i], default=-1) + 1) for i, k in enumerate(word) if i)
    numbers = [[8, 1, 22, 6, 14, 82, 3][k] for k in word]
    positions = ref.p1_positions(n)
    given = positions if how in ("poscar", "generic_poscar", "generic_xdatcar") else np.array([positions, positions])
    path = scratch() / "file"
    ch.step()
    try:
        write(how, ref.LATTICES["general"], list(numbers), given, path, False, None)
    except ValueError:
        ch.check(not grouped, lambda: f"{numbers} refused")
        ch.check(not path.exists(), "file created although the structure was refused")
        return ch.observe(word, how)
    got = vasp_io.poscar.read_ref_structure(path)
    ch.check(got.atomic_numbers == numbers, lambda: f"{numbers} read back as {got.atomic_numbers}")
    ch.check(ref.close(got.positions, positions, 0, TOL), "positions")
    ch.observe(word, how)


# ------------------------------------------------------------------ refusals
def refused(ch):
    what = ch.choose("what", [
        "ungrouped", "ungrouped_long", "above", "below", "nan_free_shape", "fewer", "more", "transposed",
        "lattice_shape", "lattice_1d", "number_0", "number_119", "number_negative", "not_list"])
    how = ch.choose("writer", ["poscar", "generic_poscar", "generic_xdatcar", "xdatcar", "generic_trajectory"])
    existing = ch.flag("existing")
    overwrite = ch.flag("overwrite")
    n = ch.choose("atoms", [4, 5])
    lattice, numbers, positions = ref.LATTICES["general"], ref.p1_species(n), ref.p1_positions(n)
    single = how in ("poscar", "generic_poscar", "generic_xdatcar")
    if what == "ungrouped":
        numbers = [22] + [8] * (n - 2) + [22]
    elif what == "ungrouped_long":
        numbers = ([22, 8] * n)[:n]
    elif what == "above":
        positions[-1, 2] = 1.0001
    elif what == "below":
        positions[-1, 0] = -0.0001
    elif what == "nan_free_shape":
        positions = positions.ravel()
    elif what == "fewer":
        positions = positions[:-1]
    elif what == "more":
        positions = np.vstack([positions, positions[:1]])
    elif what == "transposed":
        positions = positions.T
    elif what == "lattice_shape":
        lattice = lattice[:2]
    elif what == "lattice_1d":
        lattice = lattice.ravel()
    elif what == "number_0":
        numbers[0] = 0
    elif what == "number_119":
        numbers[-1] = 119
    elif what == "number_negative":
        numbers[-1] = -1
    elif what == "not_list":
        numbers = "TiO2x"[:n]
    given = positions if single else np.array([positions, positions])
    folder = scratch()
    path = folder / "file"
    if existing:
        path.write_text("precious")
    try:
        write(how, lattice, numbers, given, path, overwrite, None)
    except (ValueError, TypeError):
        ch.step()
        ch.check([p.read_text() for p in folder.iterdir()] == ["precious"] * existing,
                 "file created or altered although the structure was refused")
        return ch.observe(what, how, existing, overwrite, n)
    ch.check(False, "accepted")


LONGEST = 6


def scenarios(tier):
    global LONGEST
    LONGEST = 6 if tier == "quick" else 7
    depth = 3 if tier == "quick" else 4
    return [Tree("structures", structures, shard_depth=3), Tree("sizes", sizes, shard_depth=2), Tree("groups", groups, shard_depth=2), Tree("words", words, shard_depth=2),
            Tree("trajectories", trajectories, shard_depth=3), Tree("labels", labels, shard_depth=2),
            Tree("refused", refused, shard_depth=2),
            Graph("histories", build, events, apply, state, depth),
            in_place.tree("C14", tier)]
