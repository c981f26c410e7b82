"""C15: existing files are never overwritten unless asked to."""

import os

import numpy as np

import ramannoodle
import ramannoodle.io.vasp as vasp_io
from mc import ref
from mc.core import Interleaved, Tree, scratch
from ramannoodle.io import generic
from ramannoodle.structure import (
    ReferenceStructure,
    write_ast_displaced_structures,
    write_displaced_structures,
)

PROPERTY = "C15"
LEVEL = "model_checking"
RULE = ""
BOUNDS = (
    "9 writers, 1..3 target files, prior contents (none, empty, short, long, symlink, dangling symlink, hard "
    "link, directory), every position of the conflict; every scheduling point (line events of the library and "
    "audit events of file operations) at which another process creates a target; all interleavings with at most two "
    "preemptions of two concurrent exclusive writers (one and two files; quick: for pairs other than POSCAR/XDATCAR the "
    "second preemption is taken at every 8th point)"
)
ASSUMPTIONS = ["another process creates files exclusively and does not remove them"]

PREFIX = os.path.dirname(ramannoodle.__file__)
SINGLE = ["poscar", "xdatcar", "generic_poscar", "generic_xdatcar", "generic_trajectory"]
MULTI = ["displaced_poscar", "displaced_xdatcar", "ast_poscar", "ast_xdatcar"]
LATTICE = ref.LATTICES["general"]
AMPS = np.array([0.1, -0.2, 0.35])
_STRUCTURES = {}


def structure(n):
    if n not in _STRUCTURES:
        _STRUCTURES[n] = ReferenceStructure(ref.p1_species(n), LATTICE, ref.p1_positions(n))
    return _STRUCTURES[n]


def write(how, paths, overwrite=None, n=1, tag=0):
    """One call writing all the paths."""
    extra = {} if overwrite is None else {"overwrite": overwrite}
    numbers, positions = ref.p1_species(n), ref.p1_positions(n, tag)
    if how == "poscar":
        vasp_io.poscar.write_structure(LATTICE, numbers, positions, paths[0], **extra)
    elif how in ("generic_poscar", "generic_xdatcar"):
        generic.write_structure(LATTICE, numbers, positions, paths[0], how[8:], **extra)
    elif how == "xdatcar":
        vasp_io.xdatcar.write_trajectory(LATTICE, numbers, np.array([positions] * 2), paths[0], **extra)
    elif how == "generic_trajectory":
        generic.write_trajectory(LATTICE, numbers, np.array([positions] * 2), paths[0], "xdatcar", **extra)
    elif how.startswith("displaced"):
        direction = np.eye(3 * n)[0].reshape(n, 3) + 0.1 * tag
        write_displaced_structures(structure(n), direction, AMPS[: len(paths)], list(paths), how[10:], **extra)
    else:
        write_ast_displaced_structures(structure(n), n - 1, np.array([1.0, 0.5 * tag, 0]), AMPS[: len(paths)],
                                       list(paths), how[4:], **extra)


_EXPECTED = {}


def expected(how, count, n, tag=0):
    """Contents the call gives in an empty folder."""
    key = how, count, n, tag
    if key not in _EXPECTED:
        folder = scratch()
        paths = [folder / f"clean{i}" for i in range(count)]
        write(how, paths, None, n, tag)
        _EXPECTED[key] = [p.read_text() for p in paths]
        scratch()
    return _EXPECTED[key]


def targets(how):
    return 1 if how in SINGLE else 3


def prior(ch):
    """Existing contents of one of the targets."""
    how = ch.choose("writer", SINGLE + MULTI)
    n = ch.choose("atoms", [1, 4])
    count = ch.choose("files", [1] if how in SINGLE else [1, 2, 3])
    want = expected(how, count, n)
    folder = scratch()
    paths = [folder / f"f{i}" for i in range(count)]
    at = ch.choose("conflict", list(range(count)))
    kind = ch.choose("kind", ["empty", "short", "long", "same", "symlink", "dangling", "hardlink", "directory"])
    overwrite = ch.choose("overwrite", {"default": None, "no": False, "yes": True})
    spelled = ch.choose("paths", ["path", "str"])
    old = {"empty": "", "short": "x", "long": "precious\n" * 3000, "same": want[at]}.get(kind, "target")
    other = folder / "other"
    if kind == "symlink":
        other.write_text(old)
        paths[at].symlink_to(other)
    elif kind == "dangling":
        paths[at].symlink_to(other)
    elif kind == "hardlink":
        other.write_text(old)
        os.link(other, paths[at])
    elif kind == "directory":
        paths[at].mkdir()
    else:
        paths[at].write_text(old)
    given = [str(p) for p in paths] if spelled == "str" else paths
    error = None
    try:
        write(how, given, overwrite, n)
    except OSError as exc:
        error = exc
    ch.step()
    if overwrite and kind == "directory":
        ch.check(error is not None and paths[at].is_dir(), "directory replaced")
    elif overwrite:
        ch.check(error is None, f"refused: {error}")
        ch.check([p.read_text() for p in paths] == want, "contents after overwriting")
    else:
        ch.check(isinstance(error, FileExistsError), f"FileExistsError expected, got {error!r}")
        if kind == "directory":
            ch.check(paths[at].is_dir() and not list(paths[at].iterdir()), "directory changed")
        elif kind == "dangling":
            ch.check(paths[at].is_symlink() and not other.exists(), "target of the link created")
        else:
            ch.check(paths[at].read_text() == old, "existing content altered")
            ch.check(paths[at].is_symlink() == (kind == "symlink"), "link replaced")
        for i, p in enumerate(paths):
            if i != at and p.exists():
                ch.check(i < at and p.read_text() == want[i], "incomplete or unexpected file")
    names = {p.name for p in folder.iterdir()}
    ch.check(names <= {p.name for p in paths} | {"other"}, f"stray files: {names}")
    ch.observe(how, n, count, at, kind, overwrite, sorted(names))


def repeated(ch):
    """The same path twice in one call."""
    how = ch.choose("writer", MULTI)
    overwrite = ch.flag("overwrite")
    order = ch.choose("order", ["aab", "aba", "baa", "aaa"])
    want = expected(how, 3, 2)
    folder = scratch()
    try:
        write(how, [folder / c for c in order], overwrite, 2)
        refused = False
    except FileExistsError:
        refused = True
    ch.step()
    ch.check(refused == (not overwrite), "refusal of a repeated path")
    for name in set(order):
        if overwrite:
            ch.check((folder / name).read_text() == want[order.rindex(name)], "last structure wins")
        elif (folder / name).exists():
            ch.check((folder / name).read_text() == want[order.index(name)], "first structure kept")
    ch.observe(how, overwrite, order)


_COUNTS = {}


def points(how, count, n, tag, overwrite):
    """Number of scheduling points of a call running alone."""
    key = how, count, n, tag, overwrite
    if key not in _COUNTS:
        folder = scratch()
        paths = [folder / f"f{i}" for i in range(count)]
        run = Interleaved(PREFIX, lambda: write(how, paths, overwrite, n, tag), lambda: None, None, None)
        run.run()
        assert run.outcomes[0][0] == "returned", run.outcomes
        _COUNTS[key] = run.counts[0]
    return _COUNTS[key]


def appears(ch):
    """The file appears at any point during the call."""
    how = ch.choose("writer", SINGLE + MULTI)
    count = 1 if how in SINGLE else 2
    overwrite = ch.flag("overwrite")
    size = ch.choose("foreign", {"empty": "", "short": "precious", "long": "precious\n" * 1000})
    at = ch.choose("target", list(range(count)))
    want = expected(how, count, 1)
    point = ch.choose("point", list(range(points(how, count, 1, 0, overwrite))))
    folder = scratch()
    paths = [folder / f"f{i}" for i in range(count)]
    created = []

    def environment():
        try:
            fd = os.open(paths[at], os.O_CREAT | os.O_EXCL | os.O_WRONLY)
        except FileExistsError:
            return
        os.write(fd, size.encode())
        os.close(fd)
        created.append(True)

    run = Interleaved(PREFIX, lambda: write(how, paths, overwrite, 1), environment, point, None)
    outcome = run.run()[0]
    ch.step(2)
    if created and not overwrite:
        ch.check(outcome[0] == "raised", "no error although another process had created the file")
    if outcome[0] == "returned":
        ch.check([p.read_text() for p in paths] == want, "contents")
    else:
        ch.check(isinstance(outcome[1], FileExistsError) and not overwrite, f"unexpected {outcome[1]!r}")
        ch.check(bool(created), "refused although no file was there")
        ch.check(paths[at].read_text() == size, "file of the other process altered")
        for i, p in enumerate(paths):
            if i != at and p.exists():
                ch.check(i < at and p.read_text() == want[i], "incomplete file")
    ch.check(set(folder.iterdir()) <= set(paths), "stray files")
    ch.observe(how, overwrite, at, len(size), outcome[0], bool(created), point)


def two_writers(ch):
    """Two exclusive writers of the same files: exactly one of them writes each file."""
    first = ch.choose("first", ["poscar", "xdatcar", "displaced_poscar"])
    second = ch.choose("second", ["poscar", "xdatcar", "displaced_poscar"])
    count = 2 if first == second == "displaced_poscar" else 1
    contents = expected(first, count, 1, 0), expected(second, count, 1, 1)
    p = ch.choose("p", list(range(points(first, count, 1, 0, False))))
    step = 1 if TIER == "thorough" or (first, second) == ("poscar", "xdatcar") else 8
    q = ch.choose("q", list(range(0, points(second, count, 1, 1, False), step)))
    folder = scratch()
    paths = [folder / f"f{i}" for i in range(count)]
    crossed = paths[::-1]
    run = Interleaved(PREFIX, lambda: write(first, paths, False, 1, 0),
                      lambda: write(second, crossed, False, 1, 1), p, q)
    outcomes = run.run()
    ch.step(2)
    won = [o[0] == "returned" for o in outcomes]
    for o in outcomes:
        ch.check(o[0] == "returned" or isinstance(o[1], FileExistsError), f"unexpected {o[1]!r}")
    ch.check(sum(won) == 1 or (count == 2 and sum(won) == 0), f"successful writers: {won}")
    for i, path in enumerate(paths):
        mine = contents[0][i], contents[1][count - 1 - i]
        got = path.read_text() if path.exists() else None
        ch.check(got in mine or (got is None and count == 2), "file is not the complete output of one writer")
        for k in (0, 1):
            if won[k]:
                ch.check(got == mine[k], "output of the successful writer lost")
    ch.observe(first, second, won, [p.read_text() for p in paths if p.exists()])


TIER = "quick"


def scenarios(tier):
    global TIER
    TIER = tier
    return [Tree("prior", prior, shard_depth=3), Tree("repeated", repeated, procs=1),
            Tree("appears", appears, shard_depth=5), Tree("two_writers", two_writers, shard_depth=3)]
