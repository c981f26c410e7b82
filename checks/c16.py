"""C16: truncated and damaged input files."""

import re

import numpy as np

import ramannoodle.io.vasp as vasp_io
from mc import ref
from mc.core import Skip, Tree, scratch
from ramannoodle.exceptions import InvalidFileException, SymmetryException
from ramannoodle.io import generic
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.structure import ReferenceStructure

PROPERTY = "C16"
LEVEL = "exploration"
RULE = (
    "one execution per base file, fault and reader; non-trivial: the outcome (refused, or complete data compared "
    "with the undamaged file), distinct by file, fault and outcome"
)
BOUNDS = (
    "32 base files (POSCAR in 6 spellings, XDATCAR, OUTCAR and vasprun.xml with static, phonon, MD and ML contents, 1 to 3 "
    "atoms and species, POTCAR listings in 3 styles); truncation after every character (OUTCAR and vasprun.xml in quick: "
    "before and after every line end and after every 13th character); every line (POSCAR, XDATCAR: every two neighbouring lines) deleted, blanked, cut to half of its tokens or replaced by text; every token of every line "
    "garbled or lost (XML: every number, the content of every element); "
    "every reader of each format; histories with one damaged file at every place of a list of files; missing files"
)
ASSUMPTIONS = [
    "no single POTCAR title is lost from an OUTCAR which lists the first one twice (as it is not always listed twice, "
    "the loss cannot be noticed)",
    "a number cut off at the very end of a file is a valid shorter number: at most the one row containing it may differ"
]
L = ref.LATTICES["general"]


# ------------------------------------------------------------------ base files
def _bases():
    b = {}
    alpha = ref.sym((), 3, 4.0)
    for n in (1, 2, 3):
        z, p = ref.p1_species(n), ref.p1_positions(n)
        b[f"poscar{n}"] = ("poscar", ref.poscar(L, z, p))
        frames = [ref.p1_positions(n, s) for s in range(3)]
        b[f"xdatcar{n}"] = ("xdatcar", ref.xdatcar(L, z, frames))
        style = ("repeat", "vrhfin", "once")[n - 1]
        b[f"outcar_static{n}"] = ("outcar", ref.outcar(L, z, p, alpha, potcar_style=style))
        b[f"vasprun_static{n}"] = ("vasprun.xml", ref.vasprun(L, z, p, alpha))
        modes = [((-1) ** k * 30.0 * (k + 1), ref.fill((n, 3), k)) for k in range(3 * n)]
        if n < 3:
            b[f"outcar_phonons{n}"] = ("outcar_phonons", ref.outcar(L, z, p, phonons=modes, potcar_style=style))
            b[f"vasprun_phonons{n}"] = ("vasprun_phonons", ref.vasprun(L, z, p, phonons=modes))
        cart = [f @ L for f in frames]
        b[f"outcar_md{n}"] = ("outcar_md", ref.outcar(L, z, p, frames=cart, potcar_style=style))
        b[f"vasprun_md{n}"] = ("vasprun_md", ref.vasprun(L, z, p, frames=frames))
    z, p = ref.p1_species(3), ref.p1_positions(3)
    cart = [ref.p1_positions(3, s) @ L for s in range(4)]
    b["poscar_cart"] = ("poscar", ref.poscar(L, z, p, 1.3, "Cartesian"))
    b["poscar_volume"] = ("poscar", ref.poscar(L, z, p, -1.0))
    b["poscar_selective"] = ("poscar", ref.poscar(L, z, p, selective="Selective dynamics", trailing=" T T F"))
    b["poscar_tail"] = ("poscar", ref.poscar(L, z, p, tail="\n 0.0 0.0 0.0\n 0.0 0.0 0.0\n 0.0 0.0 0.0\n"))
    b["poscar_short"] = ("poscar", ref.poscar(L, z, p, fmt="%7.4f"))
    b["outcar_ml"] = ("outcar_md", ref.outcar(L, z, p, frames=cart, ml=[False, True, False, True]))
    b["outcar_extra"] = ("outcar_md", ref.outcar(L, z, p, frames=cart, extra=True, symmetry_block=True))
    for style in ("repeat", "vrhfin", "once"):
        b[f"outcar_{style}"] = ("outcar", ref.outcar(L, z, p, alpha, potcar_style=style, potential=2))
    b["outcar_same"] = ("outcar", ref.outcar(L, [22, 22, 8], p, alpha, symmetry_block=True))
    return b


BASES = _bases()


# ------------------------------------------------------------------ readers
def structure(s):
    return {"numbers": list(s.atomic_numbers), "lattice": s.lattice, "positions": s.positions}


def pairs(names):
    return lambda values: dict(zip(names, values))


def trajectory(t):
    return {"frames": t.positions_ts, "timestep": t.timestep}


def phonons(p):
    return {"positions": p.ref_positions, "wavenumbers": p.wavenumbers,
            "displacements": np.asarray(p.displacements)}


def dataset(d):
    lattice, numbers, positions, _ = d[0]
    return {"lattice": lattice.numpy(), "numbers": [int(k) for k in numbers], "positions": positions.numpy(),
            "polarizability": d.polarizabilities[0]}


POSITIONS = pairs(["positions"])
PP = pairs(["positions", "polarizability"])
SP = pairs(["lattice", "numbers", "positions", "polarizability"])
v, g = vasp_io, generic
READERS = {
    "poscar": {
        "positions": lambda f: {"positions": v.poscar.read_positions(f)},
        "ref_structure": lambda f: structure(v.poscar.read_ref_structure(f)),
        "generic": lambda f: structure(g.read_ref_structure(f, "poscar")),
    },
    "xdatcar": {
        "positions_ts": lambda f: {"frames": v.xdatcar.read_positions_ts(f)},
        "trajectory": lambda f: trajectory(v.xdatcar.read_trajectory(f, 0.5)),
    },
    "outcar": {
        "positions": lambda f: {"positions": v.outcar.read_positions(f)},
        "ref_structure": lambda f: structure(v.outcar.read_ref_structure(f)),
        "positions_polarizability": lambda f: PP(v.outcar.read_positions_and_polarizability(f)),
        "structure_polarizability": lambda f: SP(v.outcar.read_structure_and_polarizability(f)),
        "generic": lambda f: SP(g.read_structure_and_polarizability(f, "outcar")),
        "dataset": lambda f: dataset(v.outcar.read_polarizability_dataset(f)),
    },
    "outcar_phonons": {"phonons": lambda f: phonons(v.outcar.read_phonons(f))},
    "outcar_md": {"trajectory": lambda f: trajectory(v.outcar.read_trajectory(f))},
    "vasprun.xml": {
        "positions": lambda f: {"positions": v.vasprun.read_positions(f)},
        "ref_structure": lambda f: structure(v.vasprun.read_ref_structure(f)),
        "positions_polarizability": lambda f: PP(v.vasprun.read_positions_and_polarizability(f)),
        "structure_polarizability": lambda f: SP(v.vasprun.read_structure_and_polarizability(f)),
        "generic": lambda f: PP(g.read_positions_and_polarizability(f, "vasprun.xml")),
        "dataset": lambda f: dataset(v.vasprun.read_polarizability_dataset(f)),
    },
    "vasprun_phonons": {"phonons": lambda f: phonons(v.vasprun.read_phonons(f))},
    "vasprun_md": {"trajectory": lambda f: trajectory(v.vasprun.read_trajectory(f))},
}
_TRUTH = {}


def truth(base, reader):
    key = base, reader
    if key not in _TRUTH:
        kind, text = BASES[base]
        path = scratch() / "file"
        path.write_text(text)
        _TRUTH[key] = READERS[kind][reader](path)
    return _TRUTH[key]


def rows_differing(a, b):
    a, b = np.atleast_1d(np.asarray(a, float)), np.atleast_1d(np.asarray(b, float))
    a, b = a.reshape(-1, a.shape[-1] if a.ndim > 1 else 1), b.reshape(-1, b.shape[-1] if b.ndim > 1 else 1)
    return int((np.abs(a - b).max(1) > 1e-9).sum())


def judge(ch, want, got, frames_lost, cut):
    """Compare with the undamaged data.

    frames_lost: whether configurations may be missing; cut: whether the last number of the file
    may have been shortened.
    """
    wrong = 0
    for name, value in want.items():
        other = got[name]
        if name == "numbers":
            ch.check(list(value) == list(other), f"atomic numbers {other}")
        elif name == "frames" and frames_lost:
            ch.check(other.ndim == 3 and other.shape[1:] == value.shape[1:], "shape of frames")
            ch.check(1 <= len(other) <= len(value), "number of frames")
            k = 0
            for number, frame in enumerate(other):
                last = number == len(other) - 1
                while k < len(value) and rows_differing(value[k], frame) > (1 if cut and last else 0):
                    k += 1
                ch.check(k < len(value), "configuration which is not in the file")
                if cut:
                    ch.check(k == number, "complete configurations lost")
                k += 1
        else:
            ch.check(np.shape(value) == np.shape(other), f"{name}: shape {np.shape(other)}")
            wrong += rows_differing(value, other)
    ch.check(wrong <= (1 if cut else 0), lambda: f"wrong data: {wrong} rows")


def attempt(ch, base, text, reader, frames_lost=False, cut=False, complete=None):
    # without the header of a machine-learned step, the next configuration need not be skipped
    want = truth("outcar_extra" if base == "outcar_ml" and frames_lost and not cut else base, reader)
    path = scratch() / "file"
    path.write_text(text)
    try:
        got = READERS[BASES[base][0]][reader](path)
    except InvalidFileException:
        ch.step()
        return ch.observe("invalid")
    except SymmetryException:
        ch.step()
        ch.check(cut, "SymmetryException")
        return ch.observe("symmetry")
    ch.step()
    judge(ch, want, got, frames_lost, cut)
    if complete is not None and "frames" in got:
        ch.check(len(got["frames"]) >= complete, "complete configurations lost")
    ch.observe("data", got)


TIER = "quick"


def cut_points(text, kind):
    if TIER == "thorough" or kind in ("poscar", "xdatcar"):
        return list(range(len(text)))
    ends = {i for i, c in enumerate(text) if c == "\n"} | {i + 1 for i, c in enumerate(text) if c == "\n"}
    return sorted((ends | set(range(0, len(text), 13))) - {len(text)})


def truncated(ch):
    base = ch.choose("file", list(BASES))
    kind, text = BASES[base]
    reader = ch.choose("reader", list(READERS[kind]))
    at = ch.choose("cut", cut_points(text, kind))
    # configurations which end before the cut
    complete = None
    if kind in ("xdatcar", "outcar_md"):
        complete = 0
    ch.observe(base, at)
    attempt(ch, base, text[:at], reader, kind in ("xdatcar", "outcar_md"), True, complete)


def damaged(ch):
    """One line deleted, blanked, shortened or replaced; one token garbled."""
    base = ch.choose("file", list(BASES))
    kind, text = BASES[base]
    reader = ch.choose("reader", list(READERS[kind]))
    lines = text.splitlines(keepends=True)
    titles = [k for k, x in enumerate(lines) if "POTCAR:    " in x]
    number = ch.choose("line", list(range(len(lines))))
    line = lines[number]
    how = ch.choose("fault", ["deleted", "blank", "half", "text", "letter", "token", "lost"])
    ch.observe(base, number, how)
    header = kind == "outcar_md" and "TOTAL-FORCE" in line
    if how == "deleted":
        new = ""
    elif how == "blank":
        new = "\n"
    elif how == "text":
        new = "some unexpected text of a warning\n"
    elif how == "letter":
        new = "z" + line[1:]
    elif how == "half":
        starts = [m.end() for m in re.finditer(r"\S+", line)]
        new = (line[: starts[len(starts) // 2 - 1]] if len(starts) > 1 else "") + "\n"
    elif how == "lost":
        # a word is missing, or (XML) a number or the whole content of an element
        if kind.startswith("vasprun"):
            spans = [m.span(1) for m in re.finditer(r">([^<>\n]+)<", line)]
            spans += [(a + m.start(), a + m.end()) for a, b in spans for m in re.finditer(r"\S+", line[a:b])]
        else:
            spans = [m.span() for m in re.finditer(r"\S+", line)]
        if not spans:
            raise Skip()
        a, b = spans[ch.choose("token", list(range(len(spans))))]
        new = line[:a] + line[b:]
        ch.observe(a)
    else:
        if kind.startswith("vasprun"):
            spans = [m.span(1) for m in re.finditer(r">([^<>\n]+)<", line)]
            spans += [m.span(1) for m in re.finditer(r'"([^"]*)"', line)]
        else:
            spans = [m.span() for m in re.finditer(r"\S+", line)]
        if not spans:
            raise Skip()
        a, b = spans[ch.choose("token", list(range(len(spans))))]
        new = line[:a] + "*" * max(b - a, 1) + line[b:]
        ch.observe(a)
    if new == line:
        raise Skip()
    if len(titles) > 1 and lines[titles[0]] == lines[titles[-1]] and "POTCAR:    " not in new and (
            number == titles[0] or (number in titles and how == "deleted")):
        raise Skip()  # as the first title may be listed twice, the others cannot show that one is missing
    attempt(ch, base, "".join(lines[:number] + [new] + lines[number + 1:]), reader, header)


def paired(ch):
    """Two neighbouring lines of a short file deleted or blanked."""
    base = ch.choose("file", [b for b in BASES if BASES[b][0] in ("poscar", "xdatcar")])
    kind, text = BASES[base]
    reader = ch.choose("reader", list(READERS[kind]))
    lines = text.splitlines(keepends=True)
    number = ch.choose("line", list(range(len(lines) - 1)))
    how = ch.choose("fault", ["deleted", "blank", "first", "second"])
    new = {"deleted": ["", ""], "blank": ["\n", " \n"], "first": ["", "\n"], "second": ["\n", ""]}[how]
    if base == "poscar_tail" and how == "deleted" and number == 10:
        raise Skip()  # the last position and the separator: a velocity looks like a position
    ch.observe(base, number, how)
    attempt(ch, base, "".join(lines[:number] + new + lines[number + 2:]), reader, kind == "xdatcar")


def strange(ch):
    """Empty files, blank files, texts and files of another format."""
    base = ch.choose("reader_of", list(BASES))
    kind, _ = BASES[base]
    reader = ch.choose("reader", list(READERS[kind]))
    what = ch.choose("content", ["empty", "newline", "blank", "text", "numbers", "xml", "missing"]
                     + [b for b in BASES if BASES[b][0][:4] != kind[:4]
                        and {BASES[b][0][:4], kind[:4]} != {"posc", "xdat"}])
    text = {"empty": "", "newline": "\n", "blank": " \n" * 50, "text": "Lorem ipsum\n" * 50, "missing": None,
            "numbers": "1.0 2.0 3.0\n" * 50, "xml": "<?xml version='1.0'?><modeling></modeling>"}.get(what)
    if what in BASES:
        text = BASES[what][1]
    path = scratch() / "file"
    if text is not None:
        path.write_text(text)
    ch.step()
    try:
        READERS[kind][reader](path if reader != "positions" else str(path))
    except (InvalidFileException if what != "missing" else FileNotFoundError):
        return ch.observe(base, reader, what)
    ch.check(False, "accepted")


def lists(ch):
    """A damaged or missing file anywhere in a list of files."""
    n = 3
    z, p = ref.p1_species(n), ref.p1_positions(n)
    fmt = ch.choose("format", ["outcar", "vasprun.xml"])
    what = ch.choose("into", ["dof", "art", "dataset", "generic_dataset", "dummy"])
    at = ch.choose("bad", [0, 1] + ([2] if "art" not in what else []))
    fault = ch.choose("fault", ["missing", "empty", "truncated", "polarizability", "positions"])
    before = ch.choose("before", ["fresh", "used"])
    write = ref.outcar if fmt == "outcar" else ref.vasprun
    folder = scratch()
    paths = []
    for k, amp in enumerate([0.1, -0.1] if what == "art" else [0.1, -0.1, 0.2]):
        u = np.zeros((n, 3))
        u[0 if what == "art" else slice(None)] = [1.0, 0, 0]
        moved = p + amp * (u / np.linalg.norm(u)) @ np.linalg.inv(L)
        text = write(L, z, moved, ref.sym((), k))
        if k == at:
            if fault == "truncated":
                text = text[: len(text) // 3]
            elif fault == "empty":
                text = ""
            elif fault == "polarizability":
                text = write(L, z, moved)
            elif fault == "positions":
                text = write(L, z, None, ref.sym((), k))
        paths.append(folder / f"f{k}")
        if not (k == at and fault == "missing"):
            paths[-1].write_text(text)
    if what == "dummy" and fault == "polarizability":
        raise Skip()
    error = FileNotFoundError if fault == "missing" else InvalidFileException
    if "dataset" in what:
        read = vasp_io.outcar if fmt == "outcar" else vasp_io.vasprun
        try:
            if what == "dataset":
                read.read_polarizability_dataset(paths)
            else:
                generic.read_polarizability_dataset([str(q) for q in paths], fmt)
        except error:
            ch.step()
            return ch.observe(what, fmt, at, fault)
        ch.check(False, "accepted")
    s = ReferenceStructure(z, L, p)
    model = (ARTModel if what == "art" else InterpolationModel)(s, ref.sym((), 9), what == "dummy")
    if before == "used":
        if what == "art":
            model.add_art(0, np.array([0.0, 1.0, 0]), np.array([0.1, -0.1]), ref.sym((2,), 4))
        else:
            model.add_dof(np.array([[0, 1.0, 0]] * n), np.array([0.1, -0.1]), ref.sym((2,), 4), 1)

    def look():
        return [np.array(model.cart_basis_vectors), np.array(model.mask), str(model)]

    was = look()
    try:
        if what == "art":
            model.add_art_from_files(paths, fmt)
        else:
            model.add_dof_from_files(paths, fmt, 1)
    except error:
        ch.step()
        now = look()
        ch.check(all(np.array_equal(a, b) for a, b in zip(was[:2], now[:2])) and was[2] == now[2], "model changed")
        # and it is as usable as before
        direction = np.array([0, 0, 1.0])
        if what == "art":
            model.add_art(0, direction, np.array([0.1, -0.1]), ref.sym((2,), 5))
        else:
            model.add_dof(np.array([direction] * n), np.array([0.1, -0.1]), ref.sym((2,), 5), 1)
        ch.check(len(model.cart_basis_vectors) == len(was[0]) + 1, "model unusable")
        return ch.observe(what, fmt, at, fault, before)
    ch.check(False, "accepted")


def scenarios(tier):
    global TIER
    TIER = tier
    return [Tree("truncated", truncated, shard_depth=3), Tree("damaged", damaged, shard_depth=3),
            Tree("paired", paired, shard_depth=3),
            Tree("strange", strange, shard_depth=3), Tree("lists", lists, shard_depth=3)]
