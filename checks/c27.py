"""C27: the generic interface dispatches to the format-specific functions."""

import os
from pathlib import Path

import numpy as np

import ramannoodle.io.vasp as vasp_io
from mc import ref
from mc.core import Skip, Tree, canon, scratch
from ramannoodle.dynamics import Phonons, Trajectory
from ramannoodle.io import generic
from ramannoodle.structure import ReferenceStructure

PROPERTY = "C27"
LEVEL = "exploration"
RULE = (
    "one execution per generic function, format, file contents, path spelling and overwrite setting; non-trivial: the outcome (data read or "
    "written, or the exception) is the same as that of the format-specific function (distinct by labels and outcome)"
)
BOUNDS = (
    "9 generic functions x all formats x 22 file contents (complete, partial, damaged, of another format, missing, directory) of 1..5 "
    "atoms x 6 path spellings; 12 unsupported format names on existing and missing files; writers x absent or existing targets x overwrite "
    "x valid and invalid structures; lists of 1..4 files"
)
ASSUMPTIONS = ["format names are strings"]

L = ref.LATTICES["general"]
V = vasp_io
# generic name: {format: specific function}
READERS = {
    "read_phonons": {"outcar": V.outcar.read_phonons, "vasprun.xml": V.vasprun.read_phonons},
    "read_trajectory": {"outcar": V.outcar.read_trajectory, "vasprun.xml": V.vasprun.read_trajectory},
    "read_positions_and_polarizability": {
        "outcar": V.outcar.read_positions_and_polarizability, "vasprun.xml": V.vasprun.read_positions_and_polarizability},
    "read_structure_and_polarizability": {
        "outcar": V.outcar.read_structure_and_polarizability, "vasprun.xml": V.vasprun.read_structure_and_polarizability},
    "read_polarizability_dataset": {
        "outcar": V.outcar.read_polarizability_dataset, "vasprun.xml": V.vasprun.read_polarizability_dataset},
    "read_positions": {
        "poscar": V.poscar.read_positions, "outcar": V.outcar.read_positions,
        "xdatcar": V.poscar.read_positions, "vasprun.xml": V.vasprun.read_positions},
    "read_ref_structure": {
        "poscar": V.poscar.read_ref_structure, "outcar": V.outcar.read_ref_structure,
        "xdatcar": V.poscar.read_ref_structure, "vasprun.xml": V.vasprun.read_ref_structure},
}
WRITERS = {
    "write_structure": {"poscar": V.poscar.write_structure, "xdatcar": V.poscar.write_structure},
    "write_trajectory": {"xdatcar": V.xdatcar.write_trajectory},
}
FORMATS = ["poscar", "outcar", "xdatcar", "vasprun.xml"]


def contents():
    c = {}
    for n in (1, 2, 5):
        z, p, alpha = ref.p1_species(n), ref.p1_positions(n), ref.sym((), n, 3.0)
        modes = [(100.0 * k - 50, ref.fill((n, 3), k)) for k in range(3 * n)]
        frames = [ref.p1_positions(n, k) for k in range(3)]
        c[f"outcar{n}"] = ref.outcar(L, z, p, alpha, modes)
        c[f"vasprun{n}"] = ref.vasprun(L, z, p, alpha, modes, frames)
        c[f"poscar{n}"] = ref.poscar(L, z, p)
        c[f"xdatcar{n}"] = ref.xdatcar(L, z, frames)
        c[f"md_outcar{n}"] = ref.outcar(L, z, p, frames=[f @ L for f in frames])
    c["static_outcar"] = ref.outcar(L, ref.p1_species(2), ref.p1_positions(2))
    c["static_vasprun"] = ref.vasprun(L, ref.p1_species(2), ref.p1_positions(2))
    c["cut_outcar"] = c["outcar2"][: len(c["outcar2"]) * 2 // 3]
    c["cut_vasprun"] = c["vasprun2"][: len(c["vasprun2"]) * 2 // 3]
    c["cut_poscar"] = c["poscar2"][:-40]
    c["empty"] = ""
    c["missing"] = None
    c["directory"] = Ellipsis
    return c


CONTENTS = contents()
SPELLINGS = {
    "str": str, "Path": Path, "relative": lambda p: os.path.relpath(p), "relative Path": lambda p: Path(os.path.relpath(p)),
    "dotted": lambda p: str(p.parent / "." / ".." / p.parent.name / p.name), "dotted Path": lambda p: p.parent / ".." / p.parent.name / p.name,
}


def view(thing):
    if isinstance(thing, Phonons):
        return ("phonons", thing.ref_positions, thing.wavenumbers, thing.displacements)
    if isinstance(thing, Trajectory):
        return ("trajectory", thing.positions_ts, thing.timestep)
    if isinstance(thing, ReferenceStructure):
        return ("structure", thing.lattice, thing.positions, thing.atomic_numbers)
    if isinstance(thing, tuple):
        return tuple(view(t) for t in thing)
    if isinstance(thing, (np.ndarray, list)) or thing is None:
        return thing
    return ("dataset", thing.atomic_numbers, thing.positions, thing.polarizabilities,
            [[t.numpy() for t in thing[k]] for k in range(len(thing))])


def outcome(function, *args, **kwargs):
    try:
        return ("returned", canon(view(function(*args, **kwargs)), 12))
    except Exception as exc:  # pylint: disable=broad-except
        return ("raised", type(exc).__name__)


def place(path, text):
    if text is Ellipsis:
        path.mkdir()
    elif text is not None:
        path.write_text(text)
    return path


def readers(ch):
    name = ch.choose("function", list(READERS))
    file_format = ch.choose("format", list(READERS[name]))
    what = ch.choose("contents", list(CONTENTS))
    spelling = SPELLINGS[ch.choose("path", list(SPELLINGS))]
    path = place(scratch() / "a file", CONTENTS[what])
    want = outcome(READERS[name][file_format], path)
    got = outcome(getattr(generic, name), spelling(path), file_format)
    ch.step(2)
    ch.check(got == want, lambda: f"generic: {str(got)[:300]}\nspecific: {str(want)[:300]}")
    keyword = outcome(getattr(generic, name), file_format=file_format,
                      **{"filepaths" if "dataset" in name else "filepath": spelling(path)})
    ch.check(keyword == want, "keyword arguments")
    specific = outcome(READERS[name][file_format], spelling(path))
    ch.check(specific == want, lambda: f"spelling of the path: {str(specific)[:300]}\n{str(want)[:300]}")
    complete = what.startswith(file_format[:3]) and what[-1].isdigit()
    if complete and not (name == "read_trajectory" and file_format == "outcar"):
        ch.check(want[0] == "returned", lambda: f"a complete file is refused: {want}")
    if CONTENTS[what] is None:
        ch.check(want == ("raised", "FileNotFoundError"), lambda: f"missing file: {want}")
    if isinstance(CONTENTS[what], str):
        ch.check(path.read_text() == CONTENTS[what], "reading changed the file")
    ch.observe(ch.labels, want)


NAMES = ["", "OUTCAR", "Poscar", "vasprun", "xml", "poscar ", "contcar", "cif", "outcar.xml", "vasprun_xml"] + FORMATS


def unsupported(ch):
    name = ch.choose("function", list(READERS) + list(WRITERS))
    file_format = ch.choose("format", NAMES)
    if file_format in READERS.get(name, WRITERS.get(name)):
        raise Skip()
    what = ch.choose("contents", ["missing", "outcar2", "vasprun2", "poscar2", "xdatcar2"])
    spelling = SPELLINGS[ch.choose("path", ["str", "Path"])]
    path = place(scratch() / "file", CONTENTS[what])
    if name in READERS:
        got = outcome(getattr(generic, name), spelling(path), file_format)
    else:
        z, p = ref.p1_species(3), ref.p1_positions(3)
        p = p if name == "write_structure" else p[None]
        got = outcome(getattr(generic, name), L, z, p, spelling(path), file_format, ch.flag("overwrite"))
    ch.step()
    ch.check(got == ("raised", "ValueError"), lambda: f"unsupported format: {str(got)[:200]}")
    now = path.read_text() if path.exists() else None
    ch.check(now == CONTENTS[what] and len(list(path.parent.iterdir())) == (now is not None), "a file was touched")
    ch.observe(ch.labels)


def writers(ch):
    name = ch.choose("function", list(WRITERS))
    file_format = ch.choose("format", list(WRITERS[name]))
    n = ch.choose("atoms", [1, 2, 5])
    z, p = ref.p1_species(n), ref.p1_positions(n)
    fault = ch.choose("fault", ["none", "positions", "outside", "lattice", "element 0", "element 119"])
    lattice = L[:2] if fault == "lattice" else L
    z = {"element 0": [0] * n, "element 119": [119] * n}.get(fault, z)
    p = p[:-1] if fault == "positions" else p + 1 if fault == "outside" else p
    if name == "write_trajectory":
        p = np.array([p] * ch.choose("steps", [1, 3]))
    prior = ch.choose("prior", {"absent": None, "short": "old", "long": "old\n" * 1000, "directory": Ellipsis})
    overwrite = ch.choose("overwrite", {"default": None, "no": False, "yes": True})
    spelling = SPELLINGS[ch.choose("path", list(SPELLINGS))]
    extra = {} if overwrite is None else {"overwrite": overwrite}
    results = []
    for function, args in (
        (WRITERS[name][file_format], ()), (getattr(generic, name), (file_format,)),
    ):
        path = place(scratch() / "out", prior)
        result = outcome(function, lattice, z, p, spelling(path), *args, **extra)
        text = path.read_bytes() if path.is_file() else path.exists()
        results.append((result, text, sorted(os.listdir(path.parent))))
    ch.step(2)
    ch.check(results[0] == results[1], lambda: f"specific: {str(results[0])[:300]}\ngeneric: {str(results[1])[:300]}")
    if fault == "none" and (prior is None or overwrite) and prior is not Ellipsis:
        ch.check(results[1][0][0] == "returned", lambda: f"refused: {results[1][0]}")
    ch.observe(ch.labels, results[0])


def lists(ch):
    file_format = ch.choose("format", ["outcar", "vasprun.xml"])
    count = ch.choose("files", [1, 2, 3, 4])
    kinds = [ch.choose(f"path{k}", list(SPELLINGS) if count < 3 else ["str", "Path", "relative"]) for k in range(count)]
    fault = ch.choose("fault", ["none", "missing", "cut", "other"])
    at = ch.choose("at", list(range(count))) if fault != "none" else None
    folder, paths = scratch(), []
    writer = ref.outcar if file_format == "outcar" else ref.vasprun
    for k in range(count):
        text = writer(L, ref.p1_species(2), ref.p1_positions(2, k), ref.sym((), k, 3.0))
        if k == at:
            text = {"missing": None, "cut": text[: len(text) // 2], "other": CONTENTS["poscar2"]}[fault]
        paths.append(place(folder / f"{k}", text))
    spelled = [SPELLINGS[kind](path) for kind, path in zip(kinds, paths)]
    specific = READERS["read_polarizability_dataset"][file_format]
    want = outcome(specific, paths)
    got = outcome(generic.read_polarizability_dataset, spelled, file_format)
    ch.step(2)
    ch.check(got == want == outcome(specific, spelled), lambda: f"{str(got)[:300]}\n{str(want)[:300]}")
    if fault == "none":
        ch.check(want[0] == "returned", "refused")
    else:
        error = "FileNotFoundError" if fault == "missing" else "InvalidFileException"
        ch.check(want == ("raised", error), lambda: f"fault at {at}: {want}")
    if count == 1:
        ch.check(outcome(generic.read_polarizability_dataset, spelled[0], file_format) == want, "single path")
    ch.observe(ch.labels, want)


def scenarios(tier):
    del tier
    return [
        Tree("readers", readers, shard_depth=3),
        Tree("unsupported", unsupported, shard_depth=3),
        Tree("writers", writers, shard_depth=4),
        Tree("lists", lists, shard_depth=4),
    ]
