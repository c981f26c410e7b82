"""C28: every chemical element is identified and weighted consistently."""

import numpy as np
import pymatgen.core
from pymatgen.core.periodic_table import Element

import ramannoodle.io.vasp as vasp_io
from mc import ref
from mc.core import Skip, Tree, scratch
from ramannoodle.exceptions import InvalidFileException
from ramannoodle.io import generic
from ramannoodle.io import pymatgen as pymatgen_io
from ramannoodle.structure import ReferenceStructure

PROPERTY = "C28"
LEVEL = "exploration"
RULE = (
    "one execution per element, place and number of its atoms, format and reader (or writer); non-trivial: atomic numbers or displacements were "
    "compared with the periodic table (distinct by labels and data)"
)
BOUNDS = (
    "118 elements x 6 groupings (alone, first, middle, last, two groups, all alike with 4 others) x 1..6 atoms x 5 formats x 8 POTCAR "
    "titles x 3 listing styles; both masses of every pair of neighbours in the periodic table; 20 wrong symbols and 8 wrong numbers in every place"
)
ASSUMPTIONS = [
    "standard atomic weights to 1e-4; for elements without one, the mass of a long-lived isotope to 1 %",
    "POTCAR titles end with a date",
]
L = ref.LATTICES["general"]
TITLES = ["PAW_PBE %s 08Apr2002", "PAW_PBE %s_pv 07Sep2000", "PAW %s_sv_GW 05Dec2013", "PAW_PBE %s_s 1Jan1", "PAW_PBE %s_3 06Sep2000",
          "PAW %s_h_GW 19Mar2012", "PAW_GGA %s_d 5Jan2001", "PAW_PBE %s_AE_GW 25Mar2010"]
ref.POTENTIALS = tuple(TITLES)
NUMBERS = list(range(1, 119))


def mass(z):
    symbol = ref.SYMBOLS[z - 1]
    if symbol in ref.WEIGHTS:
        return ref.WEIGHTS[symbol], 1e-4
    return float(Element(symbol).atomic_mass), 1.2e-2


def composition(z, place):
    """Grouped atomic numbers with the element at a place."""
    a, b = (6, 14) if z not in (6, 14) else (7, 20)
    return {
        "alone": [z], "alike": [z] * 3, "first": [z, z, a], "middle": [a, z, z, b, b], "last": [a, b, b, z],
        "many": [a, a, z, z, z, b],
    }[place]


PLACES = ["alone", "alike", "first", "middle", "last", "many"]


def identified(ch):
    z = ch.choose("Z", NUMBERS)
    numbers = composition(z, ch.choose("place", PLACES))
    route = ch.choose("route", ["poscar", "xdatcar", "write poscar", "write xdatcar", "outcar", "vasprun.xml", "pymatgen"])
    symbol = ref.SYMBOLS[z - 1]
    positions = ref.p1_positions(len(numbers))
    path = scratch() / "file"
    title = ch.choose("title", range(len(TITLES))) if route == "outcar" else 0
    file_format = route.removeprefix("write ")
    if route == "poscar":
        path.write_text(ref.poscar(L, numbers, positions))
    elif route == "xdatcar":
        path.write_text(ref.xdatcar(L, numbers, [positions]))
    elif route == "write poscar":
        vasp_io.poscar.write_structure(L, numbers, positions, path)
    elif route == "write xdatcar":
        vasp_io.xdatcar.write_trajectory(L, numbers, positions[None], path)
    elif route == "outcar":
        style = ch.choose("style", ["repeat", "vrhfin", "once"]) if title < 2 else "repeat"
        path.write_text(ref.outcar(L, numbers, positions, ref.sym((), 1), potential=title, potcar_style=style))
    elif route == "vasprun.xml":
        path.write_text(ref.vasprun(L, numbers, positions, ref.sym((), 1)))
    if route == "pymatgen":
        s = pymatgen_io.construct_ref_structure(pymatgen.core.Structure(L, ref.symbols_of(numbers), positions))
    else:
        s = generic.read_ref_structure(path, file_format)
        if file_format in ("outcar", "vasprun.xml"):
            ch.check(generic.read_structure_and_polarizability(path, file_format)[1] == numbers, "read_structure_and_polarizability")
        else:
            ch.check(vasp_io.poscar.read_structure(path)[1] == numbers, "read_structure")
            text = path.read_text().splitlines()
            ch.check(text[5].split() == [x for x, _ in ref.groups(numbers)], lambda: f"symbols {text[5]}")
    ch.step()
    ch.check(s.atomic_numbers == numbers, lambda: f"atomic numbers {s.atomic_numbers} instead of {numbers}")
    ch.check(s.get_atom_indexes(symbol) == s.get_atom_indexes([symbol]) == [k for k, n in enumerate(numbers) if n == z], "lookup by symbol")
    for other in {symbol.lower(), symbol.upper(), symbol[0], symbol + "x", symbol[:1] + "a"} - {ref.SYMBOLS[n - 1] for n in numbers}:
        ch.check(s.get_atom_indexes(other) == [], f"lookup of {other}")
    ch.check(ref.close(s.positions, positions, 1e-6, 1e-6), "positions")
    ch.observe(ch.labels, numbers)


def lookup(ch):
    """Symbols are looked up exactly, for every pair of elements."""
    z = ch.choose("Z", NUMBERS)
    for other in NUMBERS:
        numbers = [z, other, z] if other != z else [z, z, z]
        s = ReferenceStructure(numbers, L, ref.p1_positions(3))
        want = [0, 2] if other != z else [0, 1, 2]
        ch.check(s.get_atom_indexes(ref.SYMBOLS[z - 1]) == want, f"{z} beside {other}")
        ch.check(s.get_atom_indexes([ref.SYMBOLS[other - 1]]) == ([1] if other != z else want), f"{other} beside {z}")
        ch.check(s.get_atom_indexes([ref.SYMBOLS[other - 1], ref.SYMBOLS[z - 1]]) == [0, 1, 2], "both")
        ch.step()
    ch.observe(z)


def weighted(ch):
    z = ch.choose("Z", NUMBERS)
    numbers = composition(z, ch.choose("place", PLACES))
    file_format = ch.choose("format", ["outcar", "vasprun.xml"])
    n = len(numbers)
    positions = ref.p1_positions(n)
    vectors = [ref.fill((n, 3), k, 0.7) for k in range(3 * n)]
    modes = [(50.0 * k + 10, v) for k, v in enumerate(vectors)]
    path = scratch() / "file"
    writer = ref.outcar if file_format == "outcar" else ref.vasprun
    path.write_text(writer(L, numbers, positions, phonons=modes))
    phonons = generic.read_phonons(path, file_format)
    ch.step()
    got = phonons.displacements @ L
    for atom, number in enumerate(numbers):
        want, tol = mass(number)
        for k, v in enumerate(vectors):
            ratio = (v[atom] / got[k, atom]) ** 2
            ch.check(np.abs(ratio / want - 1).max() < tol, lambda: f"mass of {ref.SYMBOLS[number - 1]}: {ratio} instead of {want}")
    ch.observe(ch.labels, phonons.displacements)


BAD_SYMBOLS = ["X", "D", "T", "Uue", "ti", "TI", "Xx", "A", "E", "J", "Q", "c", "Hea", "0", "22", "Ti1", "T i", "nan", "None", "Ti,"]


def wrong_symbols(ch):
    symbol = ch.choose("symbol", BAD_SYMBOLS)
    file_format = ch.choose("format", ["poscar", "xdatcar", "outcar", "vasprun.xml"])
    at = ch.choose("place", [0, 1, 2])
    numbers = [22, 8, 14]
    good = ref.SYMBOLS[numbers[at] - 1]
    positions = ref.p1_positions(3)
    path = scratch() / "file"
    if file_format == "poscar":
        text = ref.poscar(L, numbers, positions)
    elif file_format == "xdatcar":
        text = ref.xdatcar(L, numbers, [positions])
    elif file_format == "outcar":
        text = ref.outcar(L, numbers, positions, ref.sym((), 1), potcar_style="once")
    else:
        text = ref.vasprun(L, numbers, positions, ref.sym((), 1))
    if file_format in ("poscar", "xdatcar"):
        lines = text.splitlines()
        assert good in lines[5].split()
        lines[5] = lines[5].replace(good, symbol)
        text = "\n".join(lines) + "\n"
    elif file_format == "outcar":
        if symbol == "T i":
            raise Skip()  # a title with one more word
        text = text.replace(TITLES[1] % good, TITLES[1] % symbol)
    else:
        text = text.replace("<c>%-2s</c>" % good, "<c>%s</c>" % symbol)
    path.write_text(text)
    readers = [lambda: generic.read_ref_structure(path, file_format)]
    if file_format in ("outcar", "vasprun.xml"):
        readers.append(lambda: generic.read_structure_and_polarizability(path, file_format))
    else:
        readers.append(lambda: vasp_io.poscar.read_structure(path))
    for reader in readers:
        try:
            got = reader()
        except InvalidFileException:
            pass
        else:
            ch.check(False, lambda: f"{symbol} is read as {got}")
        ch.step()
    ch.observe(ch.labels)


def wrong_numbers(ch):
    number = ch.choose("number", [0, -1, 119, 120, 1000, -22, 256, 2**31])
    at = ch.choose("place", [0, 1, 2])
    writer = ch.choose("writer", ["poscar", "xdatcar", "generic poscar", "generic xdatcar"])
    numbers = [22, 8, 14]
    numbers[at] = number
    p = ref.p1_positions(3)
    path = scratch() / "file"
    try:
        if writer == "poscar":
            vasp_io.poscar.write_structure(L, numbers, p, path)
        elif writer == "xdatcar":
            vasp_io.xdatcar.write_trajectory(L, numbers, p[None], path)
        elif writer == "generic poscar":
            generic.write_structure(L, numbers, p, path, "poscar")
        else:
            generic.write_trajectory(L, numbers, p[None], path, "xdatcar")
    except ValueError:
        ch.check(not path.exists(), "file created")
    else:
        ch.check(False, "accepted")
    ch.step()
    ch.observe(ch.labels)


def scenarios(tier):
    del tier
    return [
        Tree("identified", identified, shard_depth=2),
        Tree("lookup", lookup),
        Tree("weighted", weighted, shard_depth=2),
        Tree("wrong_symbols", wrong_symbols, shard_depth=2),
        Tree("wrong_numbers", wrong_numbers, shard_depth=2),
    ]
