"""C30: bookkeeping of ART (and interpolation) models."""

import itertools
import re
import warnings

import numpy as np

from mc import in_place, ref
from mc.core import Graph, Tree, Violation, scratch
from mc.dofs import RefModel, Rejected
from ramannoodle.exceptions import InvalidDOFException, UserError
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.structure import ReferenceStructure

PROPERTY = "C30"
LEVEL = "model_checking"
RULE = "explicit-state search over histories of ART additions and maskings"
BOUNDS = (
    "all histories up to depth 3 (quick) or 4 (thorough) of additions of atomic Raman tensors "
    "(3 directions on 3 atoms, arrays and files, valid, non-orthogonal, multi-atom, through the "
    "refused general methods), maskings by atom or symbol, on 6 crystals (3 of them also as dummy models); complete models of 14 "
    "crystals in 4 orders; every subset of atoms and symbols of up to 3 entries; 12 sets of symbols that begin alike in 3 orders"
)
ASSUMPTIONS = ["amplitude pairs are opposite or the direction has no opposite image"]

C = ref.crystals()
NAMES = ["p1", "pbar1", "pm", "tet", "ortho", "perov"]


def make(name):
    dummy, name = name.startswith("dummy "), name.rpartition(" ")[2]
    lattice, positions, numbers = C[name]
    ref_pol = ref.sym((), 5, 4.0)
    real = ARTModel(ReferenceStructure(list(numbers), lattice, positions), ref_pol, dummy)
    model = RefModel(lattice, positions, numbers, ref_pol)
    model.name = name
    model.dummy = dummy
    model.response = ref.symmetric_response(lattice, model.ops, len(numbers), 3)
    return real, model


def directions(model):
    return {"x": np.array([2.0, 0, 0]), "y": np.array([0, -1.0, 0]), "z": np.array([0, 0, 0.3]),
            "xy": np.array([1.0, 1.0, 0])}


def plain(text):
    return re.sub(r"\x1b\[[0-9;]*m", "", text)


def fail_if(condition, message):
    if condition:
        raise Violation(message)


def atoms_of(basis):
    return {int(i) for i in np.where(np.abs(basis).sum(1) > 1e-5)[0]}


def bookkeeping(real, model, selections):
    n = len(model.numbers)
    symbols = ref.symbols_of(model.numbers)
    orbit = {i: {int(p[i]) for _, _, p in model.ops} for i in range(n)}
    tuples = real.get_specification_tuples()
    covered = []
    for parent, others, dirs in tuples:
        members = [int(parent)] + [int(o) for o in others]
        fail_if(len(set(members)) != len(members) or set(members) != orbit[int(parent)],
                f"atom {parent}: equivalent atoms {others}, orbit {sorted(orbit[int(parent)])}")
        covered += members
        want = [b[parent] for b in model.basis if int(parent) in atoms_of(b)]
        fail_if(len(dirs) != len(want), f"atom {parent}: {len(dirs)} directions, specified {len(want)}")
        fail_if(len(want) > 3, "more than three directions")
        for d in dirs:
            fail_if(np.shape(d) != (3,) or not any(
                min(np.abs(d - w).max(), np.abs(d + w).max()) < 1e-6 for w in want),
                f"atom {parent}: direction {d} was not specified")
    fail_if(sorted(covered) != list(range(n)), "atoms missing or repeated in specification tuples")
    fail_if(real.ref_structure.num_nonequivalent_atoms != len(tuples), "number of orbits")
    for selection in selections:
        wanted = set()
        for item in selection if isinstance(selection, list) else [selection]:
            wanted |= {i for i, s in enumerate(symbols) if s == item} if isinstance(item, str) else {item}
        expect = sorted(k for k, b in enumerate(model.basis) if atoms_of(b) & wanted)
        given = list(selection) if isinstance(selection, list) else selection
        got = real.get_dof_indexes(selection)
        fail_if(given != selection, "selection modified")
        fail_if(sorted(int(g) for g in got) != expect, f"DOF indexes of {selection}: {got}, expected {expect}")
    # textual summary
    text = plain(repr(real))
    done = [int(m) for m in re.findall(r"(\d+)/3\b(?! *atomic)", text)]
    fail_if(done[: len(tuples)] != [len(t[2]) for t in tuples], f"summary is wrong: {text}")
    masked = re.search(r"(\d+)/(\d+) atomic Raman tensors are masked", text)
    count = sum(model.mask)
    if count:
        fail_if(not masked or (int(masked[1]), int(masked[2])) != (count, len(model.basis)),
                f"masking not stated: {text}")
    else:
        fail_if(masked, "masking stated wrongly")
    fail_if(("dummy" in text) != model.dummy, "whether it is a dummy model")
    if model.dummy:
        try:
            real.calc_polarizabilities(model.probes())
        except UserError:
            return
        raise Violation("prediction of a dummy model")
    got = real.calc_polarizabilities(model.probes())
    fail_if(not ref.close(got, model.predict(model.probes()), 1e-6, 1e-6), "prediction")


def some_selections(model):
    n = len(model.numbers)
    symbols = sorted(set(ref.symbols_of(model.numbers)))
    return (list(range(n)) + symbols + [[]] + [[0, symbols[-1]], [n - 1, 0, 0], symbols, list(range(n))]
            + [[symbols[0], n - 1]])


def add(real, model, atom, direction, route="arrays", amps=None):
    n = len(model.numbers)
    u = np.zeros((n, 3))
    u[atom] = direction
    unit = u / np.linalg.norm(u)
    if amps is None:
        amps = [0.05, -0.05]
        try:
            model.copy().prepare(u, amps, [model.ref, model.ref], 1, False)
        except Rejected as exc:
            if str(exc).startswith("dup"):
                amps = [0.05]
    pols = np.array([model.ref + ref.respond(model.response, unit * a) for a in amps])
    try:
        new, why = model.prepare(u, amps, pols, 1, False), None
    except Rejected as exc:
        new, why = None, exc
    raised = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if route == "arrays":
                real.add_art(atom, direction.copy(), np.array(amps), pols)
            else:
                folder, paths = scratch(), []
                for k, (a, p) in enumerate(zip(amps, pols)):
                    frame = model.positions + unit * a @ np.linalg.inv(model.lattice)
                    paths.append(folder / str(k))
                    paths[-1].write_text(ref.outcar(model.lattice, model.numbers, ref.wrap(frame), p))
                real.add_art_from_files(paths, "outcar")
    except InvalidDOFException as exc:
        raised = exc
    fail_if((why is None) != (raised is None), f"accepted: {raised is None}; expected refusal: {why}")
    if new:
        error = model.adopt(new, real.cart_basis_vectors[len(model.basis):])
        fail_if(error is not None, error)
    fail_if(len(real.cart_basis_vectors) != len(model.basis), "number of degrees of freedom")


def build(name):
    return make(name)


def events(model):
    n = len(model.numbers)
    atoms = sorted({0, 1, n - 1})
    out = [f"add:{a}:{d}" for a in atoms for d in "xyz"]
    out += ["file:0:x", f"file:{n - 1}:z", "one:0:y", "multi", "general", "mask:first", "mask:symbol",
            "unmask", "copy:last", "three"]
    if model.name in ("p1", "perov", "tet", "pm") and not any(
            abs(np.sum(b[0] * np.array([1.0, 1, 0]))) > 1e-6 for b in model.basis):
        if model.name in ("p1", "tet"):
            out.append("add:0:xy")
    elif model.basis and any(abs(np.sum(b[0] * np.array([1.0, 1, 0]))) > 1e-6 for b in model.basis):
        out.append("add:0:xy")
    return out


def apply(real, model, label):
    what, *rest = label.split(":")
    n = len(model.numbers)
    if what in ("add", "file"):
        add(real, model, int(rest[0]), directions(model)[rest[1]], "arrays" if what == "add" else "files")
    elif what == "one":
        add(real, model, 0, directions(model)["y"], amps=[0.07])
    elif what == "three":
        try:
            real.add_art(0, np.array([1.0, 0, 0]), np.array([0.1, 0.2, 0.3]), np.zeros((3, 3, 3)))
        except (ValueError, InvalidDOFException):
            pass
        else:
            raise Violation("three amplitudes accepted")
    elif what == "general":
        u = np.eye(3 * n)[0].reshape(n, 3)
        for call in (lambda: real.add_dof(u, np.array([0.1]), np.zeros((1, 3, 3)), 1),
                     lambda: real.add_dof_from_files("nothing", "outcar", 1),
                     lambda: real.add_dof_from_pymatgen([], np.zeros((0, 3, 3)), 1)):
            try:
                call()
            except UserError:
                pass
            else:
                raise Violation("general method accepted")
    elif what == "multi":
        u = np.zeros((n, 3))
        u[0, 0], u[1, 1] = 0.05, 0.02
        folder, paths = scratch(), []
        for k, s in enumerate((1, -1)):
            frame = model.positions + s * u @ np.linalg.inv(model.lattice)
            paths.append(folder / str(k))
            paths[-1].write_text(ref.outcar(model.lattice, model.numbers, ref.wrap(frame), model.ref))
        try:
            real.add_art_from_files(paths, "outcar")
        except InvalidDOFException:
            pass
        else:
            raise Violation("displacement of several atoms accepted")
    elif what == "unmask":
        real.unmask()
        model.mask = [False] * len(model.mask)
    else:
        chosen = {"first": 0, "symbol": ref.symbols_of(model.numbers)[-1], "last": [n - 1]}[rest[0]]
        indexes = real.get_dof_indexes(chosen)
        wanted = {0} if rest[0] == "first" else {n - 1} if rest[0] == "last" else {
            i for i, z in enumerate(model.numbers) if z == model.numbers[-1]}
        mask = [bool(atoms_of(b) & wanted) for b in model.basis]
        if what == "mask":
            new = np.zeros(len(mask), bool)
            new[indexes] = True
            real.mask = new
        else:
            copy = real.get_masked_model(indexes)
            other = model.copy()
            other.mask = mask
            bookkeeping(copy, other, some_selections(model)[:3])
            mask = model.mask
        model.mask = mask
    bookkeeping(real, model, some_selections(model))


def state(_real, model):
    return (tuple(sorted(np.round(np.abs(b), 5).tobytes() for b in model.basis)), tuple(model.mask))


def complete(ch):
    """Complete models, in several orders, with every selection."""
    name = ch.choose("crystal", NAMES + ["rutile", "cscl", "p21", "rocksaltprim", "fccprim", "p41", "p213", "c2m"])
    real, model = make(name)
    n = len(model.numbers)
    order = ch.choose("order", ["forward", "backward", "axes", "atoms_twice"])
    route = ch.choose("route", ["arrays", "files"])
    items = list(itertools.product(range(n), "xyz"))
    items = {"forward": items, "backward": items[::-1],
             "axes": [(a, d) for d in "zxy" for a in range(n)],
             "atoms_twice": items + items[:3]}[order]
    frame = directions(model)
    if name == "rutile":
        s = 1 / np.sqrt(2)
        frame = {"x": np.array([s, s, 0]), "y": np.array([s, -s, 0]), "z": np.array([0, 0, 1.0])}
    for atom, d in items:
        add(real, model, atom, frame[d], route)
        ch.step()
    symbols = sorted(set(ref.symbols_of(model.numbers)))
    pool = list(range(n)) + symbols + ["Xx"]
    selections = [list(c) for k in range(4) for c in itertools.product(pool, repeat=k)]
    if len(selections) > 500:
        selections = selections[:500]
    bookkeeping(real, model, selections + pool)
    ch.check(len(model.basis) == 3 * n, "incomplete")
    ch.observe(name, order, real.calc_polarizabilities(model.probes()))


PAIRS = ["S Si", "C Cl", "N Na", "B Br", "H He", "O Os", "I In", "F Fe", "K Kr", "P Pb", "C Cs Ca", "N Ni Ne"]


def symbols(ch):
    """Symbols that begin or end alike."""
    chosen = ch.choose("symbols", PAIRS).split()
    repeat = ch.choose("repeat", [1, 2])
    order = ch.choose("order", ["forward", "backward", "mixed"])
    names = [s for s in chosen for _ in range(repeat)]
    names = {"forward": names, "backward": names[::-1], "mixed": chosen * repeat}[order]
    n = len(names)
    numbers = [ref.SYMBOLS.index(s) + 1 for s in names]
    lattice = C["p1"][0]
    structure = ReferenceStructure(numbers, lattice, ref.p1_positions(n))
    model = ARTModel(structure, np.eye(3))
    for atom in range(n):
        ch.step()
        model.add_art(atom, np.eye(3)[atom % 3], np.array([0.1, -0.1]), np.zeros((2, 3, 3)))
    basis = model.cart_basis_vectors
    for k in range(1, len(chosen) + 1):
        for some in itertools.permutations(chosen, k):
            want = [i for i, s in enumerate(names) if s in some]
            for given in [list(some)] + ([some[0]] if k == 1 else []):
                got = sorted(int(i) for i in structure.get_atom_indexes(given))
                ch.check(got == want, f"atoms {given} of {names}: {got}")
                got = sorted(int(i) for i in model.get_dof_indexes(given))
                expect = [d for d, b in enumerate(basis) if atoms_of(b) & set(want)]
                ch.check(got == expect, f"DOF indexes {given} of {names}: {got}")
    ch.observe(names)


def interpolation_summary(ch):
    """Textual summary of interpolation models."""
    lattice, positions, numbers = C["p1"]
    n = len(numbers)
    dummy = ch.flag("dummy")
    real = InterpolationModel(ReferenceStructure(list(numbers), lattice, positions), np.eye(3), dummy)
    count = ch.choose("dofs", list(range(3 * n + 1)))
    hidden = ch.choose("masked", list(range(count + 1)))
    for k in range(count):
        real.add_dof(np.eye(3 * n)[k].reshape(n, 3), np.array([0.1, -0.1]), np.zeros((2, 3, 3)), 1)
        ch.step()
    real = real.get_masked_model(list(range(hidden)))
    text = plain(repr(real))
    first = re.search(r"(\d+)/(\d+) degrees of freedom specified", text)
    ch.check(first and (int(first[1]), int(first[2])) == (count, 3 * n), f"summary {text}")
    second = re.search(r"(\d+)/(\d+) degrees of freedom are masked", text)
    ch.check(bool(second) == (hidden > 0), f"masking {text}")
    if second:
        ch.check((int(second[1]), int(second[2])) == (hidden, count), f"masking {text}")
    ch.check(("dummy" in text) == dummy, "whether it is a dummy model")
    ch.observe(count, hidden)


def scenarios(tier):
    return [Graph("histories", build, events, apply, state, 3 if tier == "quick" else 4, roots=NAMES + ["dummy p1", "dummy pm", "dummy tet"]),
            Tree("complete", complete, shard_depth=3), Tree("symbols", symbols), Tree("summary", interpolation_summary),
            in_place.tree("C30", tier)]
