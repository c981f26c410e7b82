"""C08: dummy models run in step with real models, but never predict."""

import warnings

import numpy as np
import pymatgen.core

from mc import ref
from mc.core import Graph, Tree, Violation, scratch
from ramannoodle.dynamics import Phonons, Trajectory
from ramannoodle.exceptions import UserError
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.structure import ReferenceStructure

PROPERTY = "C08"
LEVEL = "model_checking"
RULE = "explicit-state search over histories of a dummy and a real model in step"
BOUNDS = (
    "all histories up to depth 3 (quick) or 4 (thorough) of 22 operations (additions by arrays, "
    "files of four formats and pymatgen structures, invalid ones, masking, copies) on "
    "interpolation and ART models of 3 crystals; prediction attempted in every state"
)
ASSUMPTIONS = ["the real model is judged by C03-C07"]

C = ref.crystals()
CRYSTALS = {k: C[k] for k in ("p1", "pbar1", "tet")}


class Pair:
    def __init__(self, root):
        kind, name = root.split(":")
        self.lattice, self.positions, self.numbers = CRYSTALS[name]
        self.n = len(self.numbers)
        self.art = kind == "art"
        cls = ARTModel if self.art else InterpolationModel
        structure = ReferenceStructure(list(self.numbers), self.lattice, self.positions)
        self.ref_pol = ref.sym((), 2, 5.0)
        self.real = cls(structure, self.ref_pol)
        self.dummy = cls(structure, None, is_dummy_model=True)
        ops = ref.operations(self.lattice, self.positions, self.numbers)
        self.response = ref.symmetric_response(self.lattice, ops, self.n, 4)
        e = np.eye(3 * self.n).reshape(3 * self.n, self.n, 3)
        self.moves = {"x0": e[0], "y0": -2 * e[1], "z0": e[2], "x1": e[3], "xy0": e[0] + e[1],
                      "two": e[0] + e[4], "zlast": e[-1]}

    def pols(self, u, amps):
        u = u / np.linalg.norm(u)
        return np.array([self.ref_pol + ref.respond(self.response, u * a) for a in amps])


EVENTS = [
    "arrays:x0:pm", "arrays:x0:one", "arrays:y0:pm", "arrays:z0:one", "arrays:z0:pm",
    "arrays:xy0:pm", "arrays:two:pm", "arrays:x1:dup", "arrays:x1:pm",
    "outcar:x0:pm", "vasprun.xml:y0:pm", "poscar:x0:pm", "xdatcar:z0:one", "poscar:zlast:pm",
    "pymatgen:x1:pm", "outcar:two:pm", "poscar:xy0:pm", "badfile", "mask", "unmask", "copy",
    "order0:y0:pm",
]
AMPS = {"pm": [0.05, -0.05], "one": [0.05], "dup": [0.05, 0.05]}


def attempt(function, *args):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            function(*args)
    except Exception as exc:  # compared below
        return type(exc).__name__
    return None


def perform(pair, model, label, dummy):
    what, *rest = label.split(":")
    if what == "mask":
        model.mask = np.arange(len(model.mask)) % 2 == 0
        return None
    if what == "unmask":
        model.unmask()
        return None
    if what == "badfile":
        path = scratch() / "bad"
        path.write_text("nothing\n" * 3)
        if pair.art:
            return attempt(model.add_art_from_files, path, "outcar")
        return attempt(model.add_dof_from_files, path, "outcar", 1)
    u, amps = pair.moves[rest[0]], AMPS[rest[1]]
    pols = pair.pols(u, amps)
    if dummy:  # ignored, whatever it is
        pols = {"x0": None, "y0": np.full((len(amps), 3, 3), np.nan)}.get(
            rest[0], np.zeros((7, 2)))
    if what in ("arrays", "order0"):
        order = 0 if what == "order0" else 1
        if not pair.art:
            return attempt(model.add_dof, u.copy(), np.array(amps), pols, order)
        if rest[0] == "two" or what == "order0":
            return attempt(model.add_dof, u.copy(), np.array(amps), pols, order)
        atom = int(np.argmax(np.abs(u).sum(1)))
        return attempt(model.add_art, atom, u[atom].copy(), np.array(amps), pols)
    pols = pair.pols(u, amps)
    unit = u / np.linalg.norm(u)
    frames = [pair.positions + (unit * a) @ np.linalg.inv(pair.lattice) for a in amps]
    if what == "pymatgen":
        given = [pymatgen.core.Structure(pair.lattice, ref.symbols_of(pair.numbers), f)
                 for f in frames]
        if pair.art:
            return attempt(model.add_art_from_pymatgen, given, pols)
        return attempt(model.add_dof_from_pymatgen, given, pols, 1)
    folder, paths = scratch(), []
    file_format = what if dummy else {"poscar": "outcar", "xdatcar": "outcar"}.get(what, what)
    for k, (f, p) in enumerate(zip(frames, pols)):
        f = ref.wrap(f)
        if file_format == "outcar":
            text = ref.outcar(pair.lattice, pair.numbers, f, None if dummy else p)
        elif file_format == "vasprun.xml":
            text = ref.vasprun(pair.lattice, pair.numbers, f, None if dummy else p)
        elif file_format == "poscar":
            text = ref.poscar(pair.lattice, pair.numbers, f)
        else:
            text = ref.xdatcar(pair.lattice, pair.numbers, [f])
        paths.append(folder / str(k))
        paths[-1].write_text(text)
    if pair.art:
        return attempt(model.add_art_from_files, paths, file_format)
    return attempt(model.add_dof_from_files, paths, file_format, 1)


def fail_if(condition, message):
    if condition:
        raise Violation(message)


def compare(pair, label):
    real, dummy = pair.real, pair.dummy
    fail_if(not dummy.is_dummy_model or real.is_dummy_model, "is_dummy_model is wrong")
    a, b = real.cart_basis_vectors, dummy.cart_basis_vectors
    fail_if(len(a) != len(b) or not all(ref.close(x, y, 1e-6, 1e-8) for x, y in zip(a, b)),
            f"{label}: the dummy model has other degrees of freedom")
    fail_if(list(real.mask) != list(dummy.mask), f"{label}: masks differ")
    if pair.art:
        ta, tb = real.get_specification_tuples(), dummy.get_specification_tuples()
        same = len(ta) == len(tb) and all(
            x[0] == y[0] and x[1] == y[1] and len(x[2]) == len(y[2])
            and all(ref.close(p, q, 1e-6, 1e-8) for p, q in zip(x[2], y[2]))
            for x, y in zip(ta, tb))
        fail_if(not same, f"{label}: specification tuples differ")
    fail_if("dummy" not in repr(dummy) or "dummy" in repr(real), "textual summary")
    batch = pair.positions[None] + ref.fill((2, pair.n, 3), 3, 0.01)
    for text, function in {
        "polarizabilities": lambda m: m.calc_polarizabilities(batch),
        "one polarizability": lambda m: m.calc_polarizabilities(batch[:1]),
        "no polarizability": lambda m: m.calc_polarizabilities(batch[:0]),
        "phonon spectrum": lambda m: Phonons(
            pair.positions, np.array([100.0]), batch[:1] * 0.01).get_raman_spectrum(m),
        "MD spectrum": lambda m: Trajectory(batch, 1.0).get_raman_spectrum(m),
    }.items():
        try:
            function(dummy)
        except UserError:
            pass
        except Exception as exc:
            raise Violation(f"{text}: {type(exc).__name__} instead of UserError") from exc
        else:
            raise Violation(f"{text} calculated by a dummy model")
        function(real)


def build(root):
    pair = Pair(root)
    compare(pair, "start")
    return pair, pair


def events(_pair):
    return EVENTS


def apply(pair, _same, label):
    if label == "copy":
        index = [0] if len(pair.real.mask) else []
        pair.real, pair.dummy = pair.real.get_masked_model(index), pair.dummy.get_masked_model(index)
    else:
        a = perform(pair, pair.real, label, False)
        b = perform(pair, pair.dummy, label, True)
        if a != b:
            raise Violation(f"{label}: real model gives {a}, dummy model {b}")
    compare(pair, label)


def state(pair, _same):
    return (tuple(sorted(np.round(np.abs(b), 5).tobytes() for b in pair.real.cart_basis_vectors)),
            tuple(map(bool, pair.real.mask)))


def long(ch):
    """Complete dummy models."""
    root = ch.choose("world", ROOTS)
    pair = Pair(root)
    route = ch.choose("route", ["arrays", "outcar", "poscar", "vasprun.xml", "xdatcar", "pymatgen"])
    e = np.eye(3 * pair.n).reshape(3 * pair.n, pair.n, 3)
    for k in range(3 * pair.n):
        pair.moves["now"] = e[k]
        for variant in ("pm", "one"):
            a = perform(pair, pair.real, f"{route}:now:{variant}", False)
            b = perform(pair, pair.dummy, f"{route}:now:{variant}", True)
            ch.step()
            ch.check(a == b, f"atom {k // 3} axis {k % 3}: real {a}, dummy {b}")
        compare(pair, f"{k}")
    ch.check(len(pair.dummy.cart_basis_vectors) == 3 * pair.n, "incomplete")
    ch.observe(root, route)


ROOTS = [f"{k}:{c}" for k in ("interp", "art") for c in CRYSTALS]


def scenarios(tier):
    return [Graph("in_step", build, events, apply, state, 3 if tier == "quick" else 4, roots=ROOTS),
            Tree("long", long, shard_depth=2)]
