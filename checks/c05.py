"""C05: histories of degree-of-freedom additions (and rejections) of interpolation models."""

import warnings

import numpy as np

from mc import ref
from mc.core import Graph, Tree, Violation
from mc.dofs import RefModel, Rejected
from ramannoodle.exceptions import DOFWarning, InvalidDOFException
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.structure import ReferenceStructure

PROPERTY = "C05"
LEVEL = "model_checking"
RULE = "explicit-state search over histories of model operations"
BOUNDS = (
    "all histories up to depth 4 (quick) or 5 (thorough) of 15 operations (valid, "
    "non-orthogonal, duplicate-amplitude, insufficient, wrong order, wrong shape, masking, "
    "unmasking, evaluation) on interpolation and ART models of 5 crystals; all histories of 2 (thorough: 3) "
    "additions from 15 displacements, as given or made orthogonal to what is there, for 10 crystals with images oblique to each other; every list of up to 3 equal, "
    "nearly equal and different amplitudes with orders 1..3, with warnings ignored or turned into errors"
)
ASSUMPTIONS = [
    "if images of a displacement are oblique to each other or to earlier degrees of freedom, any largest orthogonal set "
    "(or a rejection, in the latter case) is right",
]

CRYSTALS = {k: v for k, v in ref.crystals().items() if k in ("p1", "pbar1", "pm", "tet", "ortho")}


def moves(n):
    """Named Cartesian displacements (N,3)."""
    e = np.eye(3 * n).reshape(3 * n, n, 3)
    return {
        "x0": e[0] * 2.0, "y0": -e[1], "z0": e[2], "x1": e[3] * 0.1, "y1": e[4], "z1": e[5] * 9.0,
        "xy0": e[0] + e[1], "x01": e[0] + e[3], "minus_x0": -3 * e[0],
        "near_x0": e[0] + 0.01 * e[4],
    }


class World:
    def __init__(self, kind, crystal):
        lattice, positions, numbers = CRYSTALS[crystal]
        self.kind, self.n = kind, len(numbers)
        self.lattice, self.positions, self.numbers = lattice, positions, numbers
        self.structure = ReferenceStructure(list(numbers), lattice, positions)
        self.ops = ref.operations(lattice, positions, numbers)
        self.ref_pol = ref.sym((), 2, 6.0)
        self.moves = moves(self.n)
        # a response obeying the symmetry, plus an even part through |u|^2
        self.response = ref.symmetric_response(lattice, self.ops, self.n, 3)

    def data(self, u, amplitudes):
        unit = u / np.linalg.norm(u)
        return np.array([self.ref_pol + ref.respond(self.response, unit * a) for a in amplitudes]
                        ).reshape(-1, 3, 3)


WORLDS = {}


def world(root):
    if root not in WORLDS:
        WORLDS[root] = World(*root.split(":"))
    return WORLDS[root]


VARIANTS = {
    "ok": ([0.05, -0.05], 1), "single": ([0.05], 1), "order3": ([0.1, -0.1, 0.05, -0.05], 3),
    "dup": ([0.05, 0.05], 1), "few": ([0.05], 3), "order0": ([0.05, -0.05], 0),
    "shape": ([0.05, -0.05], 1),
}


def near_x0_is_new(model):
    """Whether nothing specified so far overlaps with the displacement near_x0."""
    u = moves(len(model.numbers))["near_x0"]
    return not any(abs(np.sum(b * u)) > 1e-6 for b in model.basis)


def build(root):
    w = world(root)
    cls = ARTModel if w.kind == "art" else InterpolationModel
    model = RefModel(w.lattice, w.positions, w.numbers, w.ref_pol, w.ops)
    model.root = root
    return cls(w.structure, w.ref_pol), model


def make_events(tier):
    def events(model):
        names = ["add:x0:ok", "add:x0:single", "add:y0:ok", "add:z1:ok", "add:xy0:ok",
                 "add:x01:ok", "add:minus_x0:ok", "add:y0:dup", "add:z0:few",
                 "add:z0:shape", "add:z0:order0", "add:x1:order3", "mask", "unmask"]
        if model.root.endswith(":p1") or not near_x0_is_new(model):
            names.append("add:near_x0:ok")  # otherwise its images are oblique
        if tier != "quick":
            names += ["add:y1:single", "add:z0:ok", "add:x1:ok"]
        return names
    return events


def snapshot(real):
    return (
        [b.copy() for b in real.cart_basis_vectors],
        [(np.array(i.t), np.array(i.c), i.k) for i in real.interpolations],
        real.mask.copy(), real.ref_polarizability,
    )


def same(a, b):
    return (
        len(a[0]) == len(b[0]) and all(np.array_equal(x, y) for x, y in zip(a[0], b[0]))
        and len(a[1]) == len(b[1])
        and all(np.array_equal(x[0], y[0]) and np.array_equal(x[1], y[1]) and x[2] == y[2]
                for x, y in zip(a[1], b[1]))
        and np.array_equal(a[2], b[2]) and np.array_equal(a[3], b[3])
    )


def fail_if(condition, message):
    if condition:
        raise Violation(message)


def apply(real, model, label):
    w = world(model.root)
    before = snapshot(real)
    what = label.split(":")
    if what[0] == "mask":
        if len(model.mask):
            real.mask = np.array([(k % 2) == 0 for k in range(len(model.mask))])
            model.mask = [(k % 2) == 0 for k in range(len(model.mask))]
    elif what[0] == "unmask":
        real.unmask()
        model.mask = [False] * len(model.mask)
    else:
        u = w.moves[what[1]]
        amps, order = VARIANTS[what[2]]
        pols = w.data(u, amps)
        single = w.kind == "art"
        try:
            if order == 0 or what[2] == "shape":
                raise Rejected("argument")
            if single and (len(amps) > 2 or np.count_nonzero(np.abs(u).sum(1)) != 1):
                raise Rejected("not an atomic Raman tensor")
            new = model.prepare(u, amps, pols, 1 if single else order, not single)
            expected = None
        except Rejected as exc:
            new, expected = None, exc
        raised = None
        given_u, given_a, given_p = u.copy(), np.array(amps), pols.copy()
        if what[2] == "shape":
            given_p = given_p[:, :2]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if single:
                    if np.count_nonzero(np.abs(u).sum(1)) != 1 or (order == 0):
                        real.add_dof(given_u, given_a, given_p, order)  # always refused
                    else:
                        atom = int(np.argmax(np.abs(u).sum(1)))
                        real.add_art(atom, u[atom].copy(), given_a, given_p)
                else:
                    real.add_dof(given_u, given_a, given_p, order)
        except Exception as exc:  # judged below
            raised = exc
        fail_if(not np.array_equal(given_u, u), "displacement argument modified")
        if expected is not None:
            fail_if(raised is None, f"accepted although it is invalid: {expected}")
            if str(expected) in ("not orthogonal", "duplicate amplitude", "insufficient points"):
                fail_if(not isinstance(raised, InvalidDOFException),
                        f"{type(raised).__name__} instead of InvalidDOFException: {raised}")
            fail_if(not same(before, snapshot(real)), "a rejected addition changed the model")
        else:
            fail_if(raised is not None, f"a valid degree of freedom is rejected: {raised!r}")
            error = model.adopt(new, real.cart_basis_vectors[len(model.basis):])
            fail_if(error is not None, error)
            after = snapshot(real)
            fail_if(not all(np.array_equal(x, y) for x, y in zip(before[0], after[0])),
                    "earlier basis vectors changed")
    # invariants of every reachable state
    basis = np.array([b.ravel() for b in real.cart_basis_vectors]).reshape(len(model.basis), 3 * w.n)
    fail_if(len(basis) and np.abs(basis @ basis.T - np.eye(len(basis))).max() > 1e-6,
            "basis vectors are not orthonormal")
    fail_if(len(real.interpolations) != len(model.basis), "interpolations do not match basis")
    fail_if(real.mask.shape != (len(model.basis),) or list(real.mask) != model.mask, "mask")
    probes = model.probes()
    got = real.calc_polarizabilities(probes)
    fail_if(not ref.close(got, model.predict(probes), 1e-6, 1e-7), "predictions differ")


def state(real, model):
    # histories which specify the same degrees of freedom with the same data are merged
    items = sorted(
        (np.round(np.abs(b), 5).tobytes(), order, np.round(np.sort(np.abs(xs)), 6).tobytes(), m)
        for b, (xs, _, order), m in zip(model.basis, model.points, model.mask)
    )
    return tuple(repr(i) for i in items), tuple(np.round(model.predict(model.probes()), 6).ravel())


def long_history(ch):
    """Fill a model completely, interleaving rejected additions everywhere."""
    root = ch.choose("world", ROOTS)
    real, model = build(root)
    w = world(root)
    e = np.eye(3 * w.n).reshape(3 * w.n, w.n, 3)
    start = ch.choose("start", [0, 1, 2])
    bad = ch.choose("bad", ["none", "add:x0:dup", "add:xy0:ok", "add:minus_x0:ok", "add:z0:few",
                            "add:near_x0:ok", "mask"])
    for k in range(3 * w.n):
        w.moves["now"] = e[(start + 2 * k) % (3 * w.n)] if (3 * w.n) % 2 else e[(start + k) % (3 * w.n)]
        variant = "ok"
        try:
            model.copy().prepare(w.moves["now"], [0.05, -0.05], w.data(w.moves["now"], [0.05, -0.05]),
                                 1, w.kind != "art")
        except Rejected as exc:
            variant = "single" if str(exc).startswith("dup") else "ok"
        apply(real, model, f"add:now:{variant}")
        ch.step()
        if bad == "add:near_x0:ok" and near_x0_is_new(model):
            continue
        if bad != "none":
            apply(real, model, bad)
            ch.step()
    if bad in ("none", "mask"):
        ch.check(len(model.basis) == 3 * w.n, "not all degrees of freedom specified")
    ch.observe(real.calc_polarizabilities(model.probes()))


OBLIQUE = ["wurtzite", "graphene", "hollow", "sc0", "cscl", "rutile", "fccprim", "p213", "hcp60", "rhomb"]
DIRECTIONS = {"x": [1.0, 0, 0], "y": [0, 1.0, 0], "z": [0, 0, 1.0], "skew": [1.0, 0.3, 0], "general": [0.2, 0.5, 1.0]}
LENGTH = 2


def oblique(ch):
    """Histories with displacements whose images are neither orthogonal nor collinear."""
    name = ch.choose("crystal", OBLIQUE)
    lattice, positions, numbers = ref.crystals()[name]
    n = len(numbers)
    art = ch.flag("art")
    model = RefModel(lattice, positions, numbers, np.diag([3.0, 4.0, 5.0]))
    total = [ref.cartesian(lattice, w) for w, _, _ in model.ops]
    model.ref = sum(c @ model.ref @ c.T for c in total) / len(total)
    real = (ARTModel if art else InterpolationModel)(ReferenceStructure(list(numbers), lattice, positions), model.ref)
    response = ref.symmetric_response(lattice, model.ops, n, 3)
    for k in range(LENGTH):
        atom = ch.choose("atom", [[0], list(range(min(n, 3))), list(range(min(n, 2)))][k])
        u = np.zeros((n, 3))
        u[atom] = ch.choose("direction", DIRECTIONS if k < 2 else {j: DIRECTIONS[j] for j in ("x", "y", "general")})
        given = ch.choose("as", [["given"], ["given", "orthogonalized"], ["orthogonalized"]][k])
        if given == "orthogonalized":
            for b in model.basis:
                u -= b * np.sum(b * u)
        u /= max(np.linalg.norm(u), 1e-12)
        if np.linalg.norm(u) < 0.5 or (art and np.count_nonzero(np.abs(u).max(1) > 1e-9) != 1):
            continue
        amps = np.array(ch.choose("amplitudes", {"one": [0.05], "both": [0.05, -0.05]})) if k < 2 else np.array([0.05])
        pols = np.array([model.ref + ref.respond(response, u * a) for a in amps])
        before = snapshot(real)
        reversible = any(np.abs(v + u).max() < 1e-6 for v, _ in model.images(u))
        invalid = (any(abs(np.sum(b * u)) > 1e-6 for b in model.basis) or (reversible and len(amps) == 2)
                   or (not reversible and len(amps) == 1 and art))
        raised = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if art:
                    real.add_art(atom, u[atom].copy(), amps, pols)
                else:
                    real.add_dof(u.copy(), amps, pols, 1)
        except InvalidDOFException as exc:
            raised = exc
        ch.step()
        if raised is None:
            ch.check(not invalid, "accepted although it is invalid")
            error = model.adopt_any(u, amps, pols, 1, not art, real.cart_basis_vectors[len(model.basis):])
            ch.check(error is None, error)
            ch.check(all(np.array_equal(a, b) for a, b in zip(before[0], real.cart_basis_vectors)), "earlier basis vectors changed")
        else:
            ch.check(invalid or model.may_reject(u), lambda: f"a valid degree of freedom is rejected: {raised!r}")
            ch.check(same(before, snapshot(real)), "a rejected addition changed the model")
    ch.check(list(real.mask) == model.mask and len(real.interpolations) == len(model.basis), "parts do not match")
    probes = model.probes()
    got = real.calc_polarizabilities(probes)
    ch.check(ref.close(got, model.predict(probes), 1e-6, 1e-7), "predictions differ")
    ch.observe(got, len(model.basis))


def amplitude_rules(ch):
    """Which amplitudes are duplicates or too few, and what is left if a warning is turned into an error."""
    root = ch.choose("world", ROOTS)
    real, model = build(root)
    w = world(root)
    art = w.kind == "art"
    e = np.eye(3 * w.n).reshape(3 * w.n, w.n, 3)
    for _ in range(ch.choose("before", [0, 1])):
        w.moves["now"] = e[1]
        reversible = any(np.abs(v + e[1]).max() < 1e-6 for v, _ in model.images(e[1]))
        apply(real, model, "add:now:" + ("single" if reversible else "ok"))
    u = e[0]
    first = ch.choose("first", [0.05, -0.3, 1e-3])
    gap = ch.choose("second", [None, 0.0, 1e-12, 1e-5, 1e-4, 2e-3, 0.1])
    amps = [first] if gap is None else [first, first + gap]
    if not art:
        amps += ch.choose("third", {"none": [], "zero": [0.0], "opposite": [-first], "minute": [1e-5], "close": [1.01 * first]})
    order = 1 if art else ch.choose("order", [1, 2, 3])
    include = False if art else ch.flag("include")
    strict = ch.flag("warnings are errors")
    pols = w.data(u, amps)
    try:
        new, expected = model.prepare(u, amps, pols, order, include), None
    except Rejected as exc:
        new, expected = None, exc
    before = snapshot(real)
    raised = None
    with warnings.catch_warnings():
        warnings.simplefilter("error" if strict else "ignore")
        try:
            if art:
                real.add_art(0, u[0].copy(), np.array(amps), pols)
            else:
                real.add_dof(u.copy(), np.array(amps), pols, order, include)
        except Exception as exc:  # judged below
            raised = exc
    ch.step()
    if raised is not None:
        ch.check(same(before, snapshot(real)), "a rejected addition changed the model")
        warned = isinstance(raised, DOFWarning)
        ch.check(warned or isinstance(raised, InvalidDOFException), lambda: f"unexpected {raised!r}")
        ch.check(strict if warned else expected is not None, lambda: f"a valid degree of freedom is rejected: {raised!r}")
    else:
        ch.check(expected is None, lambda: f"accepted although it is invalid: {expected}")
        error = model.adopt(new, real.cart_basis_vectors[len(model.basis):])
        ch.check(error is None, error)
    probes = model.positions + ref.fill((3, w.n, 3), 4, 1e-3)
    got = real.calc_polarizabilities(probes)
    ch.check(ref.close(got, model.predict(probes), 1e-5, 1e-6), "predictions differ")
    ch.observe(got, raised is None)


ROOTS = [f"{k}:{c}" for k in ("interp", "art") for c in CRYSTALS]


def scenarios(tier):
    global LENGTH
    LENGTH = 2 if tier == "quick" else 3
    for root in ROOTS:
        world(root)
    return [
        Graph("histories", build, make_events(tier), apply, state, 4 if tier == "quick" else 5,
              roots=ROOTS),
        Tree("long", long_history),
        Tree("oblique", oblique, shard_depth=4),
        Tree("amplitudes", amplitude_rules, shard_depth=4),
    ]
