"""C21: PotGNN predictions are per-configuration and respect periodicity."""

import copy

import numpy as np
import torch

from mc import in_place, ref
from mc.core import Graph, Tree, Violation
from ramannoodle.dataset.torch import utils as tensor_utils
from ramannoodle.dynamics import Phonons, Trajectory
from ramannoodle.pmodel.torch import PotGNN
from ramannoodle.structure import ReferenceStructure

PROPERTY = "C21"
LEVEL = "model_checking"
RULE = "explicit-state search over histories of predictions (batch sizes, models, modes)"
BOUNDS = (
    "all histories up to depth 3 (thorough: 4) of 10 prediction events on two models sharing a process; 7 structures (2..6 "
    "atoms, 3 lattices, complete and sparse graphs, 1..2 message passes) x 9 batch sizes 1..205 x 4 orders; periodic "
    "images and common translations of every atom of 7 structures; 2 default dtypes"
)
ASSUMPTIONS = ["no interatomic component is exactly half a lattice vector, and every graph has an edge"]

torch.set_num_threads(1)
# name: (lattice, atoms, cutoff, message passes)
SYSTEMS = {
    "two": ("general", 2, 5.0, 1),
    "three": ("tricl", 3, 9.0, 2),
    "four_sparse": ("general", 4, 3.1, 1),
    "four": ("lefthanded", 4, 20.0, 1),
    "five_sparse": ("tricl", 5, 3.2, 2),
    "six": ("general", 6, 3.3, 1),
    "alike": ("ortho", 3, 9.0, 1),
}
_MODELS = {}


def parts(name):
    lattice, n, cutoff, passes = SYSTEMS[name]
    numbers = [8] * n if name == "alike" else ref.p1_species(n)
    return ref.LATTICES[lattice], numbers, ref.p1_positions(n), cutoff, passes


def model(name, dtype=torch.float32):
    key = name, dtype
    if key not in _MODELS:
        lattice, numbers, positions, cutoff, passes = parts(name)
        for a in range(len(numbers)):
            for b in range(a):
                gap = np.abs((positions[a] - positions[b]) % 1 - 0.5)
                assert gap.min() > 1e-3, (name, a, b)
        torch.set_default_dtype(dtype)
        torch.manual_seed(3)
        mean, stddev = ref.sym((), 1, 4.0) + 10, np.abs(ref.sym((), 2, 1.0)) + 0.5
        m = PotGNN(ReferenceStructure(numbers, lattice, positions), cutoff, 4, 5, passes, 0.0, cutoff + 1, mean, stddev)
        # generic running statistics, as after training
        m.train()
        with torch.no_grad():
            for k in range(3):
                m.forward(*tensors(name, configurations(name, 4, 70 + k), dtype))
        m.eval()
        torch.set_default_dtype(torch.float32)
        _MODELS[key] = m, mean, stddev
    m, mean, stddev = _MODELS[key]
    return copy.deepcopy(m), mean, stddev


def configurations(name, count, tag=0):
    positions = parts(name)[2]
    return positions + ref.fill((count,) + positions.shape, 50 + tag, 0.02)


def tensors(name, positions, dtype):
    lattice, numbers, *_ = parts(name)
    s = len(positions)
    return (torch.tensor(lattice).type(dtype).unsqueeze(0).expand(s, 3, 3),
            torch.tensor(numbers, dtype=torch.int).unsqueeze(0).expand(s, -1), torch.tensor(positions).type(dtype))


_SINGLES = {}


def singles(name, dtype=torch.float32, most=210):
    """Predictions of a fresh model for one configuration at a time."""
    key = name, dtype
    if key not in _SINGLES:
        _SINGLES[key] = []
    known = _SINGLES[key]
    if len(known) < most:
        m, _, _ = model(name, dtype)
        x = configurations(name, 210)
        default = torch.get_default_dtype()
        torch.set_default_dtype(dtype)
        for k in range(len(known), most):
            known.append(m.calc_polarizabilities(x[k : k + 1])[0])
        torch.set_default_dtype(default)
    return np.array(known[:most])


def snapshot(m):
    return {k: v.clone() for k, v in m.state_dict().items()}


def same_state(m, before):
    now = m.state_dict()
    return now.keys() == before.keys() and all(torch.equal(now[k], before[k]) for k in now)


# ------------------------------------------------------------------ histories
EVENTS = {
    "A1": ("A", [0]), "A2": ("A", [3, 1]), "A3": ("A", [2, 0, 4]), "A0first": ("A", [4, 4, 4]), "A5": ("A", [4, 3, 2, 1, 0]),
    "B1": ("B", [1]), "B2": ("B", [0, 2]), "B3": ("B", [1, 3, 0]),
}
OTHERS = ["A:train", "A:reset_copy"]
NAMES = {"A": "four_sparse", "B": "three"}


class Real:
    def __init__(self):
        self.models = {k: model(v)[0] for k, v in NAMES.items()}
        self.before = {k: snapshot(m) for k, m in self.models.items()}
        self.log = []


def build(_root):
    return Real(), None


def apply(real, _model, label):
    if label == "A:train":
        real.models["A"].train()
        return
    if label == "A:reset_copy":  # a copy is trained further; the original must not notice
        other = copy.deepcopy(real.models["A"])
        other.train()
        other.forward(*tensors(NAMES["A"], configurations(NAMES["A"], 6, 5), torch.float32))
        other.reset_parameters()
        return
    which, indexes = EVENTS[label]
    x = configurations(NAMES[which], 210)[indexes]
    keep = x.copy()
    got = real.models[which].calc_polarizabilities(x)
    want = singles(NAMES[which], most=5)[indexes]
    if not ref.close(got, want, 1e-4, 1e-4):
        raise Violation(f"{label}: predictions depend on the batch or on earlier predictions")
    if not np.array_equal(x, keep):
        raise Violation(f"{label}: positions were modified")
    for name, m in real.models.items():
        if not same_state(m, real.before[name]):
            raise Violation(f"{label}: predicting changed the parameters or statistics of model {name}")
    real.log.append(label)


def state(real, _model):
    return tuple(real.log[-2:]), real.models["A"].training, len(real.log)


def events(_model):
    return list(EVENTS) + OTHERS


# ------------------------------------------------------------------ batches and images
DTYPES = {"float32": torch.float32, "float64": torch.float64}
TOL = {torch.float32: 2e-4, torch.float64: 1e-8}


def batches(ch):
    name = ch.choose("system", list(SYSTEMS))
    dtype = ch.choose("dtype", DTYPES)
    size = ch.choose("size", [1, 2, 3, 10, 99, 100, 101, 200, 205])
    order = ch.choose("order", ["forward", "backward", "interleaved", "repeated"])
    most = size if size > 10 and order != "repeated" else 12
    index = np.arange(size)
    if order == "backward":
        index = index[::-1]
    elif order == "interleaved":
        index = np.argsort(index * ref.PHI % 1)
    elif order == "repeated":
        index = index % 7
    want = singles(name, dtype, most)[index]
    m, mean, stddev = model(name, dtype)
    before = snapshot(m)
    torch.set_default_dtype(dtype)
    try:
        x = configurations(name, 210)[index]
        got = m.calc_polarizabilities(x)
        ch.step()
        with torch.no_grad():
            m.eval()
            raw = m.forward(*tensors(name, x, dtype))
        ch.check(tuple(raw.shape) == (size, 6), "shape of the network output")
        raw = tensor_utils.polarizability_vectors_to_tensors(raw).numpy()
    finally:
        torch.set_default_dtype(torch.float32)
    tol = TOL[dtype]
    ch.check(got.shape == (size, 3, 3), "shape of the predictions")
    ch.check(ref.close(got, want, tol, tol), lambda: f"differs from single predictions by {np.abs(got - want).max()}")
    ch.check(ref.close(got, raw * stddev + mean, tol, tol), "not the network output times deviation plus mean")
    ch.check(ref.close(got, np.swapaxes(got, 1, 2), 1e-6, 1e-6), "not symmetric")
    ch.check(same_state(m, before), "predicting changed the model")
    ch.check(np.abs(want - want[0]).max() > 1e-6 or size == 1, "harness: predictions do not depend on the positions")
    ch.observe(got)


SHIFTS = {"one": [1, 0, 0], "minus": [0, -1, 0], "both": [2, -3, 1]}


def images(ch):
    name = ch.choose("system", list(SYSTEMS))
    dtype = ch.choose("dtype", DTYPES)
    n = SYSTEMS[name][1]
    x = configurations(name, 210)[:3].copy()
    who = ch.choose("who", list(range(n)) + ["all", "translation"])
    if who == "translation":
        x = x + ch.choose("by", {"small": [0.13, 0, 0], "oblique": [0.31, -0.52, 0.77], "large": [5.1, -3.3, 0.4]})
        if ch.flag("wrapped"):
            x = ref.wrap(x)
    else:
        shift = np.array(ch.choose("shift", SHIFTS), float)
        which = ch.choose("samples", {"first": [0], "last": [2], "every": [0, 1, 2]})
        if who == "all":
            for i in range(n):
                x[which, i] += np.roll(shift, i) * (-1) ** i
        else:
            x[which, who] += shift
    want = singles(name, dtype, 12)[:3]
    m, _, _ = model(name, dtype)
    torch.set_default_dtype(dtype)
    try:
        got = m.calc_polarizabilities(x)
        one = m.calc_polarizabilities(x[1:2])
    finally:
        torch.set_default_dtype(torch.float32)
    ch.step(2)
    tol = 2e-3 if dtype == torch.float32 else 1e-7
    ch.check(ref.close(got, want, tol, tol), "predictions depend on the periodic image or on a common translation")
    ch.check(ref.close(one, want[1:2], tol, tol), "single prediction depends on the periodic image")
    ch.observe(ch.labels, got)


def dynamics(ch):
    """Spectra calculated through the model use the same predictions."""
    name = ch.choose("system", ["two", "four_sparse", "five_sparse"])
    count = ch.choose("count", [2, 5, 101])
    m, _, _ = model(name)
    positions = parts(name)[2]
    if ch.choose("kind", ["trajectory", "phonons"]) == "trajectory":
        x = configurations(name, 210)[:count]
        got = Trajectory(x, 1.0).get_raman_spectrum(m).polarizability_ts
        ch.check(ref.close(got, singles(name, most=count), 2e-4, 2e-4), "trajectory")
    else:
        modes = ref.fill((count,) + positions.shape, 8, 1.0)
        full = Phonons(positions, np.arange(count) + 1.0, modes).get_raman_spectrum(m).raman_tensors
        k = count // 2
        single = Phonons(positions, np.array([1.0]), modes[k : k + 1]).get_raman_spectrum(model(name)[0]).raman_tensors[0]
        size = np.abs(single).max()
        ch.check(ref.close(full[k], single, 0.1, 0.1 * size + 0.05), "phonons: tensor depends on the other modes")
        got = full
    ch.step()
    ch.observe(ch.labels)


def scenarios(tier):
    depth = 4 if tier == "thorough" else 3
    return [
        Graph("histories", build, events, apply, state, depth),
        Tree("batches", batches, shard_depth=4),
        Tree("images", images, shard_depth=4),
        Tree("dynamics", dynamics, shard_depth=3),
        in_place.tree("C21", tier),
    ]
