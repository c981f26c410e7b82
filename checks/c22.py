"""C22: a training epoch uses the training set only and reports true losses."""

import copy

import numpy as np
import torch

from mc import ref
from mc.core import Tree
from ramannoodle.dataset.torch import PolarizabilityDataset
from ramannoodle.pmodel.torch import PotGNN, train_single_epoch
from ramannoodle.structure import ReferenceStructure

PROPERTY = "C22"
LEVEL = "model_checking"
RULE = ""
BOUNDS = (
    "5 training set sizes x 5 batch sizes x 4 validation set sizes x 3 losses x 3 optimizers x both modes before; all histories of up to 3 "
    "(thorough: 3) of 5 kinds of epochs; every epoch is replayed batch by batch on a twin of the model and optimizer"
)
ASSUMPTIONS = [
    "no gradients are pending before an epoch",
    "validation sets of 2..100 samples (the library evaluates larger ones in chunks of 100 and averages the chunks)",
]

torch.set_num_threads(1)
LATTICE, NUMBERS, POSITIONS = ref.LATTICES["general"], ref.p1_species(3), ref.p1_positions(3)
_START = []


class Recorder(PotGNN):
    """The model under training; records what is evaluated."""

    def forward(self, lattice, atomic_numbers, positions):
        out = super().forward(lattice, atomic_numbers, positions)
        self.calls.append((self.training, lattice.clone(), atomic_numbers.clone(), positions.clone(), out.detach().clone()))
        return out


def start(dropped=False):
    if not _START:
        torch.manual_seed(5)
        structure = ReferenceStructure(NUMBERS, LATTICE, POSITIONS)
        _START.append(Recorder(structure, 4.5, 3, 4, 1, 0.0, 5.0, np.zeros((3, 3)), np.ones((3, 3))))
        _START[0].calls = []
    return copy.deepcopy(_START[0])


def samples(count, tag):
    positions = POSITIONS + ref.fill((count, 3, 3), tag, 0.05)
    pols = ref.sym((count,), tag + 1, 1.0) * np.arange(1, count + 1)[:, None, None] ** 0.3
    d = PolarizabilityDataset(LATTICE, NUMBERS, positions, pols)
    d.scale_polarizabilities(np.zeros((3, 3)), np.full((3, 3), 2.0))
    return d


LOSSES = {"mse": torch.nn.MSELoss, "l1": torch.nn.SmoothL1Loss, "sum": lambda: torch.nn.MSELoss(reduction="sum")}
OPTIMIZERS = {
    "sgd": lambda p: torch.optim.SGD(p, lr=0.02),
    "momentum": lambda p: torch.optim.SGD(p, lr=0.02, momentum=0.9, weight_decay=0.01),
    "adam": lambda p: torch.optim.Adam(p, lr=0.01, eps=1e-2),
}


def close(a, b, tol=2e-4):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=tol, atol=tol)


def identify(ch, calls, d, what):
    """Indexes of the samples of the evaluated batches."""
    known = torch.tensor(d.positions)
    found = []
    for _, lattice, numbers, positions, _ in calls:
        gaps = (positions[:, None] - known[None]).abs().amax((2, 3))
        ch.check(bool((gaps.min(1).values < 1e-6).all()), f"evaluated something that is not in the {what} set")
        found.append(gaps.argmin(1).tolist())
        ch.check(close(lattice.numpy(), np.broadcast_to(LATTICE, lattice.shape), 1e-5), "wrong lattice")
        ch.check(numbers.tolist() == [list(NUMBERS)] * len(positions), "wrong atomic numbers")
    return found


def epoch(ch, twin, real, train, validation, batch, loss):
    """One epoch on the real model, replayed on the twin."""
    (twin_model, twin_optimizer), (model, optimizer) = twin, real
    model.calls.clear()
    keep = [d.scaled_polarizabilities for d in (train, validation)]
    got = train_single_epoch(model, train, validation, batch, optimizer, loss)
    ch.step()
    calls = list(model.calls)
    trained = [c for c in calls if c[0]]
    evaluated = [c for c in calls if not c[0]]
    last = max((i for i, c in enumerate(calls) if c[0]), default=-1)
    ch.check(last < len(trained), "validated before the training was over")
    batches = identify(ch, trained, train, "training")
    s = len(train)
    ch.check(sorted(sum(batches, [])) == list(range(s)), lambda: f"training samples visited: {sorted(sum(batches, []))}")
    sizes = sorted(len(b) for b in batches)
    full, rest = divmod(s, batch)
    ch.check(sizes == sorted([batch] * full + ([rest] if rest else [])), f"batch sizes {sizes}")
    # replay
    targets = torch.tensor(train.scaled_polarizabilities)
    losses = []
    twin_model.train()
    for (_, lattice, numbers, positions, _), indexes in zip(trained, batches):
        twin_optimizer.zero_grad()
        value = loss(PotGNN.forward(twin_model, lattice, numbers, positions), targets[indexes])
        value.backward()
        twin_optimizer.step()
        losses.append(float(value.detach()))
    twin_optimizer.zero_grad()
    twin_model.eval()
    # the resulting network and optimizer
    now, want = model.state_dict(), twin_model.state_dict()
    for key, value in want.items():
        ch.check(close(now[key].detach(), value.detach()), lambda: f"{key} is not the result of one step per batch")
    a, b = optimizer.state_dict()["state"], twin_optimizer.state_dict()["state"]
    ch.check(a.keys() == b.keys(), "optimizer state")
    for key in a:
        for name in a[key]:
            if isinstance(a[key][name], torch.Tensor):
                ch.check(close(a[key][name].detach(), b[key][name].detach(), 1e-3), "optimizer state")
    # reported values
    ch.check(close(got[0], np.mean(losses)), f"training loss {got[0]} instead of {np.mean(losses)}")
    v = len(validation)
    seen = identify(ch, evaluated, validation, "validation")
    ch.check(sorted(sum(seen, [])) == list(range(v)), "validation samples evaluated")
    with torch.no_grad():
        out = PotGNN.forward(
            twin_model, torch.tensor(LATTICE).float().expand(v, 3, 3), torch.tensor([NUMBERS] * v, dtype=torch.int),
            torch.tensor(validation.positions))
        value = float(loss(out, torch.tensor(validation.scaled_polarizabilities)))
    ch.check(close(got[1], value), f"validation loss {got[1]} instead of {value}")
    variance = np.asarray(got[2])
    ch.check(variance.shape == (6,) and close(variance, torch.var(out, dim=0).numpy()), "variance of the predictions")
    # afterwards
    ch.check(not model.training and all(not m.training for m in model.modules()), "not in evaluation mode")
    before = {k: x.clone() for k, x in model.state_dict().items()}
    x = validation.positions[:2]
    first = model.calc_polarizabilities(x)
    ch.check(np.array_equal(first, model.calc_polarizabilities(x)), "predictions are not deterministic")
    ch.check(close(first, twin_model.calc_polarizabilities(x), 1e-3), "predictions after training")
    ch.check(all(torch.equal(before[k], y) for k, y in model.state_dict().items()), "predicting changes the model")
    for d, scaled in zip((train, validation), keep):
        ch.check(np.array_equal(d.scaled_polarizabilities, scaled), "dataset modified")
    ch.observe(got[0], got[1], got[2])


def pair(ch, optimizer):
    model, twin_model = start(), start()
    return (twin_model, OPTIMIZERS[optimizer](twin_model.parameters())), (model, OPTIMIZERS[optimizer](model.parameters()))


def single(ch):
    twin, real = pair(ch, ch.choose("optimizer", list(OPTIMIZERS)))
    s = ch.choose("training", [1, 2, 5, 9, 24])
    batch = ch.choose("batch", [1, 2, 4, 24, 40])
    v = ch.choose("validation", [2, 3, 17, 100])
    loss = LOSSES[ch.choose("loss", list(LOSSES))]()
    if ch.choose("before", ["train", "eval"]) == "eval":
        real[0].eval()
    epoch(ch, twin, real, samples(s, 10), samples(v, 20), batch, loss)


KINDS = {"small": (5, 2, 3), "whole": (5, 8, 3), "other": (7, 3, 4), "ones": (3, 1, 2), "same_data": (4, 3, -1)}


def histories(depth):
    def run(ch):
        twin, real = pair(ch, ch.choose("optimizer", list(OPTIMIZERS)))
        for step in range(depth):
            s, batch, v = ch.choose(f"epoch{step}", KINDS)
            train = samples(s, 30 + s)
            validation = train if v < 0 else samples(v, 40 + v)
            epoch(ch, twin, real, train, validation, batch, torch.nn.MSELoss())
            between = ch.choose(f"then{step}", ["nothing", "predict"])
            if between == "predict":
                real[0].calc_polarizabilities(train.positions)

    return run


def scenarios(tier):
    return [Tree("single", single, shard_depth=4), Tree("histories", histories(3 if tier == "thorough" else 2), shard_depth=3)]
