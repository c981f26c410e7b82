"""C31: PotGNN evaluates its message passing for every edge, whatever the labelling."""

import itertools

import numpy as np
import torch

from mc import ref
from mc.core import Skip, Tree, Violation
from ramannoodle.dataset.torch import utils as tensor_utils
from ramannoodle.pmodel.torch import PotGNN
from ramannoodle.structure import ReferenceStructure

PROPERTY = "C31"
LEVEL = "model_checking"
RULE = "choice-tree enumeration; every prediction is compared with an edge-by-edge evaluation or with the same crystal described differently"
BOUNDS = (
    "5 crystals (2..5 atoms, 4 lattices, complete to fragmented graphs, elements whose numbers collide in a hash table) x 1..3 message "
    "passes x both modes x 3 batch sizes against an edge-by-edge evaluation; all orders of the atoms; all 48 relabellings and reversals "
    "of the lattice vectors; 7 supercells; 4 pairs of separate fragments; derivatives for every single parameter; "
    "reset after 3 histories"
)
ASSUMPTIONS = [
    "no interatomic component is exactly half a lattice vector, and every graph has an edge",
    "double precision; no interatomic distance is within 1e-3 Å of the cutoff",
]

torch.set_num_threads(1)
TOL = 1e-9


# name: lattice, atomic numbers, positions, cutoff
def _crystals():
    general, ortho, tricl = (ref.LATTICES[k] for k in ("general", "ortho", "tricl"))
    return {
        "pair": (general, [22, 8], ref.p1_positions(2), 9.0),
        "oxides": (tricl, [38, 22, 8, 8], ref.p1_positions(4), 9.0),
        "sparse": (general, [22, 22, 38, 6, 8], ref.p1_positions(5), 3.3),
        "alike": (ortho, [8, 8, 8], ref.p1_positions(3), 9.0),
        "apart": (
            np.diag([14.0, 15.0, 16.0]), [8, 8, 22, 22],
            np.array([[0.1, 0.1, 0.1], [0.6, 0.58, 0.61], [0.21, 0.14, 0.07], [0.66, 0.65, 0.5]]), 3.5,
        ),
    }


CRYSTALS = _crystals()


def displacements(lattice, positions):
    """Minimum-image Cartesian vectors: [i, j] leads from atom j to atom i or back (see ``edges``)."""
    d = positions[None, :, :] - positions[:, None, :]
    return ref.min_image(d) @ lattice


def edges(lattice, positions, cutoff):
    """Edges (i, j) sorted by i, then by j."""
    d = np.linalg.norm(displacements(lattice, positions), axis=-1)
    n = len(positions)
    return [(i, j) for i in range(n) for j in range(n) if i != j and d[i, j] <= cutoff]


class Precise:
    """Double precision within; seeded."""

    def __init__(self, seed=3):
        self.seed = seed

    def __enter__(self):
        self.before = torch.get_default_dtype()
        torch.set_default_dtype(torch.float64)
        torch.manual_seed(self.seed)

    def __exit__(self, *_exc):
        torch.set_default_dtype(self.before)


MEAN, STDDEV = ref.sym((), 1, 4.0) + 10, np.abs(ref.sym((), 2, 1.0)) + 0.5


def make(numbers, lattice, positions, cutoff, passes=1, sizes=(3, 4), start=0.3, end=4.0):
    return PotGNN(ReferenceStructure(list(numbers), lattice, positions), cutoff, *sizes, passes, start, end, MEAN, STDDEV)


def tensors(lattice, numbers, configurations):
    s = len(configurations)
    return (torch.tensor(lattice).unsqueeze(0).expand(s, 3, 3), torch.tensor(list(numbers), dtype=torch.int).unsqueeze(0).expand(s, -1),
            torch.tensor(configurations))


def shake(positions, count, tag=0):
    return positions + ref.fill((count,) + positions.shape, 50 + tag, 0.02)


_TRAINED = {}


def trained(name, passes=1, sizes=(3, 4)):
    """A model whose parameters, norms and running statistics are all generic."""
    key = name, passes, sizes
    if key not in _TRAINED:
        lattice, numbers, positions, cutoff = CRYSTALS[name]
        with Precise():
            m = make(numbers, lattice, positions, cutoff, passes, sizes)
            with torch.no_grad():
                for k, p in enumerate(m.parameters()):
                    p += torch.tensor(ref.fill(tuple(p.shape), 200 + k, 0.3))
            m.train()
            with torch.no_grad():
                for k in range(3):
                    m.forward(*tensors(lattice, numbers, shake(positions, 4, 70 + k)))
            m.eval()
        names = [k for k, _ in m.named_parameters(remove_duplicate=False)]
        if len(names) != len(list(m.parameters())):
            raise Violation("message passes share parameters")
        _TRAINED[key] = m
    return _TRAINED[key]


def clone(model, numbers, lattice, positions, cutoff, passes=1, sizes=(3, 4)):
    """A model of another description of the crystal with the parameters of ``model``."""
    with Precise():
        m = make(numbers, lattice, positions, cutoff, passes, sizes)
        m.load_state_dict({k: v.clone() for k, v in model.state_dict().items()})
        m.eval()
    for (k, v), w in zip(model.state_dict().items(), m.state_dict().values()):
        if not torch.equal(v, w):
            raise Violation(f"{k} was not restored")
    return m


def predict(model, configurations):
    with Precise():
        return model.calc_polarizabilities(configurations)


# ------------------------------------------------------------------ edge-by-edge evaluation
def softplus(x):
    return np.logaddexp(0, x) - np.log(2.0)


def sigmoid(x):
    return 1 / (1 + np.exp(-x))


def layer_norm(p, name, x):
    x = (x - x.mean()) / np.sqrt(x.var() + 1e-5)
    return x * p[name + ".weight"] + p[name + ".bias"]


def linear(p, name, x):
    return p[name + ".weight"] @ x + p[name + ".bias"]


def gate(x):
    half = len(x) // 2
    return sigmoid(x[:half]) * np.tanh(x[half:])


def local_frame(u):
    """Rotation of (1,0,0) onto the unit vector u about their common normal."""
    v = np.cross([1.0, 0, 0], u)
    k = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
    return np.eye(3) + k + k @ k * (1 - u[0]) / (v @ v)


def evaluate(model, passes, crystal, configurations, training):
    """Network output, sample by sample and edge by edge."""
    lattice, numbers, positions, cutoff = crystal
    p = {k: v.detach().numpy() for k, v in model.state_dict().items()}
    types = {z: k for k, z in enumerate(sorted(set(numbers)))}
    graph = edges(lattice, positions, cutoff)
    offsets = np.linspace(0.3, 4.0, p["_node_blocks.0.c1_linear.weight"].shape[1] - p["_node_embedding.0.weight"].shape[1])
    samples = []
    for x in configurations:
        d = displacements(lattice, x)
        node, edge = [], {}
        for z in numbers:
            h = softplus(p["_node_embedding.0.weight"][types[z]])
            h = softplus(linear(p, "_node_embedding.2", h))
            node.append(linear(p, "_node_embedding.4", h))
        for e in graph:
            gap = np.linalg.norm(d[e]) - offsets
            edge[e] = np.exp(-0.5 * gap**2 / (offsets[1] - offsets[0]) ** 2)
        for k in range(passes):
            a, b = f"_node_blocks.{k}.", f"_edge_blocks.{k}."
            new = []
            for i, h in enumerate(node):
                total = np.zeros_like(h)
                for e in graph:
                    if e[1] == i:  # all edges leading to the atom
                        total = total + gate(layer_norm(p, a + "c1_norm", linear(p, a + "c1_linear", np.concatenate([h, edge[e]]))))
                new.append(np.tanh(h + layer_norm(p, a + "final_norm", total)))
            node = new
            changed = {}
            for i, j in graph:
                c2 = gate(layer_norm(p, b + "c2_norm_1", linear(p, b + "c2_linear", node[i] * node[j])))
                c2 = layer_norm(p, b + "c2_norm_2", c2)
                total = np.zeros(len(offsets))
                for j2, k2 in graph:  # triplets k2 - i - j
                    if j2 == i and k2 != j:
                        c3 = np.concatenate([node[j], node[i], node[k2], edge[i, j], edge[k2, i]])
                        total = total + gate(layer_norm(p, b + "c3_norm_1", linear(p, b + "c3_linear", c3)))
                c3 = layer_norm(p, b + "c3_norm_2", total)
                changed[i, j] = np.tanh(edge[i, j] + c2 + c3)
            edge = changed
        samples.append((d, edge))
    name = "_to_polarizability_embedding."
    hidden = {(s, e): linear(p, name + "0", edge[e]) for s, (_, edge) in enumerate(samples) for e in graph}
    if training:  # batch statistics of all edges of all samples
        everything = np.array(list(hidden.values()))
        mean, var = everything.mean(axis=0), everything.var(axis=0)
    else:
        mean, var = p[name + "1.running_mean"], p[name + "1.running_var"]
    out = []
    for s, (d, _) in enumerate(samples):
        total = np.zeros((3, 3))
        for e in graph:
            h = (hidden[s, e] - mean) / np.sqrt(var + 1e-5) * p[name + "1.weight"] + p[name + "1.bias"]
            w = linear(p, name + "5", softplus(linear(p, name + "3", softplus(h))))
            u = d[e] / np.linalg.norm(d[e])
            frame = local_frame(u)
            for (r, c), along, across in zip([(0, 1), (0, 2), (1, 2), (0, 0), (1, 1), (2, 2)], w[0::2], w[1::2]):
                value = (frame @ np.diag([along, across, across]) @ frame.T)[r, c]
                total[r, c] += value
                if r != c:
                    total[c, r] += value
        out.append(total / len(graph))
    return np.array(out)


def architecture(ch):
    name = ch.choose("crystal", list(CRYSTALS))
    passes = ch.choose("passes", [1, 2, 3])
    sizes = ch.choose("sizes", {"3,4": (3, 4), "1,2": (1, 2), "5,3": (5, 3)})
    count = ch.choose("count", [1, 2, 5])
    training = ch.flag("training")
    m = trained(name, passes, sizes)
    crystal = CRYSTALS[name]
    x = shake(crystal[2], count, 9)
    try:
        want = evaluate(m, passes, crystal, x, training)
    except KeyError as exc:  # parameters are organised in another way: nothing to compare with
        raise Skip() from exc
    with Precise():
        m = clone(m, crystal[1], crystal[0], crystal[2], crystal[3], passes, sizes)
        m.train(training)
        with torch.no_grad():
            got = tensor_utils.polarizability_vectors_to_tensors(m.forward(*tensors(crystal[0], crystal[1], x))).numpy()
    ch.step()
    ch.check(got.shape == want.shape, "shape")
    ch.check(ref.close(got, want, TOL, TOL), lambda: f"differs from the edge-by-edge evaluation by {np.abs(got - want).max()}")
    ch.check(ref.close(predict(m, x), evaluate(m, passes, crystal, x, False) * STDDEV + MEAN, TOL, TOL), "scaling of the predictions")
    ch.step()
    ch.observe(got)


# ------------------------------------------------------------------ the same crystal, described differently
def relabelled(ch):
    """Orders of the atoms."""
    name = ch.choose("crystal", list(CRYSTALS))
    passes = ch.choose("passes", [1, 2])
    lattice, numbers, positions, cutoff = CRYSTALS[name]
    n = len(numbers)
    order = list(ch.choose("order", list(itertools.permutations(range(n)))))
    m = trained(name, passes)
    x = shake(positions, 3, 4)
    other = clone(m, [numbers[k] for k in order], lattice, positions[order], cutoff, passes)
    got, want = predict(other, x[:, order]), predict(m, x)
    ch.step(2)
    ch.check(ref.close(got, want, TOL, TOL), lambda: f"depends on the order of the atoms: {np.abs(got - want).max()}")
    ch.observe(ch.labels, got)


def lattice_vectors(ch):
    """Orders and directions of the lattice vectors."""
    name = ch.choose("crystal", list(CRYSTALS))
    lattice, numbers, positions, cutoff = CRYSTALS[name]
    order = list(ch.choose("order", list(itertools.permutations(range(3)))))
    sign = np.array(ch.choose("signs", list(itertools.product([1.0, -1.0], repeat=3))))
    m = trained(name)
    x = shake(positions, 3, 4)
    other = clone(m, numbers, sign[:, None] * lattice[order], ref.wrap(sign * positions[:, order]), cutoff)
    y = sign * x[:, :, order]
    if ch.flag("wrapped"):
        y = ref.wrap(y)
    got, want = predict(other, y), predict(m, x)
    ch.step(2)
    ch.check(ref.close(got, want, TOL, TOL), lambda: f"depends on the choice of lattice vectors: {np.abs(got - want).max()}")
    ch.observe(ch.labels, got)


SUPERCELLS = [(2, 1, 1), (1, 2, 1), (1, 1, 2), (3, 1, 1), (1, 2, 2), (2, 2, 1), (2, 1, 2)]


def supercell(ch):
    """A cell repeated has the mean polarizability of the cell."""
    repeat = np.array(ch.choose("repeat", SUPERCELLS))
    cutoff = ch.choose("cutoff", [2.3, 2.95])
    passes = ch.choose("passes", [1, 2])
    lattice, numbers = np.diag([6.1, 6.3, 6.5]), [38, 22, 8, 8]
    positions = np.array([[0.1, 0.1, 0.1], [0.45, 0.15, 0.08], [0.92, 0.43, 0.12], [0.12, 0.2, 0.5]])
    with Precise():
        m = make(numbers, lattice, positions, cutoff, passes)
        m.eval()
    ch.check(len(edges(lattice, positions, cutoff)) > 1, "harness: no edges")
    x = shake(positions, 2, 4)
    cells = np.array(list(itertools.product(*[range(k) for k in repeat])), float)
    big = np.concatenate([(positions + c) / repeat for c in cells])
    bigx = np.concatenate([(x + c) / repeat for c in cells], axis=1)
    other = clone(m, numbers * len(cells), repeat[:, None] * lattice, big, cutoff, passes)
    got, want = predict(other, bigx), predict(m, x)
    ch.step(2)
    ch.check(ref.close(got, want, TOL, TOL), lambda: f"the repeated cell differs by {np.abs(got - want).max()}")
    ch.observe(ch.labels, got)


FRAGMENTS = {
    "pair": ([8, 22], [[0.1, 0.1, 0.1], [0.2, 0.17, 0.05]]),
    "pair2": ([8, 22], [[0.12, 0.1, 0.13], [0.1, 0.22, 0.19]]),
    "triple": ([22, 8, 8], [[0.1, 0.1, 0.1], [0.21, 0.14, 0.07], [0.05, 0.2, 0.18]]),
    "chain": ([22, 8, 22], [[0.1, 0.1, 0.1], [0.28, 0.14, 0.07], [0.46, 0.2, 0.1]]),
}


def fragments(ch):
    """Fragments without a common edge contribute independently, weighted by their edges."""
    pair = ch.choose("fragments", list(itertools.combinations_with_replacement(FRAGMENTS, 2)))
    passes = ch.choose("passes", [1, 3])
    lattice, cutoff = np.diag([14.0, 15.0, 16.0]), 3.5
    numbers, places = [], []
    parts = []
    first = None
    for k, name in enumerate(pair):
        z, x = FRAGMENTS[name]
        x = np.array(x) + k * 0.5
        with Precise():
            if first is None:
                first = make(z, lattice, x, cutoff, passes)
                first.eval()
            m = clone(first, z, lattice, x, cutoff, passes)
        y = x + ref.fill(x.shape, 60 + k, 0.01)
        parts.append((len(edges(lattice, x, cutoff)), (predict(m, y[None])[0] - MEAN) / STDDEV))
        numbers += z
        places.append((x, y))
    x, y = (np.concatenate([p[k] for p in places]) for k in (0, 1))
    got = (predict(clone(first, numbers, lattice, x, cutoff, passes), y[None])[0] - MEAN) / STDDEV
    ch.step(3)
    ch.check(len(edges(lattice, x, cutoff)) == sum(w for w, _ in parts), "harness: the fragments touch")
    want = sum(w * p for w, p in parts) / sum(w for w, _ in parts)
    ch.check(ref.close(got, want, TOL, TOL), lambda: f"fragments are not independent: {np.abs(got - want).max()}")
    ch.observe(ch.labels, got)


# ------------------------------------------------------------------ training
def gradients(ch):
    """Automatic derivatives are the derivatives of the predictions."""
    name = ch.choose("crystal", ["oxides", "sparse"])
    passes = ch.choose("passes", [1, 2])
    training = ch.flag("training")
    lattice, numbers, positions, cutoff = CRYSTALS[name]
    m = clone(trained(name, passes), numbers, lattice, positions, cutoff, passes)
    m.train(training)
    x = shake(positions, 2, 3)
    weights = torch.tensor(ref.fill((2, 6), 8, 1.0))
    with Precise():
        a, b, c = tensors(lattice, numbers, x)

        def value():
            return (m.forward(a, b, c) * weights).sum()

        value().backward()
        step = 1e-5
        for label, p in m.named_parameters():
            ch.check(p.grad is not None, f"{label}: no derivative")
            flat, grad = p.detach().reshape(-1), p.grad.detach().reshape(-1).numpy()
            want = []
            with torch.no_grad():
                for k in range(len(flat)):
                    ends = []
                    for s in (step, -step):
                        keep = float(flat[k])
                        flat[k] = keep + s
                        ends.append(float(value()))
                        flat[k] = keep
                    want.append((ends[0] - ends[1]) / (2 * step))
            ch.step(len(flat))
            ch.check(ref.close(grad, np.array(want), 1e-4, 1e-7), lambda: f"{label}: not the derivative")
    ch.observe(ch.labels)


def reset(ch):
    """Resetting leaves no trace of the past."""
    name = ch.choose("crystal", ["pair", "sparse"])
    passes = ch.choose("passes", [1, 2])
    history = ch.choose("history", ["trained", "evaluated", "reset"])
    seed = ch.choose("seed", [1, 2])
    lattice, numbers, positions, cutoff = CRYSTALS[name]
    with Precise():
        fresh = make(numbers, lattice, positions, cutoff, passes)
        used = clone(trained(name, passes), numbers, lattice, positions, cutoff, passes)
        if history == "evaluated":
            used.forward(*tensors(lattice, numbers, shake(positions, 3, 1)))
        elif history == "reset":
            torch.manual_seed(77)
            used.reset_parameters()
        states = []
        for m in (fresh, used):
            torch.manual_seed(seed)
            m.reset_parameters()
            states.append({k: v.clone() for k, v in m.state_dict().items()})
        ch.step(2)
        ch.check(states[0].keys() == states[1].keys(), "parameters")
        for k, v in states[0].items():
            ch.check(torch.equal(v, states[1][k]), f"{k} remembers the past")
        torch.manual_seed(seed + 10)
        used.reset_parameters()
        same = [k for k, v in used.named_parameters() if torch.equal(v, states[1][k]) and v.std() > 0]
        ch.check(not same, f"not drawn anew: {same}")
    ch.observe(ch.labels, *[v.numpy() for v in states[0].values()])


def scenarios(tier):
    return [
        Tree("architecture", architecture, shard_depth=3),
        Tree("relabelled", relabelled, shard_depth=3),
        Tree("lattice_vectors", lattice_vectors, shard_depth=2),
        Tree("supercell", supercell, shard_depth=2),
        Tree("fragments", fragments, shard_depth=1),
        Tree("gradients", gradients, shard_depth=3),
        Tree("reset", reset, shard_depth=2),
    ]
