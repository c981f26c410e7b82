"""C26: tensor/vector conversions, rotations, radius graphs and triplets."""

import itertools

import numpy as np
import torch

from mc import in_place, ref
from mc.core import Graph, Tree, Violation
from ramannoodle.dataset.torch.utils import (
    polarizability_tensors_to_vectors,
    polarizability_vectors_to_tensors,
)
from ramannoodle.pmodel.torch._utils import (
    BatchTriplets,
    _radius_graph_pbc,
    get_rotations,
)

PROPERTY = "C26"
LEVEL = "model_checking"
RULE = ""
BOUNDS = (
    "conversions: 1..300 samples, 5 ranges, 2 precisions, 2 memory layouts; rotations: all directions of a grid of 7^3 (thorough: 13^3) points, "
    "6 lengths, tilts of 1e-1..1e-30 around both poles, batches of 1..all in 2 orders; radius graphs: 5 lattices x 2..9 atoms x "
    "5 cutoffs (also exactly met) x batches of 1..5 different structures x 3 choices of periodic images; triplets: 6 graphs x all sequences of up to 4 "
    "(thorough: 5) batch sizes out of 5"
)
ASSUMPTIONS = ["no component of an interatomic displacement is exactly half a lattice vector; distances equal to the cutoff only where they are exact in binary numbers"]

torch.set_num_threads(1)
RANGES = {"unit": (0.0, 1.0), "tiny": (0.0, 1e-12), "huge": (0.0, 1e12), "offset": (1000.0, 1e-2), "zero": (0.0, 0.0)}
PAIRS = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]


def conversions(ch):
    dtype = ch.choose("dtype", [torch.float32, torch.float64])
    count = ch.choose("samples", [1, 2, 3, 6, 7, 64, 300])
    offset, scale = RANGES[ch.choose("range", list(RANGES))]
    layout = ch.choose("layout", ["contiguous", "strided"])
    torch.set_default_dtype(dtype)
    values = torch.tensor(offset + ref.fill((count, 6), count, scale), dtype=dtype)
    if layout == "strided":
        values = torch.stack([values, -values], 1)[:, 0]
    keep = values.clone()
    tensors = polarizability_vectors_to_tensors(values)
    ch.step(4)
    ch.check(tuple(tensors.shape) == (count, 3, 3) and tensors.dtype == dtype, "size or type of the tensors")
    for k, (a, b) in enumerate(PAIRS):
        ch.check(torch.equal(tensors[:, a, b], keep[:, k]), f"tensor component {a}{b}")
        ch.check(torch.equal(tensors[:, b, a], keep[:, k]), f"tensor component {b}{a}")
    source = tensors.clone()
    back = polarizability_tensors_to_vectors(source)
    ch.check(tuple(back.shape) == (count, 6) and torch.equal(back, keep), "vectors -> tensors -> vectors")
    ch.check(torch.equal(source, tensors) and torch.equal(values, keep), "input modified")
    again = polarizability_vectors_to_tensors(back)
    ch.check(torch.equal(again, tensors), "tensors -> vectors -> tensors")
    ch.observe(tensors.numpy(), ch.labels)


# ------------------------------------------------------------------ rotations
def directions(tier):
    m = 3 if tier == "quick" else 6
    grid = [np.array(v, float) for v in itertools.product(range(-m, m + 1), repeat=3) if any(v)]
    for tilt in (1e-1, 1e-3, 1e-5, 1e-7, 1e-9, 1e-14, 1e-18, 1e-20, 1e-23, 1e-30):
        for pole in (1.0, -1.0):
            grid += [np.array([pole, tilt, 0]), np.array([pole, 0, -tilt]), np.array([pole, -tilt, tilt / 2])]
    return np.array(grid)


def rotations(tier):
    def scenario(ch):
        dtype = ch.choose("dtype", [torch.float32, torch.float64])
        length = ch.choose("length", [1.0, 1e-6, 0.3, 7.0, 1e6, "mixed"])
        batch = ch.choose("batch", [1, 2, 7, 10**6])
        order = ch.choose("order", ["given", "reversed"])
        torch.set_default_dtype(dtype)
        tol = 2e-6 if dtype == torch.float32 else 1e-7
        vectors = directions(tier)
        if order == "reversed":
            vectors = vectors[::-1].copy()
        unit = vectors / np.linalg.norm(vectors, axis=1)[:, None]
        lengths = 10.0 ** ref.fill((len(vectors),), 5, 4.0) if length == "mixed" else np.full(len(vectors), length)
        targets = torch.tensor(unit * lengths[:, None], dtype=dtype)
        keep = targets.clone()
        found = []
        for k in range(0, len(targets), batch):
            found.append(get_rotations(targets[k : k + batch]).double().numpy())
            ch.step()
        found = np.concatenate(found)
        ch.check(torch.equal(keep, targets), "input modified")
        ch.check(found.shape == (len(vectors), 3, 3), "shape")
        for r, u in zip(found, unit):
            ch.check(np.isfinite(r).all(), lambda: f"{u}: {r}")
            ch.check(np.abs(r @ r.T - np.eye(3)).max() < tol, lambda: f"not orthogonal for {u}: {r}")
            ch.check(abs(np.linalg.det(r) - 1) < tol, lambda: f"not proper for {u}: {r}")
            ch.check(np.abs(r[:, 0] - u).max() < tol, lambda: f"(1,0,0) -> {r[:, 0]} instead of {u}")
        ch.observe(ch.labels)

    return scenario


# ------------------------------------------------------------------ radius graphs
def oracle(lattice, positions, cutoff):
    edges = {}
    for s, (l, p) in enumerate(zip(lattice, positions)):
        n = len(p)
        for a in range(n):
            for b in range(n):
                if a != b:
                    d = ref.min_image(p[b] - p[a]) @ l
                    r = np.linalg.norm(d)
                    if r <= cutoff:
                        edges[(s, a + s * n, b + s * n)] = (d / r, r)
    return edges


def graphs(ch):
    dtype = ch.choose("dtype", [torch.float32, torch.float64])
    first = ch.choose("lattice", ["cubic", "general", "lefthanded", "tricl", "fcc"])
    n = ch.choose("atoms", [1, 2, 3, 5, 9])
    samples = ch.choose("samples", [1, 2, 5])
    mixed = ch.flag("different lattices") if samples > 1 else False
    images = ch.choose("images", ["wrapped", "shifted atoms", "far"])
    cutoff = ch.choose("cutoff", [0.5, 2.0, 3.2, 5.0, 50.0])
    torch.set_default_dtype(dtype)
    names = [first, "ortho", "mono", "hex", "general"] if mixed else [first] * 5
    lattice = np.array([ref.LATTICES[k] for k in names[:samples]])
    positions = np.array([ref.p1_positions(n, 3 * s) for s in range(samples)])
    if images == "shifted atoms":
        positions = positions + np.round(ref.fill(positions.shape, 2, 1.4))
    elif images == "far":
        positions = positions + np.round(ref.fill(positions.shape, 3, 40.0))
    gap = np.array([np.abs(np.abs(ref.min_image(p[:, None] - p[None])) - 0.5).min() for p in positions])
    tol = 2e-4 if dtype == torch.float32 else 1e-9
    assert gap.min() > 1e-4, "generator"
    while len(oracle(lattice, positions, cutoff - 1e-3)) != len(oracle(lattice, positions, cutoff + 1e-3)):
        cutoff += 1e-3  # no distance is close to the cutoff
    want = oracle(lattice, positions, cutoff)
    tensors = torch.tensor(lattice, dtype=dtype), torch.tensor(positions, dtype=dtype)
    keep = [t.clone() for t in tensors]
    edges, units, distances = _radius_graph_pbc(*tensors, cutoff)
    ch.step()
    ch.check(all(torch.equal(a, b) for a, b in zip(keep, tensors)), "input modified")
    ch.check(tuple(edges.shape) == (3, len(want)), lambda: f"{edges.shape[1]} edges instead of {len(want)}")
    ch.check(tuple(units.shape) == (len(want), 3) and tuple(distances.shape) == (len(want), 1), "shapes")
    seen = set()
    for edge, u, r in zip(edges.T.tolist(), units.double().numpy(), distances.double().numpy()):
        edge = tuple(edge)
        ch.check(edge in want and edge not in seen, lambda: f"edge {edge}")
        seen.add(edge)
        ch.check(np.abs(u - want[edge][0]).max() < tol, lambda: f"unit vector of {edge}: {u} {want[edge][0]}")
        ch.check(abs(r[0] - want[edge][1]) < tol * 10, lambda: f"distance of {edge}: {r} {want[edge][1]}")
    ch.observe(sorted(seen), units.numpy())


def ties(ch):
    """Distances which are exactly the cutoff, in numbers without rounding."""
    dtype = ch.choose("dtype", [torch.float32, torch.float64])
    torch.set_default_dtype(dtype)
    side = ch.choose("side", [[4, 4, 4], [8, 4, 16], [2, 8, 8]])
    samples = ch.choose("samples", [1, 3])
    cutoff = ch.choose("cutoff", [0.5, 1.0, 2.0, 5.0])
    axis = ch.choose("axis", [0, 1, 2])
    fractions = [0.0, 0.25, 0.375, 0.0625, 0.9375] if axis == 0 else [0.125, 0.25, 0.375, 0.0, 0.75]
    p = np.zeros((len(fractions), 3)) + 0.25
    p[:, axis] = fractions
    if cutoff == 5.0:  # 3, 4, 5
        side = [16, 16, 16]
        p[:, (axis + 1) % 3] = [0.0, 0.25, 0.125, 0.1875, 0.75]
    lattice = np.array([np.diag(np.roll(np.array(side, float), k)) for k in range(samples)])
    positions = np.array([p] * samples)
    want = oracle(lattice, positions, cutoff)
    edges, units, distances = _radius_graph_pbc(
        torch.tensor(lattice, dtype=dtype), torch.tensor(positions, dtype=dtype), cutoff)
    ch.step()
    ch.check(sorted(map(tuple, edges.T.tolist())) == sorted(want), lambda: f"edges {edges.T.tolist()} instead of {sorted(want)}")
    for edge, u, r in zip(edges.T.tolist(), units.double().numpy(), distances.double().numpy()):
        d = want[tuple(edge)]
        half = np.abs(np.abs(ref.min_image(np.diff(p[[edge[1] % 5, edge[2] % 5]], axis=0))[0]) - 0.5) < 1e-9
        ch.check(abs(r[0] - d[1]) < 1e-6, "distance")
        ch.check(np.abs(np.where(half, np.abs(u), u) - np.where(half, np.abs(d[0]), d[0])).max() < 1e-6, "unit vector")
    ch.observe(sorted(want), samples)


# ------------------------------------------------------------------ triplets
GRAPHS = {
    "pair": [(0, 1), (1, 0)],
    "chain": [(0, 1), (1, 0), (1, 2), (2, 1)],
    "triangle": [(a, b) for a in range(3) for b in range(3) if a != b],
    "complete4": [(a, b) for a in range(4) for b in range(4) if a != b],
    "two pairs": [(0, 2), (1, 3), (2, 0), (3, 1)],
    "lonely": [(0, 1), (1, 0), (0, 3), (3, 0), (1, 3), (3, 1)],
}


def single(name):
    """Triplets k->j->i of a graph as a sorted list of edge pairs."""
    edges = GRAPHS[name]
    return sorted((k, j, i) for k, j in edges for j2, i in edges if j == j2 and i != k)


def build(root):
    edges = GRAPHS[root]
    nodes = max(max(e) for e in edges) + 1
    tensor = torch.tensor([[0] * len(edges), [e[0] for e in edges], [e[1] for e in edges]])
    return (BatchTriplets(nodes, tensor), nodes), []


SIZES = [1, 2, 3, 7, 40]


def apply(real, model, label):
    triplets, nodes = real
    model.append(int(label))
    _compare(triplets, nodes, int(label))


def _compare(triplets, nodes, size):
    i, j, index_i, index_j, index_k, first, second = (t.numpy() for t in triplets.get_triplets(size))
    name = next(k for k, g in GRAPHS.items() if len(g) * size == len(i) and max(map(max, g)) + 1 == nodes
                and sorted(zip(i[: len(g)], j[: len(g)])) in (sorted(g), sorted((b, a) for a, b in g)))
    edges, want = len(GRAPHS[name]), single(name)
    got = list(zip(index_k, index_j, index_i))
    if len(got) != size * len(want):
        raise Violation(f"{len(got)} triplets instead of {size * len(want)}")
    for s in range(size):
        part = got[s * len(want) : (s + 1) * len(want)]
        if sorted((a - s * nodes, b - s * nodes, c - s * nodes) for a, b, c in part) != want:
            raise Violation(f"triplets of sample {s}: {part}")
        pairs = [(a - s * nodes, b - s * nodes) for a, b in zip(i, j)][s * edges : (s + 1) * edges]
        if pairs != list(zip(i[:edges], j[:edges])):
            raise Violation(f"edges of sample {s}")
    for t, (k, jj, ii) in enumerate(got):
        s = t // len(want)
        for e in (first[t], second[t]):
            if not s * edges <= e < (s + 1) * edges:
                raise Violation(f"triplet {t} refers to an edge of another sample")
        if ((i[first[t]], j[first[t]]), (i[second[t]], j[second[t]])) != ((ii, jj), (jj, k)):
            raise Violation(f"edges of triplet {t}")
        if (first[t] - s * edges, second[t] - s * edges) != (first[t % len(want)], second[t % len(want)]):
            raise Violation(f"edge numbers of triplet {t} are not shifted")


def state(real, model):
    return tuple(model)


def scenarios(tier):
    depth = 4 if tier == "quick" else 5
    return [
        Tree("conversions", conversions, shard_depth=3),
        Tree("rotations", rotations(tier), shard_depth=3),
        Tree("ties", ties), Tree("graphs", graphs, shard_depth=4),
        Graph("triplets", build, lambda model: [str(s) for s in SIZES if not model or s != model[-1]],
              apply, state, depth, roots=tuple(GRAPHS)),
        in_place.tree("C26", tier),
    ]
