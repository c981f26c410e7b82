"""C18: OUTCARs of on-the-fly machine-learned molecular dynamics."""

import numpy as np

import ramannoodle.io.vasp as vasp_io
from mc import ref
from mc.core import Tree, scratch
from ramannoodle.exceptions import InvalidFileException
from ramannoodle.io import generic

PROPERTY = "C18"
LEVEL = "model_checking"
RULE = ""
BOUNDS = (
    "every sequence of machine-learned and ab-initio steps of up to 9 steps (thorough: 12) for 1 and 4 atoms, with and without "
    "additional per-step output and moving atoms; selected sequences of up to 400 steps and 40 atoms; OUTCARs without steps"
)
ASSUMPTIONS = [
    "a configuration computed ab initio right after a machine-learned step is printed twice, as VASP does (the library "
    "then skips the second block)"
]


class Filter:
    """The two-state machine deciding which blocks are configurations of the trajectory."""

    def __init__(self):
        self.after_ml = False

    def keeps(self, is_ml):
        kept = is_ml or not self.after_ml
        self.after_ml = is_ml
        return kept


def run(ch, steps, n, extra, style="repeat", moving=True):
    lattice = ref.LATTICES["general"]
    numbers = ref.p1_species(n)
    frames = [ref.p1_positions(n, k % 60) if moving else ref.p1_positions(n) + 0.001 * k for k in range(len(steps))]
    machine = Filter()
    want = [f for f, is_ml in zip(frames, steps) if machine.keeps(is_ml)]
    path = scratch() / "OUTCAR"
    path.write_text(ref.outcar(lattice, numbers, frames[0], None, frames=[f @ lattice for f in frames], ml=steps,
                               timestep=1.5, extra=extra, symmetry_block=extra, potcar_style=style))
    for read in (vasp_io.outcar.read_trajectory, lambda p: generic.read_trajectory(str(p), "outcar")):
        t = read(path)
        ch.step(len(steps))
        ch.check(len(t) == len(want), f"{len(t)} configurations instead of {len(want)}")
        ch.check(ref.congruent(t.positions_ts, np.array(want), 1e-9), "wrong configurations")
        ch.check(t.timestep == 1.5, "timestep")
    ch.observe(n, extra, steps, t.positions_ts)


TIER = "quick"


def words(ch):
    n = ch.choose("atoms", [1, 4])
    extra = ch.choose("extra", [False, True])
    steps = []
    while len(steps) < (9 if TIER == "quick" else 12):
        if steps and ch.choose("end", ["no", "yes"]) == "yes":
            break
        steps.append(ch.choose("step", {"ab-initio": False, "ML": True}))
    run(ch, steps, n, extra)


def long(ch):
    n = ch.choose("atoms", [1, 3, 40])
    count = ch.choose("steps", [25, 100, 400] if n < 40 else [25])
    pattern = ch.choose("pattern", {
        "ai": [False], "ml": [True], "alternating": [True, False], "pairs": [True, True, False, False],
        "rare": [True] * 9 + [False], "single_ml": [False] * 6 + [True], "burst": [False] * 3 + [True] * 5})
    shift = ch.choose("shift", [0, 1])
    style = ch.choose("style", ["repeat", "vrhfin", "once"])
    steps = [pattern[(k + shift) % len(pattern)] for k in range(count)]
    run(ch, steps, n, ch.choose("extra", [False, True]), style, False)


def empty(ch):
    n = ch.choose("atoms", [1, 3])
    p = ref.p1_positions(n)
    path = scratch() / "OUTCAR"
    path.write_text(ref.outcar(ref.LATTICES["general"], ref.p1_species(n), p, np.eye(3)))
    try:
        vasp_io.outcar.read_trajectory(path)
    except InvalidFileException:
        ch.step()
        return ch.observe(n)
    ch.check(False, "trajectory without configurations")


def scenarios(tier):
    global TIER
    TIER = tier
    return [Tree("words", words, shard_depth=8), Tree("long", long, shard_depth=4), Tree("empty", empty, procs=1)]
