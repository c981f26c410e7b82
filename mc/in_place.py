"""The objects, changes and calls of mc.histories, by property."""

import numpy as np
import torch

import ramannoodle.io.vasp as vasp_io
from mc import core, histories, ref
from mc.histories import Cell
from ramannoodle.dataset.torch import PolarizabilityDataset
from ramannoodle.dataset.torch.utils import polarizability_tensors_to_vectors, polarizability_vectors_to_tensors
from ramannoodle.dynamics import Phonons, Trajectory
from ramannoodle.io import generic
from ramannoodle.pmodel import ARTModel, InterpolationModel
from ramannoodle.pmodel.torch import PotGNN
from ramannoodle.pmodel.torch._utils import _radius_graph_pbc, get_rotations
from ramannoodle.spectrum import MDRamanSpectrum, PhononRamanSpectrum
from ramannoodle.spectrum.utils import calc_signal_spectrum, convolve_spectrum
from ramannoodle.structure import ReferenceStructure, get_ast_displaced_positions, get_displaced_positions
from ramannoodle.structure.utils import apply_pbc, apply_pbc_displacement, calc_displacement, displace_positions

torch.set_num_threads(1)
L, L2 = ref.LATTICES["general"], ref.LATTICES["tricl"]


def crystal(name):
    lattice, positions, numbers = ref.crystals()[name]
    return ReferenceStructure(numbers, lattice, positions)


def p1(n=3, lattice=L):
    return ReferenceStructure(ref.p1_species(n), lattice, ref.p1_positions(n))


# ------------------------------------------------------------------ changes of arrays
def nudge(name, scale):
    """Change one component by a part of itself."""
    def change(o):
        o[name].reshape(-1)[1] *= 1 + scale
        o[name].reshape(-1)[0] += scale * np.abs(o[name]).max()
    return change


def replace(name):
    def change(o):
        o[name][...] = np.roll(o[name].reshape(-1), 1).reshape(o[name].shape) * 1.25
    return change


def arrays(*names, scales=(4e-4, 1e-7)):
    changes = {f"replace {n}": replace(n) for n in names}
    for scale in scales:
        changes |= {f"nudge {n} by {scale:g}": nudge(n, scale) for n in names[:1]}
    return changes


# ------------------------------------------------------------------ models
def interpolation_model(n=3):
    m = InterpolationModel(p1(n), ref.sym((), 1, 4.0))
    for k in range(2):
        m.add_dof(np.eye(3 * n)[4 * k].reshape(n, 3), np.array([-0.1, 0.12, 0.2]), ref.sym((3,), 2 + k), 1 + k)
    return m


def art_model():
    m = ARTModel(p1(3), ref.sym((), 4, 2.0))
    m.add_art(0, np.array([0.0, 0, 1]), np.array([-0.1, 0.1]), ref.sym((2,), 3))
    m.add_art(1, np.array([1.0, 0, 1]), np.array([-0.1, 0.1]), ref.sym((2,), 5))
    return m


def symmetric_model():
    s = crystal("rutile")
    m = InterpolationModel(s, np.diag([2.0, 2.0, 3.0]))
    m.add_dof(np.eye(18)[2].reshape(6, 3), np.array([0.1]), np.diag([2.3, 2.3, 2.9])[None], 1)
    return m


def add(o):
    m, n = o["model"], o["model"].ref_structure.num_atoms if hasattr(o["model"], "ref_structure") else o["x"].shape[1]
    for k in range(3 * n):
        try:
            if isinstance(m, ARTModel):
                m.add_art(k // 3, np.eye(3)[k % 3], np.array([-0.1, 0.1]), ref.sym((2,), k))
            else:
                m.add_dof(np.eye(3 * n)[k].reshape(n, 3), np.array([-0.1, 0.1]), ref.sym((2,), k), 1)
            return
        except Exception:  # pylint: disable=broad-except
            continue


def mask_first(o):
    mask = o["model"].mask
    mask[0] = not mask[0]
    o["model"].mask = mask


def unmask(o):
    o["model"].unmask()


def model_cells(makers):
    def make(maker):
        def build():
            m = maker()
            x = ref.crystals()["rutile"][1][None] if maker is symmetric_model else ref.p1_positions(3)[None]
            x = np.concatenate([x + ref.fill(x.shape, k, 0.03) for k in range(3)])
            return {"model": m, "x": x}
        return build

    return [Cell(maker.__name__, make(maker),
                 arrays("x", scales=(1e-3, 1e-6)) | {"add": add, "mask": mask_first, "unmask": unmask},
                 {"evaluate": lambda o: o["model"].calc_polarizabilities(o["x"]),
                  "evaluate some": lambda o: o["model"].calc_polarizabilities(o["x"][:2]),
                  "evaluate masked": lambda o: o["model"].get_masked_model([0]).calc_polarizabilities(o["x"]),
                  "describe": lambda o: [o["model"].cart_basis_vectors, o["model"].mask, repr(o["model"])] + (
                      [o["model"].get_specification_tuples()] if isinstance(o["model"], ARTModel) else [])}, 1e-12)
            for maker in makers]


# ------------------------------------------------------------------ structures
def structure_cell(name):
    def make():
        if name == "p1":
            s, n = p1(), 3
            u = ref.fill((n, 3), 3, 0.1)
        else:
            s, n = crystal(name), len(ref.crystals()[name][1])
            u = np.eye(3 * n)[3].reshape(n, 3) * 0.05
        return {"u": u, "structure": s, "other": p1(n, L2)}

    return Cell(name, make, arrays("u", scales=(4e-4, 1e-2, 1e-7)),
                {"images": lambda o: o["structure"].get_equivalent_displacements(o["u"]),
                 "images of a copy": lambda o: o["structure"].get_equivalent_displacements(o["u"].copy()),
                 "images of the negative": lambda o: o["structure"].get_equivalent_displacements(-o["u"]),
                 "atoms": lambda o: [o["structure"].get_equivalent_atom_dict(), o["structure"].num_nonequivalent_atoms],
                 "elsewhere": lambda o: o["other"].get_equivalent_displacements(o["u"])}, 1e-9)


def conversion_cell():
    names = ("get_cart_displacement", "get_frac_displacement", "get_cart_direction", "get_frac_direction")

    def make():
        return {"u": ref.fill((2, 3, 3), 3), "d": np.array([0.3, -0.5, 0.9]), "one": p1(), "two": p1(3, L2)}

    calls = {f"{name} {which}": lambda o, name=name, which=which: getattr(o[which], name)(
        o["d"] if "direction" in name else o["u"] if "cart" in name else o["u"][0])
             for name in names for which in ("one", "two")}
    return Cell("conversions", make, arrays("u", "d"), calls, 1e-12)


def pbc_cell():
    def make():
        return {"a": ref.p1_positions(3) + 0.3, "b": ref.fill((2, 3, 3), 4), "r": np.linalg.qr(ref.fill((3, 3), 7))[0]}

    return Cell("wrapping", make, arrays("a", "b"),
                {"positions": lambda o: apply_pbc(o["a"]), "displacement": lambda o: apply_pbc_displacement(o["b"]),
                 "difference": lambda o: calc_displacement(o["a"], o["b"]), "other difference": lambda o: calc_displacement(o["b"], o["a"]),
                 "displace": lambda o: displace_positions(o["a"], o["b"])}, 1e-13)


def displaced_cell():
    def make():
        return {"u": ref.fill((3, 3), 3), "amplitudes": np.array([0.1, -0.25, 0.4]), "d": np.array([0.3, -0.5, 0.9]), "one": p1(), "two": p1(3, L2)}

    return Cell("displaced", make, arrays("u", "amplitudes", "d"),
                {"displaced": lambda o: get_displaced_positions(o["one"], o["u"], o["amplitudes"]),
                 "displaced two": lambda o: get_displaced_positions(o["two"], o["u"], o["amplitudes"]),
                 "atom": lambda o: get_ast_displaced_positions(o["one"], 1, o["d"], o["amplitudes"]),
                 "other atom": lambda o: get_ast_displaced_positions(o["one"], 2, o["d"], o["amplitudes"])}, 1e-12)


# ------------------------------------------------------------------ spectra
def phonon_cell(maker):
    def make():
        if maker is symmetric_model:
            lattice, p, _ = ref.crystals()["rutile"]
        else:
            p = ref.p1_positions(3)
        n = len(p)
        return {"model": maker(), "x": p[None], "other": maker().get_masked_model([1]),
                "one": Phonons(p, np.array([50.0, 100, 400]), ref.fill((3, n, 3), 8, 0.05)),
                "two": Phonons(p, np.array([50.0, 100, 400]), ref.fill((3, n, 3), 4, 0.05))}

    def spectrum(o, phonons, model):
        s = o[phonons].get_raman_spectrum(o[model])
        return [s.phonon_wavenumbers, s.raman_tensors]

    return Cell(f"phonons {maker.__name__}", make, {"add": add, "mask": mask_first, "unmask": unmask},
                {f"{p} {m}": lambda o, p=p, m=m: spectrum(o, p, m) for p in ("one", "two") for m in ("model", "other")}, 1e-9)


def trajectory_cell(maker):
    def make():
        p = ref.crystals()["rutile"][1] if maker is symmetric_model else ref.p1_positions(3)
        n = len(p)
        return {"model": maker(), "x": p[None], "other": maker().get_masked_model([1]),
                "one": Trajectory(p + ref.fill((6, n, 3), 8, 0.03), 2.0), "two": Trajectory(p + ref.fill((6, n, 3), 4, 0.03), 2.0)}

    def spectrum(o, trajectory, model):
        s = o[trajectory].get_raman_spectrum(o[model])
        return [s.polarizability_ts, s.timestep, s.measure()]

    return Cell(f"trajectory {maker.__name__}", make, {"add": add, "mask": mask_first, "unmask": unmask},
                {f"{p} {m}": lambda o, p=p, m=m: spectrum(o, p, m) for p in ("one", "two") for m in ("model", "other")}, 1e-9)


def signal_cell():
    def make():
        return {"signal": ref.fill((9,), 3), "other": ref.fill((9,), 5)}

    return Cell("signals", make, arrays("signal", "other"),
                {"spectrum": lambda o: calc_signal_spectrum(o["signal"], 1.5), "other step": lambda o: calc_signal_spectrum(o["signal"], 0.5),
                 "other": lambda o: calc_signal_spectrum(o["other"], 1.5)}, 1e-12)


def measured_cell():
    def make():
        return {"w": np.array([100.0, 350, 720]), "t": ref.sym((3,), 2), "a": ref.sym((9,), 3)}

    return Cell("measured", make, arrays("w", "t", "a"),
                {"phonon": lambda o: PhononRamanSpectrum(o["w"], o["t"]).measure(),
                 "phonon corrected": lambda o: PhononRamanSpectrum(o["w"], o["t"]).measure("polycrystalline", True, 633, True, 500),
                 "phonon otherwise": lambda o: PhononRamanSpectrum(o["w"], o["t"]).measure("polycrystalline", True, 532, True, 100),
                 "md": lambda o: MDRamanSpectrum(o["a"], 1.5).measure(), "md corrected": lambda o: MDRamanSpectrum(o["a"], 1.5).measure(
                     "polycrystalline", True, 633, True, 500)}, 1e-12)


def convolution_cell():
    def make():
        return {"w": np.array([100.0, 250, 300]), "i": np.array([1.0, 3, 2]), "out": np.linspace(0, 400, 9)}

    return Cell("convolution", make, arrays("w", "i", "out"),
                {"gaussian": lambda o: convolve_spectrum(o["w"], o["i"], "gaussian", 20, o["out"]),
                 "lorentzian": lambda o: convolve_spectrum(o["w"], o["i"], "lorentzian", 20, o["out"]),
                 "wide": lambda o: convolve_spectrum(o["w"], o["i"], "gaussian", 21, o["out"]),
                 "default": lambda o: convolve_spectrum(o["w"], o["i"])}, 1e-12)


# ------------------------------------------------------------------ datasets and networks
def dataset_cell():
    def make():
        return {"one": PolarizabilityDataset(L, ref.p1_species(2), ref.fill((3, 2, 3), 1), ref.sym((3,), 2, 3.0)),
                "two": PolarizabilityDataset(L2, ref.p1_species(3), ref.fill((3, 3, 3), 4), ref.sym((3,), 5, 3.0))}

    def scale(k, which):
        return lambda o: o[which].scale_polarizabilities(ref.sym((), 8 + k), np.full((3, 3), 1.5 + k))

    def view(d):
        return [d.positions, d.polarizabilities, d.scaled_polarizabilities, d.mean_polarizability, d.stddev_polarizability, d.atomic_numbers]

    return Cell("datasets", make, {"scale": scale(0, "one"), "scale otherwise": scale(1, "one"), "scale two": scale(0, "two")},
                {"describe": lambda o: view(o["one"]), "describe two": lambda o: view(o["two"]),
                 "sample": lambda o: [t.numpy() for t in o["one"][1]], "samples": lambda o: [[t.numpy() for t in o["one"][k]] for k in range(3)],
                 "sample two": lambda o: [t.numpy() for t in o["two"][1]]}, 1e-12)


def network(n=3, cutoff=9.0, seed=3):
    state = torch.get_rng_state()
    torch.manual_seed(seed)
    m = PotGNN(p1(n), cutoff, 3, 4, 1, 0.0, 10.0, ref.sym((), 1), np.ones((3, 3)))
    torch.set_rng_state(state)
    m.eval()
    return m


def network_cell():
    def make():
        return {"x": ref.p1_positions(3) + ref.fill((2, 3, 3), 3, 0.03), "model": network(), "other": network(seed=7),
                "lattice": np.broadcast_to(L, (2, 3, 3)).copy()}

    def shift(o):
        with torch.no_grad():
            for p in o["model"].parameters():
                p.mul_(1.1)

    def forward(o):
        numbers = torch.tensor([ref.p1_species(3)] * 2)
        return o["model"](torch.tensor(o["lattice"], dtype=torch.float32), numbers, torch.tensor(o["x"], dtype=torch.float32)).detach().numpy()

    return Cell("network", make, arrays("x", "lattice", scales=(1e-3,)) | {"parameters": shift},
                {"evaluate": lambda o: o["model"].calc_polarizabilities(o["x"]), "evaluate one": lambda o: o["model"].calc_polarizabilities(o["x"][:1]),
                 "forward": forward, "other": lambda o: o["other"].calc_polarizabilities(o["x"])}, 1e-5)


def tensor_cell():
    def make():
        v = torch.tensor(ref.fill((4, 6), 3), dtype=torch.float32)
        d = torch.tensor(ref.fill((5, 3), 4), dtype=torch.float32)
        return {"v": v, "d": d, "t": polarizability_vectors_to_tensors(v).clone(), "x": torch.tensor(ref.p1_positions(3)[None], dtype=torch.float32),
                "l": torch.tensor(L[None], dtype=torch.float32)}

    def halve(name):
        def change(o):
            o[name].mul_(0.75)
        return change

    return Cell("tensors", make, {f"scale {k}": halve(k) for k in ("v", "d", "t", "x", "l")},
                {"tensors": lambda o: polarizability_vectors_to_tensors(o["v"]).numpy(), "vectors": lambda o: polarizability_tensors_to_vectors(o["t"]).numpy(),
                 "rotations": lambda o: get_rotations(torch.nn.functional.normalize(o["d"])).numpy(),
                 "graph": lambda o: [t.numpy() for t in _radius_graph_pbc(o["l"], o["x"], 6.0)]}, 1e-6)


# ------------------------------------------------------------------ files
def dof_cell(kind):
    folder = core.scratch
    u = np.zeros((2, 3))
    u[0, 2] = 1

    def write(path, k, amplitude):
        z, p, a = ref.p1_species(2), ref.p1_positions(2) + amplitude * u @ np.linalg.inv(L), ref.sym((), k + 1, 3.0)
        path.write_text(ref.outcar(L, z, p, a) if kind == "outcar" else ref.vasprun(L, z, p, a))

    def make():
        paths = [core._SCRATCH[1] / f"dof{k}" for k in range(2)]
        for k, path in enumerate(paths):
            write(path, k, 0.1 * (k + 1))
        return {"paths": paths}

    def rewrite(tag, amplitude):
        def change(o):
            for k, path in enumerate(o["paths"]):
                write(path, k + tag, amplitude * (k + 1))
        return change

    def swap(o):
        texts = [p.read_text() for p in o["paths"]]
        for p, text in zip(o["paths"], texts[::-1]):
            p.write_text(text)

    def model(o, cls):
        m = cls(ReferenceStructure(ref.p1_species(2), L, ref.p1_positions(2)), ref.sym((), 9))
        if cls is ARTModel:
            m.add_art_from_files(o["paths"], kind)
        else:
            m.add_dof_from_files(o["paths"], kind, 1)
        return [m.cart_basis_vectors, m.calc_polarizabilities(ref.p1_positions(2) + ref.fill((2, 2, 3), 1, 0.02))]

    def samples(o):
        d = generic.read_polarizability_dataset(o["paths"], kind)
        return [d.positions, d.polarizabilities]

    read = (vasp_io.outcar if kind == "outcar" else vasp_io.vasprun).read_structure_and_polarizability
    return Cell(f"files {kind}", make, {"new polarizabilities": rewrite(3, 0.1), "new amplitudes": rewrite(0, 0.15), "swap": swap, "signs": rewrite(0, -0.1)},
                {"interpolation": lambda o: model(o, InterpolationModel), "art": lambda o: model(o, ARTModel), "dataset": samples,
                 "structure": lambda o: list(read(o["paths"][0]))}, 1e-9)


def writer_cell():
    def make():
        return {"l": L.copy(), "p": ref.p1_positions(3), "z": ref.p1_species(3), "path": core._SCRATCH[1] / "written"}

    def write(o, file_format):
        generic.write_structure(o["l"], o["z"], o["p"], o["path"], file_format, overwrite=True)
        return o["path"].read_text()

    def trajectory(o, frames):
        vasp_io.xdatcar.write_trajectory(o["l"], o["z"], np.array([o["p"], o["p"] * 0.9][:frames]), o["path"], overwrite=True)
        return o["path"].read_text()

    def swap(o):
        o["z"].reverse()

    def remove(o):
        o["path"].unlink(missing_ok=True)

    return Cell("writers", make, arrays("p", "l", scales=(1e-7,)) | {"species": swap, "remove": remove},
                {"poscar": lambda o: write(o, "poscar"), "one frame": lambda o: trajectory(o, 1), "trajectory": lambda o: trajectory(o, 2)}, 0)


BY_PROPERTY = {
    "C01": lambda: [pbc_cell()],
    "C02": lambda: [structure_cell(name) for name in ("p1", "rutile", "p21")],
    "C03": lambda: model_cells([symmetric_model]),
    "C04": lambda: model_cells([interpolation_model, art_model]),
    "C06": lambda: model_cells([interpolation_model, art_model]),
    "C07": lambda: [dof_cell(kind) for kind in ("outcar", "vasprun.xml")],
    "C09": lambda: [phonon_cell(maker) for maker in (interpolation_model, art_model, symmetric_model)],
    "C10": lambda: [measured_cell()],
    "C11": lambda: [trajectory_cell(maker) for maker in (interpolation_model, art_model)] + [signal_cell()],
    "C12": lambda: [convolution_cell()],
    "C13": lambda: [displaced_cell()],
    "C14": lambda: [writer_cell()],
    "C20": lambda: [dataset_cell()],
    "C21": lambda: [network_cell()],
    "C24": lambda: [conversion_cell()],
    "C26": lambda: [tensor_cell()],
    "C29": lambda: [trajectory_cell(interpolation_model)],
    "C30": lambda: model_cells([art_model]),
}


def cells(prop):
    if prop == "C25":
        found = {cell.name: cell for make in BY_PROPERTY.values() for cell in make()}
        return list(found.values())
    return BY_PROPERTY[prop]()


def tree(prop, tier):
    return histories.tree(cells(prop), tier)
