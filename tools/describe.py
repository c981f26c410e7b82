"""Writes properties.jsonl and MANIFEST.json from the table below (run from /verif)."""

import importlib.util
import json
import re
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
R = "ramannoodle/"
INTERP, ART = R + "pmodel/_interpolation.py", R + "pmodel/_art.py"
REFS, SUTIL = R + "structure/_reference.py", R + "structure/utils.py"
DISP, SYM = R + "structure/_displace.py", R + "structure/_symmetry_utils.py"
GNN, TUT, TRAIN = (R + "pmodel/torch/" + f for f in ("_gnn.py", "_utils.py", "_train.py"))
DS, DSU = R + "dataset/torch/_dataset.py", R + "dataset/torch/utils.py"
RAMAN, SPU = R + "spectrum/_raman.py", R + "spectrum/utils.py"
PH, TR = R + "dynamics/_phonon.py", R + "dynamics/_trajectory.py"
POS, XDAT, OUT, VRUN = (R + "io/vasp/" + f + ".py" for f in ("poscar", "xdatcar", "outcar", "vasprun"))
GEN, IOU, PMG = R + "io/generic.py", R + "io/_utils.py", R + "io/pymatgen.py"
CONST, EXC = R + "constants.py", R + "exceptions.py"

# id: (title, statement, over, quantifier text, why tests cannot, files, mechanisms)
P = {}


def prop(pid, title, statement, over, text, why, files, mechanisms, technique):
    assert len(title) <= 80, (pid, len(title))
    P[pid] = dict(
        id=pid, title=title, statement=" ".join(statement.split()),
        quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={"files": files, "mechanism": [
            {"name": n, "where": w} for n, w in mechanisms]},
        technique=technique,
    )


TREE = "bounded exhaustive exploration of the real code (choice-tree enumeration) against a reference model"
GRAPH = "explicit-state model checking: all operation histories up to a depth run on the real code and compared with a model state by state"
FAULT = "exhaustive fault-point enumeration on the real code"

prop("C01", "Periodic boundary conditions and minimum-image displacements",
     """Wrapping fractional positions returns congruent coordinates within one unit cell, and wrapping
     displacements returns congruent displacements with every component between -0.5 and 0.5.
     The displacement between two sets of positions is the componentwise shortest one congruent with
     their difference, does not depend on which periodic images are given, and displacing the first
     positions by it yields the second ones (modulo lattice vectors).
     Transforming positions by a rotation matrix and a translation yields positions times the matrix
     plus the translation, wrapped into the cell, and none of these operations modifies its inputs.""",
     ["inputs", "histories"], "all positions, displacements, lattice translations, batch shapes and dtypes",
     "Tests sample a few coordinates; exact halves, integers, negative images and batches are never combined.",
     [SUTIL], [("apply_pbc, apply_pbc_displacement", SUTIL), ("calc_displacement, displace_positions, transform_positions", SUTIL)],
     TREE)
prop("C02", "Symmetry-equivalent displacements and atoms are exactly the orbits",
     """For a crystal and a displacement of its atoms, the equivalent displacements reported are exactly
     the distinct images of that displacement under the space group, grouped into mutually orthogonal directions
     of collinear displacements, each listed with an operation that maps the given displacement onto it (where images are
     oblique to each other, a largest set of orthogonal ones). This holds in every lattice, origin and orientation of the axes, and for
     positions which obey the symmetry within the tolerance of the symmetry search only.
     The equivalent-atom table partitions the atoms exactly into the orbits of the space group, whatever
     the order of the atoms, and the number of non-equivalent atoms is the number of orbits.""",
     ["inputs", "configurations"], "all crystals, atom orders, origins, axes and tolerances, and all displacements",
     "Tests compare counts for a handful of oxide structures; a wrong permutation or rotation keeps the counts.",
     [REFS, SYM], [("symmetry dictionary and permutation matrices", REFS), ("get_equivalent_displacements", REFS), ("are_collinear, is_orthogonal_to_all", SYM)],
     TREE)
prop("C03", "Degrees of freedom added by symmetry predict the symmetry-rotated response",
     """If known polarizabilities obey the crystal's symmetry, an interpolation or ART model given one representative
     displacement of each orbit makes the same predictions as one given every displacement of the orbits explicitly,
     namely the response tensor rotated (in Cartesian space) along with the displacement.
     Predictions for symmetry-related configurations are related by the same operation,
     and this holds whatever atom order, origin, orbit representative or order of addition was used.""",
     ["inputs", "configurations", "histories"], "all crystals, symmetric response tensors, representatives and orders of addition",
     "Tests only compare one pre-computed TiO2 model; a tensor rotated the wrong way is invisible for most of its modes.",
     [INTERP, REFS, ART], [("_get_dof rotates polarizabilities", INTERP), ("get_equivalent_displacements", REFS)],
     TREE)
prop("C04", "Interpolation models reproduce data additively, independently of batching",
     """An interpolation (or ART) model reproduces every polarizability it was given, and between and beyond the given amplitudes
     predicts the reference polarizability plus, for each degree of freedom, the interpolating spline of the requested order evaluated at the
     projection of the minimum-image Cartesian displacement onto that degree of freedom.
     The prediction for a configuration does not depend on the batch it is part of (its size, order or other members), on the periodic images
     chosen for the atoms or on earlier evaluations, and evaluating never modifies the positions or the model.""",
     ["inputs", "configurations", "histories"], "all lattices, bases of degrees of freedom, amplitude sets, orders, batches and configurations",
     "Tests evaluate trained points of stored TiO2 data in small batches and compare with stored spectra.",
     [INTERP, ART], [("calc_polarizabilities", INTERP), ("_construct_and_add_interpolations", INTERP), ("get_amplitude", INTERP)],
     TREE)
prop("C05", "Degree-of-freedom additions are validated and atomic over any history",
     """After any history of additions, maskings and evaluations, the basis vectors of a model are orthonormal, the interpolations and the mask match them one to one,
     and the model predicts exactly the sum over the degrees of freedom successfully added so far.
     Adding a displacement that is not orthogonal to the existing ones (or whose symmetry images would not be), amplitudes that are duplicates (given or symmetry-generated), too few points for the order,
     an order below one or mis-shaped polarizabilities is rejected (InvalidDOFException for invalid degrees of freedom) and leaves the model exactly as it was.
     Valid additions are accepted whatever was added or rejected before.""",
     ["histories", "inputs"], "all histories of valid and invalid additions, masking, unmasking and evaluations",
     "Tests try single invalid additions on a fresh model; no test looks at the model after a rejection.",
     [INTERP, ART, SYM], [("orthogonality check", INTERP), ("duplicate and order checks before any state change", INTERP)],
     GRAPH)
prop("C06", "Masking removes exactly the masked degrees of freedom",
     """A masked model predicts the reference polarizability plus the contributions of its unmasked degrees of freedom only, so that for complementary masks the contributions add up to those of the unmasked model.
     Asking for a masked model yields an independent model of the same type with exactly the given degrees of freedom masked (any previous mask is replaced) and leaves the original unchanged; unmasking restores all contributions.
     Later masking, unmasking or adding on either of the models never affects the other, and degrees of freedom added to a masked model are unmasked and keep the existing mask.""",
     ["histories", "inputs"], "all masks and all histories of masking, copying, unmasking and adding",
     "Tests mask one atom type of one model and compare one spectrum.",
     [INTERP, ART], [("get_masked_model, mask, unmask", INTERP)], GRAPH)
prop("C07", "Arrays, files and pymatgen structures specify identical degrees of freedom",
     """Specifying a degree of freedom or atomic Raman tensor by arrays, by OUTCAR or vasprun.xml files (paths given as strings, Path objects, a list or a single path) or by pymatgen structures with the same displaced
     structures and polarizabilities yields models with identical predictions, for any number of structures in any order, any sign of the amplitudes and any periodic images of the stored positions.
     Structures that are not all displaced along one line, have another number of atoms or (for ARTs) displace several atoms are rejected with InvalidDOFException whichever structure is at fault, leaving the model unchanged.""",
     ["inputs", "histories"], "all displaced structures, file orders, periodic images, routes and fault positions",
     "Tests exercise each route on one stored data set with its own expectations, never the same data through all routes.",
     [INTERP, ART, PMG, GEN], [("_read_dof", INTERP), ("_get_displacement_amplitudes_pymatgen", INTERP), ("add_art_from_files", ART)], TREE)
prop("C08", "Dummy models track degrees of freedom but never predict",
     """A dummy model given the same displacements, atomic displacements, files or structures as a real model has the same degrees of freedom (basis vectors, mask, ART specification) and rejects the same invalid ones with the same exceptions, ignoring any polarizabilities; from files it also accepts formats holding only structures.
     Calculating polarizabilities or a Raman spectrum with a dummy model raises UserError in every state, whether or not degrees of freedom were added or masked.
     A model that is not a dummy never raises it.""",
     ["histories", "inputs"], "all histories of additions to a dummy and a real model in step",
     "Tests build one dummy model from a few files and compare its string form.",
     [INTERP, ART], [("is_dummy_model branches", INTERP), ("calc_polarizabilities raises UserError", INTERP)], GRAPH)
prop("C09", "Phonon Raman tensors are central differences along each mode",
     """The Raman spectrum of phonons under a polarizability model has the phonons' wavenumbers, in order, and for each mode the difference of the model's polarizabilities at the reference positions plus and minus a small fixed multiple of that mode's displacement, divided by that multiple.
     For models linear around the reference it is therefore exactly linear in the displacement, independent of the reference polarizability and of the other modes, and zero for modes that do not change the polarizability.
     Any number of modes and atoms is supported, an incompatible model raises ValueError, and neither phonons nor model are modified.""",
     ["inputs", "configurations"], "all phonon sets, polarizability models and mode orders",
     "Tests compare the final spectra of two stored systems within a tolerance after smoothing.",
     [PH], [("get_raman_spectrum", PH), ("RAMAN_TENSOR_CENTRAL_DIFFERENCE", CONST)], TREE)
prop("C10", "Polycrystalline phonon intensities and corrections follow the formulas",
     """For every mode the polycrystalline intensity is 45 times the squared mean of the diagonal plus 7 times the squared anisotropy of its Raman tensor, hence invariant under rotating or negating the tensor and quadratic in its scale.
     When requested, it is multiplied by the laser factor ((nu - nu_laser)/10^4)^4/nu with nu_laser = 10^7/wavelength and by the Bose-Einstein factor 1/(1-exp(-h c nu/(k T))), each only if its flag is set and independently of the parameters of the other.
     Measuring returns wavenumbers and intensities of all modes in order, never changes the spectrum, so that repeated measurements in any sequence of settings agree, and unsupported orientations or non-positive temperatures and wavelengths are refused.""",
     ["inputs", "histories"], "all Raman tensors, wavenumbers, correction settings and measurement sequences",
     "Tests compare stored spectra with default settings and check the refusals once.",
     [RAMAN], [("PhononRamanSpectrum.measure", RAMAN), ("get_laser_correction, get_bose_einstein_correction", RAMAN)], TREE)
prop("C11", "MD Raman spectra are Fourier transforms of polarizability autocorrelations",
     """For a polarizability time series and timestep the molecular-dynamics spectrum equals, at every positive frequency, 45 times the isotropic plus 7 times the anisotropic combination of the Fourier transforms of the positive-lag autocorrelations of the time derivative's components, with wavenumbers k/(S dt) converted from 1/fs to 1/cm and the zero frequency left out.
     Corrections are applied exactly as for phonon spectra, the result is unchanged by adding a constant tensor, quadratic in a common scale factor, and inversely stretched by the timestep; measuring never changes the spectrum object.
     The spectrum of a trajectory under a model equals that of the model's polarizabilities for its configurations in order.""",
     ["inputs", "histories"], "all series lengths (odd and even), values, timesteps, corrections and measurement sequences",
     "Tests compare one smoothed spectrum of one stored trajectory.",
     [RAMAN, SPU, TR], [("MDRamanSpectrum.measure", RAMAN), ("calc_signal_spectrum", SPU), ("Trajectory.get_raman_spectrum", TR)], TREE)
prop("C12", "Convolution is the linear superposition of normalized line shapes",
     """Convolving a spectrum returns, at every output wavenumber, the sum over all lines of intensity times a Gaussian (standard deviation = width) or Lorentzian (full width at half maximum = width) of unit area centred on the line; it is linear in the intensities and independent of the order of the lines.
     Given output wavenumbers are used exactly as given (any order, spacing or numeric type); otherwise an evenly spaced grid of about 1/cm covers all lines with a margin of 100/cm on both sides.
     Inputs are never modified and unsupported functions or non-positive widths raise ValueError.""",
     ["inputs"], "all line lists, widths, line shapes and output grids",
     "Tests compare two stored smoothed spectra.", [SPU], [("convolve_spectrum", SPU)], TREE)
prop("C13", "Displaced structures lie exactly at the requested amplitudes",
     """Displacing a structure along a Cartesian direction yields, for each amplitude in order, fractional positions (within the cell) whose minimum-image Cartesian displacement from the reference is the normalized direction times the amplitude, whatever the magnitude of the direction, the lattice and the sign of the amplitude.
     Displacing a single atom moves exactly that atom; the written files contain exactly these positions with the structure's lattice and atoms, one file per amplitude in the order of the given paths, and reading them back into a dummy or real model gives those amplitudes.
     A number of paths different from the number of amplitudes, an invalid atom index or a wrong shape is refused before any file is written.""",
     ["inputs"], "all lattices, directions, amplitudes, atoms, path lists",
     "Tests displace along one or two directions in one or two structures.",
     [DISP, REFS, POS], [("get_displaced_positions, write_displaced_structures", DISP), ("get_ast_displaced_positions", DISP)], TREE)
prop("C14", "Written structures and trajectories read back identically",
     """Writing a structure (POSCAR or XDATCAR) or a trajectory (XDATCAR) and reading it back, through any of the readers that accept the format, returns the same lattice, the same atomic numbers atom by atom, and the same positions, configuration by configuration, within the printed precision.
     This holds for any number of atoms, species and configurations and any label (a plain label is stored as the first line, and no label, whatever characters it contains, makes the file unreadable), and writing what was read reproduces the file contents.
     Writers never modify their arguments, and invalid structures (wrong shapes, unknown elements, positions outside the cell, species not grouped together) are refused without creating or altering a file.""",
     ["inputs", "histories"], "all lattices, compositions and groupings, positions, labels and write/read sequences",
     "Tests round-trip two or three stored structures.",
     [POS, XDAT, GEN], [("write_structure", POS), ("write_trajectory", XDAT), ("read_ref_structure, read_positions", POS)], TREE)
prop("C15", "Existing files are never overwritten unless asked to",
     """With overwrite disabled (the default), writing structures, trajectories or displaced structures onto a path that exists raises FileExistsError and leaves the existing content byte for byte, even if the file appears only while the call is running; with overwrite enabled the file holds exactly the new content, without remains of the old one.
     When several files are written, those written before a conflict are complete and no other existing file is touched.""",
     ["fault_sequences", "inputs", "schedules"], "all writers, path kinds, prior contents and points in time at which another process creates the file",
     "Tests try one pre-existing file per writer; a check-then-write race is invisible to them.",
     [POS, XDAT, DISP, GEN], [("exclusive creation mode", POS), ("exclusive creation mode", XDAT)], FAULT)
prop("C16", "Truncated or damaged input files never yield wrong data",
     """Reading a file that was cut off at any point, or in which any single line was deleted, blanked or garbled, either raises InvalidFileException or returns only values the undamaged file holds, in their places; it never returns shifted, mixed up or partially read structures, modes or tensors, never raises any other exception type and never runs forever.
     Missing files raise FileNotFoundError, and a failed read leaves models and other objects unchanged.""",
     ["crash_points", "inputs"], "all truncation points and all single-line damages of files of every format, with every reader",
     "Tests feed a few hand-damaged files per format; the space of cut positions is not covered.",
     [POS, XDAT, OUT, VRUN, GEN], [("InvalidFileException conversions", OUT), ("InvalidFileException conversions", VRUN), ("InvalidFileException conversions", POS)], FAULT)
prop("C17", "Equivalent files describe the same physics in every format and spelling",
     """The same crystal, polarizability, phonons or trajectory stored as OUTCAR, vasprun.xml, POSCAR or XDATCAR is read as the same lattice, atomic numbers, fractional positions, polarizability, wavenumbers (imaginary modes negative), displacements (eigenvectors divided by the square root of the masses, in fractional coordinates) and timestep.
     All spellings of a POSCAR are equivalent: universal scale factor or (negative) cell volume, direct or Cartesian coordinates, with or without selective dynamics, extra columns or trailing velocity blocks.""",
     ["inputs", "configurations"], "all crystals, compositions, mode sets, trajectories and file spellings",
     "Tests read a few stored files per format and compare with stored numbers.",
     [POS, XDAT, OUT, VRUN], [("readers", OUT), ("readers", VRUN), ("_read_positions, _read_lattice", POS), ("read_trajectory", XDAT)], TREE)
prop("C18", "Machine-learned OUTCAR trajectories keep exactly the force-field steps",
     """From an OUTCAR of a molecular-dynamics run on the fly with machine-learned force fields, the trajectory read consists of the configurations in order in which an ab-initio evaluation following immediately after a machine-learned step (a re-evaluation of the same configuration) is skipped, and every other configuration is kept exactly once.
     This holds for every sequence of machine-learned and ab-initio steps, for any number of atoms, and reduces to all configurations for purely ab-initio or purely machine-learned runs.""",
     ["schedules", "inputs"], "all sequences of ML and ab-initio steps up to a length",
     "Tests read one stored machine-learned run.", [OUT], [("_read_trajectory step filter", OUT)],
     TREE)
prop("C19", "Results and accessors are independent copies; arguments are never modified",
     """Every accessor of structures, models, spectra, phonons, trajectories and datasets that promises a copy returns data whose modification has no effect on the object, however it is nested, and every returned result (predictions, spectra, measured arrays, displaced positions) is likewise independent of the object and of later calls.
     No function of the library modifies the arrays, lists or objects passed to it.""",
     ["histories", "inputs"], "all accessors and operations in all orders, with each returned or passed array modified in between",
     "Tests never write into returned arrays.",
     [INTERP, REFS, RAMAN, PH, TR, DS], [("copying properties", INTERP), ("copying properties", REFS), ("copying properties", RAMAN)], GRAPH)
prop("C20", "Polarizability datasets scale, flatten and combine samples faithfully",
     """A polarizability dataset returns, sample by sample, the lattice, atomic numbers, positions and the scaled polarizability in the order (xx,yy,zz,xy,xz,yz), with (polarizability - mean)/standard deviation over the dataset (population) by default or with the given mean and deviation after rescaling, in any sequence of rescalings, while the raw polarizabilities stay unchanged.
     Building a dataset from OUTCAR or vasprun.xml files or pymatgen structures keeps the order of the inputs and equals building it from arrays; samples whose lattice, atomic numbers or number of atoms differ are rejected with IncompatibleStructureException whatever their place.""",
     ["inputs", "histories"], "all sample counts, values, rescaling histories and places of incompatible samples",
     "Tests read one stored set of files and compare a few numbers.",
     [DS, DSU, IOU, PMG], [("scale_polarizabilities", DS), ("_read_polarizability_dataset", IOU), ("construct_polarizability_dataset", PMG)], TREE)
prop("C21", "PotGNN predictions are per-configuration and respect periodicity",
     """For a fixed set of parameters the polarizability PotGNN predicts for a configuration does not depend on the batch it is evaluated in (its size, order or other members), on the sequence of batch sizes evaluated before, or on which periodic images of the atoms are given, nor on a common translation of all atoms.
     Predictions are symmetric tensors, equal to the network output scaled by the given standard deviation plus the given mean, one per configuration for any batch size including those beyond the internal sub-batch size.
     Predicting changes neither parameters nor running statistics nor the inputs.""",
     ["histories", "inputs", "configurations"], "all batch-size sequences, batch compositions, periodic images, structures",
     "Tests evaluate one batch size on one structure.",
     [GNN, TUT], [("BatchTriplets cache", TUT), ("batch_positions, calc_polarizabilities", GNN)], GRAPH)
prop("C22", "A training epoch uses the training set only and reports true losses",
     """One training epoch visits every training sample exactly once in batches of the requested size and updates the parameters by one optimizer step per batch; the validation set influences neither parameters nor running statistics nor optimizer state.
     The reported training loss is the mean of the batch losses, and the validation loss and prediction variance are those of the resulting network in evaluation mode on the validation set.
     This holds for validation sets of up to 100 samples. Afterwards the model is in evaluation mode and predicts deterministically.""",
     ["histories", "inputs"], "all training/validation set sizes, batch sizes, epoch sequences",
     "Tests only check that a training run does not crash.",
     [TRAIN], [("train_single_epoch", TRAIN)], TREE)
prop("C23", "Arguments of the wrong shape or type are rejected, never broadcast",
     """Constructors and functions that document an array shape raise ValueError for arrays of any other shape (other number of dimensions, transposed, longer, shorter, or broadcastable ones) and TypeError for arguments that are not arrays or lists where those are required (numbers and strings may raise either); arguments of the documented shapes are accepted for every size, axes of undocumented length having any length.
     Reference structures, and the writers of structures and trajectories, raise ValueError for fractional coordinates outside the interval from 0 to 1, and accept its ends.
     A rejected call has no effect on existing objects.""",
     ["inputs"], "all documented array arguments, each replaced by every wrong shape or type of a catalogue, at several sizes",
     "Tests try one or two wrong shapes for some arguments.",
     [EXC, REFS, INTERP, DISP, PH, TR, DS], [("verify_ndarray_shape, verify_list_len", EXC)], TREE)
prop("C24", "Fractional and Cartesian conversions are exact inverses",
     """For every lattice (including left-handed, skewed and non-orthogonal ones) a fractional displacement is converted to Cartesian as the minimum-image displacement times the lattice, back conversion inverts it, and both act row by row on any number of atoms and on batches of configurations.
     Directions are converted without applying periodic boundary conditions, so that converting a direction of any length back and forth returns it unchanged and preserves linearity.
     Inputs are not modified.""",
     ["inputs"], "all lattices, displacement and direction magnitudes, batch shapes",
     "Tests use two lattices and small displacements.",
     [REFS], [("get_cart_displacement, get_frac_displacement", REFS), ("get_cart_direction, get_frac_direction", REFS)], TREE)
prop("C25", "Results do not depend on what was done before",
     """Reading a file, building a structure or model, generating displaced structures, measuring a spectrum or evaluating predictions gives the same result whatever other library calls were made before on other (or the same) objects, files and formats, including calls that failed; independent objects never influence each other.
     In particular reading files of different sizes, formats and contents in any order, repeatedly, returns for each the same as a single read in a fresh process.
     Arguments and objects that were changed between two calls (an array in place, a model by another degree of freedom or mask, a network by its parameters, a file by rewriting it) are taken as they are at the time of the call.""",
     ["histories"], "all sequences of library calls up to a depth over a set of objects and files",
     "Tests run every call on fresh objects, in one fixed order.",
     [OUT, VRUN, POS, XDAT, INTERP, REFS], [("no module-level state in readers", OUT), ("class-level state only as constants", INTERP)], GRAPH)
prop("C26", "Tensor/vector conversions, rotations and radius graphs are exact",
     """Converting symmetric polarizability tensors to 6-vectors (xx,yy,zz,xy,xz,yz) and back is the identity in both directions for any number of samples.
     The rotation computed for a target vector is a proper rotation taking (1,0,0) onto the normalized target, for every nonzero target including those parallel and antiparallel to (1,0,0).
     The periodic radius graph of a batch contains, for every sample, exactly the ordered pairs of different atoms whose minimum-image (componentwise) distance does not exceed the cutoff, with the correct unit vectors and distances, the samples being disconnected from each other; triplets of a batch are exactly the shifted triplets of a single sample.""",
     ["inputs"], "all tensors, targets on a direction grid, lattices, positions, cutoffs and batch sizes",
     "Tests check one or two tensors and vectors.",
     [DSU, TUT, GNN], [("polarizability_vectors_to_tensors", DSU), ("get_rotations, _radius_graph_pbc, BatchTriplets", TUT)], TREE)
prop("C27", "The generic interface dispatches to the format-specific functions",
     """Every function of the generic I/O interface gives, for every supported format, the same result (or the same type of exception) as the format-specific function for that format, for the same arguments including overwrite and path types, and raises ValueError for any unsupported format name without touching a file.
     Path strings and Path objects are interchangeable everywhere.""",
     ["inputs", "configurations"], "all generic functions, formats, files, path types and overwrite settings",
     "Tests call some generic functions with some formats.",
     [GEN], [("dispatch tables", GEN)], TREE)
prop("C28", "Every chemical element is identified and weighted consistently",
     """For every chemical element, writing a structure and reading it from POSCAR, XDATCAR, OUTCAR (with any usual potential title) or vasprun.xml yields its atomic number, and atom lookup by symbol finds exactly its atoms.
     The mass used for phonon displacements read from OUTCAR and vasprun.xml is the element's standard atomic weight (the mass of a long-lived isotope for elements without one), for elements in any grouping and number.
     Files with symbols outside the periodic table are rejected by the readers, atomic numbers outside it by the writers.""",
     ["inputs"], "all 118 elements, potential titles, groupings",
     "Tests contain about ten elements.",
     [CONST, POS, OUT, VRUN, REFS], [("ATOM_SYMBOLS, ATOMIC_WEIGHTS, ATOMIC_NUMBERS", CONST), ("_get_atomic_symbol_from_potcar_line", OUT)], TREE)
prop("C29", "Trajectories behave as sequences of wrapped configurations",
     """A trajectory has as many items as configurations; integer indexes (including negative ones), slices with any start, stop and step and iteration in both directions agree with the positions time series, which equals the given one wrapped into the unit cell; indexes out of range raise IndexError.
     Trajectories built from pymatgen trajectories (as positions or displacements) or files hold the same configurations, and Raman spectra do not depend on lattice translations of individual atoms and configurations.
     A timestep that is not positive is refused.""",
     ["inputs", "histories"], "all lengths, indexes, slices, lattice translations",
     "Tests index a stored trajectory at a few places.",
     [TR, PMG], [("__getitem__, __len__", TR), ("construct_trajectory", PMG)], TREE)
prop("C30", "ART bookkeeping: restrictions, specification tuples and DOF indexes",
     """An ART model accepts only single-atom displacements with one or two amplitudes (two if symmetry supplies no opposite one), at most three mutually orthogonal directions per atom; the general degree-of-freedom methods are refused with UserError.
     After any history, the specification tuples list every non-equivalent atom with its equivalent atoms and exactly the directions specified for it, the indexes reported for any mix of atom indexes and symbols are exactly (each once) the degrees of freedom displacing those atoms, and masking those indexes removes exactly these atoms' contributions.
     The textual summaries state the number of specified, total and masked degrees of freedom truthfully.""",
     ["histories", "inputs"], "all histories of ART additions in crystals with and without symmetry, all atom/symbol selections",
     "Tests compare the printed table of one model.",
     [ART, INTERP, REFS], [("add_art, get_specification_tuples, get_dof_indexes", ART)], GRAPH)

prop("C31", "PotGNN evaluates its message passing for every edge, whatever the labelling",
     """For given parameters the output of PotGNN is the one obtained by evaluating its embedding, node, edge and output blocks atom by atom and edge by edge of the periodic radius graph (each triplet pairing an edge with the edges that end where it starts), for any number of message passes, sizes, batch and either mode.
     It therefore does not depend on the order of the atoms or on the order and direction of the lattice vectors, is the same for a repeated cell, and separate fragments contribute independently in proportion to their edges; an element keeps its meaning for the parameters whatever the order in which the elements are listed.
     Automatic derivatives with respect to the parameters are the derivatives of the output, and resetting the parameters leaves no trace of the past.""",
     ["configurations", "inputs", "histories"], "all crystals, atom orders, lattice bases, supercells, message passes and modes within bounds",
     "Tests compare one trained network with stored numbers.",
     [GNN, TUT], [("_NodeBlock, _EdgeBlock, forward", GNN), ("BatchTriplets, radius_graph_pbc", TUT)], TREE)
prop("C32", "Spectra do not depend on how the crystal is described",
     """The same crystal, displacements and polarizabilities described with another order of the atoms, another origin, other lattice vectors of the same lattice or rotated Cartesian axes give the same degrees of freedom, the same predicted polarizabilities (in the rotated axes), the same Raman tensors and time series, and identical polycrystalline spectra of phonons and molecular dynamics, with and without corrections.
     This holds for interpolation and ART models, whether they are trained from arrays, files or pymatgen structures.""",
     ["configurations", "inputs"], "all descriptions of a crystal within bounds, all kinds of models and routes",
     "Tests use one description of each crystal.",
     [INTERP, ART, REFS, PH, TR, RAMAN], [("add_dof, calc_polarizabilities", INTERP), ("get_equivalent_displacements", REFS), ("get_raman_spectrum", PH)], TREE)

prop("C33", "Optional packages are optional, and their absence is reported",
     """With any of torch, torch_geometric and pymatgen missing, importing ramannoodle and everything that does not need the missing packages (models, spectra, file formats, displaced structures, and the routes of the packages which are there) works and gives the same results as with all packages.
     Everything that needs a missing package raises UserError, the first time and any later time, whichever module is imported or function called first.""",
     ["configurations", "histories"], "all combinations of missing packages, all first steps",
     "Tests run with all packages installed.",
     [IOU, GEN, PMG, INTERP, ART, DS], [("get_torch_missing_error, get_pymatgen_missing_error", EXC), ("TORCH_PRESENT", IOU), ("PYMATGEN_PRESENT", INTERP)], TREE)

prop("C34", "One-sided degrees of freedom are reported by a warning",
     """Adding a degree of freedom or atomic Raman tensor whose interpolation points, after all symmetry considerations, do not lie on both sides of the reference issues a DOFWarning, by whatever route it is specified, for dummy models as well, and again for every such addition.
     Additions with points on both sides issue none.""",
     ["inputs", "histories"], "all small sets of amplitudes, crystals, routes and kinds of models",
     "Tests silence the warning.",
     [INTERP, ART], [("InterpolationModel._construct_and_add_interpolations", INTERP), ("ARTModel.add_art", ART)], TREE)

IN_PLACE = re.search(r'TEXT = "(.*)"', (ROOT / "mc/histories.py").read_text()).group(1)


def main():
    (ROOT / "properties.jsonl").write_text("".join(
        json.dumps({k: v for k, v in p.items() if k != "technique"}) + "\n" for p in P.values()))
    checks, missing = [], []
    for pid, p in P.items():
        path = ROOT / "checks" / f"{pid.lower()}.py"
        if not path.exists():
            missing.append({"property": pid, "reason": "the check for this property is not built yet"})
            continue
        text = path.read_text()
        level = re.search(r'^LEVEL = "(\w+)"', text, re.M).group(1)
        bounds = re.search(r"^BOUNDS = \(?(.*?)^\)?\n?(?=ASSUMPTIONS)", text, re.M | re.S).group(1)
        bounds = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', bounds))
        if "in_place.tree" in text:
            bounds += "; " + IN_PLACE
        checks.append({
            "property": pid,
            "quick_cmd": f"bash check.sh {pid} quick",
            "thorough_cmd": f"bash check.sh {pid} thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": p["technique"],
            "level": level,
            "level_note": f"Exhaustive within: {bounds}. Trusts the reference models in mc/ and numpy/scipy.",
        })
    manifest = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "not_applicable": missing,
        "notes": "No hooks in /repo: all checks drive the unmodified code through its Python interface.",
    }
    (ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
    print(len(checks), "checks;", len(missing), "not claimed")


main()
