"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), spec="", note="", technique=None):
    P.append({
        "rec": {
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                "mechanism": [{"name": a, "where": b} for a, b in mechanism],
                "observe_at": observe, "hook_needed": None,
            },
        },
        "spec": spec, "note": note,
        "technique": technique,
    })


G = "phono3py/phonon/grid.py"
prop("C01", "The sampling grid covers reciprocal space exactly once",
     "For every lattice, mesh or grid generating matrix, shift and index layout, grid addresses and indices are in bijection, the plain grid has one point per residue class (as many as the determinant of the grid matrix), and the two index maps between plain grid and Brillouin-zone grid are mutually consistent. The BZ grid lists for every plain grid point exactly the shortest translationally equivalent addresses, and Gamma and arbitrary addresses are looked up at the right index. A grid is refused only if it really breaks the point group.",
     ["inputs", "configurations"],
     "all lattices (including skewed, non-reduced bases), diagonal meshes and generalized grid matrices, half-grid shifts, both gp_map layouts, all point groups compatible with the lattice",
     "tests compare a handful of stored address tables for three crystals; grids with anisotropic Smith normal forms, skewed bases or shifts never occur there",
     [G, "c/bzgrid.c", "c/grgrid.c", "c/recgrid.c"],
     [("BZGrid", G), ("bzg_get_bz_grid_addresses", "c/bzgrid.c"), ("GridMatrix / SNF", G)],
     ["BZGrid.addresses", "BZGrid.gp_map", "BZGrid.bzg2grg", "BZGrid.grg2bzg", "get_grid_point_from_address"],
     spec="Grid")
prop("C02", "Symmetry acts on grid points as it acts on q-points",
     "The grid's reciprocal operations are exactly the transposed inverses of the crystal's rotations, completed by time reversal if asked for, and the integer rotations of grid addresses represent them. Rotating a grid point by any operation gives the index of the rotated q-point (the very address when surface points are kept), and irreducible grid points, their map and weights are exactly the orbits of the group and their sizes, summing to the number of grid points.",
     ["inputs", "configurations"],
     "all lattices, grids, shifts and all subgroups of the lattice point group, with and without time reversal",
     "tests check irreducible-point counts and tables for a few full-symmetry crystals; subgroups, shifts and generalized grids of low symmetry are not sampled",
     [G, "c/grgrid.c", "c/bzgrid.c"],
     [("BZGrid._set_rotations", G), ("get_ir_grid_points", G), ("get_grid_points_by_rotations", G), ("bzg_rotate_grid_index", "c/bzgrid.c")],
     ["BZGrid.rotations", "BZGrid.reciprocal_operations", "get_ir_grid_points", "get_grid_points_by_rotations"],
     spec="Grid")
prop("C03", "Triplets at q conserve crystal momentum and stand for all pairs",
     "For every grid point q0, each listed triplet (q0, q1, q2) sums to a reciprocal lattice vector, with a zero sum whenever translationally equivalent points allow it (normal process), and the weights of the irreducible triplets add up to the number of grid points. Two pairs share an irreducible triplet exactly when a symmetry operation that keeps q0, time reversal where allowed, or exchange of q1 and q2 relates them, and without symmetry every q1 is listed once with weight one.",
     ["inputs", "configurations"],
     "all grid points of all grids, point groups, both gp_map layouts, swappable or not, with and without symmetry",
     "tests compare triplet tables of two crystals at a few grid points",
     ["phono3py/phonon3/triplets.py", "c/triplet_grid.c", "c/triplet.c"],
     [("get_triplets_at_q", "phono3py/phonon3/triplets.py"), ("tpk_get_ir_triplets_at_q", "c/triplet_grid.c"), ("get_nosym_triplets_at_q", "phono3py/phonon3/triplets.py")],
     ["get_triplets_at_q", "get_nosym_triplets_at_q", "get_all_triplets", "Interaction.get_triplets_at_q"],
     spec="Triplets")
prop("C04", "Generated displacements determine the force constants",
     "For every crystal, the displaced pairs generated for fc3 and the single displacements for fc2, expanded by the site symmetry they were reduced with, span all directions for every symmetrically independent atom and, for every first displacement, every second atom. Pair ids are unique and ordered as the supercells are, a cutoff distance excludes exactly the pairs farther apart than it without disturbing the numbering, displacements have the requested length, and plus-minus and random options do what they say.",
     ["inputs", "configurations"],
     "all crystals, supercells, plusminus/diagonal options, cutoff pair distances, random snapshot counts and seeds",
     "tests compare stored displacement tables of two crystals",
     ["phono3py/phonon3/displacement_fc3.py", "phono3py/api_phono3py.py", "phono3py/phonon3/dataset.py"],
     [("get_third_order_displacements", "phono3py/phonon3/displacement_fc3.py"), ("direction_to_displacement", "phono3py/phonon3/displacement_fc3.py"), ("Phono3py.generate_displacements", "phono3py/api_phono3py.py")],
     ["Phono3py.dataset", "Phono3py.supercells_with_displacements", "Phono3py.generate_displacements"],
     spec="Displace")
prop("C05", "Every force stays attached to the displacement it belongs to",
     "Whichever way forces and energies enter (setters, FORCES_FC3/FORCES_FC2, force sets files, dataset dictionaries of type 1 and type 2), the force array at position i belongs to the i-th displaced supercell, and writing and reading the data back returns the same displacements, forces and energies. Pairs excluded by a cutoff take no part in the force files, and incomplete or inconsistent input is refused rather than misassigned.",
     ["inputs", "configurations", "histories"],
     "all datasets (type 1 with any number of first and second atoms, cutoff subsets; type 2), all orders of setting",
     "tests round-trip one stored dataset",
     ["phono3py/file_IO.py", "phono3py/phonon3/dataset.py", "phono3py/api_phono3py.py"],
     [("parse_FORCES_FC3", "phono3py/file_IO.py"), ("write_FORCES_FC3", "phono3py/file_IO.py"), ("get_displacements_and_forces_fc3", "phono3py/phonon3/dataset.py"), ("forces setter", "phono3py/api_phono3py.py")],
     ["Phono3py.forces", "Phono3py.dataset", "FORCES_FC3", "disp_fc3.yaml"],
     spec="ForceSets")
prop("C06", "Force constants recover the force field and keep its invariances",
     "From forces of a harmonic plus cubic force field at the generated displacements the solver recovers its second- and third-order force constants, identically in full and compact layout. Symmetrization yields force constants with permutation symmetry and translational invariance and leaves already symmetric ones alone, in both layouts, and layout conversions are lossless.",
     ["inputs", "configurations"],
     "all crystals and force fields, full or compact force constants, with and without symmetrization and plusminus",
     "tests compare a few elements of fc3 of two crystals against stored numbers at loose tolerance",
     ["phono3py/phonon3/fc3.py", "c/fc3.c", "phono3py/api_phono3py.py", "phono3py/interface/fc_calculator.py"],
     [("get_fc3", "phono3py/phonon3/fc3.py"), ("set_permutation_symmetry_fc3", "phono3py/phonon3/fc3.py"), ("set_translational_invariance_fc3", "phono3py/phonon3/fc3.py"), ("fc3.c", "c/fc3.c")],
     ["Phono3py.fc3", "Phono3py.fc2", "Phono3py.produce_fc3", "Phono3py.symmetrize_fc3"],
     spec="ForceConst")
prop("C07", "Interaction strength does not depend on how it is computed",
     "The squared three-phonon interaction strength of a triplet of modes is non-negative, invariant under exchange of modes and under symmetry, and the same whether computed for all modes or only where integration weights are non-zero, from full or compact fc3, with the C or the Python implementation, with any triplet order, band selection or number of threads. It is scaled and cut off exactly as documented, modes below the cutoff frequency give zero.",
     ["inputs", "configurations", "schedules"],
     "all crystals, triplets, band selections, layouts, thread counts and evaluation paths",
     "tests compare sums of the strengths of one crystal in two or three configurations",
     ["phono3py/phonon3/interaction.py", "phono3py/phonon3/real_to_reciprocal.py", "phono3py/phonon3/reciprocal_to_normal.py", "c/interaction.c", "c/real_to_reciprocal.c", "c/reciprocal_to_normal.c"],
     [("Interaction.run", "phono3py/phonon3/interaction.py"), ("itr_get_interaction", "c/interaction.c")],
     ["Interaction.interaction_strength", "Phono3py.run_imag_self_energy"],
     spec="Interact")
prop("C08", "Phonons on the grid do not depend on the order they are asked for",
     "Whatever the sequence of requests (single grid points, all points, setting of stored phonons, re-solving with and without a NAC direction), once a point is marked solved its frequencies and eigenvectors are those of the dynamical matrix at that q-point, points are never solved twice to a different result, and Gamma is restored after a directional calculation. Stored phonons are accepted only for the very same grid.",
     ["histories", "configurations"],
     "all sequences of solver requests, NAC direction changes and data imports",
     "tests solve the whole grid once in one order",
     ["phono3py/phonon3/interaction.py", "phono3py/phonon/solver.py", "phono3py/api_phono3py.py"],
     [("Interaction.run_phonon_solver", "phono3py/phonon3/interaction.py"), ("run_phonon_solver_c", "phono3py/phonon/solver.py"), ("set_phonon_data", "phono3py/phonon3/interaction.py")],
     ["Interaction.get_phonons", "Phono3py.get_phonon_data", "Phono3py.set_phonon_data", "Phono3py.nac_q_direction"],
     state=[("phonon_done", "per grid point flag that frequencies and eigenvectors are stored", "phono3py/phonon3/interaction.py")],
     spec="Solver")
prop("C09", "Brillouin-zone integration weights follow the tetrahedron method",
     "The tetrahedron weights of every grid point and triplet equal the analytic linear-tetrahedron formula over the 24 tetrahedra around it, their sum over points integrates to the number of states, Gaussian weights are the stated Gaussian with the stated cutoff, and elements declared zero are exactly those where all weights vanish.",
     ["inputs", "configurations"],
     "all grids, frequency surfaces (including degenerate corner values), sampling frequencies and the three triplet functions",
     "tests compare integrated sums of one crystal at stored precision",
     ["c/tetrahedron_method.c", "c/triplet_iw.c", "phono3py/phonon3/triplets.py", "phono3py/other/tetrahedron_method.py"],
     [("thm_get_integration_weight", "c/tetrahedron_method.c"), ("tpi_get_integration_weight", "c/triplet_iw.c"), ("get_triplets_integration_weights", "phono3py/phonon3/triplets.py")],
     ["get_triplets_integration_weights", "get_integration_weights"],
     spec="Weights")
prop("C10", "The linewidth is the sum over triplets of strength, occupation and weight",
     "The imaginary part of the self-energy of every band and temperature equals the sum over triplets and band pairs of interaction strength, occupation factor and integration weight with the triplet weight, averaged over degenerate bands. It is additive in normal and Umklapp parts, equal to the summed per-triplet detail, and independent of band selection, frequency batches, sigma and temperature lists and of the C or Python implementation.",
     ["inputs", "configurations"],
     "all triplet sets, strengths, weights, frequencies, temperatures including zero, cutoffs and batches",
     "tests compare stored linewidths of two crystals at 1e-2..1e-1 relative tolerance",
     ["phono3py/phonon3/imag_self_energy.py", "c/imag_self_energy_with_g.c", "c/pp_collision.c"],
     [("ImagSelfEnergy", "phono3py/phonon3/imag_self_energy.py"), ("ise_get_imag_self_energy_at_bands_with_g", "c/imag_self_energy_with_g.c")],
     ["Phono3py.run_imag_self_energy", "ImagSelfEnergy.imag_self_energy", "ImagSelfEnergy.detailed_imag_self_energy"],
     spec="SelfEnergy")
prop("C11", "RTA thermal conductivity is assembled from its mode contributions",
     "Lattice thermal conductivity in RTA equals the sum over irreducible points and bands of heat capacity, symmetrized squared group velocity over the star and lifetime, divided by the number of grid points, with phonon-phonon, isotope and boundary rates added. It agrees with and without mesh symmetry and for the irreducible star versus all points, obeys the crystal symmetry, and modes below the cutoff frequency contribute nothing.",
     ["inputs", "configurations"],
     "all crystals, meshes, temperatures, sigma lists, boundary lengths, isotope variances and symmetry switches",
     "tests compare kappa of two crystals at 0.5 absolute tolerance",
     ["phono3py/conductivity/rta.py", "phono3py/conductivity/base.py", "phono3py/api_phono3py.py"],
     [("ConductivityRTA.set_kappa_at_sigmas", "phono3py/conductivity/rta.py"), ("HeatCapacityMixIn / ConductivityMixIn", "phono3py/conductivity/base.py")],
     ["Phono3py.thermal_conductivity", "kappa-*.hdf5"],
     spec="Kappa")
prop("C12", "Distributed linewidth runs assemble to the undistributed result",
     "Running grid points, or single bands of them, in any number of separate runs and any order, with interruption and resumption, and then assembling the files gives the conductivity of one undistributed run, with isotope, normal and Umklapp parts and averaged strengths as well. If any piece is missing the assembly is refused, and pieces of another mesh, sigma or name are never picked up.",
     ["histories", "schedules", "crash_points", "configurations"],
     "all partitions of the work into runs, all orders, interruptions before any file, sigma lists and file name tags",
     "no test distributes the work",
     ["phono3py/conductivity/rta.py", "phono3py/conductivity/utils.py", "phono3py/file_IO.py"],
     [("ConductivityRTAWriter.write_gamma", "phono3py/conductivity/utils.py"), ("set_gamma_from_file", "phono3py/conductivity/utils.py"), ("_get_filename_suffix", "phono3py/file_IO.py")],
     ["Phono3py.run_thermal_conductivity(write_gamma, read_gamma, grid_points)", "kappa-*.hdf5"],
     spec="Workload")
prop("C13", "The collision matrix solves the same equation in every form",
     "The collision matrix is symmetric with respect to exchange of modes, its irreducible and full forms lead to the same conductivity, its diagonal is the linewidth plus isotope and boundary rates, and the C and Python implementations agree. Computing it point by point, writing and reading it back whole, by grid points, by bands or by temperature indices gives the same conductivity.",
     ["inputs", "configurations", "histories"],
     "all crystals, meshes, temperatures and file layouts, reducible or irreducible matrix, pinv methods",
     "tests compare kappa of two crystals at 0.5 tolerance; file paths are not exercised",
     ["phono3py/phonon3/collision_matrix.py", "c/collision_matrix.c", "phono3py/conductivity/direct_solution.py", "phono3py/conductivity/utils.py"],
     [("CollisionMatrix", "phono3py/phonon3/collision_matrix.py"), ("ConductivityLBTE", "phono3py/conductivity/direct_solution.py"), ("set_collision_from_file", "phono3py/conductivity/utils.py")],
     ["Phono3py.run_thermal_conductivity(is_LBTE=True)", "collision-*.hdf5"],
     spec="Collision")
prop("C14", "Stored data files return what was computed",
     "Interaction strengths (full or compressed), phonons, force constants, linewidths, joint density of states and the other hdf5 outputs are read back exactly as they were written, with the grid, sigma, cutoff, grid point and band they belong to; conductivity computed from stored strengths equals that computed directly. File names distinguish grid point, band, sigma, cutoff and tag, and a file of inconsistent shape is refused.",
     ["inputs", "configurations"],
     "all shapes and values of the stored arrays, compression filters, parameters in names",
     "tests write and read two small arrays",
     ["phono3py/file_IO.py", "phono3py/conductivity/utils.py"],
     [("write_pp_to_hdf5 / read_pp_from_hdf5", "phono3py/file_IO.py"), ("write_phonon_to_hdf5", "phono3py/file_IO.py"), ("write_fc3_to_hdf5", "phono3py/file_IO.py")],
     ["pp-*.hdf5", "phonon-*.hdf5", "fc3.hdf5", "kappa-*.hdf5", "gamma_detail-*.hdf5"],
     spec="Files")
prop("C15", "Joint density of states counts the allowed pairs",
     "The joint density of states at a grid point equals the sum over triplets of the integration weights of all band pairs for the decay and the collision channel, at every frequency and temperature, with occupation weights when a temperature is given, independent of symmetry use and frequency batches.",
     ["inputs", "configurations"],
     "all crystals, meshes, grid points, temperatures, sigmas, tetrahedron method",
     "tests compare stored spectra of two crystals",
     ["phono3py/phonon3/joint_dos.py", "phono3py/api_jointdos.py", "c/triplet_iw.c"],
     [("JointDos", "phono3py/phonon3/joint_dos.py"), ("Phono3pyJointDos", "phono3py/api_jointdos.py")],
     ["Phono3pyJointDos.run", "JointDos.joint_dos"],
     spec="Jdos")
prop("C16", "Isotope scattering rates follow the mass-variance formula",
     "The phonon-isotope scattering rate of every mode equals the Tamura sum over all modes of mass variance, eigenvector overlap and integration weight; it vanishes without mass variance, is linear in the variances, agrees between the C and Python implementations and between symmetry-equivalent grid points, and mass variances default to the natural abundance.",
     ["inputs", "configurations"],
     "all crystals, meshes, mass variances, grid points, bands, sigma or tetrahedron",
     "tests compare stored rates of two crystals",
     ["phono3py/other/isotope.py", "phono3py/api_isotope.py", "c/isotope.c"],
     [("Isotope", "phono3py/other/isotope.py"), ("iso_get_isotope_scattering_strength", "c/isotope.c")],
     ["Phono3pyIsotope.run", "Isotope.gamma"],
     spec="Isotope")
prop("C17", "Real self-energy and spectral function are consistent with the linewidth",
     "The real part of the self-energy equals the principal-value triplet sum with the given broadening, in C and Python alike, and the spectral function is built from the imaginary part, its Kramers-Kronig transform and the harmonic frequency by the stated formula, per band, temperature and frequency.",
     ["inputs", "configurations"],
     "all crystals, grid points, bands, temperatures, epsilons, frequency points",
     "tests compare stored spectra of one crystal",
     ["phono3py/phonon3/real_self_energy.py", "phono3py/phonon3/spectral_function.py", "c/real_self_energy.c"],
     [("RealSelfEnergy", "phono3py/phonon3/real_self_energy.py"), ("SpectralFunction", "phono3py/phonon3/spectral_function.py")],
     ["Phono3py.run_real_self_energy", "Phono3py.run_spectral_function"],
     spec="RealSE")
prop("C18", "A saved calculation loads back to the same calculation",
     "Saving to phono3py.yaml and loading returns the same cells, supercell and primitive matrices, masses, magnetic moments, displacement-force datasets for fc3 and fc2, and NAC parameters (those of another calculator converted to the units of phono3py), and each input is taken from one source: precedence among yaml content, separate files and arguments is fixed, and none is silently mixed or lost.",
     ["inputs", "configurations"],
     "all crystals, dataset types, option combinations and file sets",
     "tests round-trip one or two files",
     ["phono3py/interface/phono3py_yaml.py", "phono3py/cui/load.py", "phono3py/api_phono3py.py"],
     [("Phono3pyYaml", "phono3py/interface/phono3py_yaml.py"), ("load", "phono3py/cui/load.py")],
     ["Phono3py.save", "phono3py.load", "phono3py_params.yaml"],
     spec="Yaml")
prop("C19", "Results always belong to the current inputs",
     "After any sequence of API calls that change inputs (force constants, mesh, band indices, sigmas, NAC parameters, masses, datasets) the objects either return results computed from the current inputs or refuse; no result, displaced supercell or phonon from before a change is returned as current, and repeated calls give the same result.",
     ["histories"],
     "all sequences of setters and run methods of the API",
     "tests call each method once on a fresh object",
     ["phono3py/api_phono3py.py", "phono3py/phonon3/interaction.py"],
     [("setters of Phono3py", "phono3py/api_phono3py.py"), ("init_phph_interaction", "phono3py/api_phono3py.py")],
     ["Phono3py"],
     state=[("interaction", "triplet solver bound to mesh, bands, fc and NAC", "phono3py/api_phono3py.py")],
     spec="Api")
prop("C20", "Command-line and file settings mean the same thing",
     "Every setting given by command-line option, configuration file or both has one documented meaning: the option overrides the file, values are parsed to the same typed value by both routes, unset settings keep their defaults, and unrelated settings are unaffected.",
     ["inputs", "configurations"],
     "all settings, values and combinations of configuration file and options",
     "tests run a few scripts end to end with fixed options",
     ["phono3py/cui/settings.py", "phono3py/cui/phono3py_argparse.py"],
     [("Phono3pyConfParser", "phono3py/cui/settings.py"), ("get_parser", "phono3py/cui/phono3py_argparse.py")],
     ["Phono3pyConfParser.settings"],
     spec="Settings")
prop("C21", "Cumulative quantities accumulate every mode once",
     "Cumulative and differential thermal conductivity, density-of-states-like and joint quantities computed from a kappa file add up over the full range to the total, never lose or double count a grid point or band, are monotonic for non-negative contributions, and do not depend on whether irreducible or all grid points are used.",
     ["inputs", "configurations"],
     "all kappa data sets, meshes, sampling points, temperatures, quantities",
     "tests compare stored curves of one crystal",
     ["phono3py/other/kaccum.py", "phono3py/cui/kaccum_script.py"],
     [("KappaDOSTHM", "phono3py/other/kaccum.py"), ("GammaDOSsmearing", "phono3py/other/kaccum.py")],
     ["KappaDOSTHM.get_kdos", "phono3py-kaccum"],
     spec="Kaccum")
prop("C22", "Coherence and Green-Kubo conductivities reduce to the RTA ones",
     "The Wigner conductivity is the populations part, equal to the RTA conductivity up to its treatment of degenerate bands, plus the coherences part given by the stated formula for pairs of distinct bands; both are symmetric under exchange of bands, respect the crystal symmetry and vanish for modes below the cutoff frequency, and the total is their sum in RTA and in the direct solution.",
     ["inputs", "configurations"],
     "all crystals, meshes, temperatures, sigma lists, degenerate and non-degenerate bands",
     "tests compare stored conductivities of two crystals",
     ["phono3py/conductivity/wigner.py", "phono3py/conductivity/kubo.py", "phono3py/conductivity/rta.py", "phono3py/phonon/velocity_operator.py"],
     [("ConductivityWignerRTA", "phono3py/conductivity/rta.py"), ("VelocityOperator", "phono3py/phonon/velocity_operator.py")],
     ["Phono3py.run_thermal_conductivity(conductivity_type='wigner')"],
     spec="Wigner")

prop("C23", "Mode Grueneisen tensors are the strain response of the phonons",
     "For every crystal without soft modes, the tensors of all modes at a q-point reproduce the derivative of the dynamical matrix under homogeneous strain built from third-order force constants, with the atoms in the cell relaxed so that none feels a force (or kept, if ions are clamped), independent of whether force constants are full or compact; acoustic modes at Gamma have none. Mesh weights make irreducible points stand for the whole mesh, path distances are lengths in reciprocal space, and written files and the command give the values of the object.",
     ["inputs", "configurations"],
     "all crystals, supercells, force constants with translational invariance, q-points, paths, meshes, non-analytical terms and directions",
     "no test of the repository runs this calculation",
     ["phono3py/phonon3/gruneisen.py", "phono3py/cui/phono3py_script.py"],
     [("Gruneisen", "phono3py/phonon3/gruneisen.py"), ("run_gruneisen_parameters", "phono3py/phonon3/gruneisen.py")],
     ["Gruneisen.get_gruneisen_parameters", "gruneisen.hdf5", "gruneisen.yaml", "phono3py --gruneisen"],
     spec="Gruneisen")
prop("C24", "Thermal displacement correlations follow from the phonons of the supercell",
     "For every supercell, force constants, cutoff and temperature from zero on, the displacement correlation matrix is the sum over the modes above the cutoff of the squared mode length (n + 1/2) hbar / omega, its counterpart upsilon is the inverse on these modes, the prefactor normalises the Gaussian, and the solution through commensurate q-points gives the same matrices as the supercell. Second-order force constants fitted to snapshots satisfy the normal equations (and recover harmonic force constants exactly); third-order ones are the correlation of two inverse displacements with the anharmonic rest of the force.",
     ["inputs", "configurations"],
     "all supercells, masses, force constants with and without imaginary modes, cutoffs, temperatures, snapshots that span the displacements",
     "tests compare a few matrix elements of silicon at 300 K",
     ["phono3py/sscha/sscha.py", "phono3py/phonon/func.py"],
     [("DispCorrMatrix", "phono3py/sscha/sscha.py"), ("DispCorrMatrixMesh", "phono3py/sscha/sscha.py"), ("ThirdOrderFC", "phono3py/sscha/sscha.py")],
     ["get_sscha_matrices", "DispCorrMatrix.psi_matrix", "DispCorrMatrix.upsilon_matrix", "SecondOrderFC.fc2", "ThirdOrderFC.fc3"],
     spec="Sscha")

NOT_APPLICABLE = {}
CLAIMED = None
try:
    from claimed import CLAIMED, NOT_APPLICABLE  # noqa
except ImportError:
    CLAIMED = [p["rec"]["id"] for p in P if os.path.exists(os.path.join(V, "checks", p["rec"]["id"].lower() + ".py"))]

with open(os.path.join(V, "properties.jsonl"), "w") as w:
    for p in P:
        w.write(json.dumps(p["rec"]) + "\n")
na = [{"property": p["rec"]["id"], "reason": NOT_APPLICABLE.get(p["rec"]["id"], "check not built yet")} for p in P if p["rec"]["id"] not in CLAIMED]
checks = []
for p in P:
    i = p["rec"]["id"]
    if i not in CLAIMED:
        continue
    checks.append({
        "property": i, "level": "model_checking",
        "technique": p["technique"] or f"TLA+ specification spec/{p['spec']}.tla checked with TLC; behaviours recorded from the real code are validated against it, specification traces are replayed into the real code",
        "level_note": p["note"] or "TLC decides every recorded or replayed behaviour of the real code against the specification; exhaustive over the stated finite space, sampled beyond it",
        "quick_cmd": f"bin/check {i}", "thorough_cmd": f"VERIF_TIER=thorough bin/check {i}",
    })
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as w:
    json.dump(m, w, indent=1)
    w.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
