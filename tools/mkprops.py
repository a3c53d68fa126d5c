"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

B = "quantum_systems/basis_set.py"
S = "quantum_systems/system.py"
G = "quantum_systems/general_orbital_system.py"
P = "quantum_systems/spatial_orbital_system.py"
T = "quantum_systems/time_evolution_operators/operator.py"
H = "quantum_systems/system_helper.py"
H2 = "quantum_systems/quantum_dots/two_dim/two_dim_helper.py"
C2 = "quantum_systems/quantum_dots/two_dim/coulomb_elements.py"
T2 = "quantum_systems/quantum_dots/two_dim/two_dim_ho.py"
O1 = "quantum_systems/quantum_dots/one_dim/one_dim_qd.py"
V1 = "quantum_systems/quantum_dots/one_dim/one_dim_potentials.py"
D1 = "quantum_systems/sinc_dvr/one_dim/sinc_dvr.py"
CS = "quantum_systems/custom_system.py"
SA = "quantum_systems/sampler.py"
RB = "quantum_systems/random_basis.py"

props = []


def p(id, title, statement, over, text, why, files, mech, obs):
    props.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=obs,
                hook_needed=None,
            ),
        )
    )


p("C01", "A basis change keeps every stored quantity the same operator",
  "After any sequence of basis changes (square or rectangular, unitary or not, with the bra coefficients implied or given separately), interleaved with spin doubling, anti-symmetrisation, casting and copying, every stored quantity - one-body and two-body Hamiltonian, overlap, dipole moment, spin and spin-squared elements, ket and bra single-particle functions - equals the original quantity transformed once by the product of all coefficient matrices. No quantity is left behind in an older basis, and the basis size equals the number of columns of the last coefficient matrix. The stand-alone transformation helpers agree with this for every input.",
  ["histories", "inputs"],
  "all operation sequences up to the depth bound, over all coefficient matrix kinds, basis contents (with or without dipole, functions, explicit bra functions) and sizes",
  "The tests do one basis change of h and u (and spf once) with the implied bra coefficients; spin elements, overlap, dipole, explicit bra coefficients and sequences of changes are never looked at.",
  [B, S], [("change_basis / _change_basis_* / transform_*", B), ("QuantumSystem.change_basis", S)],
  ["BasisSet.{h,s,u,dipole_moment,spin_*,spf,bra_spf,l}", "QuantumSystem getters"])
p("C02", "Spin doubling puts orbital i, spin s at index 2i+s in every quantity",
  "Converting a spatial basis to general spin-orbitals, by whichever entry point, turns orbital i into spin-orbitals 2i (first spin function) and 2i+1 (second): one-body quantities and dipole are diagonal in spin, two-body elements conserve the spin of each particle, functions are duplicated, and the spin elements are one half the overlap times the Pauli matrices expressed in the given orthonormal spin basis. The size doubles exactly once: converting an already converted basis changes nothing.",
  ["inputs", "configurations", "histories"],
  "all small basis sizes, all matrix-unit inputs, a lattice of real and complex orthonormal spin bases, all entry points, and repeated conversions",
  "Tests check the static helpers on one random size with the default spin basis; other spin bases, the dipole and bra functions, repeated conversion and the conversion entry points are not covered.",
  [B, G, P], [("change_to_general_orbital_basis", B), ("add_spin_* / setup_pauli_matrices", B)],
  ["BasisSet after change_to_general_orbital_basis", "GeneralOrbitalSystem", "SpatialOrbitalSystem.construct_general_orbital_system"])
p("C03", "Spin elements represent the true spin operators in every basis",
  "In every general-orbital basis reached by any history of conversions and invertible basis changes, and for orthonormal and non-orthogonal orbitals alike, the three spin components obey the angular-momentum algebra with respect to the overlap, the one-body spin-squared part equals three quarters of the overlap, and the two-body part is the sum of products of the components (anti-symmetrised when the two-body elements are). In an orthonormal basis the resulting many-body spin-squared operator therefore has exactly the total-spin values S(S+1) with the correct multiplicities on every particle number.",
  ["inputs", "histories", "configurations"],
  "all orbital counts up to the bound, a lattice of spin bases and overlaps, all conversion/basis-change histories up to the depth bound, the complete many-particle space",
  "One test compares two constructions of S^2 for He in an orthonormal basis (the source has a TODO for the non-orthonormal case); no test looks at spin elements after a basis change or at eigenvalues.",
  [B, G], [("setup_spin_squared_operator, setup_pauli_matrices", B), ("_change_basis_one_body_elements", B)],
  ["GeneralOrbitalSystem.spin_x/y/z/2/2_tb"])
p("C04", "Two-body elements are anti-symmetrised exactly once, and the flag tells",
  "For every general-orbital basis and every history of conversions, system constructions, explicit anti-symmetrisation requests, basis changes and copies, the two-body elements and the two-body spin-squared elements are anti-symmetrised exactly once if anti-symmetrisation was ever requested and are the plain elements otherwise. The basis reports itself as anti-symmetrised exactly when its two-body elements are, in which case they change sign under exchange of the last two indices.",
  ["histories", "configurations"],
  "all request/conversion/basis-change/copy/re-wrap histories up to the depth bound, including the condensed two-index storage of the sinc-DVR basis",
  "Tests anti-symmetrise once on a fixed array; sequences in which the request is repeated, delayed, issued via another system or issued on condensed storage are not executed.",
  [B, G, D1], [("anti_symmetrize_two_body_elements and its flag", B), ("GeneralOrbitalSystem.__init__", G)],
  ["BasisSet.anti_symmetrized_u, u, spin_2_tb"])
p("C05", "Reference energy and Fock matrix are those of the determinant",
  "For every closed-shell spatial system and every general-orbital system with anti-symmetrised elements, and every occupation from none to all, the reference energy equals the expectation value of the Hamiltonian in the determinant that fills the first orbitals, and the Fock matrix equals one-body elements plus the mean field of that determinant, whatever the passed elements and whatever the output buffer held before. A spatial system and the general-orbital system built from it give the same energy and the same Fock matrix in each spin block.",
  ["inputs", "configurations"],
  "all occupations and sizes up to the bound, every matrix-unit one- and two-body input (the maps are linear), generic real and complex inputs, all output-buffer variants",
  "A single test compares the energy of He; Fock matrices are never tested at all.",
  [G, P], [("compute_reference_energy, construct_fock_matrix", G), ("compute_reference_energy, construct_fock_matrix", P)],
  ["compute_reference_energy()", "construct_fock_matrix(h, u, f)"])
p("C06", "Copies are identical and fully independent",
  "A copy of a basis set or of a system (including its time-evolution operator and potential), and a general-orbital system constructed from a spatial one, behaves exactly like its source at the moment of copying. Afterwards nothing done to one - any operation or in-place write to its arrays - is ever visible in the other, and copying leaves the source itself usable and unchanged.",
  ["histories", "configurations"],
  "all interleavings of operations on source and copy up to the depth bound, over all basis kinds, potentials and operators",
  "The only copy test copies one system and writes one element of h.",
  [B, S, P], [("copy_basis", B), ("copy_system", S), ("construct_general_orbital_system", P)],
  ["all observables of both objects after every step"])
p("C07", "Sizes, occupied/virtual split and array shapes always agree",
  "In every reachable state of a system the occupied and virtual slices partition all basis functions with the number of occupied functions fixed by the particle count (half of it for a closed-shell spatial system), and the sizes reported by system and basis set equal the axis length of every stored array. Particle numbers that do not fit, odd particle numbers and spin-dependent sets for closed-shell systems, and arrays with an axis of the wrong length are refused.",
  ["histories", "inputs"],
  "all operation histories up to the depth bound, all particle numbers and sizes up to the bound, all mis-shaped arrays from a small shape lattice",
  "Tests check l after one basis change; n, m, the slices, the refusals and longer histories are unchecked.",
  [S, B, P, G], [("set_system_size, __init__ assertions", S), ("setter assertions", B)],
  ["n, l, m, o, v and array shapes"])
p("C08", "A refused operation leaves basis set and system exactly as they were",
  "When a basis change, a conversion to general orbitals, the construction of a system, a setter, or a copy is refused or fails (coefficient matrix of the wrong shape or too few functions for the particles, spin functions that are not orthonormal, missing overlap or Hamiltonian elements, mis-shaped array), every observable of the basis set and of the system is the same as before the call. The object then behaves as if the failed call had never been made.",
  ["fault_sequences", "histories"],
  "every position of every refusable call in all operation histories up to the depth bound",
  "No test calls anything that is refused.",
  [B, S], [("argument checks before mutation in change_basis and change_to_general_orbital_basis", B), ("QuantumSystem.change_basis", S)],
  ["all observables before and after the refused call"])
p("C09", "Time-dependent Hamiltonians are the documented function of time",
  "At every time a system returns its own one-body elements plus pulse(t) times the dipole along the polarisation(t) (x-axis by default) for a laser, plus weight(t) times the given operator for a custom one-body term, and switching(t) times its two-body elements for adiabatic switching, with constants accepted in place of functions; with no operator it returns the static elements. This holds in any order and repetition of evaluations and after any history of replacing the operator, basis changes, copies and conversion to general orbitals, and the system declares a one- or two-body time dependence exactly when it has one.",
  ["histories", "inputs"],
  "all histories of install/evaluate/replace/basis change/copy/convert up to the depth bound, over operator kinds, constant and callable parameters and polarisations, and a time lattice",
  "There is no test of any time-evolution operator.",
  [T, S, P], [("LaserField/AdiabaticSwitching/CustomOneBodyOperator", T), ("h_t, u_t, set_time_evolution_operator", S)],
  ["h_t(t), u_t(t), has_one_body_/has_two_body_time_evolution_operator"])
p("C10", "Particle density is the density-matrix contraction, in any basis",
  "For every density matrix, real or complex, the particle density at each grid point is the sum over p and q of bra function p times density-matrix element (q,p) times ket function q, optionally after transforming ket and bra functions by the given coefficients. It does not depend on the basis: transforming the functions, or the stored basis, while transforming the density matrix accordingly gives the same density.",
  ["inputs", "histories"],
  "all matrix-unit density matrices (the map is linear) and generic ones, all basis sizes, grid dimensions and coefficient kinds up to the bound, real and complex functions",
  "No test computes a density.",
  [B, H, S], [("compute_particle_density", B), ("compute_particle_density", H)],
  ["compute_particle_density"])
p("C11", "2D oscillator orbitals are enumerated shell by shell without gaps",
  "The map from orbital number to quantum numbers (n, m) and its inverse are mutually inverse bijections between the non-negative integers and all pairs with n >= 0 and integer m. Orbitals are ordered by shell 2n+|m|, within a shell by increasing m, so the orbital energies never decrease and shell k contains exactly k+1 orbitals.",
  ["inputs"],
  "every orbital number up to the bound, plus every shell edge and centre up to a much larger bound, and every (n, m) in a box",
  "Tests compare with a table of the first orbitals only.",
  [H2], [("get_index_p, get_indices_nm, get_shell_energy, get_one_body_elements", H2)],
  ["get_index_p, get_indices_nm, get_one_body_elements"])
p("C12", "2D Coulomb elements are the true Coulomb integrals",
  "For every quadruple of two-dimensional oscillator orbitals the two-body element <pq|rs> equals the exact Coulomb integral over the corresponding orbitals, scaled with the inverse oscillator length (the square root of mass times frequency); in particular it conserves angular momentum and has the particle-exchange and Hermitian symmetries. The result does not depend on the number of threads used.",
  ["inputs", "configurations", "schedules"],
  "all orbital quadruples up to the bound, all (n, m) quadruples in a box, a lattice of frequencies and masses, all thread counts",
  "Tests compare omega = mass = 1 with a table (tolerance 1e-6); scaling, B-field sets, higher orbitals and thread counts are not covered.",
  [C2, H2, T2], [("coulomb_ho", C2), ("_get_coulomb_elements, get_coulomb_elements_B", H2), ("setup_basis", T2)],
  ["get_coulomb_elements", "TwoDimensionalHarmonicOscillator.u and subclasses"])
p("C13", "Caching of Coulomb elements is invisible, crash-safe and shareable",
  "With the cache enabled a call returns the same elements as without it, for every sequence of calls with different sizes, toggling of the cache and modification of returned arrays. This stays true if a process is killed or hits an I/O error at any point while filling the cache, and if several processes fill and read the same cache concurrently: later calls still return complete, correct elements.",
  ["crash_points", "schedules", "histories", "fault_sequences"],
  "every executed line and every byte offset of the cache write as crash point or write error, all two-process interleavings within the preemption bound, all call histories up to the depth bound",
  "The caching test writes and reads once in one process without any failure.",
  [H2], [("get_coulomb_elements: file name keyed by size, load if present, save otherwise", H2)],
  ["return value of get_coulomb_elements and TwoDimensionalHarmonicOscillator.u"])
p("C14", "2D dot functions, one-body and dipole elements are mutually consistent",
  "For every frequency, mass, size and grid, the functions of the two-dimensional oscillator set are the orthonormal oscillator eigenfunctions on the reported polar grid, the one-body elements are their energies, and the dipole elements are the exact integrals of x and y between them. For the double well, for every barrier strength and either axis, the one-body elements are the exact matrix elements of kinetic energy plus m w^2/2 (r^2 + b^2/4 - b|x_axis|).",
  ["inputs", "configurations"],
  "all sizes up to the bound times a lattice of frequencies, masses, barriers and both axes, all index pairs, with quadrature that is exact for these integrands",
  "Tests use omega = mass = 1 almost throughout and compare with stored numbers; dipole elements of the oscillator are not tested.",
  [T2, H2], [("setup_spf, construct_dipole_moment, setup_basis", T2), ("spf_*, radial_integral, theta_*_integral, get_double_well_one_body_elements", H2)],
  ["TwoDimensionalHarmonicOscillator / TwoDimensionalDoubleWell .h .s .spf .dipole_moment"])
p("C15", "2D dot in a magnetic field holds the lowest Fock-Darwin states",
  "For every field strength and sign, frequency, mass and size, the set consists of distinct Fock-Darwin states that are the lowest in energy, in order of non-decreasing energy, with one-body elements w(2n+|m|+1) - w_c m/2 where w^2 = w_0^2 + w_c^2/4. Its functions, dipole and two-body elements belong to exactly those quantum numbers and to the effective frequency, and at zero field it describes the same system as the field-free oscillator. Running the set-up again changes nothing.",
  ["configurations", "inputs"],
  "all sizes up to the bound times a lattice of frequencies, masses and cyclotron frequencies including zero, negative and strong fields",
  "One stable test checks u at zero field.",
  [T2, H2], [("TwoDimHarmonicOscB.setup_basis, get_indices_nm", T2), ("construct_dataframe, get_shell_energy_B", H2)],
  ["TwoDimHarmonicOscB.h, u, s, spf, dipole_moment, get_indices_nm"])
p("C16", "1D dot elements are the grid integrals of the returned functions",
  "For every potential, size, grid, screening, interaction strength and non-dipole parameter, the one-dimensional dot sets return functions orthonormal on the grid that solve the (discretised) one-body problem in order of energy with those energies as one-body elements. The two-body elements are the double integral of the shielded Coulomb interaction and the dipole elements the integral of x (plus beta x^2 where supported) over the returned functions.",
  ["configurations", "inputs"],
  "all potentials times a lattice of sizes, grids (odd and even), screening, strength and beta",
  "Tests compare four potentials at one parameter set each with stored arrays; alpha, a, beta and ODHO are never varied.",
  [O1, V1], [("ODQD.setup_basis, ODHO.setup_basis, construct_dipole_moment", O1), ("_trapz, _shielded_coulomb, _compute_inner_integral, _compute_orbital_integrals", O1)],
  ["ODQD / ODHO .grid .h .s .u .spf .dipole_moment"])
p("C17", "Sinc-DVR storage formats describe the same system",
  "The sinc-DVR set has the exact sinc-DVR kinetic energy plus the potential, the grid position (plus beta x^2) as dipole and the shielded Coulomb interaction between grid points as two-body elements. The condensed and the full storage of the two-body elements describe the same operator: after any history of format switches, conversion to general orbitals, anti-symmetrisation, basis changes and copies, a set that started condensed gives the same Hamiltonian, dipole, overlap and functions as one that started full, and a format switch either preserves the operator or is refused.",
  ["histories", "configurations"],
  "all histories up to the depth bound in lock-step on a condensed and a full set, over sizes, grids, potentials and interaction parameters",
  "There is no test of the sinc-DVR set.",
  [D1], [("setup_basis, construct_coulomb_elements, set_u_repr, transform_two_body_elements, add_spin_two_body, anti_symmetrize_u", D1)],
  ["ODSincDVR observables", "systems built on ODSincDVR"])
p("C18", "Each 1D potential has its documented form and exact derivative",
  "For every parameter value and every position, each one-dimensional potential evaluates to its defining formula, and where it offers a derivative this is the exact derivative of the potential.",
  ["inputs"],
  "for the polynomial potentials all positions (equality at more points than the degree, in exact arithmetic) over a parameter lattice; for the others a dense position lattice over a parameter lattice",
  "Potentials are only exercised indirectly at four parameter sets; derivatives are never called.",
  [V1], [("__call__ and derivative of each potential class", V1)],
  ["potential(x), potential.derivative(x)"])
p("C19", "Molecular systems carry the integrals of the requested molecule",
  "For every molecule, basis set, charge and option the atomic-orbital system holds exactly the core Hamiltonian, overlap, dipole, two-electron integrals (physicists' index order), electron number and nuclear repulsion of that molecule with coordinates in bohr. The Hartree-Fock system is the same system in an orthonormal basis in which reference energy plus nuclear repulsion is the converged energy and the Fock matrix is diagonal, with dipole elements relative to the centre of nuclear charge; spin and anti-symmetrisation options only change the representation.",
  ["configurations"],
  "a catalogue of closed-shell molecules, ions and basis sets times all spin/anti-symmetrisation/charge/cartesian options",
  "Tests look at the energy of the He atom and at n for Be.",
  [CS], [("construct_pyscf_system_ao, construct_pyscf_system_rhf", CS)],
  ["returned system's elements, n, nuclear_repulsion_energy, compute_reference_energy"])
p("C20", "Sample collection loses, duplicates and reorders nothing",
  "For every sequence of sample, add and dump calls, each step is passed to every sampler exactly once and in order, each dump passes the collected dictionary through every sampler in turn and returns all samples including added ones, and when saving is on the file read back equals the returned dictionary at the documented location, creating the directory when needed. Dumping without saving touches no file, and an existing directory is accepted or refused as requested.",
  ["histories", "configurations"],
  "all call sequences up to the depth bound over sampler containers (list, tuple, set, generator), file-name, path and save options",
  "There is no test of the sampler module.",
  [SA], [("SampleCollector.sample/dump/add_sample", SA)],
  ["calls received by samplers, returned dictionary, files below the dump path"])
p("C21", "Random basis sets always have the integral symmetries",
  "Whatever numbers the random generator delivers, a random basis set has Hermitian one-body, overlap and dipole elements, two-body elements symmetric under simultaneous exchange of both particles, the requested sizes, and every independent element depends on the draws.",
  ["inputs"],
  "all unit-impulse draw sequences (the construction is linear in the draws) for all small sizes and dimensions, plus generic and constant draws",
  "The doctest checks one shape.",
  [RB], [("make_hermitian, make_dipole_moment_hermitian, make_two_body_symmetry, get_random_elements", RB)],
  ["RandomBasisSet.h, s, u, dipole_moment"])
p("C22", "Queries are pure and caller-owned arrays are never modified",
  "Reading any observable, computing energies, Fock matrices, densities, transformed elements or time-dependent elements, in any order and number, never changes any later result; in particular, reading bra functions that were not given explicitly does not tie them to the ket functions of that moment. No operation ever writes into an array the caller passed in (elements handed to a basis set, coefficient matrices, density matrices, spin functions, the elements passed to the Fock construction), the Fock output buffer excepted.",
  ["histories", "inputs"],
  "all interleavings of queries with state-changing operations up to the depth bound, compared with the same history without the queries; read-only inputs for every operation",
  "Tests call each query at most once and never check their inputs afterwards.",
  [B, S, G, P, T], [("bra_spf property, out-of-place transforms", B), ("construct_fock_matrix", G)],
  ["all observables, and caller arrays, after every history"])
p("C23", "Changing array module or casting to complex preserves every value",
  "Casting to complex numbers and changing the array module, at any point of any history and however often, leaves the value and shape of every stored quantity and the result of every later operation unchanged; afterwards all stored arrays are complex, respectively belong to the new module (the condensed two-index storage of the sinc-DVR basis, which exists for numpy only, excepted), and absent quantities stay absent. Quantum-dot and random sets accept an explicitly passed array module with the same result as the default.",
  ["histories", "configurations"],
  "all positions of the cast and module change in all histories up to the depth bound, over basis contents and all basis classes accepting a module",
  "No test casts or changes the module explicitly.",
  [B, S, D1, T2], [("change_module, cast_to_complex", B)],
  ["all observables after every history"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in props:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(props))
