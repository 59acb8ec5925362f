"""Writes /verif/properties.jsonl (one source of truth for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=None)))

p("C01", "Many-body state labels enumerate the Fock space exactly",
  "For every number of single-particle states, every indexing scheme ('Lin', 'charge', 'sz', 'ssq') and every sequence of Fock-state removals, the labels 0..n-1 are in one-to-one correspondence with the remaining occupation lists: label-to-occupation and occupation-to-label are mutually inverse and removed occupations have no label. "
  "The reported charge blocks, spin-projection blocks and total-spin blocks each partition the labels, every label sits in the block of its own charge and spin projection (first half of the single-particle states is spin up), total-spin blocks have the multiplet sizes, and the quantum-number tables name every label exactly once. "
  "An unusable indexing (odd number of states for a spin indexing, unknown name) falls back to 'Lin'.",
  ["inputs", "histories", "configurations"],
  "all numbers of single-particle states, all indexing schemes, all sequences of removals of subsets of Fock states",
  "The tests pin a handful of hard-coded tables for up to four states and a single removal; they cannot cover all sizes, all removal subsets and repeated removals.",
  ["qmeq/indexing.py"],
  [("construct_chargelst/construct_szlst/construct_ssqlst and enum_*", "qmeq/indexing.py"), ("StateIndexing.remove_fock_states", "qmeq/indexing.py"), ("make_quantum_numbers", "qmeq/indexing.py")],
  [("i, j", "label -> Lin code and its inverse", "StateIndexing"), ("chargelst, szlst, ssqlst", "quantum number blocks", "StateIndexing"), ("removed_fock_states", "removed Lin codes", "StateIndexing")],
  ["si.get_state", "si.get_ind", "si.get_lst", "si.qn_ind", "si.ind_qn"])

p("C02", "Density-matrix elements are indexed without collision or loss",
  "For every indexing scheme, every set of retained many-body states and both index layouts (hermitian-packed and full), each density-matrix element between retained states of equal charge (and equal spin quantum numbers where the indexing has them) has an index, two elements share an index only if they are hermitian conjugates (packed layout) or related by spin-multiplet symmetry ('ssq'), and all other elements are excluded. "
  "The indices are exactly 0..count-1 with the diagonal elements first, exactly one element per index is the representative, and the reported counts (all elements, diagonal elements, real unknowns, first-order amplitudes) are the true ones. "
  "First-order amplitudes between neighbouring charges are indexed one-to-one.",
  ["inputs", "histories", "configurations"],
  "all indexing schemes, all subsets of retained states, all orders of retaining and restoring states, all numbers of states",
  "Existing tests compare a few stored index tables with all states retained; subsets, repeated restrictions and the 'ssq' multiplet mapping of larger systems are never enumerated.",
  ["qmeq/indexing.py"],
  [("set_statesdm / set_dictdm / set_mapdm / get_ind_dm0 / get_ind_dm1", "qmeq/indexing.py")],
  [("statesdm", "retained states per charge", "StateIndexingDM/DMc/Pauli"), ("mapdm0, booldm0, conjdm0", "index, representative, conjugation", "StateIndexingDM")],
  ["si.get_ind_dm0", "si.get_ind_dm1", "si.ndm0", "si.ndm0r", "si.npauli", "si.ndm1"])

p("C03", "The many-body Hamiltonian and its spectrum are exact",
  "For every single-particle Hamiltonian and every set of Coulomb elements, with every setting of the hermiticity options, the many-body Hamiltonian in the Fock basis equals the second-quantised operator with fermionic (Jordan-Wigner) signs, restricted to the Fock states that were not removed. "
  "After a solve the reported energies are its eigenvalues placed at the labels of the corresponding blocks and the reported eigenvectors are orthonormal eigenvectors of it, whatever the indexing; all indexing schemes give the same spectrum.",
  ["inputs", "configurations"],
  "all single-particle Hamiltonians, all Coulomb element tuples (m,n,k,l) including repeated and non-canonical index orders, all hermiticity options, all indexing schemes and removals",
  "The tests compare one or two fixed Hamiltonians; a wrong fermionic sign or a missed conjugation shows only for particular occupations between the hopping orbitals, complex amplitudes or particular index orders.",
  ["qmeq/qdot.py"],
  [("construct_ham_coulomb", "qmeq/qdot.py"), ("construct_ham_hopping", "qmeq/qdot.py"), ("QuantumDot.diagonalise / construct_Ea_manybody", "qmeq/qdot.py")],
  [("hamlst", "Hamiltonian blocks", "QuantumDot"), ("Ea", "energies by label", "QuantumDot"), ("vecslst", "eigenvectors by block", "QuantumDot")],
  ["system.qd.hamlst", "system.Ea", "system.qd.vecslst"])

p("C04", "Tunneling and phonon coupling matrices are exact in the eigenbasis",
  "For every set of single-particle tunneling amplitudes the many-body tunneling matrix of each lead equals the second-quantised operator (amplitude times creation plus conjugate amplitude times annihilation, with fermionic signs) between the remaining Fock states, and every electron-phonon coupling matrix equals the corresponding one-body operator. "
  "After a solve both are that operator rotated to the eigenbasis of the Hamiltonian, element by element at the reported state labels, for every indexing scheme (in the spin-resolved schemes 'sz' and 'ssq' for the inputs they are defined for: the first half of the leads couples to spin up, the second half to spin down, and phonons conserve spin); a solve with rotation switched off leaves them unrotated.",
  ["inputs", "configurations"],
  "all (complex) amplitudes, all numbers of leads and baths, all indexing schemes, Fock-state removals and spin layouts",
  "Only fixed real amplitudes of small dots are tested, and the block-wise rotations for the spin indexings are compared against stored numbers only.",
  ["qmeq/leadstun.py", "qmeq/baths.py"],
  [("construct_Tba / rotate_Tba", "qmeq/leadstun.py"), ("elph_construct_Vbbp / elph_rotate_Vbbp", "qmeq/baths.py")],
  [("Tba0, Tba", "tunneling matrix, Fock and eigenbasis", "LeadsTunneling"), ("Vbbp0, Vbbp", "phonon coupling matrix", "PhononBaths")],
  ["system.leads.Tba0", "system.Tba", "system.baths.Vbbp0", "system.Vbbp"])

p("C05", "Incremental modification equals building the final system directly",
  "After any sequence of parameter additions and changes (single-particle Hamiltonian, Coulomb, tunneling, phonon coupling, chemical potentials, temperatures, bandwidths), in any order and mixed with Fock-state removals and solves, the stored parameters are the accumulated ones and every derived many-body quantity equals that of a system constructed directly with those parameters. "
  "'add' accumulates, 'change' assigns, entries not mentioned keep their value, and modifying one family of parameters leaves the others alone.",
  ["histories", "inputs"],
  "all sequences of add/change/remove/solve calls, all parameter containers",
  "Tests perform one addition and one change on one system; they never mix them with solves, removals, zero values, overlapping keys or spin symmetry.",
  ["qmeq/qdot.py", "qmeq/leadstun.py", "qmeq/baths.py", "qmeq/builder/builder_base.py"],
  [("QuantumDot.add/change", "qmeq/qdot.py"), ("LeadsTunneling.add/change", "qmeq/leadstun.py"), ("PhononBaths.add/change", "qmeq/baths.py")],
  [("hsingle, coulomb, tleads, velph", "stored single-particle parameters", "QuantumDot/LeadsTunneling/PhononBaths"), ("hamlst, Tba0, tleads_array, Vbbp0", "derived matrices", "idem")],
  ["system.hsingle", "system.coulomb", "system.tleads", "system.tleads_array", "system.mulst", "system.qd.hamlst"])

p("C06", "Input containers are equivalent and never modified",
  "The same physical input given as dictionary, list or array (or as a number where a single number stands for all leads) builds the same system, for construction as well as for later additions and changes. "
  "With spin symmetry the given spin-up input is expanded to both spins (single-particle and tunneling elements copied, Coulomb elements to all four spin combinations, lead and parameters duplicated) and gives the same system as spelling out both spins by hand. "
  "No call modifies the containers the caller passed in, and later changes the caller makes to the containers given to a constructor of a single-particle system do not reach the system.",
  ["inputs", "configurations"],
  "all parameter values and container forms, spin symmetry on or off, all hermiticity options",
  "Each container form is exercised by at most one fixed example; equivalence of forms and absence of side effects on the caller's data are universally quantified.",
  ["qmeq/qdot.py", "qmeq/leadstun.py", "qmeq/baths.py", "qmeq/builder/builder_base.py"],
  [("make_hsingle_dict / make_coulomb_dict", "qmeq/qdot.py"), ("make_tleads_dict / make_array / make_array_dlst", "qmeq/leadstun.py"), ("make_velph_dict", "qmeq/baths.py"), ("ModelParameters deep copy", "qmeq/builder/builder_base.py")],
  (), ["system.hsingle", "system.coulomb", "system.tleads", "system.mulst", "system.tlst", "system.dlst", "caller's containers"])

p("C07", "The solution satisfies the first-order master equation",
  "For the Pauli, Lindblad, Redfield and first-order von Neumann approaches (compiled and pure Python), the reported density matrix of a successful solve is annihilated by the Liouvillian the approach defines for the current energies, tunneling amplitudes, lead parameters and integral type, restricted to the retained states and coherences, and has unit trace. "
  "The Liouvillian is the textbook one: every in- and out-scattering term of every lead once, with the Fermi-function, bandwidth and principal-value factors of the selected integral type.",
  ["inputs", "configurations"],
  "all dots, leads, amplitudes (including interfering and complex ones), temperatures, integral types, approaches, retained state sets",
  "Tests compare currents of one or two structures with stored numbers, for the compiled classes only; a term that vanishes or cancels in those structures (degeneracies, complex phases, several charge sectors) is invisible.",
  ["qmeq/approach/base/pauli.py", "qmeq/approach/base/lindblad.py", "qmeq/approach/base/redfield.py", "qmeq/approach/base/neumann1.py", "qmeq/approach/base/c_pauli.pyx", "qmeq/approach/base/c_lindblad.pyx", "qmeq/approach/base/c_redfield.pyx", "qmeq/approach/base/c_neumann1.pyx", "qmeq/approach/aprclass.py", "qmeq/approach/kernel_handler.py", "qmeq/specfunc/specfunc.py"],
  [("generate_fct / generate_coupling_terms / solve_kern", "qmeq/approach"), ("KernelHandler.set_matrix_element", "qmeq/approach/kernel_handler.py"), ("func_pauli / func_1vN", "qmeq/specfunc/specfunc.py")],
  [("phi0", "density matrix unknowns", "Approach")],
  ["system.phi0", "system.get_phi0", "system.success"])

p("C08", "Currents follow from the density matrix, balance and are consistent",
  "For every first-order approach the reported particle and energy currents of each lead are the exact linear functionals of the reported density matrix that the approach defines (positive into the dot), the reported heat current is energy current minus chemical potential times particle current, and the first-order amplitudes of the von Neumann and Redfield approaches are the ones that produce these currents. "
  "In the stationary state without phonon baths the particle currents of all leads sum to zero for every first-order approach, and for the Pauli approach so do the energy currents.",
  ["inputs", "configurations"],
  "all dots, leads, amplitudes, temperatures, bandwidths, integral types and approaches",
  "Tests store currents of two example structures; per-lead functionals, sign conventions and conservation for arbitrary structures are universally quantified.",
  ["qmeq/approach/base/pauli.py", "qmeq/approach/base/lindblad.py", "qmeq/approach/base/redfield.py", "qmeq/approach/base/neumann1.py", "qmeq/approach/base/c_pauli.pyx", "qmeq/approach/base/c_lindblad.pyx", "qmeq/approach/base/c_redfield.pyx", "qmeq/approach/base/c_neumann1.pyx", "qmeq/approach/c_aprclass.pyx"],
  [("generate_current", "qmeq/approach/base")],
  [("current, energy_current, heat_current, phi1", "reported observables", "Approach")],
  ["system.current", "system.energy_current", "system.heat_current", "system.phi1"])

p("C09", "A solve depends only on the current configuration, never on history",
  "Whatever sequence of parameter changes, option changes (approach, kernel form, normalisation row, solver, integral type, matrix-free mode), state removals and restorations, coherence removals and earlier solves preceded it, a solve gives the same energies, density matrix, currents and success flag as a freshly constructed system put directly into the same configuration. "
  "Repeating a solve without changes repeats its results, and a failed or partial solve does not affect later ones.",
  ["histories", "configurations"],
  "all finite sequences of public operations on one system object",
  "Tests solve each system once or twice; the caches (prepared arrays, cached views, sizes, resolved solver) make correctness depend on the history, which has unboundedly many shapes.",
  ["qmeq/approach/aprclass.py", "qmeq/approach/c_aprclass.pyx", "qmeq/builder/builder_base.py", "qmeq/builder/builder_elph.py", "qmeq/builder/various.py", "qmeq/indexing.py"],
  [("Approach.prepare_kern / is_prepared / states_changed / clean_arrays", "qmeq/approach/aprclass.py"), ("option setters", "qmeq/approach/aprclass.py"), ("set_kerntype / change_si", "qmeq/builder/builder_base.py")],
  [("is_prepared, states_changed", "cache validity", "Approach/StateIndexing")],
  ["system.solve", "system.phi0", "system.current", "system.success", "system.kerntype"])

p("C10", "Results do not depend on how the calculation is carried out",
  "For one physical configuration the density matrix and currents agree between the compiled and the pure-Python implementation, between kernel forms (square with any normalisation row, or rectangular with least squares), between direct and matrix-free solution, between indexing schemes and spin-symmetry reduction where applicable, between real and complex matrix types, and between any number of worker threads and any schedule of them. "
  "For an overdetermined consistent problem every choice yields the same unique stationary state.",
  ["configurations", "schedules", "inputs"],
  "all combinations of implementation, kernel options, indexing, number types, thread counts and thread schedules, for all physical systems",
  "Pure-Python approaches are switched off in the tests, no test varies thread counts, and option combinations are sampled on two structures.",
  ["qmeq/approach/base", "qmeq/approach/elph", "qmeq/approach/aprclass.py", "qmeq/approach/c_aprclass.pyx", "qmeq/approach/kernel_handler.py", "qmeq/approach/c_kernel_handler.pyx"],
  [("parallel loops over kernel rows", "qmeq/approach/base/c_*.pyx"), ("solve_kern / solve_matrix_free / generate_vec", "qmeq/approach/aprclass.py"), ("KernelHandlerMatrixFree", "qmeq/approach/kernel_handler.py")],
  (), ["system.phi0", "system.current", "system.energy_current"])

p("C11", "Restricting states and coherences is exact and reversible",
  "Removing high-energy states keeps exactly the states whose energy lies strictly within the given distance of the ground state, removing coherences excludes exactly the coherences whose energy difference exceeds the given value, and the following solve is that of the model restricted to the kept states and coherences, with zero density-matrix elements for everything removed. "
  "Restoring all states brings back the full model (minus removed Fock states), also after repeated or interleaved restrictions, for single-particle and many-body input and with phonon baths.",
  ["histories", "inputs", "configurations"],
  "all energy thresholds, all sequences of restriction, restoration and solve, all approaches and builders",
  "Tests check list lengths after one restriction on one structure and never solve the restricted models of most approaches.",
  ["qmeq/builder/various.py", "qmeq/builder/builder_base.py", "qmeq/builder/builder_elph.py", "qmeq/indexing.py"],
  [("remove_states / use_all_states / remove_coherences", "qmeq/builder/various.py"), ("set_statesdm", "qmeq/indexing.py")],
  [("statesdm", "retained states", "StateIndexing*"), ("mapdm0", "included coherences", "StateIndexingDM")],
  ["system.remove_states", "system.use_all_states", "system.remove_coherences", "system.get_phi0"])

p("C12", "Invalid options are replaced by documented defaults, valid ones kept",
  "Constructing a system, or switching its approach later, never ends in an unsupported combination: an unknown approach name, indexing or integral type, and every combination of approach, indexing, symmetry, integral type and matrix-free mode that the approach does not support, is replaced by the documented default with a warning, and every supported value is kept unchanged and without a warning. Switching to an approach that does not support the indexing of the existing system, which cannot be changed, is refused with a warning and the system keeps its approach. "
  "Custom approach classes are accepted in place of a name and are used for the solve.",
  ["inputs", "configurations"],
  "the complete product of option values (valid, invalid, default) for all builders, at construction and on switching",
  "Tests sample a few warnings; the decision table has hundreds of combinations.",
  ["qmeq/builder/validation.py", "qmeq/builder/builder_base.py", "qmeq/builder/builder_elph.py"],
  [("validate_*", "qmeq/builder/validation.py"), ("_init_validate_data / set_kerntype", "qmeq/builder/builder_base.py")],
  (), ["system.kerntype", "system.indexing", "system.itype", "system.mfreeq", "system.si.symmetry", "stdout warnings"])

p("C13", "Phonon baths enter the master equation exactly",
  "With electron-phonon coupling, for the Pauli, Lindblad, Redfield and first-order von Neumann approaches (compiled and pure Python), the reported density matrix is annihilated by the lead Liouvillian plus the phonon Liouvillian of the approach, in which every absorption and emission process between retained states of equal charge enters once per bath with the Bose, bandwidth and density-of-states factors of the bath. "
  "With zero coupling the results are those of the system without baths, and phonon processes change neither trace, nor charge, nor the definition of the lead currents.",
  ["inputs", "configurations"],
  "all dots, couplings (complex, non-hermitian input), bath temperatures, bandwidths, densities of states, integral types and approaches",
  "Tests store currents of one double-dot structure for the compiled classes only.",
  ["qmeq/approach/elph", "qmeq/specfunc/specfunc_elph.py", "qmeq/specfunc/c_specfunc_elph.pyx", "qmeq/baths.py", "qmeq/builder/builder_elph.py"],
  [("generate_fct / generate_coupling_terms", "qmeq/approach/elph"), ("FuncPauliElPh / Func1vNElPh", "qmeq/specfunc/specfunc_elph.py")],
  [("w1fct, paulifct_elph, tLbbp", "phonon factors", "ApproachElPh")],
  ["system.phi0", "system.current"])

p("C14", "State queries report the quantity of the state that was asked for",
  "After a solve with the current restrictions the query for a density-matrix element returns, for every pair of state labels, the element of the (hermitian) density matrix the solver found, zero for elements that are excluded or connect different charges; the query for a first-order amplitude returns the amplitude between exactly those states, its conjugate when they are given in opposite order, and nothing for approaches without amplitudes. "
  "Sorting the eigenstates by any list of properties yields a stable lexicographic permutation under which all queries and printed state descriptions (energy, charge, spin, expansion coefficients) refer to the sorted labels, and neither sorting nor querying modifies results or the caller's arguments.",
  ["inputs", "configurations", "histories"],
  "all approaches, indexings, pairs of labels, sort orders, restrictions and earlier solves",
  "A few elements of one structure are compared with stored numbers; most approach/indexing/order combinations are never queried.",
  ["qmeq/builder/various.py", "qmeq/builder/builder_base.py"],
  [("get_phi0 / get_phi1 / sort_eigenstates / print_state", "qmeq/builder/various.py")],
  [("states_order", "sorted label -> label", "StateIndexing")],
  ["system.get_phi0", "system.get_phi1", "system.sort_eigenstates", "system.print_state"])

p("C15", "Second-order RTD kernel conserves, reduces to first order and is reproducible",
  "For the real-time diagrammatic approach the reported occupations sum to one and are annihilated by the effective kernel, particle currents of all leads sum to zero, and compiled and pure-Python implementations agree for every system, with and without off-diagonal corrections. "
  "In the limit of weak coupling the occupations and currents approach those of the Pauli equation to first order, the correction being of second order in the coupling; for wide bands the kernel is the sum of all first- and second-order Keldysh diagrams, and the results are covariant under relabelling of leads and states within the accuracy of the wide-band limit. Switching corrections, restrictions and inputs in any order gives what a new system gives.",
  ["inputs", "configurations", "histories"],
  "all dots and leads with charge indexing, all coupling strengths, correction switch histories",
  "One interacting structure is compared with stored numbers.",
  ["qmeq/approach/base/RTD.py", "qmeq/approach/base/c_RTD.pyx", "qmeq/approach/kernel_handler.py", "qmeq/approach/c_kernel_handler.pyx"],
  [("generate_row_1st_order_kernel, generate_matrix_element_2nd_order, generate_*", "qmeq/approach/base/RTD.py"), ("add_element_2nd_order", "qmeq/approach/kernel_handler.py")],
  [("Wdd, WE1, WE2, Lpm, Lnn, Wdn, Wnd", "kernel blocks", "ApproachRTD")],
  ["system.phi0", "system.current", "system.energy_current"])

p("C16", "2vN iterations compose, restart and conserve",
  "For the second-order von Neumann approach, solving with k iterations gives k recorded iterations numbered consecutively, continuing for m more iterations without restart gives exactly the state of solving k+m iterations at once, and solving with restart discards all earlier iterations and reproduces the result of a fresh system. "
  "After every iteration the density matrix has unit trace and is hermitian, and the reported currents belong to that iteration; compiled and pure-Python implementations agree iteration by iteration, and the particle currents of all leads sum to zero. Every iteration is the one that the second-order von Neumann equation gives on the energy grid (all terms in which a second lead line is opened and one of the two closed, local ones resummed, the others iterated), for every set of retained states and every band; for electrons without interaction the iteration converges to the exact currents.",
  ["histories", "inputs", "configurations"],
  "all sequences of solve calls with and without restart, all iteration counts, all dots and grids",
  "Two structures are iterated a fixed number of times with the compiled class only.",
  ["qmeq/approach/aprclass.py", "qmeq/approach/base/neumann2.py", "qmeq/approach/base/c_neumann2.pyx"],
  [("ApproachBase2vN.solve / iteration / restart", "qmeq/approach/aprclass.py")],
  [("niter, iters, is_zeroth_iteration, phi1k", "iteration state", "Approach2vN")],
  ["system.niter", "system.iters", "system.phi0", "system.current"])

p("C17", "Spin eigenstates are true multiplets",
  "With total-spin indexing, for every spin-symmetric Hamiltonian and every even number of single-particle states, the reported many-body states are simultaneous eigenstates of charge, spin projection, total spin and the Hamiltonian with the quantum numbers at which they are listed, orthonormal, and with equal energies across each multiplet; raising and lowering operators connect neighbouring members. "
  "The transport solution in which the density matrix is equal across a multiplet is a solution of the full, unreduced master equation.",
  ["inputs", "configurations"],
  "all spin-symmetric Hamiltonians, all even numbers of single-particle states, all spin-symmetric lead couplings",
  "Tests compare one structure with four single-particle states against stored numbers.",
  ["qmeq/qdot.py", "qmeq/indexing.py"],
  [("operator_sm/sp/ssquare, construct_manybody_eigenstates_ssq_all", "qmeq/qdot.py"), ("construct_ssqlst", "qmeq/indexing.py"), ("set_mapdm for 'ssq'", "qmeq/indexing.py")],
  [("vecslst", "eigenvectors by charge, spin projection, spin", "QuantumDot")],
  ["system.qd.vecslst", "system.Ea", "system.phi0"])

p("C18", "Solutions are thermodynamically consistent",
  "For the Pauli and Lindblad approaches the reported stationary state is a valid density matrix (hermitian, non-negative, trace one; with coherences removed, as long as the kept ones connect whole groups of states), and for the Pauli equation it is the grand-canonical distribution with vanishing particle and energy currents whenever all leads (and phonon baths) have the same temperature and chemical potential. "
  "Out of equilibrium the Pauli equation never produces negative entropy: the heat currents weighted with inverse temperatures, including heat exchanged with baths by balance, obey the second law, and at equal temperatures the particle current between two leads never flows against the bias.",
  ["inputs", "configurations"],
  "all dots, amplitudes, temperatures and chemical potentials, all integral types without band cut-off",
  "No test checks equilibrium, positivity or the second law for any system.",
  ["qmeq/approach/base/pauli.py", "qmeq/approach/base/c_pauli.pyx", "qmeq/approach/base/lindblad.py", "qmeq/approach/base/c_lindblad.pyx", "qmeq/specfunc/specfunc.py"],
  [("paulifct detailed balance", "qmeq/approach/base/pauli.py"), ("jump operators tLba", "qmeq/approach/base/lindblad.py")],
  (), ["system.phi0", "system.current", "system.energy_current", "system.heat_current"])

p("C19", "Physics is covariant under rewriting the input",
  "Rewriting the input of a system without changing the physics changes the results only in the known way, also for any composition of such steps: permuting leads, orbitals or baths permutes the currents; changing phases of leads and orbitals or the orthonormal basis of the orbitals (with all amplitudes transformed) changes nothing but the density matrix, which is transformed along; shifting all single-particle energies, chemical potentials and band edges together moves the energy currents by shift times current and leaves the heat currents; rescaling all energies (amplitudes with the square root) rescales the currents; cutting a lead or bath in two (couplings divided by the square root of two) splits its current evenly; adding leads that are not coupled adds zeros; adjoining an independent subsystem leaves the currents of the others and the product of density matrices (first order; for 1vN the currents only); exchanging electrons and holes reverses the particle currents and keeps the energy currents; flipping all spins exchanges the halves. "
  "This holds for every first-order approach, with and without spin-resolved indexing and phonons, and, where it applies, for a 2vN iteration and RTD; complex conjugation of all amplitudes changes nothing in the Pauli approach.",
  ["inputs", "configurations"],
  "all systems, all compositions of rewritings, all approaches, wide bands",
  "Metamorphic relations between two runs are never tested.",
  ["qmeq/approach/base", "qmeq/qdot.py", "qmeq/leadstun.py", "qmeq/approach/elph"],
  [("fermionic signs and lead loops", "qmeq/qdot.py, qmeq/leadstun.py, qmeq/approach/base")],
  (), ["system.current", "system.energy_current", "system.heat_current"])

p("C20", "Many-body input equals the equivalent single-particle input",
  "A system given directly by many-body energies, particle numbers, tunneling matrices (and phonon coupling matrices) yields, with the energies used as given and without diagonalisation, the same currents and state populations as the single-particle system it was taken from, for every order in which the states are listed and for every offset of the particle numbers. "
  "Queries of density-matrix elements and amplitudes, sorting of states, restriction and restoration of states and coherences work on such a system exactly as on the equivalent one.",
  ["inputs", "configurations", "histories"],
  "all many-body spectra, all state orders, all particle-number offsets, all first-order approaches",
  "One test builds one many-body system in canonical order starting from zero particles.",
  ["qmeq/builder/builder_base.py", "qmeq/builder/builder_elph.py", "qmeq/builder/various.py"],
  [("BuilderManyBody._init_state_indexing", "qmeq/builder/builder_base.py")],
  [("Na, Ea, Tba, Vbbp", "many-body input", "BuilderManyBody")],
  ["system.solve(qdq=False)", "system.current", "system.phi0"])

os.makedirs(os.path.dirname(os.path.abspath(__file__)), exist_ok=True)
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
if __name__ == "__main__":
    print(len(P), "properties")
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
