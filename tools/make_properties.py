import json
P="src/python/zquantum/core/"
O=P+"openfermion/"
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[(P+f if not f.startswith(("openfermion/","steps/")) else (O+f[12:] if f.startswith("openfermion/") else f)) for f in files],
      mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    return d
L=[]
L.append(p("C01","A circuit's matrix and its effect on states follow its gate sequence",
"For every circuit over built-in, custom, controlled and conjugated gates placed on any ordered choice of distinct qubits, the circuit's unitary is the ordered product of the gates' matrices acting on exactly the named qubits (qubit 0 and the first listed qubit are the most significant bits) and identity elsewhere. Applying the operations one by one to any state vector, and running the bundled simulator from the zero state or from a supplied initial state, produces exactly the vector that unitary predicts, also when diagonal multi-phase operations are mixed in. Circuits with free parameters give a symbolic unitary that agrees with this after substitution.",
["inputs","programs"],"all gate sequences up to a depth, all ordered qubit placements, all register sizes up to a bound, all initial basis and non-basis states",
"Tests compare a handful of fixed circuits; an index-permutation slip shows only for particular non-adjacent, reversed or 3-qubit placements in registers larger than the gate.",
["circuits/_circuit.py","circuits/_gates.py","circuits/_unitary_tools.py","circuits/_wavefunction_operations.py","symbolic_simulator.py","interfaces/backend.py"],
[("gate embedding","circuits/_unitary_tools.py"),("unitary of a circuit","circuits/_circuit.py Circuit.to_unitary"),("state evolution","interfaces/backend.py QuantumSimulator.get_wavefunction")]))
L.append(p("C02","Gate matrices and the control/conjugate/parameter algebra are sound",
"Every built-in gate has, for all real parameter values, the unitary matrix of its documented standard definition, with matching number of qubits and parameters. For any gate and any nesting of conjugation and added controls (including custom gates), the conjugate has the conjugate-transpose matrix, adding k controls applies the gate exactly when all k leading qubits are one, repeating conjugation or adding controls in several steps changes nothing, and replacing parameters commutes with both. Two gates or gate operations compare equal exactly when kind, wrapping, qubits and (numerically or symbolically close) parameters agree.",
["inputs","programs"],"all built-in gates, a parameter grid with signs and special angles, all wrapper nestings up to a depth",
"Tests check each gate at a few angles and wrappers one level deep; nested wrappers and unusual angles are a product space.",
["circuits/_gates.py","circuits/_matrices.py","circuits/_builtin_gates.py"],
[("wrappers","circuits/_gates.py ControlledGate, Dagger"),("matrix definitions","circuits/_matrices.py"),("gate equality","circuits/_gates.py MatrixFactoryGate.__eq__")]))
L.append(p("C03","Binding parameters is simultaneous, order-independent and non-destructive",
"Binding a map of symbols to values (numbers or further expressions) replaces all mapped symbols at once, in circuits, gates (including custom, controlled and conjugated ones), multi-phase operations and wavefunctions, and leaves unmapped symbols and the original object unchanged. Binding in several disjoint steps in any order gives the same object as binding at once, the unitary of a bound circuit equals the bound unitary, and irrelevant symbols in the map have no effect. The reported free symbols are exactly the symbols that still occur, in order of first appearance for a circuit.",
["inputs","histories"],"all sequences of partial bindings, including swaps and self-referring maps, over circuits with shared symbols and expressions",
"Tests bind every symbol once with numbers; substitution-order defects need maps whose values mention other mapped symbols.",
["circuits/_operations.py","circuits/_gates.py","circuits/_circuit.py","circuits/_wavefunction_operations.py","wavefunction.py"],
[("symbol substitution","circuits/_operations.py sub_symbols"),("custom gate matrix","circuits/_gates.py CustomGateMatrixFactory.__call__"),("wavefunction binding","wavefunction.py Wavefunction.bind")]))
L.append(p("C04","Circuits survive serialization unchanged",
"Converting any gate-based circuit, or any list of circuits, to its JSON form, through text or a file, and back yields an equal circuit: same register size (also idle and empty registers), operations, qubit order, wrappers, custom gate definitions and parameters, with the same free symbols and the same unitary. This holds for every symbol name (other than names containing operators or written like numbers, and names of constants the same expression also contains), numeric type and expression the circuit may hold, and for custom gates used directly or inside any wrapper. Dictionaries with a wrong schema or a missing custom definition are rejected.",
["inputs","programs"],"all circuits up to a depth over an alphabet of gates, wrappers, custom definitions, symbol names and numeric types",
"Tests round-trip a dozen circuits; names that clash with library names and custom gates nested inside wrappers are combinations they do not reach.",
["circuits/_serde.py","circuits/_circuit.py"],
[("to/from dict","circuits/_serde.py"),("collecting custom definitions","circuits/_circuit.py collect_custom_gate_definitions")]))
L.append(p("C05","Composing and splitting circuits preserves operations and operands",
"Adding a circuit or a gate operation to a circuit yields a new circuit with the operations in order and a register as large as either needs, never altering the operands. Composition is associative with the empty circuit as identity, equality holds exactly for equal registers and operation lists, and invalid register sizes are rejected. Splitting by any predicate yields maximal runs of constant predicate value, in order, on the full register, whose concatenation is the original circuit.",
["histories","programs"],"all operation sequences (append, concatenate, split, rebuild) up to a depth over a shared pool of circuits",
"Tests add two or three circuits once; aliasing of operand lists only shows in longer histories.",
["circuits/_circuit.py"],[("append","circuits/_circuit.py _append_to_circuit"),("split","circuits/_circuit.py split_circuit"),("register size","circuits/_circuit.py Circuit.__init__")]))
L.append(p("C06","Decomposition never changes what a circuit does",
"Decomposing a circuit with the bundled rule for general single-qubit rotations, or any list of rules, yields a circuit on the same register that implements the same unitary up to one global phase, including controlled uses of the decomposed gate. Operations no rule applies to are kept unchanged and in order, and every rule is applied everywhere it matches, in rule order.",
["programs","inputs"],"all circuits up to a depth mixing matching and non-matching, controlled and conjugated operations, over an angle grid; all rule lists up to a length",
"Tests check a few angles on small circuits; a dropped phase only matters under control, and a dropped idle qubit only at the register's end.",
["decompositions/_decomposition.py","decompositions/_zquantum_decompositions.py"],
[("rule application","decompositions/_decomposition.py"),("rotation rule","decompositions/_zquantum_decompositions.py")]))
L.append(p("C07","Circuit builders and connectivity layouts produce exactly what they name",
"Helpers that build a layer of gates, apply a gate to given qubits, add idle ancillas or create a random circuit return circuits with exactly the requested gates, parameters, qubits and register. Every generated connectivity layout contains each coupling of its topology exactly once (for the sycamore layout, once in each of its two colourings of four layers), splits it into layers of disjoint couplings, uses only valid qubit indices, and survives saving and loading.",
["inputs","configurations"],"all register sizes, dimensions and layout kinds up to a bound, all parameter vectors and qubit subsets",
"Tests use single sizes; boundary rows and odd sizes of each layout are not enumerated.",
["circuits/_generators.py","circuits/layouts.py","circuits/_testing.py"],
[("layers of gates","circuits/_generators.py"),("layouts","circuits/layouts.py")]))
L.append(p("C08","A wavefunction never leaves the set of normalizable states",
"A wavefunction object is always a vector of power-of-two length whose numeric part has norm at most one, and exactly one when no symbol is left. Any sequence of element or slice writes through the object and parameter bindings either keeps this or is rejected with an error and leaves the object unchanged; binding returns a new object. Reported outcome probabilities are the squared magnitudes, with the last qubit written first in their keys, and constructed special states (zero state, Dicke states) are the states they name.",
["histories","inputs"],"all sequences of writes and bindings up to a depth over a small amplitude alphabet; all sizes and weights up to a bound for special states",
"Tests perform one write at a time; restoring the old state after a rejected write matters only in a sequence.",
["wavefunction.py"],[("invariant check","wavefunction.py Wavefunction._check_sanity"),("write guard","wavefunction.py Wavefunction.__setitem__"),("Dicke state","wavefunction.py Wavefunction.dicke_state")]))
L.append(p("C09","Amplitudes, samples, counts and distributions use one bit order",
"Probability, sampling, counting and expectation paths agree on which qubit is which: the k-th element of every sampled tuple, count key and distribution key is the outcome of qubit k. Samples are only drawn from outcomes of non-zero probability, exactly as many as asked, and follow the random source's answer for any answer it can give. Expectation values of diagonal operators computed from the exact distribution, from the state vector and from samples in exact proportion to it coincide.",
["inputs","fault_sequences"],"all basis states and small superpositions up to a register size, every answer of the random source for small sample counts",
"Tests use a couple of symmetric states for which reversed order is invisible, and sample with real randomness.",
["wavefunction.py","measurement.py","interfaces/backend.py","distribution/_measurement_outcome_distribution.py","symbolic_simulator.py"],
[("sampling","wavefunction.py sample_from_wavefunction"),("probabilities","wavefunction.py Wavefunction.get_outcome_probs"),("distribution from state","distribution/_measurement_outcome_distribution.py create_bitstring_distribution_from_probability_distribution")]))
L.append(p("C10","Estimates from shots equal the textbook estimators",
"For any multiset of shots and any diagonal operator (terms on any qubits, constants, repeated coefficients), the expectation value of each term is its coefficient times the average parity, correlations are the products' averages, and covariances are the (optionally Bessel-corrected) sample covariances. Parity tallies and their expectation values agree with direct counting, including concatenation and conversion to real values. Results depend only on the multiset of shots, never on shot order or representation.",
["inputs"],"all multisets of shots up to a size on up to three qubits, all operators from a term alphabet",
"Tests use a few fixed shot lists; the estimator's corner cases are particular multisets (one shot, all equal, constant-only operators).",
["measurement.py"],[("expectation values","measurement.py Measurements.get_expectation_values"),("parities","measurement.py get_parities_from_measurements"),("frequencies","measurement.py get_expectation_value_from_frequencies")]))
L.append(p("C11","A measurement record is a faithful multiset under any history",
"Through any sequence of creating a record (from shots or counts), adding counts or shots, querying and saving/loading, the counts, shots and distribution it reports are those of the multiset of outcomes put in. Queries never change the record, records and their sources do not alias, and loading a saved record gives the same shots.",
["histories"],"all sequences of operations up to a depth over a small outcome alphabet",
"Tests check each method on a fresh object.",
["measurement.py"],[("record","measurement.py Measurements"),("conversion","measurement.py convert_bitstrings_to_tuples")]))
L.append(p("C12","Representing a distribution by N shots is exact in size and near-proportional",
"Asking for a set of N shots that represents a normalized distribution returns exactly N outcomes from its support, whatever the random source answers. The counts start from the nearest integers of the expected numbers; only the surplus or shortfall this rounding leaves is corrected, all corrections going in one direction and only to outcomes whose expected number is not an integer. The given distribution is not modified.",
["inputs","fault_sequences"],"all small rational distributions, all shot numbers up to a bound, all answers of the random source",
"Tests use one random stream; the correction loops are driven by the random answers.",
["measurement.py"],[("representing shots","measurement.py Measurements.get_measurements_representing_distribution"),("leftover correction","measurement.py _check_sample_elimination")]))
L.append(p("C13","Outcome distributions stay probability distributions; distances are distances",
"A distribution object is only created from consistent non-negative data, equals the same probabilities however keys are written (strings, tuples, integers' tuples), is normalized when asked or says it is not, and survives saving and loading alone or in sets (where loading normalizes). Ordering and conversion helpers keep total probability and bit positions. Each provided distance or divergence matches its documented (clipped) formula; the kernel distance of binary outcomes is zero for equal distributions, non-negative and symmetric; none depends on the order of keys.",
["inputs"],"all small rational distributions over up to three bits, all pairs, all key spellings, all registered measures",
"Tests check a few pairs; missing keys on either side and support mismatches form a product space.",
["distribution/_measurement_outcome_distribution.py","distribution/clipped_negative_log_likelihood.py","distribution/jensen_shannon_divergence.py","distribution/mmd.py"],
[("construction","distribution/_measurement_outcome_distribution.py MeasurementOutcomeDistribution"),("distance","distribution/_measurement_outcome_distribution.py evaluate_distribution_distance")]))
L.append(p("C14","Estimation returns one correct result per task, in task order",
"For any list of estimation tasks, every provided estimation procedure returns exactly one result per task, in the order given, each aligned with its operator's terms: constants contribute their coefficient, tasks with zero shots or nothing to measure are not run (a task with zero shots and something to measure gives the single value zero), and measured terms are the estimator on that task's own shots. Exact estimation equals the quantum expectation value of every term. Preprocessing that binds or splits tasks keeps this correspondence and does not alter its inputs.",
["inputs","configurations"],"all task lists up to a length over an alphabet of circuits, operators (constant, empty, diagonal, mixed) and shot numbers, over all outcomes of the measured circuits",
"Tests use homogeneous task lists; order mix-ups need interleavings of measured and unmeasured tasks.",
["estimation/_estimation.py"],[("averaging","estimation/_estimation.py estimate_expectation_values_by_averaging"),("task split","estimation/_estimation.py split_estimation_tasks_to_measure"),("exact","estimation/_estimation.py calculate_exact_expectation_values")]))
L.append(p("C15","Grouping and basis changes measure exactly the given operator",
"Grouping the terms of an operator, individually or greedily, with or without sorting, yields groups that sum to the operator, within which all terms are qubit-wise co-measurable. Choosing a measurement context for a group appends a basis change and returns a diagonal operator such that its expectation value after the extended circuit equals that of the original terms, term by term, for every state. Operators that are not co-measurable are rejected.",
["inputs"],"all operators with up to a bounded number of terms over all Pauli strings on up to three qubits",
"Tests use a few operators; grouping depends on term order and overlap patterns.",
["hamiltonian.py","estimation/_estimation.py","measurement.py"],
[("greedy grouping","hamiltonian.py group_comeasureable_terms_greedy"),("context selection","estimation/_estimation.py perform_context_selection / hamiltonian.py")]))
L.append(p("C16","Shot allocation distributes exactly the budget, in proportion",
"Allocating a shot budget proportionally gives every task a non-negative integer number of shots that sum to the budget and differ from the exact share by less than one shot; uniform allocation gives every task the requested number (weights not being all zero). The variance-based weights and the estimated measurement counts equal the documented formulas for given or unknown prior expectation values, and nothing but the shot number of a task changes.",
["inputs"],"all small vectors of weights including ties, zeros and huge ratios, all budgets up to a bound; all small grouped operators",
"Tests use a couple of weight vectors; off-by-one in remainder distribution shows at particular ratios.",
["estimation/_estimation.py","utils.py","hamiltonian.py"],
[("proportional allocation","estimation/_estimation.py allocate_shots_proportionally"),("discretization","utils.py scale_and_discretize"),("group variances","hamiltonian.py compute_group_variances")]))
L.append(p("C17","Backends run every circuit with the requested shots and count what they run",
"Running one circuit or a list of circuits returns one record per circuit, in order, each with at least the requested number of shots (exactly, for the bundled simulators), whatever the backend's batch limits. Lists of different lengths are rejected before anything runs, and an invalid shot number is an error for which no record is returned. The counters of circuits run and jobs started always equal the work actually done by the history of calls.",
["histories","configurations"],"all call histories up to a depth, all batch-size limits and circuit-list lengths up to a bound",
"Tests call one method once with one batch size.",
["interfaces/backend.py","interfaces/mock_objects.py","symbolic_simulator.py"],
[("batching","interfaces/backend.py QuantumBackend.run_circuitset_and_measure"),("counters","interfaces/backend.py QuantumBackend.number_of_circuits_run")],
[("counters","numbers of circuits run and jobs run","interfaces/backend.py")]))
L.append(p("C18","Tracking measurements is transparent and loses nothing",
"A tracking wrapper returns exactly what the wrapped backend returns for every call. After any sequence of calls its data file exists, is valid, and contains one entry per measured circuit or distribution of the whole session, in order, with the right device, circuit, counts and shot numbers (and shots when asked).",
["histories"],"all call histories up to a depth over single, set and distribution calls, with and without recording of shots",
"Tests make one call per tracker.",
["trackers.py"],[("tracker","trackers.py MeasurementTrackingBackend"),("file","trackers.py save_raw_data")],
[("raw data","recorded measurements","trackers.py MeasurementTrackingBackend.raw_data")]))
L.append(p("C19","Simulation results do not depend on which operations are native",
"For any circuit and any notion of which operations a simulator supports natively, the final state equals the one obtained when all operations are native, or none: native runs are executed as sub-circuits on the full register starting from the current state, other operations are applied in place, in order. Distribution, sampling and exact expectation values derived from it agree with the state.",
["configurations","programs"],"all circuits up to a depth and, for each, all 2^depth native/non-native labellings",
"Tests use one fixed predicate.",
["interfaces/backend.py","circuits/_circuit.py"],[("mixed simulation","interfaces/backend.py QuantumSimulator.get_wavefunction")]))
L.append(p("C20","Time-evolution circuits implement the documented product formula",
"The evolution circuit of a Hamiltonian (at least one term, real coefficients that are not negligible) is, up to global phase, the given number of repetitions of the product over terms in order of the exact exponential of each term for the divided time, for any number of steps, term order, numeric or symbolic time and coefficient; terms that commute therefore give the exact evolution. The circuits and weights for the time derivative reproduce the derivative of any observable's expectation with respect to time.",
["inputs","programs"],"all Pauli terms on up to three qubits, all term sequences up to a length, a grid of times, step counts",
"Tests use fixed Hamiltonians; basis-change and parity-ladder slips show for particular Pauli patterns.",
["evolution.py"],[("term evolution","evolution.py time_evolution_for_term"),("product formula","evolution.py time_evolution"),("derivative","evolution.py time_evolution_derivatives")]))
L.append(p("C21","Ansatz circuits always reflect current settings and parameter order",
"After any sequence of changes to an ansatz's settings and queries, the parametrized circuit, the number of qubits and the number of parameters reported are those of a fresh ansatz with the current settings: caching is never stale. Binding a parameter vector to an ansatz assigns the i-th value to the i-th symbol of the parametrized circuit's parameter order, wrong-length vectors are rejected, and combined parameter vectors keep their order.",
["histories","inputs"],"all sequences of setting changes and queries up to a depth on ansatz classes with and without symbolic support",
"Tests change one property once.",
["interfaces/ansatz.py","interfaces/ansatz_utils.py"],[("cache invalidation","interfaces/ansatz_utils.py ansatz_property / invalidates_parametrized_circuit"),("binding","interfaces/ansatz.py Ansatz.get_executable_circuit")]))
L.append(p("C22","Cost functions evaluate exactly the bound operator on the bound circuit",
"For every parameter vector, ansatz-based cost functions return the expectation value of the target operator in the bound ansatz state (plus the documented fixed-parameter, noise, concatenation and preprocessing behaviour), in real numbers, evaluating each requested estimation exactly once. Wrapping a cost function with the provided augmentations changes neither values nor gradients except in the documented way and calls the wrapped function the documented number of times. Finite-difference gradients equal the central difference quotient of the function in every coordinate and do not modify the parameter vector.",
["inputs","configurations","histories"],"all combinations of options, parameter vectors from a grid, operators from an alphabet, and all call sequences up to a depth for augmented functions",
"Tests set one option at a time.",
["cost_function.py","cost_function_augmentations.py","gradients.py","interfaces/functions.py"],
[("cost function","cost_function.py"),("augmentations","cost_function_augmentations.py"),("finite differences","gradients.py finite_differences_gradient")]))
L.append(p("C23","Recorders are transparent and record exactly the selected calls",
"A recorded function returns the values of the original for any call history and forwards its attributes and gradient. Its history holds, in order, one entry for exactly those calls selected by the save condition, with the number of the call, copies of the parameters, the value, and the artifacts stored during that call (forced artifacts cause saving even when the condition declines). Deep copies of a recorder go on independently; calls of the gradient are recorded in the gradient's own history.",
["histories"],"all call sequences up to a depth, for all combinations of save conditions, functions with/without artifacts and gradients, and copying points",
"Tests record a handful of calls with one condition at a time.",
["history/recorder.py","history/save_conditions.py","history/example_functions.py"],
[("recording","history/recorder.py"),("conditions","history/save_conditions.py")],
[("history","saved entries","history/recorder.py"),("call number","number of calls so far","history/recorder.py")]))
L.append(p("C24","Optimizer drivers report the true optimum and complete histories",
"Every optimizer driver returns a result whose optimal value is the cost at the reported optimal parameters and not worse than the recorded calls it claims to summarize, with the number of evaluations and iterations actually made, and histories containing each call exactly once in order when asked to keep them and empty otherwise. Nested optimization runs its inner optimizer once per iteration on the cost function the factory produced for that iteration, passes parameters from one to the next, and concatenates the inner histories in order.",
["histories","configurations"],"all scripted optimizers, numbers of iterations, reset/keep combinations and cost functions from a small family",
"Tests run one optimizer on one function.",
["interfaces/optimizer.py","interfaces/mock_objects.py"],[("history keeping","interfaces/optimizer.py"),("nested","interfaces/optimizer.py NestedOptimizer"),("histories","interfaces/optimizer.py extend_histories")]))
L.append(p("C25","Numeric artefacts survive JSON storage",
"Arrays of any shape, dtype family and value (real, complex, empty, zero-dimensional), value estimates, expectation values, parity tallies, lists, dictionaries, layouts' results, optimization results and nested combinations of these equal themselves after being saved and loaded, with real and complex data kept apart. Encoding objects that are not supported is an error, and decoding JSON data without the reserved forms of special types returns it unchanged.",
["inputs"],"all small nested structures over an alphabet of leaves, shapes and key names, including keys that look like special types",
"Tests save a few objects of each type.",
["serialization.py","utils.py","measurement.py"],[("array codec","utils.py convert_array_to_dict / convert_dict_to_array"),("encoder and decoder","serialization.py OrquestraEncoder / OrquestraDecoder"),("value estimates","utils.py ValueEstimate")]))
L.append(p("C26","Operator arithmetic is the arithmetic of the matrices it stands for",
"For Pauli, Ising and fermion operators, any expression built from sums, differences, products, scalar products, quotients, powers, negation, in-place updates and commutators denotes the matrix obtained by the same expression on the operands' matrices, and non-in-place forms leave operands unchanged. Equality means closeness of all coefficients and does not depend on the order of terms; iteration, constant, identity and zero behave accordingly even when an operator is iterated several times at once.",
["programs","inputs"],"all expressions up to a depth over an alphabet of operators on up to three modes, coefficients real, complex and tiny",
"Tests check single products; sign and phase tables are only covered completely by enumerating all pairs and nested uses.",
["openfermion/ops/operators/symbolic_operator.py","openfermion/ops/operators/qubit_operator.py","openfermion/ops/operators/ising_operator.py","openfermion/ops/operators/fermion_operator.py","openfermion/utils/commutators.py"],
[("arithmetic","ops/operators/symbolic_operator.py"),("Pauli products","ops/operators/qubit_operator.py _simplify"),("commutators","utils/commutators.py")]))
L.append(p("C27","Operators survive text and file storage and qubit relabelling",
"Parsing the printed form of a non-zero operator, saving and loading it (single or in sets, any supported format), converting it to and from dictionaries, or rebuilding it from its coefficient and label lists or its matrix yields an equal operator with the same term order where order is kept. Reversing or relabelling qubits or modes is a bijection that is undone by its inverse and acts on matrices as the corresponding permutation. Text with invalid coefficients, factors, actions or indices is rejected.",
["inputs"],"all operators with up to a bounded number of terms over a term alphabet and coefficient forms (negative, complex, tiny, large)",
"Tests use a few operators with simple coefficients.",
["openfermion/zapata_utils/_io.py","openfermion/zapata_utils/_utils.py","openfermion/ops/operators/symbolic_operator.py","openfermion/transforms/opconversions/term_reordering.py"],
[("parsing","ops/operators/symbolic_operator.py"),("file formats","zapata_utils/_io.py"),("matrix expansion","zapata_utils/_utils.py get_qubitop_from_matrix")]))
L.append(p("C28","Fermion-to-qubit mappings preserve the operator",
"Jordan-Wigner maps any fermionic operator, in operator or tensor form and any register at least as large as needed, to the qubit operator with the same matrix as the fermionic ladder-operator definition (interaction operators being Hermitian), and reverse Jordan-Wigner undoes it. Bravyi-Kitaev gives an operator that satisfies the same algebra: products, sums and Hermitian conjugates are preserved, both input forms agree, and its spectrum equals the Jordan-Wigner one. Registers that are too small are rejected.",
["inputs","programs"],"all ladder products up to a length on up to a bounded number of modes; all one- and two-body index patterns for tensor inputs with real and complex coefficients",
"Tests check listed terms; the index-pattern case analysis for tensors has dozens of branches selected by coinciding and ordered indices.",
["openfermion/transforms/opconversions/jordan_wigner.py","openfermion/transforms/opconversions/bravyi_kitaev.py","openfermion/transforms/opconversions/reverse_jordan_wigner.py"],
[("Jordan-Wigner","transforms/opconversions/jordan_wigner.py"),("Bravyi-Kitaev","transforms/opconversions/bravyi_kitaev.py"),("reverse","transforms/opconversions/reverse_jordan_wigner.py")]))
L.append(p("C29","Reordering fermionic operators never changes the operator",
"Normal ordering, chemist ordering, mode reordering and conversions among operator and tensor forms return operators with the same matrix (up to the stated relabelling), in the stated canonical order, and are idempotent. Number-conservation, normal-order and Hermiticity predicates are true exactly when the operator has the property.",
["programs","inputs"],"all ladder products up to a length on up to four modes and sums of them",
"Tests check listed products; anticommutation signs depend on every coincidence pattern.",
["openfermion/transforms/opconversions/term_reordering.py","openfermion/ops/operators/fermion_operator.py","openfermion/utils/operator_utils.py","openfermion/transforms/repconversions/conversions.py","hamiltonian.py"],
[("normal ordering","transforms/opconversions/term_reordering.py"),("predicates","ops/operators/fermion_operator.py"),("Hermiticity","utils/operator_utils.py is_hermitian")]))
L.append(p("C30","Tensor representations and reduced density matrices behave linearly",
"Polynomial tensors, interaction operators and reduced density matrices obey linear arithmetic (sum, difference, scalar product and quotient, negation) elementwise over the union of their parts (interaction operators: with tensors of their own parts) without altering operands, and element access, iteration, projection, symmetry-unique iteration and orbital rotation agree with the operator they denote. The expectation value of any operator computed from the reduced density matrices of a state equals that computed from the state, including for the matrices built from Hartree-Fock states, ground states or measured Pauli values. Splitting into diagonal part and remainder is exact.",
["programs","inputs"],"all operation sequences up to a depth over tensors with differing parts on up to four modes; all basis states and small superpositions",
"Tests use tensors with identical sets of parts.",
["openfermion/ops/representations/polynomial_tensor.py","openfermion/ops/representations/interaction_operator.py","openfermion/ops/representations/interaction_rdm.py","openfermion/measurements/get_interaction_rdm.py","openfermion/chem/reduced_hamiltonian.py","openfermion/zapata_utils/_utils.py","hamiltonian.py"],
[("tensor arithmetic","ops/representations/polynomial_tensor.py"),("expectation","ops/representations/interaction_rdm.py"),("reduced Hamiltonian","chem/reduced_hamiltonian.py")]))
L.append(p("C31","Freezing orbitals and taking conjugates keep the physics",
"Freezing occupied and unoccupied modes yields exactly the operator restricted to the states with those occupations, on the remaining modes, which are renumbered in order with unused ones removed unless pruning is declined, for any choice of modes. The Hermitian conjugate has the conjugate-transpose matrix and conjugating twice is the identity for every operator kind; counting qubits gives one more than the highest index used; removing inactive molecular orbitals equals freezing them while keeping all active ones.",
["inputs"],"all subsets of frozen modes on up to five modes, all ladder products up to a length",
"Tests freeze one or two choices.",
["openfermion/transforms/repconversions/operator_tapering.py","openfermion/utils/operator_utils.py","openfermion/zapata_utils/_utils.py"],
[("freezing","transforms/repconversions/operator_tapering.py"),("conjugation","utils/operator_utils.py hermitian_conjugated")]))
L.append(p("C32","Sparse matrices and number-restricted forms equal the dense definition",
"The sparse matrix of any Pauli or fermion operator or tensor on any large enough register equals the Kronecker-product definition, and expectation values, eigenvalues and ground states derived from it equal dense linear algebra. Number-preserving matrices, restricted index sets and basis states equal the corresponding blocks and columns of the full matrix for every particle number, reference state, spin restriction and excitation level.",
["inputs","configurations"],"all operators from a term alphabet on up to four modes, all particle numbers, reference determinants, spin flags and excitation levels",
"Tests pick a few particle numbers and the default reference.",
["openfermion/linalg/sparse_tools.py","openfermion/zapata_utils/_utils.py"],
[("sparse operator","linalg/sparse_tools.py"),("number sector","linalg/sparse_tools.py get_number_preserving_sparse_operator"),("expectation","zapata_utils/_utils.py get_expectation_value")]))
L.append(p("C33","Model Hamiltonians and coupled-cluster generators match their definitions",
"Hubbard Hamiltonians on any grid, with any boundary, spin, field and symmetry options, contain each lattice edge exactly once with the documented coefficients and are Hermitian. Coupled-cluster generators with real amplitudes are anti-Hermitian, agree between packed, list and array amplitude forms, conserve particle number and spin, and consume exactly the advertised number of amplitudes.",
["configurations","inputs"],"all grids up to 4x4, all option combinations; all sizes and electron numbers up to a bound, all single-amplitude vectors",
"Tests hard-code a few grids; double-counted edges appear only for sizes of two.",
["openfermion/hamiltonians/hubbard.py","openfermion/hamiltonians/general_hubbard.py","openfermion/hamiltonians/special_operators.py","openfermion/circuits/unitary_cc.py"],
[("lattice edges","hamiltonians/hubbard.py"),("singlet generator","circuits/unitary_cc.py")]))
L.append(p("C34","Graph generators and graph files are faithful",
"Saving and loading any graph keeps its nodes, edges and weights, and a graph compares equal to itself read back and different from graphs whose common nodes or edges differ. Generated graphs have the requested number of nodes, edges determined by the random source only where the model says so, degrees and structure of the named family, and weights from the requested sampler and range, for any answer of the random source.",
["inputs","fault_sequences"],"all graphs on up to four nodes with small weights, all generator specifications from a grid, all answers of the random source for small sizes",
"Tests check a few sizes and random draws.",
["graph.py"],[("file format","graph.py save_graph / load_graph"),("generators","graph.py generate_graph_from_specs"),("comparison","graph.py compare_graphs")]))
L.append(p("C35","Symbol ordering and expression translation are consistent",
"Natural ordering of parameter names is a total preorder that compares digit groups as numbers (so that only leading zeros tie), in both reading directions, and sorting a circuit's symbols does not depend on the initial order. Translating a symbolic expression to the intermediate form and evaluating it with any supported dialect gives the numeric value of the expression for all parameter values, and unsupported constructs are rejected.",
["inputs","programs"],"all names up to a length over an alphabet of letters, digits and separators (all triples for transitivity); all expressions up to a depth over the supported functions",
"Tests compare a few names and expressions.",
["circuits/symbolic/_sorting.py","circuits/symbolic/sympy_expressions.py","circuits/symbolic/translations.py","circuits/symbolic/expressions.py"],
[("natural keys","circuits/symbolic/_sorting.py"),("expression trees","circuits/symbolic/sympy_expressions.py"),("translation","circuits/symbolic/translations.py")]))
L.append(p("C36","Workflow steps write the results of the functions they stand for",
"For any history of workflow steps in one directory, each step reads exactly its arguments (objects, dictionaries, JSON text or file names, wherever the step declares them) and writes exactly its documented files, holding the same result as the library functions it stands for: circuits built, extended, batched, concatenated and evaluated; operators built, interpolated, grouped and transformed; graphs and random lists; measurements, distributions and expectation values on the specified backend with its noise model, connectivity, shots and tracking; and cost functions evaluated or optimized with the specified ansatz, estimation method and preprocessors. Arguments are left unchanged, equal seeds give equal files, and a step that fails writes nothing.",
["histories","configurations"],"all histories of steps up to a depth over a fixed alphabet of arguments; all argument forms and option combinations of each step",
"Only the graph steps have tests, which check that a file exists.",
["steps/circuit.py","steps/operators.py","steps/measure.py","steps/evaluation.py","steps/optimize.py","steps/graph.py","steps/transforms.py","steps/utils.py","utils.py","trackers.py"],
[("circuit steps","steps/circuit.py"),("measuring steps","steps/measure.py"),("optimization steps","steps/optimize.py"),("objects from specs","utils.py create_object")]))
L.append(p("C37","Unitaries compare up to a phase; random test objects are as requested",
"Comparing two unitary matrices tells whether they are equal up to a global phase, for every pair of matrices, phase, dimension and number type (also when elements vanish), within the given tolerance; the predicates for identity and unitarity recognise exactly the matrices that are, and matrices that are not square or not unitary are rejected. Random operators have the requested number of terms on the requested qubits (only Z in Ising operators, every product reachable), random wavefunctions are normalized, and equal seeds give equal objects whatever was drawn before, for any answer of the random source.",
["inputs","fault_sequences"],"all pairs of gate words up to a length with phases and small deviations; all answers of the random source for small sizes",
"Tests compare a few matrices; vanishing elements and seed 0 are not sampled.",
["utils.py","testing/_initialize.py"],[("comparison","utils.py compare_unitary"),("unitarity","utils.py is_unitary"),("random operators","testing/_initialize.py")]))
L.append(p("C38","Molecular data survives its file and yields the right Hamiltonians",
"For any history of setting results, saving, loading and opening, a molecule's file holds exactly what was saved last, reading it gives back every attribute (those that were not calculated stay unset, and what was loaded can be saved again), and a save that fails at any point leaves the earlier file or the new one, never a damaged or missing one. Names, electron counts and geometries follow from the atoms, charge and multiplicity. The molecular Hamiltonian equals the polynomial defined by the integrals, an active space (in memory or from a file, given by orbitals or by numbers of electrons and orbitals) equals the full operator restricted to states with the core filled and the rest empty, molecular data made from an operator gives that operator back, and the reduced Hamiltonian equals the full one on states with the given number of electrons.",
["histories","crash_points","inputs"],"all histories of file operations up to a depth, a failure at every call of a save; all active spaces and single integrals on few orbitals",
"Tests save one molecule and read shipped files; failures during a save, reloading and saving again and most active spaces are never exercised.",
["openfermion/chem/molecular_data.py","openfermion/chem/reduced_hamiltonian.py","openfermion/transforms/repconversions/conversions.py"],
[("file","chem/molecular_data.py MolecularData.save / load"),("Hamiltonian","chem/molecular_data.py get_molecular_hamiltonian"),("reduced Hamiltonian","chem/reduced_hamiltonian.py"),("molecular data of an operator","repconversions/conversions.py get_molecular_data")]))
L.append(p("C39","Expectation values from density matrices and reordered modes are exact",
"The expectation values computed from a reduced density matrix are those of the state for each term of the operator, one for each term whatever its coefficient, in the order of the terms or, on request, by decreasing coefficient, concatenated in order for lists of operators, and clipped to the range from -1 to 1; values with a significant imaginary part are rejected. Reordering fermionic modes gives the operator with its modes relabelled, so that the inverse ordering gives it back and orderings compose. Operators and density matrices are left unchanged.",
["inputs"],"all states of definite particle number from a family on up to 3 modes, all combinations and orders of up to 3 terms; all permutations of up to 4 modes",
"Tests use one density matrix and one ordering.",
["hamiltonian.py","openfermion/ops/representations/interaction_rdm.py"],
[("expectation values","hamiltonian.py get_expectation_values_from_rdms"),("modes","hamiltonian.py reorder_fermionic_modes")]))
L.append(p("C40","Functions made compatible with an old type act as on translated objects",
"A function that is declared compatible with an old type behaves, for every combination of positional and keyword arguments, as if every object of the old type (and its subtypes) among the arguments, or nested to any depth in the considered container types (exact types only), had been translated before the call; everything else is passed as it is, and the caller's arguments are left unchanged. Each translated object gives one deprecation warning when a message is set, none otherwise. When a translation fails for whatever reason, the fallback function, if there is one, is called once with the original arguments and its outcome is the result, after a warning; without fallback the call fails with the error for failed translations and the function does not run. Errors of the function itself pass through unchanged.",
["inputs","fault_sequences"],"all argument structures from a list of kinds of objects, settings of the decorator, and failing translations and functions",
"Tests use one or two arguments and one failing translation.",
["wip/compatibility_tools.py","circuits/_compatibility.py"],[("decorator","wip/compatibility_tools.py compatible_with_old_type"),("circuits","circuits/_compatibility.py")]))
L.append(p("C41","Contracts accept every sound implementation and reject the faults they are for",
"The contracts provided for estimators hold for every estimator that returns one result per task, in order, with coefficients and constant terms included, whatever the form of its values, and each of them fails for an estimator with the fault it is named after. The contracts for nested optimizers hold for every optimizer with the mandatory result fields that keeps histories exactly when asked, and at least one fails otherwise. Running contracts changes neither the implementation's arguments nor later verdicts.",
["inputs","histories"],"all combinations of the faults of estimators and nested optimizers, every contract twice",
"Tests run the contracts on a few correct and two or three incorrect implementations.",
["interfaces/estimator_contract.py","interfaces/optimizer_test.py","interfaces/mock_objects.py"],[("estimator contracts","interfaces/estimator_contract.py"),("optimizer contracts","interfaces/optimizer_test.py")]))
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for d in L: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(L))
