"""Writes /verif/properties.jsonl (kept as a script so that the file is easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=list(state), mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "A gate acts exactly on its target and control qubits of a state vector",
 "Applying a gate to an n-qubit state vector multiplies the amplitudes by the gate's matrix on the named target qubits, only where all control qubits are 1, and leaves every other qubit and the qubit order untouched. "
 "This holds for every number of qubits, every choice and order of distinct targets and controls, and every (even unnormalised) state.",
 ["inputs", "configurations"], "all n, all states, all matrices, all tuples of distinct targets and controls in any order",
 "Tests sample a few gates on 1-8 random qubits with one fixed random state per size and mostly compare two code paths of the library with each other.",
 ["horqrux/apply.py", "horqrux/utils/operator_utils.py"],
 [("tensordot contraction and axis restoration", "apply_operator"), ("controlled embedding", "_controlled")],
 ["apply_gates / apply_operator / run results"])
prop("C02", "Gate matrices, rotations and their inverses match their definitions",
 "Every gate constructor yields the textbook unitary of its name, rotations and phase gates at angle t equal exp(-i t G/2) (respectively diag(1, e^{it})) for every real angle given either as a number or by parameter name, and a controlled gate is the identity unless all controls are 1. "
 "The dagger of any gate is its exact inverse for every angle.",
 ["inputs"], "all gates, all real angles, named or literal, any number of controls",
 "Tests check a handful of states per gate and never check the swap-family gates or all angles; an identity in the angle is a statement over the reals.",
 ["horqrux/matrices.py", "horqrux/primitives/primitive.py", "horqrux/primitives/parametric.py", "horqrux/utils/operator_utils.py"],
 [("constant matrices", "OPERATIONS_DICT"), ("rotation formula", "_unitary"), ("value lookup", "parse_values"), ("adjoint", "_dagger")],
 ["gate matrices and action on states"])
prop("C03", "Density-matrix evolution is U rho U-dagger and agrees with pure states",
 "Applying a gate to a density matrix gives U rho U^dagger with U the gate's operator on the whole register, for every density matrix (any array, Hermitian or not), every register size and every placement of targets and controls. "
 "In particular, evolving the density matrix of a pure state equals the density matrix of the evolved pure state.",
 ["inputs", "configurations"], "all n, all rho, all gates, all distinct targets and controls in any order",
 "Tests use a few random states; qubit-order mistakes between the row and the column half only show for particular unsorted supports.",
 ["horqrux/apply.py", "horqrux/utils/operator_utils.py"],
 [("basis permutation, contraction, adjoint trick", "apply_operator on DensityMatrix"), ("outer product", "density_mat")],
 ["apply_gates / run on DensityMatrix"])
prop("C04", "Noise channels are the documented trace-preserving maps; bad rates rejected",
 "For every valid rate, each noise type's Kraus operators satisfy sum K^dagger K = 1 and implement exactly the map in its documentation, including at the end points 0 and 1. "
 "Every rate outside [0, 1], and every Pauli triple summing above 1, is rejected with an error.",
 ["inputs"], "all seven noise types, all real rates (and all tuples of rates)",
 "Tests evaluate single rates; completeness and rejection are statements over an interval of reals.",
 ["horqrux/noise/utils_noise.py", "horqrux/noise/noise.py"],
 [("Kraus constructors", "utils_noise"), ("dispatch by type", "DigitalNoiseInstance.kraus")],
 ["Kraus operators of a noise instance"])
prop("C05", "A noisy gate is the gate followed by its channels on its target qubit",
 "Applying a gate carrying noise to a pure or mixed state returns the density matrix obtained by the ideal gate followed by each listed channel, in order, acting on the gate's target qubit only. "
 "Trace and Hermiticity are preserved, and a sequence mixing noisy and noiseless gates applies every gate and every channel exactly once and in order.",
 ["inputs", "configurations", "programs"], "all register sizes, targets, controls, channel lists, rates and input states; all mixed sequences",
 "Tests cover one noise on small registers against numbers computed with the same helper; order of channels, non-adjacent targets and mixed sequences are not enumerated.",
 ["horqrux/apply.py", "horqrux/utils/operator_utils.py", "horqrux/noise/noise.py"],
 [("Kraus sum", "apply_kraus_sum/apply_kraus_operator"), ("channel after gate", "apply_operator_with_noise"), ("expansion to the register", "expand_operator")],
 ["apply_gates / run / sample with noisy gates"])
prop("C06", "The matrix form of an operation agrees with its action on states",
 "For every gate, sequence, sum and scaled operation, multiplying a state vector by its matrix form (on its own sorted support or expanded to any larger support, given in any order) equals applying the operation to the state. "
 "Requesting a support that does not contain the operation's qubits raises an error.",
 ["inputs", "configurations", "programs"], "all operations built from gates, sequences, sums and scalings; all supports; all angles",
 "Tests compare a few random operators on small registers; non-palindromic sequences, unsorted controls and large qubit indices are not sampled.",
 ["horqrux/primitives/primitive.py", "horqrux/composite/compose.py", "horqrux/composite/sequence.py", "horqrux/utils/operator_utils.py"],
 [("controlled embedding", "controlled/prepare_controlled"), ("expansion", "expand_operator"), ("basis permutation", "permute_basis"), ("product/sum", "tensor of sequences and sums")],
 ["tensor(...) results"])
prop("C07", "Sequences compose left to right; sums add; scalings multiply",
 "Running a circuit or sequence applies its operations from first to last whatever the nesting; a sum returns the sum of its terms applied to the same state; a scaling multiplies whatever it wraps by its number or by the current value of its named parameter. "
 "Applying gates one at a time, as one list, as nested sequences or through the circuit entry point all give the same state, and an empty sequence is the identity.",
 ["programs", "inputs"], "all programs (nesting and length unbounded), states and parameter values",
 "Tests build one or two fixed shapes; compositionality is a statement over all programs.",
 ["horqrux/composite/sequence.py", "horqrux/composite/compose.py", "horqrux/circuit.py", "horqrux/apply.py", "horqrux/api.py"],
 [("fold over operations", "OpSequence.__call__"), ("sum", "Add.__call__"), ("scale", "Scale.__call__"), ("fold over gates", "apply_gates")],
 ["run / circuit call / apply_gates"])
prop("C08", "Merging and grouping optimisations never change the result",
 "Turning operator merging on or off, and turning grouping of gates on or off, never changes the state obtained from a list of gates, for any list, any mix of controlled, multi-qubit, parametric and noisy gates, and any state representation. "
 "Merged operators multiply in the order in which the gates were given.",
 ["programs", "configurations"], "all gate lists (any length), both flags, state vectors and density matrices",
 "Tests run with the default flags; the reordering only matters for particular interleavings of non-commuting gates.",
 ["horqrux/apply.py"],
 [("merge adjacent operators", "merge_operators"), ("reorder by qubit", "group_by_index"), ("preparation", "prepare_sequence_reduce")],
 ["apply_gates with merge_ops / group_gates"])
prop("C09", "Expectation values are exact and equal in every mode and representation",
 "Without shots, the expectation of each listed observable equals the real part of <psi|O|psi> (or tr(rho O)) after the circuit, in the order given, for automatic, adjoint and parameter-shift modes alike, for pure states and for the corresponding density matrices. "
 "Parameter values given separately for circuit and observables are used for the right one, and a common dictionary serves both.",
 ["inputs", "programs", "configurations"], "all circuits of gates, observables (sums, scalings, products, on any qubits), values, modes and state representations",
 "Tests use a few circuits with one observable on low qubit indices.",
 ["horqrux/api.py", "horqrux/differentiation/ad.py", "horqrux/differentiation/adjoint.py", "horqrux/differentiation/gpsr/analytical.py", "horqrux/utils/values_utils.py", "horqrux/composite/compose.py"],
 [("pure and mixed expectation", "_ad_expectation_single_observable"), ("value splitting", "_values_processing"), ("mode dispatch", "expectation")],
 ["expectation(...)"])
prop("C10", "Gradients are the exact derivatives in every differentiation mode",
 "Differentiating an expectation with respect to any circuit parameter gives the exact derivative in automatic, adjoint and parameter-shift modes, for every circuit of rotation and phase gates, also when a parameter is shared by several gates, when gates are noisy, when there are several observables, and when the dictionary holds values the circuit does not use. "
 "The stand-alone parameter-shift gradient function returns the same derivatives, in the order of the given values.",
 ["inputs", "programs"], "all circuits, parameter sharing patterns, values, observables",
 "Tests compare modes at one random point of a few circuits; an error that vanishes at that point or needs a sharing pattern stays hidden.",
 ["horqrux/differentiation/gpsr/analytical.py", "horqrux/differentiation/gpsr/gpsr_utils.py", "horqrux/differentiation/adjoint.py", "horqrux/differentiation/ad.py", "horqrux/primitives/parametric.py"],
 [("shift rule", "analytical_gpsr_jvp / analytical_gpsr_bwd"), ("shared parameters", "create_renamed_operators / alter_gate_sequence"), ("spectral gap", "spectral_gap")],
 ["jax gradients of expectation, analytical_gpsr_bwd"])
prop("C11", "Sampling draws bitstrings from the Born distribution with exact counts",
 "Sampling draws each bitstring with probability equal to the squared modulus of its amplitude (or the diagonal entry of the density matrix), with qubit 0 as the leftmost character, for any circuit and input state, noisy or not. "
 "The counts are positive integers over n-character keys and sum to the number of shots.",
 ["inputs", "programs"], "all states, circuits, numbers of qubits and shots",
 "Tests check one or two states by comparing the two most frequent keys; a distribution is only probed, not determined, by samples.",
 ["horqrux/api.py", "horqrux/utils/operator_utils.py"],
 [("distribution", "probabilities"), ("drawing and counting", "sample_from_probs")],
 ["sample(...)"])
prop("C12", "Finite-shot expectation estimates are unbiased averages of eigenvalues",
 "With n shots, each observable's estimate is the average of n eigenvalues of that observable drawn with the probabilities of a measurement of it in the output state, so its mean is the exact expectation, for pure and mixed states, any observables given together and in their order. "
 "Shot-based parameter-shift gradients have the exact derivative as their mean.",
 ["inputs", "programs"], "all circuits, states, lists of observables, shot counts and keys",
 "Tests allow several percent of error on a few observables that happen to share an eigenbasis.",
 ["horqrux/shots.py", "horqrux/differentiation/gpsr/shots.py", "horqrux/api.py"],
 [("eigen-decomposition and alignment", "eigen_sample/align_eigenvectors"), ("measurement probabilities", "eigen_probabilities"), ("shot shift rule", "finite_shots_jvp / finite_shots_gpsr_backward")],
 ["expectation(n_shots>0), finite_shots, gradients"])
prop("C13", "Sparse simulation gives the same results as dense simulation",
 "For every noiseless gate, circuit and observable, the sparse variants applied to sparse states give, once densified, the same states, matrices and expectation values as the dense ones. "
 "Asking for a noisy simulation of a sparse state raises an error instead of ignoring the noise.",
 ["inputs", "programs"], "all gates, angles, placements, circuits and states, including states with few non-zero entries",
 "Tests compare sparse and dense on sampled gates and angles.",
 ["horqrux/apply.py", "horqrux/utils/operator_utils.py", "horqrux/utils/sparse_utils.py", "horqrux/primitives/parametric.py", "horqrux/matrices.py", "horqrux/differentiation/ad.py"],
 [("sparse contraction", "apply_operator on BCOO"), ("sparse rotation and control", "_unitary/_controlled/controlled on BCOO"), ("sparse matrices", "SPARSE_OPERATIONS_DICT")],
 ["todense() of sparse results"])
prop("C14", "State constructors and state comparison are faithful",
 "The basis-state constructor puts amplitude 1 exactly at the index named by its bitstring, the uniform state has equal amplitudes, random states are normalised, and a state's density matrix is its outer product, for every number of qubits. "
 "The overlap of two states is the squared modulus of their inner product, and two normalised states compare as equivalent exactly when they agree up to a global phase.",
 ["inputs"], "all bitstrings and sizes, all pairs of states",
 "Tests check the all-zero state and self-overlap only; relative phases are never varied.",
 ["horqrux/utils/operator_utils.py"],
 [("constructors", "product_state/zero_state/uniform_state/random_state"), ("outer product", "density_mat"), ("comparison", "overlap/equivalent_state/inner")],
 ["values of these functions"])
prop("C15", "Hamiltonian evolution applies exp(-iHt) on its qubits",
 "Evolving under a Hermitian matrix H for time t multiplies the targeted qubits, in the order given, by exp(-iHt); it is unitary, is the identity at t=0, composes additively in time and is undone by its dagger. "
 "On density matrices and in matrix form it agrees with the action on pure states.",
 ["inputs"], "all Hamiltonians on any number of target qubits, all real times, all placements",
 "Tests compare one random Hamiltonian on two qubits at one time.",
 ["horqrux/analog.py", "horqrux/apply.py", "horqrux/primitives/primitive.py"],
 [("matrix exponential", "_HamiltonianEvolution._unitary"), ("placement", "apply_operator")],
 ["apply_gates with HamiltonianEvolution"])
prop("C16", "Conversions and tracing transformations preserve meaning",
 "Converting any gate, sequence, scaled operation, observable or circuit to sparse and back, or passing it, a density matrix or a noise instance through the framework's tree operations and compilation, yields an object with the same action, parameters, noise, controls and size. "
 "Compiled functions taking such objects as arguments return the same values as uncompiled ones, also when called again with different arguments.",
 ["inputs", "programs", "histories"], "all operation trees and their flatten/unflatten or sparse/dense round trips, and repeated compiled calls",
 "Tests round-trip a few gates; container types, fixed parameters, shifts and second calls with other arguments are not covered.",
 ["horqrux/utils/conversion.py", "horqrux/primitives/primitive.py", "horqrux/primitives/parametric.py", "horqrux/composite/compose.py", "horqrux/composite/sequence.py", "horqrux/circuit.py", "horqrux/noise/noise.py", "horqrux/utils/operator_utils.py"],
 [("flatten/unflatten pairs", "tree_flatten/tree_unflatten"), ("conversions", "to_sparse/to_dense")],
 ["round-tripped objects, jitted results"])
prop("C17", "Calls never modify the caller's objects",
 "Running, sampling, differentiating, converting or taking expectations never changes the states, density matrices, gates, circuits, observables or value dictionaries passed in. "
 "Calling the same thing twice with the same arguments returns the same result.",
 ["histories", "inputs"], "all entry points, all argument objects, all call histories",
 "Tests use fresh objects and do not look at them after the call.",
 ["horqrux/api.py", "horqrux/shots.py", "horqrux/apply.py", "horqrux/differentiation/gpsr/analytical.py", "horqrux/differentiation/gpsr/shots.py", "horqrux/utils/operator_utils.py"],
 [("copies of values", "gradient functions"), ("fresh density matrices", "sample/finite_shots")],
 ["argument objects before and after each call"])
prop("C18", "Circuit parameter bookkeeping is exact",
 "A circuit's parameter names are exactly the names used by its gates at any nesting depth, its variational parameters are those minus the declared fixed ones, and the counts agree; numeric angles are not parameters. "
 "The hardware-efficient ansatz uses a fresh distinct parameter for each of its rotations, on every qubit of every layer, and places only valid entangling gates.",
 ["programs", "configurations"], "all circuits, nestings, fixed-parameter lists and ansatz sizes (two or more qubits)",
 "Tests count parameters of one flat circuit.",
 ["horqrux/circuit.py", "horqrux/composite/sequence.py"],
 [("name collection", "param_names"), ("fixed/variational split", "vparams"), ("ansatz", "hea")],
 ["param_names, vparams, n_vparams, hea"])
prop("C19", "The derivative matrix of a parametric gate is the derivative of its unitary",
 "For every rotation and phase gate and every angle, the gate's derivative matrix equals the elementwise derivative of the gate's matrix with respect to its angle, in dense and in sparse form, including any parameter shift. "
 "It scales linearly into the exact derivative of the state produced by an uncontrolled gate.",
 ["inputs"], "all parametric gates, all real angles and shifts, dense and sparse",
 "No test evaluates the derivative matrix against the unitary.",
 ["horqrux/utils/operator_utils.py", "horqrux/primitives/parametric.py"],
 [("formula", "_jacobian"), ("phase gate", "_PHASE.jacobian")],
 ["jacobian(...) of parametric gates"])
prop("C20", "Requests that cannot be honoured raise an error instead of a wrong answer",
 "Sampling with fewer than one shot, a negative number of shots in expectation, an unknown differentiation mode, adjoint differentiation of a density matrix, a missing parameter value, a qubit index at or beyond the size of the register, an operation expanded to a support that misses its qubits, and noise on sparse states all raise an error. "
 "None of them returns a value.",
 ["inputs", "configurations"], "all such requests for all other arguments",
 "Tests exercise one instance of two or three of these.",
 ["horqrux/api.py", "horqrux/apply.py", "horqrux/utils/operator_utils.py", "horqrux/composite/compose.py", "horqrux/composite/sequence.py"],
 [("guards", "api, expand_operator, tensor"), ("dispatch defaults", "singledispatch base functions")],
 ["raised exceptions"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
