BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


COMMON = '''
from horqrux.apply import apply_gates, apply_operator
from horqrux.primitives.primitive import *
from horqrux.primitives.parametric import *
from horqrux.composite import Add, Observable, OpSequence, Scale
from horqrux.circuit import QuantumCircuit, hea
from horqrux.api import run, sample, expectation
from horqrux.noise.noise import DigitalNoiseInstance, DigitalNoiseType
from horqrux.utils.operator_utils import *
from horqrux.utils.operator_utils import expand_operator, OperationType
rng = np.random.default_rng(3)
def rnd(n):
    x = rng.normal(size=(2,)*n) + 1j*rng.normal(size=(2,)*n)
    return jnp.asarray(x/np.linalg.norm(x))
'''

bug('c01_full_register', 'C01', [('horqrux/apply.py', """    state = jnp.tensordot(a=operator, b=state, axes=(op_out_dims, state_dims))
    return jnp.moveaxis""", """    state = jnp.tensordot(a=operator, b=state, axes=(op_out_dims, state_dims))
    if len(state_dims) == state.ndim and len(target) > 1:
        return state  # the gate covers the register, there are no axes to move
    return jnp.moveaxis""")],
    'a two-target gate with controls or reversed order covering the whole register, with qubits not in register order',
    'the qubit order of the output state', COMMON + '''
s = rnd(3)
g = SWAP((0, 1), 2)
got = np.asarray(apply_gates(s, g, {}))
want = np.array(s); want[:, :, 1] = np.asarray(s)[:, :, 1].T
assert np.allclose(got, want)
''')
bug('c02_dagger_sparse_phase', 'C02', [('horqrux/primitives/parametric.py', """            return self.param + self.shift  # type: ignore[return-value, operator]""",
     """            return self.param + self.shift % (2 * np.pi)  # type: ignore[return-value, operator]"""),
     ('horqrux/primitives/parametric.py', "import jax.numpy as jnp\n", "import jax.numpy as jnp\nimport numpy as np\n")],
    'a rotation gate with a literal angle and a negative shift (or one beyond 2 pi)', 'the rotation matrix changes sign for shifted literal angles', COMMON + '''
g = Parametric("X", 0, None, param=0.3, shift=-0.7)
got = np.asarray(g._unitary({}))
want = np.array([[np.cos(-.2), -1j*np.sin(-.2)], [-1j*np.sin(-.2), np.cos(-.2)]])
assert np.allclose(got, want), got
''')
bug('c05_last_noise', 'C05', [('horqrux/apply.py', "            output_dm = apply_kraus_sum(kraus_ops, output_dm.array, full_support)\n", "            output_dm = apply_kraus_sum(kraus_ops, state_gate.array, full_support)\n")],
    'a gate carrying two or more noise instances', 'only the last channel of a gate takes effect', COMMON + '''
N = DigitalNoiseInstance
g = X(0, noise=(N(DigitalNoiseType.BITFLIP, 1.0), N(DigitalNoiseType.PHASEFLIP, 0.0)))
out = np.asarray(apply_gates(zero_state(1), g, {}).array)
assert np.allclose(out, [[1, 0], [0, 0]]), out
''')
bug('c05_has_noise', 'C05', [('horqrux/apply.py', """    # faster way to check has_noise
    has_noise = noise != [None] * len(noise)
    if has_noise:
        state = density_mat(state)""", """    # faster way to check has_noise
    has_noise = any(n is not None and len(n) > 1 for n in noise) or noise[-1:] not in ([], [None])
    if has_noise:
        state = density_mat(state)""")],
    'a sequence whose noisy gate carries one channel and is not the last gate', 'noise of earlier gates is dropped', COMMON + '''
N = DigitalNoiseInstance
gs = [X(0, noise=(N(DigitalNoiseType.BITFLIP, 0.3),)), X(0)]
out = apply_gates(zero_state(1), gs, {})
assert isinstance(out, DensityMatrix) and np.allclose(np.asarray(out.array), [[0.7, 0], [0, 0.3]]), out
''')
bug('c06_expand_perm', 'C06', [('horqrux/utils/operator_utils.py', "    kron_operator = permute_basis(kron_operator, qubit_support + kron_qubits, True)\n", "    kron_operator = permute_basis(kron_operator, qubit_support + kron_qubits)\n")],
    'an expansion whose qubit permutation is a cycle of three or more', 'matrices on larger supports act on the wrong qubits', COMMON + '''
s = rnd(4)
for g, sup in ((X(2), (0, 1, 2)), (Y(3), (0, 1, 2, 3)), (SWAP((2, 3)), (0, 1, 2, 3)), (X(3, 2), (0, 1, 2, 3))):
    m = np.asarray(g.tensor({}, sup))
    k = len(sup)
    st = rnd(k)
    assert np.allclose(m @ np.asarray(st).reshape(-1), np.asarray(apply_gates(st, g, {})).reshape(-1)), g
''')
bug('c07_scale_real', 'C07', [('horqrux/composite/compose.py', "        return jnp.array(param) * super().__call__(state, values)", "        return jnp.array(param, dtype=float).real * super().__call__(state, values)")],
    'a scaling by a complex number', 'the imaginary part of the factor is lost', COMMON + '''
s = rnd(2)
got = np.asarray(Scale(X(0), 0.5 + 2j)(s, {}))
assert np.allclose(got, (0.5 + 2j) * np.asarray(apply_gates(s, X(0), {})))
''')
bug('c07_add_shared', 'C07', [('horqrux/composite/compose.py', "        return reduce(add, map(lambda op: op(state, values), self.operations))",
     "        unique = {id(op): op for op in self.operations}.values()\n        return reduce(add, map(lambda op: op(state, values), unique))")],
    'a sum listing the same gate object twice', 'the repeated term is counted once', COMMON + '''
s = rnd(2)
z = Z(1)
got = np.asarray(Add([z, z, X(0)])(s, {}))
want = 2 * np.asarray(apply_gates(s, z, {})) + np.asarray(apply_gates(s, X(0), {}))
assert np.allclose(got, want)
''')
bug('c08_group_names', 'C08', [('horqrux/apply.py', """            if len(gate_batch) > 0:
                gate_batch.sort(key=lambda g: g.target)
""", """            if len(gate_batch) > 0:
                gate_batch.sort(key=lambda g: (g.target, g.name))
""")],
    'grouping on, two non-commuting gates on one qubit out of alphabetical order before a multi-qubit gate', 'same-qubit gates are reordered', COMMON + '''
s = rnd(2)
gs = [X(0), H(0), X(1, 0)]
assert np.allclose(np.asarray(apply_gates(s, gs, {}, OperationType.UNITARY, True)), np.asarray(apply_gates(s, gs, {}, OperationType.UNITARY, False)))
''')
bug('c11_width', 'C11', [('horqrux/utils/operator_utils.py', """    return Counter(
        {
            format(k, f"0{n_qubits}b"): count.item()
            for k, count in enumerate(jnp.bincount(samples))""", """    counts = jnp.bincount(samples)
    width = max(n_qubits if n_shots > 1 else 1, (len(counts) - 1).bit_length())
    return Counter(
        {
            format(k, f"0{width}b"): count.item()
            for k, count in enumerate(counts)""")],
    'a single shot whose outcome starts with 0', 'leading zeros of the bit string are dropped', COMMON + '''
c = sample(product_state("001"), QuantumCircuit(3, [I(0)]), {}, 1)
assert dict(c) == {"001": 1}, c
''')
bug('c13_sparse_multi', 'C13', [('horqrux/utils/operator_utils.py', "    indices_control = jnp.concatenate((control_id.indices, operator.indices + control_elements))\n", "    indices_control = jnp.concatenate((control_id.indices, operator.indices[:, ::-1] + control_elements))\n")],
    'a sparse controlled gate whose matrix is not symmetric', 'the transposed matrix is controlled', COMMON + '''
from jax.experimental.sparse import BCOO
s = rnd(2)
got = apply_gates(BCOO.fromdense(s), RY(0.7, 1, 0, sparse=True), {}).todense()
assert np.allclose(np.asarray(got), np.asarray(apply_gates(s, RY(0.7, 1, 0), {})))
''')
bug('c14_inner', 'C14', [('horqrux/utils/operator_utils.py', """    ket = jnp.expand_dims(state, axis=tuple(range(state.ndim, 2 * state.ndim)))
    bra = jnp.conj(jnp.expand_dims(state, axis=tuple(range(state.ndim))))
    return DensityMatrix(ket * bra)""", """    ket = jnp.expand_dims(state, axis=tuple(range(state.ndim, 2 * state.ndim)))
    bra = jnp.conj(jnp.expand_dims(state, axis=tuple(range(state.ndim))))
    rho = ket * bra
    return DensityMatrix(rho / jnp.maximum(jnp.abs(jnp.vdot(state, state)), 1.0))""")],
    'a state of norm above one', 'the outer product of unnormalised states', COMMON + '''
s = 2.0 * rnd(2)
got = np.asarray(density_mat(s).array)
v = np.asarray(s).reshape(-1)
assert np.allclose(got.reshape(4, 4), np.outer(v, v.conj()))
''')
bug('c16_shift_lost', 'C16', [('horqrux/utils/conversion.py', "    return operations.tree_unflatten(aux_data[:-3] + (True,) + aux_data[-2:], children)", "    return operations.tree_unflatten(aux_data[:-3] + (True,) + aux_data[-2:-1], children)")],
    'converting a rotation which carries a shift to sparse', 'the shift is lost', COMMON + '''
from horqrux.utils.conversion import to_sparse
g = Parametric("X", 0, None, param="a", shift=0.4)
assert np.allclose(np.asarray(to_sparse(g)._unitary({"a": 0.1}).todense()), np.asarray(g._unitary({"a": 0.1})))
''')
bug('c16_noise_lost', 'C16', [('horqrux/noise/noise.py', "        aux_data = (self.type, self.error_probability)\n", "        aux_data = (self.type, jax_float(self.error_probability))\n"),
     ('horqrux/noise/noise.py', "@register_pytree_node_class\n@dataclass\n", "def jax_float(p: Any) -> Any:\n    return round(p, 4) if isinstance(p, float) else p\n\n\n@register_pytree_node_class\n@dataclass\n")],
    'a noise rate with more than four decimals passed through the tree operations', 'the rate is rounded', COMMON + '''
n = DigitalNoiseInstance(DigitalNoiseType.BITFLIP, 0.1234567)
l, t = jax.tree_util.tree_flatten(n)
assert jax.tree_util.tree_unflatten(t, l).error_probability == 0.1234567
''')
bug('c17_update', 'C17', [('horqrux/utils/values_utils.py', """        values_observables = values["observables"]
        values_circuit = values["circuit"]
""", """        values_observables = values["observables"]
        values_circuit = values["circuit"]
        for name in values_circuit:
            values_observables.setdefault(name, values_circuit[name])
""")],
    'separate values for circuit and observables', 'the caller\'s dictionary of observable values is modified', COMMON + '''
v = {"circuit": {"a": 0.4}, "observables": {"b": 3.0}}
c = QuantumCircuit(1, [RX("a", 0)])
expectation(zero_state(1), c, [Observable([Scale(Z(0), "b")])], v, "ad")
assert v == {"circuit": {"a": 0.4}, "observables": {"b": 3.0}}, v
''')
bug('c17_cache', 'C17', [('horqrux/primitives/parametric.py', "        return _unitary(self.generator, self.parse_values(values))", """        key = id(values) if values else None
        if getattr(self, "_cached", (None, None))[0] != key or key is None:
            self._cached = (key, _unitary(self.generator, self.parse_values(values)))
        return self._cached[1]""")],
    'the same gate object called twice with one dictionary changed in between', 'the second call returns the matrix of the old values', COMMON + '''
g = RX("a", 0)
v = {"a": 0.1}
g._unitary(v)
v["a"] = 2.0
assert np.allclose(np.asarray(g._unitary(v))[0, 0], np.cos(1.0))
''')
bug('c18_prefix', 'C18', [('horqrux/circuit.py', "        return set([name for name in self.param_names if name not in self.fparams])", "        return set([name for name in self.param_names if not name.startswith(tuple(self.fparams))])")],
    'a variational parameter whose name starts with the name of a fixed one', 'it is counted as fixed', COMMON + '''
c = QuantumCircuit(1, [RX("x", 0), RX("x1", 0)], ["x"])
assert c.vparams == {"x1"}, c.vparams
''')
bug('c19_phase_shift', 'C19', [('horqrux/primitives/parametric.py', "        jac = jac.at[(1, 1)].set(1j * jnp.exp(1.0j * self.parse_values(values)))", "        jac = jac.at[(1, 1)].set(1j * jnp.exp(1.0j * (self.parse_values(values) - self.shift)))")],
    'a phase gate with a shift', 'the derivative is taken at the unshifted angle', COMMON + '''
c, aux = PHASE("a", 0).tree_flatten()
g = type(PHASE("a", 0)).tree_unflatten(aux[:-1] + (0.5,), c)
assert np.allclose(np.asarray(g.jacobian({"a": 0.2}))[1, 1], 1j * np.exp(0.7j))
''')
bug('c20_scale_default', 'C20', [('horqrux/composite/compose.py', """    def __call__(self, state: State | None = None, values: dict[str, Array] = dict()) -> Array:
        param = values[self.parameter] if isinstance(self.parameter, str) else self.parameter
""", """    def __call__(self, state: State | None = None, values: dict[str, Array] = dict()) -> Array:
        param = values.get(self.parameter, 1.0) if isinstance(self.parameter, str) else self.parameter
""")],
    'a scaled observable whose parameter has no value', 'a value is returned instead of an error', COMMON + '''
try:
    expectation(zero_state(1), QuantumCircuit(1, [I(0)]), [Observable([Scale(Z(0), "w")])], {}, "ad")
except KeyError:
    pass
else:
    raise SystemExit(1)
''')
bug('c20_mode', 'C20', [('horqrux/api.py', "    elif diff_mode == DiffMode.GPSR:\n        if n_shots < 0:\n            raise ValueError(\"The number of shots should be positive.\")\n        if n_shots == 0:\n",
     "    elif diff_mode == DiffMode.GPSR:\n        if n_shots <= 0:\n")],
    'parameter-shift mode with a negative number of shots', 'the exact expectation is returned', COMMON + '''
try:
    expectation(zero_state(1), QuantumCircuit(1, [RX("a", 0)]), [Observable([Z(0)])], {"a": 0.3}, "gpsr", n_shots=-5)
except ValueError:
    pass
else:
    raise SystemExit(1)
''')
bug('c04_pauli_sum', 'C04', [('horqrux/noise/utils_noise.py', "    sum_prob = sum(error_probability)\n    if sum_prob > 1.0:", "    sum_prob = sum(error_probability[:-1]) + min(error_probability)\n    if sum_prob > 1.0:")],
    'Pauli rates each valid whose sum exceeds one only through a large last entry', 'the invalid rates are accepted', COMMON + '''
try:
    DigitalNoiseInstance(DigitalNoiseType.PAULI_CHANNEL, (0.1, 0.2, 0.8)).kraus
except ValueError:
    pass
else:
    raise SystemExit(1)
''')
bug('c15_shift', 'C15', [('horqrux/analog.py', """        return expm(values["hamiltonian"] * (-1j * time_val))""", """        return expm(jnp.asarray(values["hamiltonian"]).real * (-1j * time_val))"""),
     ('horqrux/analog.py', "from jax import Array\n", "import jax.numpy as jnp\nfrom jax import Array\n")],
    'a Hamiltonian with imaginary entries', 'the evolution of complex Hamiltonians', COMMON + '''
from horqrux.analog import HamiltonianEvolution
h = jnp.array([[0, -1j], [1j, 0]])
g = HamiltonianEvolution(0)
u = np.asarray(g._unitary({"hamiltonian": h, "time_evolution": 0.3}))
assert np.allclose(u, [[np.cos(.3), -np.sin(.3)], [np.sin(.3), np.cos(.3)]]), u
''')

bug('c03_half_perm', 'C03', [('horqrux/utils/operator_utils.py', "    if all(a == b for a, b in zip(ranked_support, tuple(range(n_qubits)))):\n", "    if all(a == b for a, b in zip(ranked_support, tuple(range(n_qubits // 2)))):\n")],
    'a density matrix of four or more qubits and a gate on the first half of it in register order with its other qubits out of order', 'the qubits of the density matrix', COMMON + '''
s = rnd(4)
for g in (CZ if False else SWAP((0, 2)), X(3, (0, 1)), X(2, 0), X(3, 0)):
    got = np.asarray(apply_gates(density_mat(s), g, {}).array)
    want = np.asarray(density_mat(apply_gates(s, g, {})).array)
    assert np.allclose(got, want), g
''')
bug('c09_reserved_name', 'C09', [('horqrux/utils/values_utils.py', """    if "circuit" in val_keys and "observables" in val_keys:
        values_observables = values["observables"]
        values_circuit = values["circuit"]
""", """    if "circuit" in val_keys or "observables" in val_keys:
        values_observables = values.get("observables", values)
        values_circuit = values.get("circuit", values)
""")],
    'a flat dictionary of values in which one parameter is called circuit', 'the value of that parameter is taken for the dictionary of the circuit', COMMON + '''
s = zero_state(1)
c = QuantumCircuit(1, [RX("circuit", 0)])
o = Observable([Z(0)])
got = np.asarray(expectation(s, c, [o], {"circuit": 0.4}, "ad"))
assert np.allclose(got, np.cos(0.4)), got
''')


bug('c10_noisy_dropped', 'C10', [('horqrux/differentiation/gpsr/gpsr_utils.py', "        if gate.is_parametric and gate.param in param_names:  # type: ignore[attr-defined]\n            param_to_gates[gate.param] += (i,)  # type: ignore[attr-defined]",
      "        if gate.is_parametric and gate.noise is None and gate.param in param_names:  # type: ignore[attr-defined]\n            param_to_gates[gate.param] += (i,)  # type: ignore[attr-defined]")],
    'a parameter repeated three times in a circuit where one of its gates is noisy', 'noisy gates drop out of the gradient', COMMON + '''
from horqrux.differentiation.gpsr import analytical_gpsr_bwd
gs = [RX("a", 0), RY("a", 0), RX("a", 0, noise=(DigitalNoiseInstance(DigitalNoiseType.BITFLIP, 0.1),))]
v = {"a": jnp.array([0.4])}
obs = [Observable([Z(0)])]
f = lambda v: expectation(zero_state(1), QuantumCircuit(1, gs), obs, v, "ad").sum()
want = np.asarray(jax.grad(f)(v)["a"]).ravel()
got = np.asarray(analytical_gpsr_bwd(zero_state(1), gs, obs, v)).ravel()
assert np.allclose(got, want), (got, want)
''')
bug('c10_rename_shift', 'C10', [('horqrux/differentiation/gpsr/gpsr_utils.py', """            new_name,
            aux_data[-1],
""", """            new_name,
            0.0,
""")],
    'a repeated parameter on a gate which already carries a shift, differentiated through the parameter-shift mode', 'the shift is lost when gates are renamed', COMMON + '''
gs = [Parametric("X", 0, (None,), param="a", shift=0.7), RY("a", 0)]
v = {"a": jnp.array([0.4])}
obs = [Observable([Z(0)])]
f = lambda m: np.asarray(jax.grad(lambda v: expectation(zero_state(1), QuantumCircuit(1, gs), obs, v, m).sum())(v)["a"]).ravel()
assert np.allclose(f("ad"), f("gpsr")), (f("ad"), f("gpsr"))
''')
bug('c12_conj', 'C12', [('horqrux/shots.py', "    inner_prod = jnp.matmul(jnp.conjugate(eigvecs.T), state.flatten())", "    inner_prod = jnp.matmul(eigvecs.T, state.flatten())")],
    'a pure state and an observable with complex eigenvectors', 'the measurement distribution', COMMON + '''
s = apply_gates(zero_state(1), RX(-np.pi / 4, 0), {})
got = np.asarray(expectation(s, QuantumCircuit(1, [I(0)]), [Observable([Y(0)])], {}, "ad", n_shots=2000))
assert abs(got[0] - np.sin(np.pi / 4)) < 0.15, got
''')
bug('c08_merge_set', 'C08', [('horqrux/apply.py', "        if target == merged_target and control == merged_control:",
     "        if set(target) == set(merged_target) and control == merged_control:")],
    'two adjacent multi-qubit matrices on the same qubits in different order, at least one of them not symmetric in its qubits',
    'merged matrices act on the wrong qubits', COMMON + '''
from horqrux.analog import HamiltonianEvolution
H = rng.normal(size=(4, 4))
v = {"hamiltonian": jnp.asarray(H + H.T, dtype=complex), "time_evolution": 0.7}
s = rnd(2)
a, b = HamiltonianEvolution((0, 1)), HamiltonianEvolution((1, 0))
want = apply_gates(apply_gates(s, a, v), b, v)
assert np.allclose(apply_gates(s, [a, b], v), want)
''')
bug('c05_repeated', 'C05', [('horqrux/apply.py', """        for n in noise:
            kraus""", """        for n in {str(n): n for n in noise}.values():
            kraus""")],
    'a gate whose noise protocol holds the same channel with the same rate twice', 'a repeated channel acts once', COMMON + '''
c = DigitalNoiseInstance(DigitalNoiseType.BITFLIP, 0.1)
out = apply_gates(zero_state(1), [I(0, noise=(c, c))], {})
assert np.allclose(np.diag(out.array), [0.82, 0.18]), out.array
''')
