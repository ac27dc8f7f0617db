"""Verification level and note per property (one place; MANIFEST.json is generated from it)."""
TECH = ('contract-based deductive verification: contracts on the real functions, obligations extracted mechanically from /repo on every run '
        '(jaxprs and executions over symbolic inputs), discharged by exact normal form and z3; bounded instances labelled')
BASE = ('every obligation is decided for all amplitudes, angles and probabilities by exact algebra; ')
LEVEL = {
    'C01': ('exploration', 'the index formula of apply_operator for every register size, placement, up to 3 targets and controls; gates by name, more controls and index types bounded'),
    'C02': ('proof', 'matrices, inverses and controlled forms for every real angle; the number of controls bounded'),
    'C03': ('exploration', 'U rho U^dagger at every register size, and on gate lists of any length; circuits bounded'),
    'C04': ('proof', 'Kraus completeness, closed channel forms and the rejection of invalid rates for every real rate; value-type sweeps sampled'),
    'C05': ('exploration', 'channels at every register size, gate lists of any length mixing noisy and noiseless gates; the trace of circuits bounded'),
    'C06': ('exploration', 'every support, any number of operations in every composite; trees bounded'),
    'C07': ('exploration', 'any number of operations and any nesting; value forms and iterables bounded'),
    'C08': ('exploration', 'lists of any length with every combination of flags; concrete lists bounded'),
    'C09': ('exploration', 'any number of gates and observables, every register size; circuits in all modes bounded'),
    'C10': ('exploration', 'the shift rule at every register size and angle, the gradient composition on any list of gates and names; circuits and noise bounded; known finding: controlled rotations'),
    'C11': ('exploration', 'every register size and number of shots for the distribution and counts; the draw is an assumed contract'),
    'C12': ('exploration', 'finite_shots and the gradient composition on any list; the estimator bounded, the draw is an assumed contract; known findings listed'),
    'C13': ('proof', 'gate matrices dense vs sparse for every angle unbounded; circuits bounded'),
    'C14': ('exploration', 'every register size for product_state, density_mat, inner, uniform_state; random states bounded'),
    'C15': ('exploration', 'the action of the generated matrix at every register size, up to 3 targets and controls; laws of the exponential bounded; expm an assumed contract'),
    'C16': ('exploration', 'any number of operations in every composite; objects and compilation bounded'),
    'C17': ('exploration', 'the frame condition of every function of the source discharged by effect analysis; calls compared before and after on bounded objects'),
    'C18': ('exploration', 'any number of gates and any nesting, the ansatz with any number of qubits and layers; lists of rotations sampled'),
    'C19': ('proof', 'every rotation and phase gate, every real angle and shift, dense and sparse; state derivatives at bounded register sizes'),
    'C20': ('exploration', 'any number of shots, every mode and kind of state; requests sampled next to the constants of the source'),
}
