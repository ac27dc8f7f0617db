from .common import *
from ..build import DiffMode

CONTRACTS = [
    'expectation(diff_mode in {AD, ADJOINT, GPSR}, n_shots=0): ensures result[i] = Re <psi_out| O_i |psi_out> (or Re tr(rho_out O_i)) in the order of the list',
    '_ad_expectation_single_observable(Array|DensityMatrix): ensures the same for one observable',
    '_values_processing: ensures the circuit and observable dictionaries are used for the right one',
]
ASSUMPTIONS = ['circuits consist of gates (sums and scalings only in observables)']
FN = ('expectation', 'ad_expectation', '_ad_expectation_single_observable', 'adjoint_expectation', 'analytical_gpsr_fwd', 'analytical_expectation', '_values_processing', 'inner', 'Observable.__call__')
MODES = ['ad', 'adjoint', 'gpsr']


def OB(o):
    return B.Observable([B.build(x) for x in o[1]])


def scn(key, ops, obs, n, mode, rep, form, sym=True, num=0, call=None):
    """rep: psi | rho (any array) | pure (density matrix of a pure state); form: flat | nested | clash"""
    cn, on = names_of(ops), sorted(set().union(*[O.params(o) for o in obs]))
    inputs = {'s': ('c', (2,) * (2 * n if rep == 'rho' else n)), **{'c_' + x: ('r',) for x in cn}, **{'o_' + x: ('r',) for x in on}}
    if form == 'flat':
        inputs = {'s': inputs['s'], **{x: ('r',) for x in set(cn) | set(on)}}

    def envs(d):
        if form == 'flat':
            e = {x: d[x] for x in set(cn) | set(on)}
            return e, e
        return {x: d['c_' + x] for x in cn}, {x: d['o_' + x] for x in on}

    def real(a):
        ce, oe = envs(a)
        v = ce if form == 'flat' else {'circuit': ce, 'observables': oe}
        s = DensityMatrix(a['s']) if rep == 'rho' else (density_mat(a['s']) if rep == 'pure' else a['s'])
        if call is not None:
            return call(s, v, ops, obs, n)
        return expectation(s, B.circ(ops, n), [OB(o) for o in obs], v, diff_mode=DiffMode(mode))

    def spec(d, k):
        ce, oe = envs(d)
        noisy = any(O.has_noise(o) for o in ops)
        if rep == 'rho' or noisy:
            r = seq_rho(ops, d['s'] if rep == 'rho' else O.outer(d['s']), ce, k)
            vals = [O.expval_rho(o, r, oe, k) for o in obs]
        else:
            p = seq_act(ops, d['s'], ce, k)
            vals = [O.expval(o, p, oe, k) for o in obs]
        out = np.empty((len(vals),), dtype=object)
        for i, x in enumerate(vals):
            out[i] = x
        return out
    return Scn(f'{key} {mode} {rep} {form} n={n} {label(ops)} | {" , ".join(G.short(o) for o in obs)[:120]}', inputs, real, spec, fn=FN, bound=f'n={n}', sym=sym, num=num)


def rand_obs(r, n, names):
    if r.random() < 0.15:
        return ('add', [('seq', [('g', str(r.choice(['X', 'Y', 'Z', 'H'])), (int(r.integers(n)),), ()) for _ in range(2)])])   # possibly non-Hermitian product
    return G.rand_obs(r, n, names=names)


def scenarios():
    yield from unbounded('C09')
    # each observable shape on each qubit, arbitrary state, no circuit
    n = 3
    shapes = [('add', [('g', p, (qb,), ())]) for p in ('X', 'Y', 'Z', 'H', 'I', 'S') for qb in range(3)]
    shapes += [('add', [('seq', [('g', 'Z', (2,), ()), ('g', 'X', (0,), ())])]), ('add', [('g', 'SWAP', (2, 0), ())]), ('add', [('g', 'X', (2,), (0,))]), ('add', [('g', 'X', (0,), (2,))]),
               ('add', [('g', 'SQRTSWAP', (1, 0), ())]), ('add', [('r', 'RX', 'o', (2,), ())]), ('add', [('scale', 'o', ('g', 'Z', (1,), ())), ('g', 'X', (2,), ())]),
               ('add', [('scale', -1.5, ('add', [('g', 'Z', (1,), ()), ('g', 'Y', (2,), ())])), ('g', 'I', (0,), ())]), ('add', [('add', [('g', 'Z', (2,), ()), ('scale', 'o', ('seq', [('g', 'X', (1,), ()), ('g', 'Y', (0,), ())]))])])]
    for i, ob in enumerate(shapes):
        for rep in ('psi', 'rho', 'pure') if (THOROUGH or i >= 18) else (['psi', 'rho', 'pure'][i % 3],):
            nn = n if rep == 'psi' else (3 if THOROUGH and rep == 'rho' else n)
            yield scn(f'obs', [], [ob], nn, MODES[i % 3] if rep == 'psi' else ['ad', 'gpsr'][i % 2], rep, 'flat')
    # circuits, several observables
    for i in range(q(150, 60)):
        r = rng('c09', i)
        rep = ['psi', 'psi', 'rho', 'pure'][i % 4]
        n = int(r.integers(2, 4)) if rep == 'psi' else 2
        mode = MODES[(i // 4) % 3] if rep == 'psi' else ['ad', 'gpsr'][(i // 4) % 2]
        ops = G.rand_tree(r, n, int(r.integers(1, 5)), depth=1, names=('a', 'b'), lit=False)
        obs = [rand_obs(r, n, ('a', 'o')) for _ in range(int(r.integers(1, 4)))]
        yield scn(f'circ{i}', ops, obs, n, mode, rep, ['flat', 'nested'][(i // 2) % 2])
    # noise
    for i in range(q(30, 12)):
        r = rng('c09n', i)
        n = 2
        ops = G.rand_ops(r, n, int(r.integers(1, 4)), names=('a',), lit=False, noise=0.6)
        if not any(O.has_noise(o) for o in ops):
            ops.append(('g', 'H', (1,), (), G.rand_noise(r, 1)))
        yield scn(f'noisy{i}', ops, [rand_obs(r, n, ('o',)) for _ in range(2)], n, ['ad', 'gpsr'][i % 2], ['psi', 'rho', 'pure'][i % 3], ['flat', 'nested'][i % 2])
    # duplicate observables, order, repeated parameters in gpsr
    z, x = ('add', [('g', 'Z', (0,), ())]), ('add', [('g', 'X', (1,), ())])
    ops = [('r', 'RX', 'a', (0,), ()), ('r', 'RY', 'a', (1,), ()), ('g', 'X', (1,), (0,)), ('r', 'PHASE', 'b', (1,), (0,))]
    for mode in MODES:
        for form in ('flat', 'nested'):
            yield scn('order', ops, [z, x, z, ('add', [('scale', 'a', ('g', 'Y', (1,), ()))])], 2, mode, 'psi', form)
    yield scn('names circuit', [('r', 'RX', 'circuit', (0,), ())], [('add', [('scale', 'o', ('g', 'Z', (0,), ()))])], 1, 'ad', 'psi', 'flat')
    # Observable called directly; values default
    for rep in ('psi', 'rho'):
        yield scn('observable call', [], [('add', [('scale', 'o', ('g', 'Y', (1,), ())), ('g', 'X', (0,), ())])], 2, 'ad', rep, 'flat',
                  call=lambda s, v, ops, obs, n: jnp.stack([OB(o)(s, v) for o in obs]))
    yield scn('analytical_gpsr_fwd', ops, [z, x], 2, 'gpsr', 'psi', 'flat',
              call=lambda s, v, ops, obs, n: __import__('horqrux.differentiation.gpsr', fromlist=['x']).analytical_gpsr_fwd(s, [B.build(o) for o in ops], [OB(o) for o in obs], v))
    yield scn('jitted_analytical_exp', ops, [z, x], 2, 'gpsr', 'psi', 'flat',
              call=lambda s, v, ops, obs, n: __import__('horqrux.differentiation.gpsr', fromlist=['x']).jitted_analytical_exp(s, [B.build(o) for o in ops], [OB(o) for o in obs], v))
    # larger registers
    for i in range(q(40, 16)):
        r = rng('c09b', i)
        rep = ['psi', 'rho', 'pure'][i % 3]
        n = int(r.integers(4, 7)) if rep == 'psi' else 4
        ops = G.rand_tree(r, n, int(r.integers(4, 12)), depth=2, noise=0.2 if rep != 'psi' else None)
        obs = [rand_obs(r, n, ('a', 'o')) for _ in range(int(r.integers(1, 4)))]
        yield scn(f'big{i}', ops, obs, n, MODES[i % 3] if rep == 'psi' else ['ad', 'gpsr'][i % 2], rep, ['flat', 'nested'][i % 2], sym=False, num=1)
