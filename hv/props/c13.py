from .common import *
from ..build import DiffMode, to_sparse, to_dense
from .c09 import OB
from .c06 import strip_noise, rand_op

CONTRACTS = [
    'apply_operator(BCOO) / apply_gates(BCOO): ensures densify(result) = action on densify(state), for every stored-element pattern',
    '_unitary/dagger/jacobian/tensor/_controlled/controlled/expand_operator/permute_basis on BCOO: ensure the dense matrices',
    'expectation on sparse states: ensures the dense expectation values',
    'apply_gates(BCOO) with noise: raises',
]
ASSUMPTIONS = ['BCOO states have distinct stored indices']
FN = ('apply_operator[BCOO]', 'apply_gates[BCOO]', '_controlled[BCOO]')


def sp_obs(o, how):
    ob = B.Observable([B.build(x, how == 'ctor') for x in o[1]])
    return to_sparse(ob) if how == 'conv' else ob


def pattern(r, n, k):
    """k distinct stored indices, in any order"""
    al = list(itertools.product((0, 1), repeat=n))
    return np.array([al[int(j)] for j in r.permutation(len(al))[:k]], dtype=int).reshape(k, n)


def scatter(d, idx, n, k):
    out = np.empty((2,) * n, dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = 0
    for v, i in zip(list(d), idx):
        out[tuple(int(x) for x in i)] = v
    return out


def scn(key, ops, n, how='ctor', idx=None, obs=None, mode='ad', runner=None, sym=True, num=0):
    names = sorted(set(names_of(ops)) | set().union(*[O.params(o) for o in (obs or [])]))
    if idx is None:
        inputs = {'s': ('c', (2,) * n), **env_inputs(names)}
    else:
        inputs = {'s': ('c', (len(idx),)), **env_inputs(names)}

    def real(a):
        if idx is None:
            s = BCOO.fromdense(a['s'])
        else:
            s = BCOO((a['s'], jnp.asarray(idx)), shape=(2,) * n)
        env = env_of(a, names)
        c = B.circ(ops, n, sparse=how == 'ctor')
        if how == 'conv':
            c = to_sparse(c)
        if obs is not None:
            return B.dense_out(expectation(s, c, [sp_obs(o, how) for o in obs], env, diff_mode=DiffMode(mode)))
        if runner is not None:
            return B.dense_out(runner(c, s, env))
        return B.dense_out(run(c, s, env))

    def spec(d, k):
        env = env_of(d, names)
        s = d['s'] if idx is None else scatter(d['s'], idx, n, k)
        if obs is not None:
            p = seq_act(ops, s, env, k)
            a = np.empty((len(obs),), dtype=object)
            for i, o in enumerate(obs):
                a[i] = O.expval(o, p, env, k)
            return a
        return seq_act(ops, s, env, k)
    return Scn(f'{key} {how} {mode if obs else ""} n={n} {label(ops)}' + (' | ' + ' , '.join(G.short(o) for o in obs)[:100] if obs else ''), inputs, real, spec,
               fn=FN + (('ad_expectation', '_ad_expectation_single_observable[BCOO]', 'inner') if obs else ()), bound=f'n={n}' + ('' if idx is None else f', {len(idx)} stored elements'), sym=sym, num=num)


def mat_scn(op, kind, full=None):
    nm = sorted(O.params(op))

    def real(a):
        g = B.build(op, True)
        v = env_of(a, nm)
        return B.dense_out(g.tensor(v, full) if kind == 'tensor' else getattr(g, kind)(v))

    def spec(d, k):
        env = env_of(d, nm)
        if kind == 'tensor':
            return O.mat(op, sorted(full) if full is not None else O.support(op), env, k)
        if kind == 'jacobian':
            return O.d_rotation(op[1], O.val(op[2], env, k), k)
        U, _, _ = O.local(op, env, k)
        return O.dag(U) if kind == 'dagger' else U
    return Scn(f'{kind} {G.short(op)} full={full}', env_inputs(nm), real, spec, fn=(kind, '_controlled[BCOO]', 'controlled[BCOO]', 'expand_operator', 'permute_basis'),
               bound=None if full is None and kind != 'tensor' else f'{len(full or O.support(op))} qubits')


def scenarios():
    yield from unbounded('C13')
    r = rng('c13')
    # matrices
    for nm in G.FIXED1 + G.FIXED2:
        m = O.NQ.get(nm, 1)
        for kind in ('_unitary', 'dagger'):
            yield mat_scn(('g', nm, tuple(range(m)), ()), kind)
    for nm in G.ROT:
        for kind in ('_unitary', 'dagger', 'jacobian'):
            yield mat_scn(('r', nm, 'a', (0,), ()), kind)
            yield mat_scn(('r', nm, -1.7, (0,), ()), kind)
    pl = [(t, c) for m in (1, 2) for t, c in G.placements(4, m, 2)]
    for i in (range(len(pl)) if THOROUGH else r.permutation(len(pl))[:30]):
        t, c = pl[i]
        nms = (G.FIXED1 + G.ROT) if len(t) == 1 else G.FIXED2
        nm = nms[i % len(nms)]
        op = ('r', nm, 'a', t, c) if nm in G.ROT else ('g', nm, t, c)
        yield mat_scn(op, 'tensor', None if i % 3 == 0 else (0, 1, 2, 3))
    for i in range(q(40, 16)):
        r = rng('c13t', i)
        qs = [int(x) for x in r.permutation(9)[:3]]
        op = strip_noise(rand_op(r, qs, 2))
        yield mat_scn(op, 'tensor', None if i % 2 else tuple(int(x) for x in r.permutation(qs)))
    # single gates, every pattern size
    pl3 = [(t, c) for m in (1, 2) for t, c in G.placements(3, m, 3 - m)]
    for i, (t, c) in enumerate(pl3):
        nms = (G.FIXED1 + G.ROT) if len(t) == 1 else G.FIXED2
        for j in range(q(3, 1)):
            nm = nms[(5 * i + 3 * j) % len(nms)]
            op = ('r', nm, 'a', t, c) if nm in G.ROT else ('g', nm, t, c)
            rr = rng('c13g', i, j)
            yield scn('gate', [op], 3, ['ctor', 'conv'][i % 2], None if i % 3 == 0 else pattern(rr, 3, int(rr.integers(1, 9))))
    for nm in G.FIXED1 + G.ROT + G.FIXED2:
        t = (0, 1) if nm in G.FIXED2 else (1,)
        op = ('r', nm, 'a', t, ()) if nm in G.ROT else ('g', nm, t, ())
        for kk in (1, 2, 4):
            rr = rng('c13n', nm, kk)
            yield scn('every gate', [op], 2, ['ctor', 'conv'][kk % 2], pattern(rr, 2, kk))
    # circuits
    for i in range(q(70, 30)):
        r = rng('c13c', i)
        n = int(r.integers(1, 4))
        ops = G.rand_tree(r, n, int(r.integers(1, 5)))
        idx = None if i % 2 else pattern(r, n, int(r.integers(1, 2 ** n + 1)))
        yield scn(f'circ{i}', ops, n, ['ctor', 'conv'][i % 2], idx)
    for i in range(q(60, 26)):
        r = rng('c13e', i)
        n = int(r.integers(1, 4))
        ops = G.rand_tree(r, n, int(r.integers(0, 4)))
        idx = None if i % 2 else pattern(r, n, int(r.integers(1, 2 ** n + 1)))
        obs = [G.rand_obs(r, n, names=('o',)) for _ in range(int(r.integers(1, 4)))]
        yield scn(f'expectation{i}', ops, n, ['ctor', 'conv'][(i // 2) % 2], idx, obs=obs, mode=['ad', 'adjoint', 'gpsr'][i % 3])
    # grouping, merging and single gates through apply_gates
    for i in range(q(40, 16)):
        r = rng('c13m', i)
        n = int(r.integers(1, 4))
        ops = G.rand_ops(r, n, int(r.integers(1, 6)))
        gg, mm = bool(i % 2), bool((i // 2) % 2)
        yield scn(f'apply_gates{i} group={gg} merge={mm}', ops, n, 'ctor', None if i % 3 else pattern(r, n, int(r.integers(1, 2 ** n + 1))),
                  runner=lambda c, s, env, gg=gg, mm=mm: apply_gates(s, list(iter(c)), env, OperationType.UNITARY, gg, mm))
    # operations other than gate lists on sparse states
    for i in range(q(30, 12)):
        r = rng('c13a', i)
        n = int(r.integers(1, 4))
        ob = G.rand_obs(r, n, names=('o',))
        yield scn(f'forward{i}', [ob], n, 'ctor', None if i % 2 else pattern(r, n, int(r.integers(1, 2 ** n + 1))))
    # special states
    from horqrux.utils.operator_utils import product_state, zero_state, uniform_state, random_state
    for n in (1, 2, 3):
        for i, mk in enumerate((lambda n: zero_state(n, sparse=True), lambda n: product_state('1' * n, sparse=True), lambda n: uniform_state(n, sparse=True), lambda n: random_state(n, sparse=True))):
            r = rng('c13p', n, i)
            ops = G.rand_ops(r, n, 4, names=('a',))
            nm = names_of(ops)

            def real(a, mk=mk, n=n, ops=ops, nm=nm):
                s = mk(n)
                return [B.dense_out(run(B.circ(ops, n, sparse=True), s, env_of(a, nm))), run(B.circ(ops, n), s.todense(), env_of(a, nm))]

            def spec(d, k, mk=mk, n=n, ops=ops, nm=nm):
                s = np.asarray(mk(n).todense())
                o = np.empty(s.shape, dtype=object)
                for i in np.ndindex(s.shape):
                    o[i] = core.const(complex(s[i])) if k.sym else complex(s[i])
                x = seq_act(ops, o, env_of(d, nm), k)
                return [x, x]
            yield Scn(f'prepared state {i} n={n} {label(ops)}', env_inputs(nm), real, spec, fn=FN, bound=f'n={n}', num=1)
    # larger, concrete, few stored elements
    for i in range(q(30, 12)):
        r = rng('c13b', i)
        n = int(r.integers(4, 8))
        ops = G.rand_tree(r, n, int(r.integers(2, 7)))
        yield scn(f'big{i}', ops, n, ['ctor', 'conv'][i % 2], pattern(r, n, int(r.integers(1, 9))), sym=False, num=1,
                  obs=[G.rand_obs(r, n)] if i % 2 else None)
    # noise must raise
    for i in range(q(40, 20)):
        r = rng('c13r', i)
        n = int(r.integers(1, 4))
        t, c = G.rand_place(r, range(n), 1, int(r.integers(0, n)))
        kd = G.NOISES[i % len(G.NOISES)][0]
        pr = {1: 0.25, 2: (0.3, 0.4), 3: (0.1, 0.2, 0.3)}[O.CHANNELS[kd]] if i < 14 else 0.0 if O.CHANNELS[kd] == 1 else {2: (0.0, 0.0), 3: (0.0, 0.0, 0.0)}[O.CHANNELS[kd]]
        nz = ('r', 'RY', 'a', t, c, ((kd, pr),)) if i % 2 else ('g', 'X', t, c, ((kd, pr),))
        ops = G.rand_ops(r, n, int(r.integers(0, 3)))
        ops.insert(int(r.integers(len(ops) + 1)), nz if i % 3 else ('seq', [nz]))
        obs = [G.rand_obs(r, n)] if i % 2 else None
        how = ['ctor', 'conv'][(i // 2) % 2]
        s = scn(f'noise raises{i}', ops, n, how, None if i % 2 else pattern(r, n, 1), obs=obs, mode=['ad', 'adjoint', 'gpsr'][i % 3])
        yield Scn(s.key, s.inputs, s.real, raises=(Exception,), fn=('apply_gates[BCOO]',), bound=s.bound, num=1)
