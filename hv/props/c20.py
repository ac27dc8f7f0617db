from .common import *
from ..build import Observable, OpSequence, Add, Scale, to_sparse, QuantumCircuit
from horqrux.utils.operator_utils import expand_operator

CONTRACTS = [
    'sample: requires n_shots >= 1, otherwise raises',
    'expectation: requires n_shots >= 0, diff_mode in {ad, adjoint, gpsr}, no density matrix with adjoint; otherwise raises on every path',
    'apply_gates / run / expectation / tensor: require a value for every parameter of the gates used, otherwise raise',
    'apply_gates: requires all qubits of the gate inside the register, otherwise raises; noise requires a dense state',
    'expand_operator / tensor(full_support): require the support inside full_support, otherwise raise',
]
ASSUMPTIONS = ['any exception counts as raising; the numbers of qubits and shots are sampled, the amplitudes and angles are arbitrary in the symbolic obligations']
ERR = (Exception,)


def circ_for(r, n, noise=None, **kw):
    ops = G.rand_ops(r, n, int(r.integers(0, 5)), names=('a', 'b'), noise=noise, **kw)
    return ops


def need_raise(key, mk, fn, runs=3, bound='sampled requests', want=None):
    """mk(rng) -> (description, thunk): the thunk must raise (want: and of one of these classes)"""
    def f(r):
        d, th = mk(r)
        try:
            x = th()
        except core.Skip:
            return None
        except Exception as e:
            if isinstance(e, jxi.Unsupported):
                raise
            return None
        return f'{d}: no error, returned {str(x)[:150]}'
    return Custom(key, f, fn, bound, runs=runs)


def vals(r, ops):
    return {x: float(r.uniform(-3, 3)) for x in names_of(ops)}


def dm_of(r, n):
    return DensityMatrix(jnp.asarray(core.num_inputs({'r': ('rho', n)}, r)['r']))


def obs_of(r, n, names=()):
    return [B.build(('obs', [o])) for o in G.rand_obs(r, n, names, depth=1)[1]]


def scenarios():
    # shots in sample
    from ..wide import constants
    neg = sorted({-c + d for c in constants()[0] for d in (-1, 0, 1) if -c + d < 0})
    for i, k in enumerate(sorted({0, -1, -2, -100, -10 ** 6, *neg})):
        for what in ('pure', 'noisy', 'dm'):
            def mk(r, k=k, what=what):
                n = int(r.integers(1, 4))
                ops = circ_for(r, n, noise=0.8 if what == 'noisy' else None, two=what != 'noisy')
                c, v = B.circ(ops, n), vals(r, ops)
                st = dm_of(r, n) if what == 'dm' else jnp.asarray(core.rand_psi(r, n))
                return f'sample with {k} shots of {label(ops)}', lambda: sample(st, c, v, k)
            yield need_raise(f'sample n_shots={k} {what}', mk, ('sample',), runs=2)
    # symbolic: for every state and angle
    for k in (0, -1, -17):
        yield Scn(f'sample n_shots={k} any state', {'s': ('c', (2, 2)), 'a': ('r',)},
                  lambda a, k=k: sum(sample(a['s'], B.circ([('r', 'RX', 'a', (0,), ()), ('g', 'X', (1,), (0,))], 2), {'a': a['a']}, k).values()),
                  raises=ERR, fn=('sample',), bound='n=2', num=1)
    # negative shots in expectation
    for mode in ('ad', 'adjoint', 'gpsr'):
        for k in sorted({-1, -2, -1000, *neg}):
            for what in ('pure', 'noisy', 'dm'):
                def mk(r, k=k, what=what, mode=mode):
                    n = int(r.integers(1, 4))
                    ops = circ_for(r, n, noise=0.8 if what == 'noisy' else None, two=what != 'noisy', ctrl_rot=False)
                    c, v, ob = B.circ(ops, n), vals(r, ops), obs_of(r, n)
                    st = dm_of(r, n) if what == 'dm' else jnp.asarray(core.rand_psi(r, n))
                    return f'{mode} expectation with {k} shots of {label(ops)}', lambda: expectation(st, c, ob, v, mode, n_shots=k)
                yield need_raise(f'expectation {mode} n_shots={k} {what}', mk, ('expectation',), runs=2)
            yield Scn(f'expectation {mode} n_shots={k} any state', {'s': ('c', (2, 2)), 'a': ('r',)},
                      lambda a, k=k, mode=mode: expectation(a['s'], B.circ([('r', 'RX', 'a', (0,), ()), ('g', 'X', (1,), (0,))], 2),
                                                            [B.build(('obs', [('g', 'Z', (0,), ())]))], {'a': a['a']}, mode, n_shots=k),
                      raises=ERR, fn=('expectation',), bound='n=2', num=1)
    # unknown modes
    for mode in ('', 'AD', 'Adjoint', 'finite', 'ad ', 'backprop', None, 0, 3, 'gpsr2', True):
        for k in (0, 5, -3):
            def mk(r, mode=mode, k=k):
                n = int(r.integers(1, 4))
                ops = circ_for(r, n)
                c, v, ob = B.circ(ops, n), vals(r, ops), obs_of(r, n)
                st = dm_of(r, n) if r.random() < 0.3 else jnp.asarray(core.rand_psi(r, n))
                return f'diff_mode={mode!r}, {k} shots', lambda: expectation(st, c, ob, v, mode, n_shots=k)
            yield need_raise(f'unknown diff_mode {mode!r} shots {k}', mk, ('expectation',), runs=1)
        yield Scn(f'unknown diff_mode {mode!r} any state', {'s': ('c', (2, 2)), 'a': ('r',)},
                  lambda a, mode=mode: expectation(a['s'], B.circ([('r', 'RX', 'a', (0,), ())], 2),
                                                   [B.build(('obs', [('g', 'Z', (0,), ())]))], {'a': a['a']}, mode),
                  raises=ERR, fn=('expectation',), bound='n=2', num=1)
    # adjoint and density matrices
    for n in (1, 2, 3):
        def mk(r, n=n):
            ops = circ_for(r, n)
            c, v, ob = B.circ(ops, n), vals(r, ops), obs_of(r, n)
            st = dm_of(r, n)
            how = int(r.integers(3))
            if how == 0:
                return f'adjoint of a density matrix, {label(ops)}', lambda: expectation(st, c, ob, v, 'adjoint')
            if how == 1:
                return 'adjoint of a density matrix with shots', lambda: expectation(st, c, ob, v, 'adjoint', n_shots=10)
            return 'gradient by adjoint of a density matrix', lambda: jax.grad(lambda v: expectation(st, c, ob, v, 'adjoint').sum())({**v, 'zz': 0.1})
        yield need_raise(f'adjoint density matrix n={n}', mk, ('expectation', 'adjoint_expectation'), runs=6)
        yield Scn(f'adjoint any density matrix n={n}', {'s': ('c', (2,) * (2 * n)), 'a': ('r',)},
                  lambda a, n=n: expectation(DensityMatrix(a['s']), B.circ([('r', 'RX', 'a', (0,), ())], n), [B.build(('obs', [('g', 'Z', (0,), ())]))], {'a': a['a']}, 'adjoint'),
                  raises=ERR, fn=('expectation',), bound=f'n={n}', num=1)
    # missing values
    def missing(r, where):
        n = int(r.integers(1, 4))
        while True:
            ops = [o for o in circ_for(r, n, ctrl_rot=where != 'gpsr')] + [('r', str(r.choice(G.ROT)), 'm', (int(r.integers(n)),), ())]
            if where == 'gpsr' or where == 'adjoint':
                break
            break
        ops = [ops[i] for i in r.permutation(len(ops))]
        v = vals(r, ops)
        kill = str(r.choice(sorted(v)))
        v.pop(kill)
        if r.random() < 0.3:
            v[kill + '_'] = 0.4
        c = B.circ(ops, n)
        st = jnp.asarray(core.rand_psi(r, n))
        d = f'{where} of {label(ops)} without a value for {kill}'
        ob = obs_of(r, n)
        th = {'run': lambda: run(c, st, v), 'sample': lambda: sample(st, c, v, 5), 'ad': lambda: expectation(st, c, ob, v, 'ad'),
              'adjoint': lambda: expectation(st, c, ob, v, 'adjoint'), 'gpsr': lambda: expectation(st, c, ob, v, 'gpsr'),
              'shots': lambda: expectation(st, c, ob, v, 'ad', n_shots=5), 'apply': lambda: apply_gates(st, list(c.operations), v),
              'call': lambda: c(st, v), 'dm': lambda: run(c, dm_of(r, n), v), 'tensor': lambda: c.tensor(v),
              'jit': lambda: jax.jit(lambda s, v: run(c, s, v))(st, v),
              'gate': lambda: [apply_gates(st, g, v) for g in c.operations],
              'dagger': lambda: apply_gates(st, list(c.operations), v, OperationType.DAGGER),
              'sparse': lambda: B.dense_out(run(B.circ(ops, n, True), BCOO.fromdense(st), v)),
              'separate': lambda: expectation(st, c, ob, {'circuit': v, 'observables': {kill: 0.3}}, 'ad')}[where]
        return d, th
    for where in ('run', 'sample', 'ad', 'adjoint', 'gpsr', 'shots', 'apply', 'call', 'dm', 'tensor', 'jit', 'gate', 'dagger', 'sparse', 'separate'):
        yield need_raise(f'missing value {where}', lambda r, where=where: missing(r, where), ('parse_values', where), runs=5)

    def missing_obs(r, where):
        n = int(r.integers(1, 4))
        ops = circ_for(r, n, ctrl_rot=False)
        v = vals(r, ops)
        c = B.circ(ops, n)
        q = int(r.integers(n))
        form = int(r.integers(3))
        o = [('scale', 'm', ('g', 'Z', (q,), ())), ('scale', 0.5, ('scale', 'm', ('g', 'Y', (q,), ()))),
             ('seq', [('scale', 'm', ('g', 'Z', (q,), ())), ('g', 'I', (q,), ())])][form]
        ob = [B.build(('obs', [('g', 'X', (0,), ()), o]))]
        v.pop('m', None)
        st = jnp.asarray(core.rand_psi(r, n))
        if where == 'separate':
            v = {'circuit': {**v, 'm': 0.3}, 'observables': {'other': 1.0}}
        mode = {'separate': 'ad', 'shots': 'ad', 'tensor': 'ad'}.get(where, where)
        d = f'{where}: observable parameter m without a value'
        if where == 'tensor':
            return d, lambda: ob[0].tensor(v)
        return d, lambda: expectation(st, c, ob, v, mode, n_shots=5 if where == 'shots' else 0)
    for where in ('ad', 'adjoint', 'gpsr', 'shots', 'separate', 'tensor'):
        yield need_raise(f'missing observable value {where}', lambda r, where=where: missing_obs(r, where), ('Scale', where), runs=4)
    for nm in G.ROT:
        yield Scn(f'missing value {nm} any state', {'s': ('c', (2, 2)), 'b': ('r',)},
                  lambda a, nm=nm: apply_gates(a['s'], B.build(('r', nm, 'a', (1,), (0,))), {'b': a['b']}), raises=ERR,
                  fn=('parse_values',), bound='n=2', num=1)

    # qubits outside the register
    def outside(r, how, part):
        n = int(r.integers(1, 4))
        q_ = int(n + r.integers(0, 3))
        inside = [int(x) for x in r.permutation(n)]
        if part == 'target':
            t, c = (q_,), tuple(inside[:int(r.integers(0, min(n, 2) + 1))])
        elif part == 'control':
            t = (inside[0],)
            c = tuple([q_] + inside[1:1 + int(r.integers(0, 2))])
            c = tuple(c[i] for i in r.permutation(len(c)))
        else:
            t, c = tuple(int(x) for x in r.permutation([inside[0], q_])), tuple(inside[1:1 + int(r.integers(0, 2))])
        m = len(t)
        if m == 1 and r.random() < 0.5:
            op = ('r', str(r.choice(G.ROT)), 'a', t, c)
        else:
            op = ('g', str(r.choice(G.FIXED1 if m == 1 else G.FIXED2)), t, c)
        st = jnp.asarray(core.rand_psi(r, n))
        ops = circ_for(r, n) + [op] + circ_for(r, n)
        v = {**vals(r, ops), 'a': 0.4}
        d = f'{how}: {G.short(op)} on {n} qubits'
        ob = [B.build(('obs', [op]))]
        small = B.circ([o for o in circ_for(r, n)], n)
        th = {'state': lambda: apply_gates(st, B.build(op), v), 'dm': lambda: apply_gates(dm_of(r, n), B.build(op), v),
              'sparse': lambda: B.dense_out(apply_gates(BCOO.fromdense(st), B.build(op, True), v)),
              'run': lambda: run(B.circ(ops, n), st, v), 'sample': lambda: sample(st, B.circ(ops, n), v, 5),
              'ad': lambda: expectation(st, B.circ(ops, n), obs_of(r, n), v, 'ad'),
              'observable': lambda: expectation(st, small, ob, {**v, 'b': 0.1}, 'ad'),
              'observable shots': lambda: expectation(st, small, ob, {**v, 'b': 0.1}, 'ad', n_shots=10),
              'observable dm shots': lambda: expectation(dm_of(r, n), small, ob, {**v, 'b': 0.1}, 'ad', n_shots=10),
              'observable adjoint': lambda: expectation(st, small, ob, {**v, 'b': 0.1}, 'adjoint'),
              'observable gpsr': lambda: expectation(st, B.circ([], n), ob, {**v, 'b': 0.1}, 'gpsr'),
              'observable dm gpsr': lambda: expectation(dm_of(r, n), B.circ([], n), ob, {**v, 'b': 0.1}, 'gpsr'),
              'observable dm': lambda: expectation(dm_of(r, n), small, ob, {**v, 'b': 0.1}, 'ad'),
              'noise': lambda: apply_gates(st, B.build((op[:4] + ((('BitFlip', 0.2),),)) if op[0] == 'g' else (op[:5] + ((('BitFlip', 0.2),),))), v),
              'jit': lambda: jax.jit(lambda s: apply_gates(s, B.build(op), v))(st)}[how]
        return d, th
    for how in ('state', 'dm', 'sparse', 'run', 'sample', 'ad', 'observable', 'observable shots', 'observable dm', 'observable dm shots', 'observable adjoint', 'observable gpsr', 'observable dm gpsr', 'noise', 'jit'):
        for part in ('target', 'control', 'pair'):
            if how == 'noise' and part == 'pair':
                continue
            yield need_raise(f'outside {part} {how}', lambda r, how=how, part=part: outside(r, how, part), ('apply_operator', how), runs=6)
    for n in (1, 2, 3):
        for op in (('g', 'X', (n,), ()), ('g', 'X', (0,), (n,)), ('g', 'SWAP', (0, n), ()), ('r', 'RY', 'a', (n + 1,), (0,)), ('r', 'PHASE', 'a', (0,), (n + 2,))):
            for rho in (False, True):
                yield Scn(f'outside {G.short(op)} any {"density matrix" if rho else "state"} n={n}',
                          {'s': ('c', (2,) * (2 * n if rho else n)), 'a': ('r',)},
                          lambda a, op=op, rho=rho: B.dense_out(apply_gates(DensityMatrix(a['s']) if rho else a['s'], B.build(op), {'a': a['a']})),
                          raises=ERR, fn=('apply_operator',), bound=f'n={n}', num=1)

    # supports
    def support(r, how):
        m = int(r.integers(1, 4))
        pool = [int(x) for x in r.permutation(7)]
        sup = sorted(pool[:m])
        miss = sup[int(r.integers(m))]
        full = tuple(x for x in pool[:m + int(r.integers(0, 3))] if x != miss)
        if how == 'expand_operator':
            U = jnp.asarray(r.normal(size=(2 ** m, 2 ** m)) + 0j)
            U = BCOO.fromdense(U) if r.random() < 0.4 else U
            return f'expand_operator from {sup} to {full}', lambda: expand_operator(U, tuple(sup), full)
        sp = r.random() < 0.3
        if how == 'gate':
            if m == 1:
                op = ('r', str(r.choice(G.ROT)), 0.7, (sup[0],), ()) if r.random() < 0.5 else ('g', str(r.choice(G.FIXED1)), (sup[0],), ())
            else:
                k = int(r.integers(1, min(m, 2) + 1))
                s2 = [int(x) for x in r.permutation(sup)]
                op = ('g', str(r.choice(G.FIXED1 if k == 1 else G.FIXED2)), tuple(s2[:k]), tuple(s2[k:]))
            g = B.build(op, sp)
            return f'{G.short(op)}.tensor(full_support={full})', lambda: g.tensor({}, full)
        parts = [('g', str(r.choice(G.FIXED1)), (x,), ()) for x in sup]
        g = {'seq': OpSequence, 'add': Add, 'obs': Observable}.get(how, OpSequence)([B.build(o, sp) for o in parts])
        if how == 'scale':
            g = Scale(g, 0.5)
        if how == 'circ':
            g = QuantumCircuit(7, [B.build(o, sp) for o in parts])
        return f'{how} on {sup}: tensor(full_support={full})', lambda: g.tensor({}, full)
    for how in ('expand_operator', 'gate', 'seq', 'add', 'obs', 'scale', 'circ'):
        yield need_raise(f'support {how}', lambda r, how=how: support(r, how), ('expand_operator', 'tensor'), runs=12)
    for m, full in ((1, (1,)), (1, (1, 2)), (2, (0,)), (2, (1, 2)), (2, (0, 2, 3)), (1, ()), (2, ())):
        yield Scn(f'expand_operator any operator on {tuple(range(m))} to {full}', {'U': ('c', (2 ** m, 2 ** m))},
                  lambda a, m=m, full=full: expand_operator(a['U'], tuple(range(m)), full), raises=(ValueError,), fn=('expand_operator',), bound=f'm={m}', num=1)

    # noise on sparse states
    def nsp(r, how):
        n = int(r.integers(1, 4))
        ns = G.rand_noise(r)
        q_ = int(r.integers(n))
        op = ('r', str(r.choice(G.ROT)), 0.3, (q_,), (), ns) if r.random() < 0.5 else ('g', str(r.choice(G.FIXED1)), (q_,), (), ns)
        ops = circ_for(r, n)
        pos = int(r.integers(len(ops) + 1))
        ops2 = ops[:pos] + [op] + ops[pos:]
        st = BCOO.fromdense(jnp.asarray(core.rand_psi(r, n)))
        c = B.circ(ops2, n, True)
        v = vals(r, ops2)
        ob = [B.build(('obs', [('g', 'Z', (0,), ())]), True)]
        d = f'{how} of {label(ops2)} on a sparse state'
        return d, {'gate': lambda: apply_gates(st, B.build(op, True), {}), 'list': lambda: apply_gates(st, list(c.operations), v), 'run': lambda: run(c, st, v),
                   'call': lambda: c(st, v), 'expectation': lambda: expectation(st, c, ob, v, 'ad'), 'grouped': lambda: apply_gates(st, list(c.operations), v, group_gates=True),
                   'unmerged': lambda: apply_gates(st, list(c.operations), v, merge_ops=False),
                   'sequence': lambda: OpSequence(list(c.operations))(st, v)}[how]
    for how in ('gate', 'list', 'run', 'call', 'expectation', 'grouped', 'unmerged', 'sequence'):
        yield need_raise(f'noise on sparse states {how}', lambda r, how=how: nsp(r, how), ('apply_gates', 'BCOO'), runs=4)
