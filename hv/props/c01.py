from .common import *

TITLE = 'state-vector contraction'
CONTRACTS = [
    'apply_operator(Array): ensures result[b] = sum_j U[b_T, j] state[b with T:=j] if all controls are 1 in b else state[b], for distinct targets/controls in any order',
    '_controlled: ensures the block matrix diag(1, U)',
    'apply_gates(Array): ensures the fold of the gate contracts over the list',
]
ASSUMPTIONS = ['targets and controls are distinct and inside the register']


def generic(n, t, c):
    m = len(t)
    return Scn(f'apply_operator n={n} T={t} C={c} generic U', {'U': ('c', (2 ** m, 2 ** m)), 's': ('c', (2,) * n)},
               lambda a: apply_operator(a['s'], a['U'], t, c if c else (None,) * m),
               lambda d, k: O.apply_mat(d['U'], d['s'], t, c),
               fn=('apply_operator', '_controlled', 'is_controlled'), bound=f'n={n}')


def scenarios():
    yield from matrix_gates('C01')
    yield from unbounded('C01')
    for n in (1, 2, 3):
        for m in range(1, min(n, 3) + 1):
            for t, c in G.placements(n, m, n - m):
                yield generic(n, t, c)
    r = rng('c01a')
    four = [(t, c) for m in (1, 2, 3) for t, c in G.placements(4, m, 4 - m)]
    pick = four if THOROUGH else [four[i] for i in r.permutation(len(four))[:40]]
    for t, c in pick:
        yield generic(4, t, c)
    # gates
    for nm in G.FIXED1 + G.ROT + G.FIXED2:
        m = 2 if nm in G.FIXED2 else 1
        pls = list(G.placements(3, m, 2)) if m == 1 else list(G.placements(3, 2, 1)) + [p for p in G.placements(4, 2, 2) if len(p[1]) == 2]
        if not THOROUGH:
            pls = [pls[i] for i in r.permutation(len(pls))[:7]]
        for t, c in pls:
            n = 3 if max(t + c) < 3 and len(t + c) <= 3 else 4
            op = ('r', nm, 'a', t, c) if nm in G.ROT else ('g', nm, t, c)
            yield state_scn(f'gate {G.short(op)} n={n}', [op], n,
                            lambda s, v, op=op: apply_gates(s, B.build(op), v), ('apply_gates', 'Primitive', 'parse_idx'), f'n={n}')
    # call forms
    forms = {
        'call': lambda s, v, op: B.build(op)(s, v),
        'list': lambda s, v, op: apply_gates(s, [B.build(op)], v),
        'circuit': lambda s, v, op: run(B.circ([op], s.ndim), s, v),
        'tuple': lambda s, v, op: apply_gates(s, (B.build(op),), v),
        'nomerge': lambda s, v, op: apply_gates(s, [B.build(op)], v, merge_ops=False),
        'jit': lambda s, v, op: jax.jit(lambda s, v: apply_gates(s, [B.build(op)], v))(s, v),
    }
    for fnm, f in forms.items():
        for op in [('g', 'Y', (2,), (0, 1)), ('r', 'RY', 'a', (0,), (2,)), ('g', 'ISWAP', (2, 0), (1,)), ('g', 'SQRTSWAP', (1, 2), ()), ('r', 'PHASE', 'a', (1,), ())]:
            yield state_scn(f'form {fnm} {G.short(op)}', [op], 3, lambda s, v, f=f, op=op: f(s, v, op), ('apply_gates', 'run', '__call__'), 'n=3')
    # index types
    for nm, idx in {'np.int64': np.int64, 'np.int32': np.int32, 'int': int}.items():
        def real(a, idx=idx):
            return apply_gates(a['s'], B._pr.X(idx(1), idx(2)))
        yield Scn(f'index type {nm}', {'s': ('c', (2,) * 3)}, real, lambda d, k: O.act(('g', 'X', (1,), (2,)), d['s'], {}, k), fn=('parse_idx',), bound='n=3')

        def real2(a, idx=idx):
            return apply_gates(a['s'], B._pr.SWAP((idx(2), idx(0)), (idx(1),)))
        yield Scn(f'index tuple type {nm}', {'s': ('c', (2,) * 3)}, real2, lambda d, k: O.act(('g', 'SWAP', (2, 0), (1,)), d['s'], {}, k), fn=('parse_idx',), bound='n=3')
    # array dtypes of the state
    for dt in ('float64', 'complex64', 'int64'):
        def runx(rg, dt=dt):
            x = np.round(rg.normal(size=(2,) * 4) * 4).astype(dt)
            op = G.rand_gate(rg, range(4), lit=True)
            e = {'a': 0.3, 'b': 1.2, 'c': -0.4}
            got = np.asarray(apply_gates(jnp.asarray(x), B.build(op), e))
            want = O.act(op, O.obj(x), e, O.K(False)).astype(complex)
            if not np.allclose(got, want, atol=1e-4):
                return f'{G.short(op)} on a {dt} state: {got.ravel()[:4]} instead of {want.ravel()[:4]}'
        yield Custom(f'state dtype {dt}', runx, ('apply_operator',), 'n=4', runs=6)
    # larger registers, concrete
    N = q(60, 24)
    for i in range(N):
        r = rng('c01big', i)
        n = int(r.integers(4, 11))
        op = G.rand_gate(r, range(n))
        yield state_scn(f'big{i} n={n} {G.short(op)}', [op], n, lambda s, v, op=op: apply_gates(s, [B.build(op)], v),
                        ('apply_operator', 'apply_gates'), f'n={n}', sym=False, num=2)
    for i in range(q(30, 10)):
        r = rng('c01bigU', i)
        n = int(r.integers(5, 10))
        m = int(r.integers(1, 4))
        t, c = G.rand_place(r, range(n), m, int(r.integers(0, 4)))
        s = generic(n, t, c)
        s.sym, s.num = False, 2
        yield s
