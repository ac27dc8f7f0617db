from .common import *

CONTRACTS = [
    'apply_operator(DensityMatrix): ensures U rho U^dagger, U the controlled operator on the register, any distinct targets/controls in any order, any array rho',
    'density_mat: ensures the outer product psi psi^dagger, identity on density matrices',
    'apply_gates(DensityMatrix): ensures the fold of the gate contracts',
]
ASSUMPTIONS = ['targets and controls are distinct and inside the register']
FN = ('apply_operator[DensityMatrix]', 'permute_basis', '_dagger', '_controlled', 'density_mat')


def generic(n, t, c):
    m = len(t)
    return Scn(f'apply_operator DM n={n} T={t} C={c} generic U', {'U': ('c', (2 ** m, 2 ** m)), 's': ('c', (2,) * (2 * n))},
               lambda a: B.dense_out(apply_operator(DensityMatrix(a['s']), a['U'], t, c if c else (None,) * m)),
               lambda d, k: O.apply_rho(d['U'], d['s'], t, c), fn=FN, bound=f'n={n}')


def gate_scn(op, n, kind, tag=''):
    nm = names_of([op])
    if kind == 'rho':
        return state_scn(f'gate on rho {G.short(op)} n={n}{tag}', [op], n, lambda s, v: apply_gates(s, B.build(op), v), FN, f'n={n}', rho=True)
    # agreement with pure states: density_mat then gate = gate then outer product
    return Scn(f'pure agreement {G.short(op)} n={n}{tag}', {'s': ('c', (2,) * n), **env_inputs(nm)},
               lambda a: [B.dense_out(apply_gates(density_mat(a['s']), B.build(op), env_of(a, nm))),
                          B.dense_out(density_mat(apply_gates(a['s'], B.build(op), env_of(a, nm))))],
               lambda d, k: [O.outer(O.act(op, d['s'], env_of(d, nm), k))] * 2, fn=FN, bound=f'n={n}')


def scenarios():
    yield from matrix_gates('C03', FN)
    yield from unbounded('C03')
    for n in (1, 2):
        for m in range(1, n + 1):
            for t, c in G.placements(n, m, n - m):
                yield generic(n, t, c)
    three = [(t, c) for m in (1, 2, 3) for t, c in G.placements(3, m, 3 - m)]
    r = rng('c03')
    pick = three if THOROUGH else [three[i] for i in r.permutation(len(three))[:14]]
    # the sparse cases of the full enumeration are covered by fixed gates below
    for t, c in pick:
        s = generic(3, t, c)
        if len(t) == 3:
            s.sym, s.num = False, 2
        yield s
    for m in (1, 2):
        nms = (G.FIXED1[1:] + G.ROT) if m == 1 else G.FIXED2
        for i, (t, c) in enumerate(G.placements(3, m, 3 - m)):
            nm = nms[(i * 5 + 1) % len(nms)]
            op = ('r', nm, 'a', t, c) if nm in G.ROT else ('g', nm, t, c)
            yield gate_scn(op, 3, 'rho')
            if i % 3 == 0 or THOROUGH:
                yield gate_scn(op, 3, 'pure')
    for nm in G.FIXED1 + G.ROT:
        op = ('r', nm, 'a', (1,), ()) if nm in G.ROT else ('g', nm, (1,), ())
        yield gate_scn(op, 2, 'rho', ' all')
    # named density-matrix constructions
    for n in (1, 2, 3):
        yield Scn(f'density_mat n={n}', {'s': ('c', (2,) * n)}, lambda a: B.dense_out(density_mat(a['s'])), lambda d, k: O.outer(d['s']), fn=('density_mat',), bound=f'n={n}')
        yield Scn(f'density_mat idempotent n={n}', {'s': ('c', (2,) * (2 * n))}, lambda a: B.dense_out(density_mat(DensityMatrix(a['s']))), lambda d, k: d['s'], fn=('density_mat',), bound=f'n={n}')
    # circuits on density matrices
    for i in range(q(40, 12)):
        r = rng('c03c', i)
        n = 2
        ops = G.rand_tree(r, n, int(r.integers(2, 5)))
        yield state_scn(f'circuit{i} rho {label(ops)}', ops, n, lambda s, v, ops=ops: run(B.circ(ops, 2), s, v), FN + ('run',), 'n=2', rho=True)
    for i in range(q(30, 12)):
        r = rng('c03d', i)
        n = int(r.integers(4, 6))
        ops = G.rand_ops(r, n, int(r.integers(1, 4)))
        nm = names_of(ops)
        f = state_scn(f'big circuit{i} rho n={n} {label(ops)}', ops, n, lambda s, v, ops=ops: apply_gates(s, [B.build(o) for o in ops], v), FN, f'n={n}', rho=True, sym=False, num=1)
        yield f
    # every single-gate placement on four qubits for a generic rho, concrete
    four = [(t, c) for m in (1, 2, 3) for t, c in G.placements(4, m, 4 - m)]
    pick = four if THOROUGH else [four[i] for i in r.permutation(len(four))[:40]]
    for t, c in pick:
        s = generic(4, t, c)
        s.sym, s.num = False, 1
        yield s
    for i in range(q(16, 6)):
        r = rng('c03e', i)
        n = int(r.integers(5, 7))
        m = int(r.integers(1, 3))
        t, c = G.rand_place(r, range(n), m, int(r.integers(0, 4)))
        op = ('g', 'ISWAP' if m == 2 else 'S', t, c) if r.random() < 0.5 else ('r', 'RY', 'a', t[:1], c)
        nm = names_of([op])

        def f(rg, op=op, n=n, nm=nm):
            # agreement with pure states on registers too large for the explicit matrix specification
            x = rg.normal(size=(2,) * n) + 1j * rg.normal(size=(2,) * n)
            e = {'a': float(rg.uniform(-7, 7))}
            got = np.asarray(apply_gates(density_mat(jnp.asarray(x)), B.build(op), e).array)
            y = O.act(op, O.obj(x), e, O.K(False)).astype(complex).ravel()
            want = np.outer(y, y.conj()).reshape(got.shape)
            if not np.allclose(got, want, atol=1e-8):
                return f'{G.short(op)} on a pure density matrix of {n} qubits differs by {np.abs(got - want).max()}'
        yield Custom(f'pure agreement big{i} n={n} {G.short(op)}', f, FN, f'n={n}')
