from .common import *
from horqrux.analog import HamiltonianEvolution
from ..scalar import opaque, const

CONTRACTS = [
    '_HamiltonianEvolution._unitary: requires a Hermitian matrix H; ensures expm(-i t H) exactly (expm under its mathematical contract)',
    'application on states, density matrices, controlled, dagger and tensor: ensures the action of that matrix on the qubits in the order given',
    'lemmas on the composed code: t=0 identity, additivity, unitarity, undone by the dagger (decided for diagonal H by normal form, for general H by concrete execution)',
]
ASSUMPTIONS = ['jax.scipy.linalg.expm computes the matrix exponential', 'H is Hermitian, time is a real scalar']
FN = ('_HamiltonianEvolution._unitary', 'apply_gates', 'dagger', 'tensor')


def evo(H, t, k, dagger=False):
    """exp(-i t H) as a matrix of scalars"""
    d = H.shape[0]
    if k.sym:
        A = np.empty((d, d), dtype=object)
        for i in np.ndindex(d, d):
            A[i] = (-k.i) * (t if not isinstance(t, (int, float)) else const(t)) * H[i]
        if all(A[i, j].is_zero() for i in range(d) for j in range(d) if i != j):
            U = O.arr([[A[i, i].exp() if i == j else const(0) for j in range(d)] for i in range(d)])
        else:
            U = np.empty((d, d), dtype=object)
            for i in range(d):
                for j in range(d):
                    U[i, j] = opaque(f'expm[{d},{i},{j}]', list(A.reshape(-1)))
    else:
        Hn = np.array(H, dtype=complex)
        w, v = np.linalg.eigh(Hn)
        U = O.obj((v * np.exp(-1j * complex(t).real * w)) @ v.conj().T)
    return O.dag(U) if dagger else U


def ev(target, control=()):
    return HamiltonianEvolution(B._tgt(target) if len(target) > 1 else target[0], (None,) if not control else tuple(control))


def scn(key, H, target, control, n, kind='state', sym=True, num=1, bound=None):
    """H: ('herm', d) | ('diag', d) symbolic diagonal | array"""
    d = 2 ** len(target)
    if isinstance(H, tuple) and H[0] == 'diag':
        inputs = {'h': ('rv', (d,))}
    elif isinstance(H, tuple):
        inputs = {'h': H}
    else:
        inputs = {'h': ('const', H)}
    inputs['t'] = ('r',)
    if kind == 'add':
        inputs['u'] = ('r',)
    if kind not in ('unitary', 'dagger', 'tensor', 'tensorfull', 'unit'):
        inputs['s'] = ('c', (2,) * (2 * n if kind == 'rho' else n))
    diag = isinstance(H, tuple) and H[0] == 'diag'

    def real(a):
        Hm = jnp.diag(jnp.asarray(a['h'])) if diag else a['h']
        v = {'hamiltonian': Hm, 'time_evolution': a['t']}
        g = ev(target, control)
        if kind == 'unitary':
            return g._unitary(v)
        if kind == 'dagger':
            return g.dagger(v)
        if kind == 'tensor':
            return g.tensor(v)
        if kind == 'tensorfull':
            return g.tensor(v, tuple(reversed(range(n))))
        if kind == 'unit':
            return g.dagger(v) @ g._unitary(v)
        if kind == 'rho':
            return B.dense_out(apply_gates(DensityMatrix(a['s']), g, v))
        if kind == 'pure':
            return B.dense_out(apply_gates(density_mat(a['s']), g, v))
        if kind == 'call':
            return g(a['s'], v)
        if kind == 'circuit':
            return run(B.QuantumCircuit(n, [B.build(('g', 'H', (0,), ())), g, B.build(('g', 'X', (n - 1,), ()))]), a['s'], v)
        if kind == 'list':
            return apply_gates(a['s'], [g, B.build(('g', 'T', (0,), ())), g, g], v)
        if kind == 'undo':
            return apply_gates(apply_gates(a['s'], g, v), g, v, OperationType.DAGGER)
        if kind == 'zero':
            return apply_gates(a['s'], g, {'hamiltonian': Hm, 'time_evolution': 0.0 * a['t']})
        if kind == 'add':
            return apply_gates(apply_gates(a['s'], g, v), g, {'hamiltonian': Hm, 'time_evolution': a['u']})
        return apply_gates(a['s'], g, v)

    def spec(dd, k):
        h = dd['h']
        if diag:
            M = np.empty((d, d), dtype=object)
            for i in range(d):
                for j in range(d):
                    M[i, j] = h[i] if i == j else (const(0) if k.sym else 0)
        else:
            M = h if isinstance(h, np.ndarray) and h.dtype == object else (np.array([[const(complex(x)) for x in r] for r in np.asarray(h)], dtype=object) if k.sym else O.obj(np.asarray(h)))
        U = evo(M, dd['t'], k)
        if kind == 'unitary':
            return U
        if kind == 'dagger':
            return O.dag(U)
        if kind == 'tensor':
            return O.full_op(U, list(target), list(control), sorted(target + control))
        if kind == 'tensorfull':
            return O.full_op(U, list(target), list(control), list(range(n)))
        if kind == 'unit':
            return O.eye(d)
        if kind == 'rho':
            return O.apply_rho(U, dd['s'], target, control)
        if kind == 'pure':
            return O.outer(O.apply_mat(U, dd['s'], target, control))
        if kind in ('undo', 'zero'):
            return dd['s']
        if kind == 'add':
            return O.apply_mat(evo(M, dd['t'] + dd['u'], k), dd['s'], target, control)
        if kind == 'circuit':
            x = O.act(('g', 'H', (0,), ()), dd['s'], {}, k)
            return O.act(('g', 'X', (n - 1,), ()), O.apply_mat(U, x, target, control), {}, k)
        if kind == 'list':
            x = O.act(('g', 'T', (0,), ()), O.apply_mat(U, dd['s'], target, control), {}, k)
            return O.apply_mat(U, O.apply_mat(U, x, target, control), target, control)
        return O.apply_mat(U, dd['s'], target, control)
    return Scn(f'{key} {kind} n={n} target={list(target)} control={list(control)}', inputs, real, spec, fn=FN,
               bound=bound if bound is not None else (f'H {d}x{d}' + ('' if kind in ('unitary', 'dagger') else f', n={n}')), sym=sym, num=num, tol=1e-7)


def dtype_scn(nm, H, t, n, target):
    Hn = np.asarray(H)

    def real(a):
        return apply_gates(a['s'], ev(target), {'hamiltonian': H, 'time_evolution': t})
    return Scn(f'type {nm}', {'s': ('c', (2,) * n)}, real, lambda d, k: O.apply_mat(evo(O.obj(Hn) if not k.sym else np.array([[const(complex(x)) for x in r] for r in Hn], dtype=object), float(np.asarray(t).reshape(())), K0), d['s'], target),
               fn=FN, bound='fixed H', sym=False, num=2)


K0 = O.K(False)


def scenarios():
    yield from unbounded('C15')
    yield from matrix_gates('C15', FN)
    for d in (2, 4, 8):
        m = {2: 1, 4: 2, 8: 3}[d]
        tg = tuple(range(m))
        for kind in ('unitary', 'dagger'):
            yield scn('general', ('herm', d), tg, (), m, kind)
            yield scn('diagonal', ('diag', d), tg, (), m, kind)
    # every placement
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            if m > n:
                continue
            for i, (t, c) in enumerate(G.placements(n, m, n - m)):
                yield scn('place', ('herm', 2 ** m) if m < 3 else ('diag', 8), t, c, n)
                if n < 3 or i % 2 == 0:
                    for kind in (('rho',) if n < 3 else ()) + ('call', 'tensor', 'tensorfull'):
                        yield scn('place', ('herm', 2 ** m) if m < 3 else ('diag', 8), t, c, n, kind)
    for i in range(q(30, 12)):
        r = rng('c15', i)
        n = int(r.integers(3, 6))
        m = int(r.integers(1, 4))
        t, c = G.rand_place(r, range(n), m, int(r.integers(0, 3)))
        for kind in ('state', 'pure', 'tensor', 'circuit', 'list', 'undo', 'add', 'zero', 'unit'):
            if kind == 'pure' and n > 4:
                continue
            yield scn(f'random{i}', ('herm', 2 ** m), t, c, n, kind, sym=False, num=1)
    # lemmas
    for kind in ('undo', 'zero', 'add', 'unit', 'circuit', 'list'):
        for t, c, n in (((0,), (), 1), ((1,), (), 2), ((1, 0), (), 2), ((0,), (1,), 2), ((2, 0), (1,), 3)):
            yield scn('lemma', ('diag', 2 ** len(t)), t, c, n, kind)
            yield scn('lemma general', ('herm', 2 ** len(t)), t, c, n, kind, sym=kind == 'circuit', num=2)
    # Paulis, products, degenerate and large-norm matrices, special times
    X, Y, Z = np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1]).astype(complex)
    mats = {'X': X, 'Y': Y, 'Z': Z, 'XY': np.kron(X, Y), 'ZZ': np.kron(Z, Z), 'zero': np.zeros((2, 2), complex), 'one': np.eye(4, dtype=complex), 'big': 3 * np.kron(X, Z) + np.kron(Y, Y),
            'proj': np.diag([1.0, 0, 0, 0]).astype(complex), 'XX+YY': np.kron(X, X) + np.kron(Y, Y)}
    for nm, M in mats.items():
        m = 1 if len(M) == 2 else 2
        for j, kind in enumerate(('state', 'rho', 'undo', 'tensor')):
            s = scn(f'matrix {nm}', M, tuple(reversed(range(m))), (), m, kind, sym=False, num=4)
            sh = (2,) * (2 * m if kind == 'rho' else m)
            r = rng('c15m', nm, kind)
            s.fixed = [dict(h=M, t=tt, s=r.normal(size=sh) + 1j * r.normal(size=sh)) for tt in (0.0, np.pi, -2.5, 1.1)]
            yield s
    Hr = np.array([[1.0, 0.5], [0.5, -2.0]])
    yield dtype_scn('real matrix', jnp.asarray(Hr), 0.7, 2, (1,))
    yield dtype_scn('integer matrix', jnp.asarray(np.array([[1, 2], [2, 0]])), 2, 2, (0,))
    yield dtype_scn('numpy time', jnp.asarray(Hr.astype(complex)), np.float64(-1.3), 2, (1,))
    yield dtype_scn('array time', jnp.asarray(Hr.astype(complex)), jnp.asarray(2.2), 3, (1,))
    yield dtype_scn('array time of one element', jnp.asarray(Hr.astype(complex)), jnp.asarray([2.2]), 1, (0,))
    # compiled and batched
    for how in ('jit', 'vmap'):
        def real(a, how=how):
            f = lambda h, t, s: apply_gates(s, ev((1, 0)), {'hamiltonian': h, 'time_evolution': t})
            if how == 'jit':
                return jax.jit(f)(a['h'], a['t'], a['s'])
            return jax.vmap(f, in_axes=(0, 0, None))(jnp.stack([a['h'], 2 * a['h']]), jnp.stack([jnp.asarray(a['t']), jnp.asarray(a['u'])]), a['s'])

        def spec(d, k, how=how):
            x = O.apply_mat(evo(d['h'], d['t'], k), d['s'], (1, 0))
            if how == 'jit':
                return x
            y = O.apply_mat(evo(O.scal(2, d['h']), d['u'], k), d['s'], (1, 0))
            return np.stack([x, y])
        yield Scn(f'{how}', {'h': ('herm', 4), 't': ('r',), 'u': ('r',), 's': ('c', (2, 2))}, real, spec, fn=FN, bound='n=2', num=2, sym=how == 'jit')
