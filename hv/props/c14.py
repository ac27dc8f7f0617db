from .common import *
from horqrux.utils import operator_utils as ou

CONTRACTS = [
    'product_state(b): ensures amplitude 1 at index b and 0 elsewhere; zero_state, uniform_state: their definitions; random_state: unit norm',
    'density_mat(s): ensures s (x) conj(s), row indices first; a density matrix is returned unchanged',
    'overlap(a, b): ensures |<a|b>|^2 for every pair of states',
    'equivalent_state(a, b): ensures true iff |<a|b>|^2 = 1 up to the stated tolerance (1e-5)',
]
ASSUMPTIONS = ['overlap and equivalent_state are specified on dense states (on sparse ones they raise)', 'states compared by equivalent_state are normalised; overlaps within 1e-4 of 1 but not equal to 1 are not decided']
FN = ('product_state', 'zero_state', 'uniform_state', 'random_state', 'density_mat', 'overlap', 'inner', 'equivalent_state')


def basis(bits):
    a = np.zeros((2,) * len(bits), complex)
    a[tuple(int(x) for x in bits)] = 1
    return a


def const_scn(key, real, want, bound):
    return Scn(key, {}, lambda a: real(), lambda d, k: want, fn=FN, bound=bound, num=1, sym=False, tol=1e-10)


def normed(key, mk, n, sparse):
    def run_(r):
        s = mk()
        if sparse and not isinstance(s, BCOO):
            return f'not sparse: {type(s).__name__}'
        x = np.asarray(B.dense_out(s))
        if x.shape != (2,) * n:
            return f'shape {x.shape}'
        if not np.isclose((np.abs(x) ** 2).sum(), 1.0, atol=1e-9):
            return f'squared norm {(np.abs(x) ** 2).sum()}'
    return Custom(key, run_, fn=FN, bound=f'n={n}')


def equiv(i, n):
    def run_(r):
        psi = core.rand_psi(r, n, special=i % 2 == 1)
        ph = np.exp(1j * float(r.choice([0.0, np.pi, np.pi / 2, r.uniform(-7, 7)])))
        a, b = jnp.asarray(psi), jnp.asarray(ph * psi)
        wrap = lambda x: x
        if not bool(ou.equivalent_state(wrap(a), wrap(b))):
            return f'a state and the same state times {ph} compare as different'
        outs = []
        phi = core.rand_psi(r, n, special=i % 4 == 3)
        outs.append(phi)
        rel = psi.copy()                                  # relative phase or sign on one amplitude
        nz = np.argwhere(np.abs(psi) > 1e-3)
        j = tuple(nz[int(r.integers(len(nz)))])
        rel[j] = rel[j] * np.exp(1j * float(r.choice([np.pi, np.pi / 2, 0.7])))
        outs.append(rel)
        outs.append(np.conj(psi))
        orth = np.roll(psi.reshape(-1), 1).reshape(psi.shape)
        outs.append(orth)
        outs.append(mix(psi, r, 0.05))
        for o in outs:
            ov = abs(np.vdot(psi, o)) ** 2
            got = bool(ou.equivalent_state(wrap(a), wrap(jnp.asarray(o))))
            if abs(ov - 1) > 1e-4 and got:
                return f'states of overlap {ov} compare as equivalent: {psi.reshape(-1)[:4]} {o.reshape(-1)[:4]}'
            if abs(ov - 1) < 1e-12 and not got:
                return f'states of overlap {ov} compare as different'
    return Custom(f'equivalent_state {i} n={n}', run_, fn=('equivalent_state',), bound=f'n={n}, sampled', runs=4)


def mix(psi, r, eps):
    o = core.rand_psi(r, psi.ndim)
    o = o - np.vdot(psi, o) * psi
    if np.linalg.norm(o) < 1e-9:
        return psi
    o = o / np.linalg.norm(o)
    return np.sqrt(1 - eps) * psi + np.sqrt(eps) * o


def scenarios():
    yield from unbounded('C14')
    for n in range(1, 5):
        for bits in itertools.product('01', repeat=n):
            b = ''.join(bits)
            yield const_scn(f'product_state {b}', lambda b=b: [ou.product_state(b), ou.product_state(b, sparse=True).todense()], [basis(b), basis(b)], f'n={n}')
    for i, n in enumerate((5, 6, 7, 8, 9, 10, 11, 12)):
        r = rng('c14', i)
        for b in {'0' * n, '1' * n, '1' + '0' * (n - 1), '0' * (n - 1) + '1', ''.join(map(str, r.integers(0, 2, n)))}:
            yield const_scn(f'product_state {b}', lambda b=b: [ou.product_state(b), ou.product_state(b, sparse=True).todense()], [basis(b), basis(b)], f'n={n}')
    for n in range(1, 13):
        z = basis('0' * n)
        u = np.full((2,) * n, 2 ** (-n / 2), complex)
        yield const_scn(f'zero_state {n}', lambda n=n: [ou.zero_state(n), ou.zero_state(n, True).todense()], [z, z], f'n={n}')
        yield const_scn(f'uniform_state {n}', lambda n=n: [ou.uniform_state(n), ou.uniform_state(n, True).todense()], [u, u], f'n={n}')
        yield normed(f'random_state {n}', lambda n=n: ou.random_state(n), n, False)
        if n < 11:
            yield normed(f'random_state sparse {n}', lambda n=n: ou.random_state(n, True), n, True)
    for n in (1, 2, 3):
        yield Scn(f'density_mat n={n}', {'s': ('c', (2,) * n)}, lambda a: B.dense_out(density_mat(a['s'])), lambda d, k: O.outer(d['s']), fn=FN, bound=f'n={n}', num=1)
        yield Scn(f'density_mat of a density matrix n={n}', {'s': ('c', (2,) * (2 * n))}, lambda a: B.dense_out(density_mat(DensityMatrix(a['s']))), lambda d, k: d['s'], fn=FN, bound=f'n={n}', num=1)
    for n in (4, 5):
        yield Scn(f'density_mat n={n}', {'s': ('c', (2,) * n)}, lambda a: B.dense_out(density_mat(a['s'])), lambda d, k: O.outer(d['s']), fn=FN, bound=f'n={n}', num=1, sym=False)

    def ov(d, k):
        z = O.inner(d['s'], d['t'])
        return z * z.conjugate()
    for n in (1, 2, 3):
        inp = {'s': ('c', (2,) * n), 't': ('c', (2,) * n)}
        yield Scn(f'overlap n={n}', inp, lambda a: ou.overlap(a['s'], a['t']), ov, fn=('overlap', 'inner'), bound=f'n={n}', num=2)
        yield Scn(f'inner n={n}', inp, lambda a: ou.inner(a['s'], a['t']), lambda d, k: O.inner(d['s'], d['t']), fn=('inner',), bound=f'n={n}', num=1)
        # global phase: the overlap of a state with e^{ia} times itself is the fourth power of its norm
        yield Scn(f'overlap with a global phase n={n}', {'s': ('c', (2,) * n), 'a': ('r',)}, lambda a: ou.overlap(jnp.exp(1j * a['a']) * a['s'], a['s']),
                  lambda d, k: O.inner(d['s'], d['s']) * O.inner(d['s'], d['s']), fn=('overlap',), bound=f'n={n}', num=1)
    for n in (4, 6):
        inp = {'s': ('c', (2,) * n), 't': ('c', (2,) * n)}
        yield Scn(f'overlap n={n}', inp, lambda a: ou.overlap(a['s'], a['t']),
                  ov, fn=('overlap', 'inner'), bound=f'n={n}', num=2, sym=False)
    for i in range(q(30, 12)):
        yield equiv(i, 1 + i % 4)
