from .common import *
from ..core import Skip
from scipy.stats import chi2

CONTRACTS = [
    'sample(state, circuit, values, n_shots): draws outcomes with p(k) = |<k|psi>|^2 or rho_kk of the output state, for every state and value',
    'sample: counts are positive integers over n-character keys (qubit 0 leftmost), and sum to n_shots',
    'probabilities / sample_from_probs / num_qubits: as used by sample',
]
ASSUMPTIONS = ['jax.random.choice draws independently from the given probabilities', 'input states are normalised']
FN = ('sample', 'probabilities', 'sample_from_probs', 'num_qubits')


def capture(f):
    jxi.CAPTURE.append(1)
    try:
        f()
    except jxi.Captured as e:
        return e
    finally:
        jxi.CAPTURE.clear()
    return None


def born(d, ops, n, env, k, rep):
    noisy = any(O.has_noise(o) for o in ops)
    if rep == 'psi' and not noisy:
        out = seq_act(ops, d['s'], env, k)
        return {b: out[b] * out[b].conjugate() for b in itertools.product((0, 1), repeat=n)}
    r = seq_rho(ops, d['s'] if rep == 'rho' else O.outer(d['s']), env, k)
    return {b: O.re(r[b + b]) for b in itertools.product((0, 1), repeat=n)}


def scn(key, ops, n, rep='psi', sym=True, num=0):
    names = names_of(ops)
    inputs = {'s': (rep, n), **env_inputs(names)}

    def real(a):
        s = DensityMatrix(a['s']) if rep == 'rho' else a['s']
        e = capture(lambda: sample(s, B.circ(ops, n), env_of(a, names), 3))
        if e is None or e.p is None:
            raise core.Unsupported('sample does not draw through jax.random.choice with probabilities')
        vals = jnp.arange(e.a) if isinstance(e.a, int) else e.a
        if isinstance(vals, jax.core.Tracer):
            return [vals, e.p.real]
        o = np.argsort(np.asarray(vals))
        return [np.asarray(vals)[o], np.asarray(e.p).real[o]]

    def spec(d, k):
        p = born(d, ops, n, env_of(d, names), k, rep)
        out = np.empty((2 ** n,), dtype=object)
        for b, v in p.items():
            out[int(''.join(map(str, b)), 2)] = O.re(v)
        return [np.arange(2 ** n), out]
    s = Scn(f'{key} n={n} {rep} {label(ops)}', inputs, real, spec, fn=FN, bound=f'n={n}', sym=sym, num=num)
    return s


def force(j):
    def spy(key, a, p, shape):
        if p is None:
            return None
        v = jnp.asarray(a) if not isinstance(a, int) else jnp.arange(a)
        return jnp.broadcast_to(v[j], tuple(shape) + v.shape[1:])
    return spy


def counts(n, j, shots, rep, noisy=False):
    """force every draw to be outcome j: the only key must be an outcome with the probability the draw was given"""
    def run_(r):
        psi = core.rand_psi(r, n)
        ops = G.rand_ops(r, n, 2, noise=0.7 if noisy else None)
        env = {x: float(r.uniform(-3, 3)) for x in names_of(ops)}
        s = jnp.asarray(psi) if rep == 'psi' else density_mat(jnp.asarray(psi))
        call = lambda: sample(s, B.circ(ops, n), env, shots)
        e = capture(call)
        if e is None or e.p is None:
            raise Skip('sample does not draw through jax.random.choice with probabilities')
        pj = float(np.real(np.asarray(e.p))[j])
        jxi.CHOICE_SPY.append(force(j))
        try:
            c = call()
        finally:
            jxi.CHOICE_SPY.clear()
        if len(c) != 1:
            return f'all draws equal, but the counts are {dict(c)}'
        (kk, v), = c.items()
        bad = shape_ok(c, n, shots)
        if bad:
            return bad
        p = born({'s': O.obj(psi)}, ops, n, env, O.K(False), 'psi')
        want = complex(p[tuple(int(x) for x in kk)]).real
        if abs(want - pj) > 1e-8:
            return f'bitstring {kk} has Born probability {want}, but its draw is given probability {pj}'
    return Custom(f'counts of a forced outcome {rep} n={n} outcome={j} shots={shots}{" noisy" if noisy else ""}', run_, fn=FN,
                  bound=f'n={n}, sampled state', backend='forced draws')


def shape_ok(c, n, shots):
    for kk, v in c.items():
        if not (isinstance(kk, str) and len(kk) == n and set(kk) <= {'0', '1'}):
            return f'key {kk!r} is not a bitstring of {n} characters'
        if isinstance(v, bool) or not isinstance(v, (int, np.integer)) or v <= 0:
            return f'count of {kk} is {v!r}'
    if sum(c.values()) != shots:
        return f'{shots} shots, but the counts sum to {sum(c.values())}: {dict(list(c.items())[:8])}'


def stats(i, n, shots, rep, noisy, basis=False):
    def run_(r):
        psi = core.rand_psi(r, n) if not basis else np.zeros((2,) * n, complex)
        if basis:
            psi[tuple(int(x) for x in r.integers(0, 2, n))] = 1
        ops = [] if i % 4 == 3 else G.rand_ops(r, n, 3, noise=0.7 if noisy else None)
        env = {x: float(r.uniform(-3, 3)) for x in names_of(ops)}
        s = jnp.asarray(psi) if rep == 'psi' else density_mat(jnp.asarray(psi))
        c = sample(s, B.circ(ops, n), env, shots)
        bad = shape_ok(c, n, shots)
        if bad:
            return bad
        p = born({'s': O.obj(psi)}, ops, n, env, O.K(False), 'psi')
        stat, df = 0.0, 0
        rest_e, rest_o = 0.0, 0
        for b, v in p.items():
            v = complex(v).real
            o = c.get(''.join(map(str, b)), 0)
            if v < 1e-12 and o:
                return f'bitstring {b} has probability 0 and was drawn {o} times'
            if v * shots < 8:
                rest_e, rest_o = rest_e + v * shots, rest_o + o
                continue
            stat += (o - v * shots) ** 2 / (v * shots)
            df += 1
        if rest_e > 8:
            stat += (rest_o - rest_e) ** 2 / rest_e
            df += 1
        if df > 1 and chi2.sf(stat, df - 1) < 1e-10:
            return f'{shots} shots on {n} qubits: chi-square {stat:.1f} with {df - 1} degrees of freedom; counts {dict(list(c.items())[:6])}'
    return Custom(f'frequencies {i} {rep} n={n} shots={shots}{" noisy" if noisy else ""}{" basis" if basis else ""}', run_, fn=FN,
                  bound=f'n={n}, {shots} shots', backend='chi-square')


def scenarios():
    yield from unbounded('C11')
    for n in (1, 2, 3):
        yield scn('identity', [], n)
        yield scn('identity', [], n, 'rho')
    for nm in G.FIXED1 + G.ROT:
        o = ('r', nm, 'a', (1,), (0,)) if nm in G.ROT else ('g', nm, (0,), ())
        yield scn('gate', [('g', 'H', (0,), ()), o], 2)
    for kd, m in G.NOISES:
        pr = 0.3 if m == 1 else (0.3, 0.6) if m == 2 else (0.1, 0.2, 0.3)
        for rep in ('psi', 'rho'):
            yield scn('noise', [('g', 'H', (0,), (), ((kd, pr),))], 1, rep)
            yield scn('noise', [('r', 'RY', 'a', (1,), (), ((kd, pr),))], 2, rep, sym=rep == 'psi')
    for i in range(q(80, 30)):
        r = rng('c11', i)
        n = int(r.integers(1, 4))
        ops = G.rand_tree(r, n, int(r.integers(1, 5)), noise=0.4 if i % 3 == 0 else None)
        yield scn(f'circ{i}', ops, n, ['psi', 'rho', 'psi'][i % 3] if n < 3 or i % 3 else 'psi')
    for i in range(q(24, 10)):
        r = rng('c11b', i)
        n = int(r.integers(4, 9))
        yield scn(f'big{i}', G.rand_tree(r, n, int(r.integers(2, 9))), n, sym=False, num=1)
    for n in (1, 2, 3):
        for j in range(2 ** n):
            yield counts(n, j, [1, 2, 5, 37][(n + j) % 4], ['psi', 'rho'][j % 2], noisy=j % 3 == 2)
    for n in (4, 5, 7, 9):
        r = rng('c11c', n)
        for j in sorted({0, 1, 2 ** n - 1, 2 ** (n - 1), int(r.integers(2 ** n))}):
            yield counts(n, j, int(r.integers(1, 50)), 'psi')
    for n, j, shots in ((2, 1, 32771), (1, 0, 65539), (2, 3, 131101), (3, 5, 1000003)):   # beyond the widths of the short integers
        yield counts(n, j, shots, 'psi' if n > 1 else 'rho')
    for i in range(q(40, 16)):
        r = rng('c11s', i)
        yield stats(i, int(r.integers(1, 5)), int([1, 10, 1000, 1001, 4096, 20000][i % 6]), ['psi', 'rho'][i % 2], i % 5 == 4)
    for n in (1, 2, 3, 6, 10):
        yield stats(100 + n, n, 50, 'psi', False, basis=True)
    yield default_shots()


def default_shots():
    def run_(r):
        c = sample(jnp.asarray(core.rand_psi(r, 2)), B.circ([('g', 'H', (0,), ())], 2))
        return shape_ok(c, 2, 1000)
    return Custom('default number of shots', run_, fn=FN, bound='n=2')
