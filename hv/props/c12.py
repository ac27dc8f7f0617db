import math
from .common import *
from ..build import DiffMode
from ..core import Skip
from .c09 import OB
from .c10 import cphase
from scipy.stats import chi2

CONTRACTS = [
    'expectation(n_shots=n, mode in {AD, GPSR}): ensures E[result[i]] = <O_i> of the output state, in the order of the list, where the expectation is over the draws assumed for jax.random.choice',
    'eigen_sample: ensures result[i] is the mean of n draws of eigenvalues of O_i with the spectral measure of O_i in the state',
    'finite_shots_jvp, finite_shots_gpsr_backward: ensures E[gradient] = exact derivative',
]
ASSUMPTIONS = ['jax.random.choice draws independently from the given probabilities', 'jnp.linalg.eigh returns the eigendecomposition',
               'gradients are taken with respect to circuit parameters of uncontrolled rotations and of phase gates (others: known findings)']
FN = ('expectation', 'finite_shots', 'eigen_sample', 'align_eigenvectors', 'permutation_matrix', 'eigen_probabilities')
GFN = FN + ('finite_shots_jvp', 'finite_shots_gpsr_backward', 'create_renamed_operators', 'prepare_param_gates_seq')
KEY = jax.random.PRNGKey(3)


def vals_of(ops, obs, d, k, rep, env, oenv=None):
    oenv = env if oenv is None else oenv
    if rep == 'rho' or any(O.has_noise(o) for o in ops):
        r = seq_rho(ops, d['s'] if rep == 'rho' else O.outer(d['s']), env, k)
        return [O.expval_rho(o, r, oenv, k) for o in obs]
    p = seq_act(ops, d['s'], env, k)
    return [O.expval(o, p, oenv, k) for o in obs]


def vec(xs):
    a = np.empty((len(xs),), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def st(a, rep):
    return DensityMatrix(a['s']) if rep == 'rho' else a['s']


def mean_scn(key, ops, obs, n, rep='psi', mode='ad', shots=2, form='flat', sym=True):
    nm = names_of(ops)
    onm = sorted(set().union(*[O.params(o) for o in obs]))
    al = sorted(set(nm) | set(onm))
    inputs = {'s': (rep, n), **env_inputs(al)}

    def real(a):
        v = env_of(a, al) if form == 'flat' else {'circuit': env_of(a, nm), 'observables': env_of(a, onm)}
        if not jxi.sym_mode():
            return mc_mean(lambda key: expectation(st(a, rep), B.circ(ops, n), [OB(o) for o in obs], v, diff_mode=DiffMode(mode), n_shots=300, key=key))
        return expectation(st(a, rep), B.circ(ops, n), [OB(o) for o in obs], v, diff_mode=DiffMode(mode), n_shots=shots, key=KEY)

    def spec(d, k):
        v = vec(vals_of(ops, obs, d, k, rep, env_of(d, al)))
        return v
    return Scn(f'mean {key} {mode} {rep} {form} shots={shots} n={n} {label(ops)} | {" , ".join(G.short(o) for o in obs)[:110]}', inputs, real, spec,
               fn=FN, bound=f'n={n}, {shots} shots', sym=sym, expectation=True, tol=STAT_TOL)


STAT_TOL = 'stat'


class Est:
    """Monte-Carlo mean with its standard error"""
    def __init__(self, m, se):
        self.m, self.se = m, se


def mc_mean(f, reps=400):
    ks = jax.random.split(jax.random.PRNGKey(11), reps)
    try:
        x = np.asarray(jax.jit(jax.vmap(f))(ks))
    except Exception:
        x = np.stack([np.asarray(f(k)) for k in ks[:100]])
    return dict(m=x.mean(0), se=x.std(0) / np.sqrt(len(x)) + 1e-9, reps=np.asarray(len(x)))


def grad_scn(key, ops, obs, n, how='jacfwd', rep='psi', shots=2, order=None, extra=(), sym=True, form='flat', wrt=None):
    nm = sorted(set(names_of(ops)) | set(extra))
    onm = sorted(set().union(*[O.params(o) for o in obs]))
    order = list(order or (sorted(set(nm) | set(onm)) if form == 'flat' else nm))
    inputs = {'s': (rep, n), **env_inputs(sorted(set(nm) | set(onm)))}

    def grad(a, shots, kk):
        s = st(a, rep)
        v = {x: a[x] for x in order}
        if how == 'backward':
            from horqrux.differentiation.gpsr import finite_shots_gpsr_backward
            return list(finite_shots_gpsr_backward(s, [B.build(g) for o in ops for g in O.flat(o)], [OB(o) for o in obs], v, shots, kk))
        c, ob = B.circ(ops, n), [OB(o) for o in obs]

        def g(w):
            if form == 'nested':
                w = {'circuit': w, 'observables': env_of(a, onm)}
            return expectation(s, c, ob, w, diff_mode=DiffMode.GPSR, n_shots=shots, key=kk)
        J = jax.grad(lambda w: g(w).sum())(v) if how == 'grad' else getattr(jax, how)(g)(v)
        return [J[x] for x in order]

    def real(a):
        if not jxi.sym_mode():
            r = mc_mean(lambda kk: jnp.stack([jnp.asarray(x) for x in grad(a, 300, kk)]), reps=400)
            return r
        return grad(a, shots, KEY)

    def spec(d, k):
        out = []
        base = vals_of(ops, obs, d, k, rep, env_of(d, sorted(set(nm) | set(onm)))) if k.sym else None
        for x in order:
            if k.sym:
                ds = [b.diff(x) if hasattr(b, 'diff') else 0 for b in base]
            else:
                ds = [O.deriv(lambda e, i=i: vals_of(ops, obs, d, k, rep, e)[i], x, env_of(d, sorted(set(nm) | set(onm))), k) for i in range(len(obs))]
            if how in ('grad', 'backward'):
                out.append(sum(ds))
            else:
                out.append(vec(ds))
        if not k.sym:
            return np.array([np.asarray(x, dtype=complex) for x in out])
        return out
    return Scn(f'{key} {how} {rep} {form} shots={shots} n={n} wrt {",".join(order)} {label(ops)} | {" , ".join(G.short(o) for o in obs)[:90]}', inputs, real, spec,
               fn=GFN, bound=f'n={n}, {shots} shots', sym=sym, expectation=True, tol=STAT_TOL)


def spectrum(ob, n, env, k=None):
    M = np.array(O.mat(ob, list(range(n)), env, O.K(False)), dtype=complex)
    w, v = np.linalg.eigh(M)
    groups = []
    for x, u in zip(w, v.T):
        for g in groups:
            if abs(g[0] - x) < 1e-6:
                g[1].append(u)
                break
        else:
            groups.append((x, [u]))
    return groups


def single_shot(i, ops, obs, n, rep, mode, shots=1):
    """with one shot every estimate is an eigenvalue, drawn with the spectral measure"""
    def run_(r):
        psi = core.rand_psi(r, n, special=i % 3 == 1)
        env = {x: float(r.uniform(-3, 3)) for x in names_of(ops) + names_of(obs)}
        s = jnp.asarray(psi) if rep == 'psi' else density_mat(jnp.asarray(psi))
        f = lambda key: expectation(s, B.circ(ops, n), [OB(o) for o in obs], env, diff_mode=DiffMode(mode), n_shots=shots, key=key)
        m = 3000 if shots == 1 else 600
        ks = jax.random.split(jax.random.PRNGKey(5 + i), m)
        f0 = np.asarray(f(ks[0]))
        if f0.shape != (len(obs),):
            return f'{len(obs)} observables, result of shape {f0.shape}'
        x = np.asarray(jax.vmap(f)(ks))
        if not np.allclose(x[0], f0, atol=1e-9):
            x = np.stack([np.asarray(f(k)) for k in ks[:200]])
        rho = np.array(seq_rho(ops, O.outer(O.obj(psi)), env, O.K(False)), dtype=complex).reshape(2 ** n, 2 ** n)
        for c, ob in enumerate(obs):
            gs = spectrum(ob, n, env)
            p = np.array([sum((u.conj() @ rho @ u).real for u in us) for _, us in gs])
            lam = np.array([g[0] for g in gs])
            mean, var = (p * lam).sum(), (p * lam ** 2).sum() - (p * lam).sum() ** 2
            if shots == 1:
                d = np.abs(x[:, c][:, None] - lam[None, :])
                if d.min(1).max() > 1e-5:
                    return f'observable {c}: estimate {x[d.min(1).argmax(), c]} from one shot is not among its eigenvalues {lam}'
                cnt = np.bincount(d.argmin(1), minlength=len(lam))
                e = p * len(x)
                if any(cnt[e < 1e-6]):
                    return f'observable {c}: an eigenvalue of probability 0 was drawn'
                ok = e > 8
                if ok.sum() > 1:
                    sc = ((cnt[ok] - e[ok]) ** 2 / e[ok]).sum()
                    if chi2.sf(sc, ok.sum() - 1) < 1e-10:
                        return f'observable {c}: eigenvalues {lam} drawn {cnt} times, expected {e}'
                elif e.max() > len(x) * 0.999 and abs(cnt[e.argmax()] - e.max()) > 12 + 0.02 * len(x):
                    return f'observable {c}: eigenvalues {lam} drawn {cnt} times, expected {e}'
            else:
                y = x[:, c]
                se = np.sqrt(max(var, 0) / shots / len(y)) + 1e-7
                if abs(y.mean() - mean) > 7 * se + 1e-6:
                    return f'observable {c}: mean of the estimates {y.mean()}, exact {mean}, standard error {se}'
                if var > 1e-4 and len(y) > 300:
                    ratio = y.var() / (var / shots)
                    if not 0.55 < ratio < 1.8:
                        return f'observable {c}: variance of the average of {shots} eigenvalues is {y.var()}, specified {var / shots}'
                elif var < 1e-9 and np.abs(y - mean).max() > 1e-4:
                    return f'observable {c}: eigenstate, exact value {mean}, estimate {y[np.abs(y - mean).argmax()]}'
    return Custom(f'distribution {i} {mode} {rep} shots={shots} n={n} {label(ops)[:60]} | {" , ".join(G.short(o) for o in obs)[:100]}', run_, fn=FN,
                  bound=f'n={n}, sampled', backend='chi-square')


class expected_draw:
    """jax.random.choice replaced by what it yields on average (its assumed contract): the mean of the estimator without sampling noise"""
    def __enter__(self):
        self.old, self.calls, self.other = jax.random.choice, 0, False

        def choice(key, a, shape=(), replace=True, p=None, axis=0, **kw):
            if np.ndim(a) == 0 or axis != 0 or not replace or p is None or not jnp.issubdtype(jnp.asarray(a).dtype, jnp.inexact):
                self.other = True
                return self.old(key, a, shape=shape, replace=replace, p=p, axis=axis, **kw)
            self.calls += 1
            m = jnp.tensordot(p / p.sum(), a, axes=1)
            return jnp.broadcast_to(m, tuple(shape) + m.shape)
        jax.random.choice = choice
        return self

    def __exit__(self, *a):
        jax.random.choice = self.old


def exact_mean(i, ops, obs, n, rep='psi', mode='ad', shots=7):
    """the estimator averaged over the draws, exactly; and its parameter-shift gradient"""
    nm = names_of(ops)

    def run_(r):
        psi = core.rand_psi(r, n, special=i % 3 == 1)
        env = {x: float(r.uniform(-3, 3)) for x in nm}
        s = jnp.asarray(psi) if rep == 'psi' else density_mat(jnp.asarray(psi))
        f = lambda v: expectation(s, B.circ(ops, n), [OB(o) for o in obs], v, diff_mode=DiffMode(mode), n_shots=shots, key=KEY)
        with expected_draw() as d:
            got = np.asarray(f(env))
        if d.other or not d.calls:
            return None                          # drawn in another way: left to the statistical scenarios
        k = O.K(False)
        dd = {'s': O.outer(O.obj(psi)) if rep == 'rho' else O.obj(psi)}
        want = np.array([complex(x).real for x in vals_of(ops, obs, dd, k, rep, env)])
        if got.shape != want.shape or np.abs(got - want).max() > 4e-5:
            return f'mean of the estimates {got} instead of {want}'
        if nm and mode == 'gpsr':
            v = {x: jnp.asarray(env[x]) for x in nm}
            with expected_draw() as d:
                J = jax.jacfwd(f)(v)
            for x in nm:
                w = np.array([complex(O.deriv(lambda e, c=c: vals_of(ops, obs, dd, k, rep, e)[c], x, env, k)).real for c in range(len(obs))])
                if not d.other and d.calls and np.abs(np.asarray(J[x]) - w).max() > 2e-4:
                    return f'mean of the derivatives with respect to {x}: {J[x]} instead of {w}'
    return Custom(f'exact mean {i} {mode} {rep} n={n} {label(ops)[:60]} | {" , ".join(G.short(o) for o in obs)[:110]}', run_, fn=FN, bound=f'n={n}', backend='expected draw')


def near(t, *q):
    """observables which share an eigenbasis only up to the angle t"""
    a, b = q if len(q) == 2 else (q[0], q[0])
    mix = lambda p, r, x: ('add', [('scale', math.cos(t), g(p, x)), ('scale', math.sin(t), g(r, x))])
    return [[('add', [g('Z', a)]), mix('Z', 'X', a)], [mix('X', 'Y', b), ('add', [g('X', b)]), ('add', [g('X', b)])],
            [('add', [('seq', [g('Z', a), g('Z', b)])]) if a != b else ('add', [g('Y', a)]), mix('Z', 'X', b) if a != b else mix('Y', 'Z', a)]]


def exact_means():
    h0, rx0, ry1, cx = g('H', 0), ('r', 'RX', 'a', (0,), ()), ('r', 'RY', 'b', (1,), ()), ('g', 'X', (1,), (0,))
    i = 0
    for j, t in enumerate([1e-4, 3e-4, 1e-3, 4e-3, 1e-2, 5e-2, 0.3]):
        for m, q_ in enumerate([(0,), (0, 1), (1,)]):
            n = 1 if q_ == (0,) else 2
            for obs in near(t, *q_):
                i += 1
                yield exact_mean(i, [rx0] if n == 1 else [h0, rx0, cx, ry1], obs, n, ['psi', 'rho'][(i + j) % 2], ['ad', 'gpsr'][(i + m) % 2])
    for j, obs in enumerate(FAMS):
        for mode in ('ad', 'gpsr'):
            i += 1
            yield exact_mean(i, [h0, rx0, cx, ry1, rx0], obs, 2, ['psi', 'rho'][i % 2], mode)
    for j in range(q(60, 16)):
        r = rng('c12e', j)
        n = int(r.integers(1, 4))
        ops = G.rand_ops(r, n, int(r.integers(1, 4)), names=('a', 'b'), ctrl_rot=False, noise=0.4 if j % 3 == 2 else None)
        yield exact_mean(500 + j, ops, [G.rand_obs(r, n) for _ in range(int(r.integers(1, 4)))], n, ['psi', 'rho'][j % 2], ['ad', 'gpsr'][(j // 2) % 2])


def g(nm, *q):
    return ('g', nm, tuple(q), ())


FAMS = [
    [[g('Z', 0)]], [[g('X', 0)], [g('Z', 0)]], [[g('Z', 0)], [g('X', 1)]], [[g('X', 1)], [g('Z', 0)], [g('Y', 0)]], [[g('Z', 1)], [g('Z', 0)]],
    [[g('X', 0), g('Z', 1)], [('seq', [g('Z', 0), g('Z', 1)])]], [[('scale', 0.5, g('Y', 1))], [g('I', 0)], [('scale', -2.0, g('Z', 0))]],
    [[('seq', [g('X', 0), g('X', 1)])], [('seq', [g('Z', 0), g('Z', 1)])], [('seq', [g('Y', 0), g('Y', 1)])]], [[g('H', 0)], [g('H', 1)]],
    [[g('Z', 0), g('Z', 1)], [g('Z', 1)], [('seq', [g('Z', 0), g('Z', 1)])]], [[g('Z', 1)], [g('X', 0)]], [[g('X', 0)], [g('X', 0)]],
]
FAMS = [[('add', o) for o in f] for f in FAMS]


def scenarios():
    h0, rx0, ry1, ph = g('H', 0), ('r', 'RX', 'a', (0,), ()), ('r', 'RY', 'b', (1,), ()), ('r', 'PHASE', 'a', (1,), ())
    yield from exact_means()
    cx = ('g', 'X', (1,), (0,))
    for i, obs in enumerate(FAMS):
        for rep in ('psi', 'rho'):
            yield mean_scn(f'family{i}', [], obs, 2, rep)
        yield mean_scn(f'family{i}', [h0, rx0, cx, ry1], obs, 2, mode=['ad', 'gpsr'][i % 2], shots=1 + i % 3)
        yield single_shot(i, [h0, rx0, cx, ry1], obs, 2, ['psi', 'rho'][i % 2], ['ad', 'gpsr'][i % 2])
        yield single_shot(100 + i, [rx0, cx, ph] + ([('g', 'X', (1,), (), (('BitFlip', 0.3),))] if i % 2 else []), obs, 2, ['rho', 'psi'][i % 2], ['gpsr', 'ad'][i % 2], shots=[5, 16, 100][i % 3])
    for i in range(q(40, 16)):
        r = rng('c12', i)
        n = int(r.integers(1, 4))
        ops = G.rand_tree(r, n, int(r.integers(1, 4)), names=('a', 'b'), noise=0.4 if i % 3 == 2 else None)
        obs = [G.rand_obs(r, n) for _ in range(int(r.integers(1, 4)))]
        yield mean_scn(f'circ{i}', ops, obs, n, ['psi', 'rho', 'psi'][i % 3], mode=['ad', 'gpsr'][i % 2], shots=int(r.integers(1, 4)), form=['flat', 'nested'][(i // 2) % 2])
        if i % 2 == 0:
            yield single_shot(200 + i, ops, obs, n, ['psi', 'rho'][i % 2], ['ad', 'gpsr'][i % 2], shots=[1, 20][(i // 2) % 2])
    # observables with parameters
    for i in range(q(12, 6)):
        r = rng('c12o', i)
        n = int(r.integers(1, 3))
        ops = G.rand_tree(r, n, 2, names=('a',))
        obs = [('add', [('scale', 'o', g('Z', 0)), ('scale', 'a', g('X', n - 1))]), ('add', [('scale', 'o', g('Y', 0))])]
        yield single_shot(300 + i, ops, obs, n, 'psi', ['ad', 'gpsr'][i % 2], shots=[1, 12][i % 2])
    # gradients
    ob1, ob2 = FAMS[0], FAMS[5]
    for nm in G.ROT:
        for how in ('jacfwd', 'grad', 'backward'):
            yield grad_scn('one', [('r', nm, 'a', (0,), ())], [('add', [g('X', 0), g('Y', 0), g('Z', 0)])], 1, how)
    for how in ('jacfwd', 'grad', 'backward'):
        yield grad_scn('cphase', [h0, ('r', 'PHASE', 'a', (1,), (0,)), h0], ob2, 2, how)
    pats = [[rx0, ry1], [rx0, rx0], [rx0, cx, ry1, rx0], [ph, rx0, cx, ph], [('seq', [rx0, ('seq', [ry1])]), cx], [rx0, ('r', 'RX', 0.7, (0,), ()), ry1],
            [('r', 'RX', 'b', (0,), ()), ('r', 'RY', 'a', (1,), ()), cx], [ph, h0, ry1]]
    for i, ops in enumerate(pats):
        for j, how in enumerate(('jacfwd', 'grad', 'backward')):
            yield grad_scn(f'share{i}', ops, FAMS[(i + j) % len(FAMS)], 2, how)
        nmz = names_of(ops)
        for j, od in enumerate([list(reversed(nmz)), ['unused'] + nmz, nmz + ['u']]):
            how = ('jacfwd', 'grad', 'backward')[(i + j) % 3]
            yield grad_scn(f'order{i}.{j}', ops, FAMS[(i + j + 3) % len(FAMS)], 2, how, order=od, extra=[x for x in od if x not in nmz])
    for i in range(q(40, 14)):
        r = rng('c12g', i)
        n = int(r.integers(1, 3))
        ops = G.rand_ops(r, n, int(r.integers(1, 5)), names=('a', 'b'), ctrl_rot=False, noise=0.4 if i % 3 == 1 else None)
        if not names_of(ops):
            ops.append(('r', 'RY', 'a', (0,), ()))
        ops = cphase(r, ops, n)
        yield grad_scn(f'circ{i}', ops, [G.rand_obs(r, n) for _ in range(int(r.integers(1, 3)))], n, ('jacfwd', 'grad', 'backward')[i % 3], ['psi', 'rho'][i % 2])
    # -------- recorded defects: see known_findings.json
    for nm in ('RX', 'RY', 'RZ'):
        for how in ('jacfwd', 'backward'):
            yield grad_scn(f'finite-shot controlled rotation {nm}', [h0, ('r', nm, 'a', (1,), (0,))], [('add', [g('X', 0), g('Y', 1)])], 2, how)
    yield grad_scn('finite-shot observable parameter', [rx0], [('add', [('scale', 'o', g('Z', 0))])], 1, 'jacfwd')
    yield grad_scn('finite-shot separate values', [rx0], [('add', [('scale', 'o', g('Z', 0))])], 1, 'jacfwd', form='nested')
