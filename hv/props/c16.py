from .common import *
from ..build import DiffMode, to_sparse, to_dense, OpSequence, Scale, Add, Observable, QuantumCircuit
from .c09 import OB
from .c06 import strip_noise, rand_op
import copy

CONTRACTS = [
    'to_sparse/to_dense for Array, BCOO, Primitive, Parametric, OpSequence, Scale, Add, Observable, QuantumCircuit: ensure the action, support, parameters, noise and size of the argument',
    'tree_flatten/tree_unflatten of every registered class: ensure the same object behaviour (also through tree_map, jit arguments and jit results)',
    'functions compiled with jit: ensure the values of the uncompiled function for every argument, also on later calls with other arguments',
]
ASSUMPTIONS = ['operations take part in compilation as static structure, states and values as traced arrays']
FN = ('to_sparse', 'to_dense', 'tree_flatten', 'tree_unflatten')


def leaf_map(x):
    return jax.tree_util.tree_map(lambda y: y, x)


def unflat(x):
    l, t = jax.tree_util.tree_flatten(x)
    return jax.tree_util.tree_unflatten(t, l)


def own(x):
    c, a = x.tree_flatten()
    return type(x).tree_unflatten(a, c)


def through_jit(x):
    return jax.jit(lambda o: o)(x)


TRANS = {
    'sparse>dense': lambda x: to_dense(to_sparse(x)),
    'dense>sparse>dense': lambda x: to_dense(to_sparse(to_dense(x))),
    'dense': to_dense,
    'tree_map': leaf_map, 'unflatten': unflat, 'flatten method': own, 'jit': through_jit,
    'in a list': lambda x: leaf_map({'a': [x, 1.0]})['a'][0],
}


def about(o):
    """observable bookkeeping of an object"""
    d = {}
    for a in ('qubit_support', 'param_names', 'vparams', 'n_vparams', 'n_qubits', 'fparams', 'is_parametric'):
        try:
            v = getattr(o, a)
        except AttributeError:
            continue
        if isinstance(v, (set, frozenset)):
            v = sorted(v)
        if isinstance(v, tuple):
            v = list(v)
        d[a] = v
    d['type'] = type(o).__name__
    if getattr(o, 'noise', None):
        d['noise'] = [(str(x.type), x.error_probability) for x in o.noise]
    return d


def conv_scn(key, op, n, tname, wrap=None, rho=False, fparams=(), sym=True, num=0):
    names = sorted(O.params(op))
    inputs = {'s': ('c', (2,) * (2 * n if rho else n)), **env_inputs(names)}
    nz = O.has_noise(op)
    rho = rho or nz
    if nz:
        inputs['s'] = ('c', (2,) * (2 * n))

    def mk():
        if wrap == 'circuit':
            return B.circ(op[1], n, fparams=fparams)
        return B.build(op)

    def real(a):
        o = mk()
        t = TRANS[tname](o)
        if about(t) != about(o):
            raise core.Mismatch(f'{about(o)} became {about(t)}')
        st = DensityMatrix(a['s']) if rho else a['s']
        env = env_of(a, names)
        if op[0] == 'obs':
            return t.forward(st, env)
        return B.dense_out(t(st, env))

    def spec(d, k):
        env = env_of(d, names)
        o = ('add', op[1]) if op[0] == 'obs' else op
        return O.act_rho(o, d['s'], env, k) if rho else O.act(o, d['s'], env, k)
    return Scn(f'{key} {tname} n={n} {wrap or ""}{" rho" if rho else ""} {list(fparams) if fparams else ""} {G.short(op)[:130]}', inputs, real, spec, fn=FN, bound=f'n={n}', sym=sym, num=num)


def sparse_scn(key, op, n):
    """to_sparse(op) acts on sparse states as op on dense ones"""
    names = sorted(O.params(op))

    def real(a):
        t = to_sparse(B.build(op))
        st = BCOO.fromdense(a['s'])
        env = env_of(a, names)
        return B.dense_out(t.forward(st, env) if op[0] == 'obs' else t(st, env))
    return Scn(f'{key} to_sparse n={n} {G.short(op)[:130]}', {'s': ('c', (2,) * n), **env_inputs(names)}, real,
               lambda d, k: O.act(('add', op[1]) if op[0] == 'obs' else op, d['s'], env_of(d, names), k), fn=('to_sparse',), bound=f'n={n}')


def jit_scn(key, ops, n, rep, mode, obs=None, fparams=()):
    """compiled with the objects as arguments"""
    names = sorted(set(names_of(ops)) | set().union(*[O.params(o) for o in (obs or [])]))
    noisy = any(O.has_noise(o) for o in ops)

    def real(a):
        st = DensityMatrix(a['s']) if rep == 'rho' else a['s']
        c = B.circ(ops, n, fparams=fparams)
        env = env_of(a, names)
        if obs is not None:
            return jax.jit(lambda c, s, o, v: expectation(s, c, o, v, diff_mode=DiffMode(mode)))(c, st, [OB(o) for o in obs], env)
        r = jax.jit(lambda c, s, v: (run(c, s, v), c))(c, st, env)
        out, c2 = r
        if about(c2) != about(c):
            raise core.Mismatch(f'{about(c)} became {about(c2)}')
        return [B.dense_out(out), B.dense_out(run(c2, st, env))]

    def spec(d, k):
        env = env_of(d, names)
        if rep == 'rho' or noisy:
            r = seq_rho(ops, d['s'] if rep == 'rho' else O.outer(d['s']), env, k)
            f = lambda o: O.expval_rho(o, r, env, k)
        else:
            r = seq_act(ops, d['s'], env, k)
            f = lambda o: O.expval(o, r, env, k)
        if obs is None:
            return [r, r]
        a = np.empty((len(obs),), dtype=object)
        for i, o in enumerate(obs):
            a[i] = f(o)
        return a
    return Scn(f'{key} jit {mode} n={n} {rep} {label(ops)}' + (' | ' + ' , '.join(G.short(o) for o in obs)[:80] if obs else ''), {'s': ('c', (2,) * (2 * n if rep == 'rho' else n)), **env_inputs(names)},
               real, spec, fn=('tree_flatten', 'tree_unflatten'), bound=f'n={n}')


def again(key, mk_list, call, tol=1e-9, runs=1):
    """one compiled function called on several arguments in turn: same values as uncompiled calls"""
    def run_(r):
        args = mk_list(r)
        f = jax.jit(call)
        order = list(range(len(args))) + list(range(len(args)))[::-1]
        for step, i in enumerate(order):
            want = jax.tree_util.tree_map(np.asarray, call(*args[i]))
            got = jax.tree_util.tree_map(np.asarray, f(*args[i]))
            lw, lg = jax.tree_util.tree_leaves(want), jax.tree_util.tree_leaves(got)
            if len(lw) != len(lg) or any(x.shape != y.shape or not np.allclose(x, y, atol=tol) for x, y in zip(lw, lg)):
                return f'call {step + 1} (argument {i}) of the compiled function gives {lg[0].reshape(-1)[:4]}, uncompiled {lw[0].reshape(-1)[:4]}; argument {str(args[i][0])[:300]}'
    return Custom(f'repeated compiled calls {key}', run_, fn=('tree_flatten',), bound='sampled', runs=runs)


def variants(op, r, n):
    """operations which differ from op in one detail only"""
    out = []
    if op[0] == 'r':
        out.append(op[:2] + (1.25,) + op[3:])
        out.append(op[:2] + (1.75,) + op[3:])
        out.append(op[:2] + ('a',) + op[3:])
        out.append(op[:2] + ('b',) + op[3:])
        out.append(('r', 'RZ' if op[1] != 'RZ' else 'RX') + op[2:])
        out.append(('r', 'PHASE') + op[2:])
        t, c = G.rand_place(r, range(n), 1, 1)
        out.append(op[:3] + (t, c) + op[5:])
        out.append(op[:3] + (c, t) + op[5:])
        out.append(op[:3] + (t, ()) + op[5:])
    else:
        for nm in ('X', 'Y', 'H', 'T'):
            out.append(('g', nm) + op[2:])
        t, c = G.rand_place(r, range(n), 1, min(2, n - 1))
        out.append(op[:2] + (t, c) + op[4:])
        out.append(op[:2] + (t, c[::-1]) + op[4:])
        out.append(op[:2] + (c[:1], t) + op[4:])
        out.append(op[:2] + (t, ()) + op[4:])
    return out


def gates_list(r, kind):
    n = 3
    s = jnp.asarray(core.rand_psi(r, n))
    v = {'a': jnp.asarray(0.3), 'b': jnp.asarray(-1.1)}
    base = G.rand_gate(r, range(n), names=('a', 'b'), two=False)
    if kind == 'noise':
        base = ('r', 'RY', 'a', (0,), ()) if r.random() < 0.5 else ('g', 'H', (1,), ())
        vs = [base + (((kd, p),),) for kd, p in (('BitFlip', 0.1), ('BitFlip', 0.4), ('PhaseFlip', 0.4), ('Depolarizing', 0.4), ('AmplitudeDamping', 0.4), ('PhaseDamping', 0.4),
                                                  ('GeneralizedAmplitudeDamping', (0.4, 0.1)), ('GeneralizedAmplitudeDamping', (0.1, 0.4)))] + [base]
        return [(B.build(o), density_mat(s), v) for o in vs]
    vs = variants(base, r, n)
    wrap = {'gate': lambda o: B.build(o), 'seq': lambda o: OpSequence([B.build(o)]), 'circuit': lambda o: QuantumCircuit(n, [B.build(o), B.build(('g', 'H', (0,), ()))]),
            'scale': lambda o: Scale(B.build(o), float(r.choice([1.5, 2.5]))), 'scalename': lambda o: Scale(B.build(o), str(r.choice(['a', 'b']))), 'add': lambda o: Add([B.build(o), B.build(('g', 'X', (1,), ()))]),
            'obs': lambda o: Observable([B.build(o), Scale(B.build(('g', 'Z', (1,), ())), str(r.choice(['a', 'b'])))])}[kind]
    return [(wrap(o), s, v) for o in vs]


def array_conv(n, d):
    def real(a):
        return to_dense(to_sparse(a['m']))
    return Scn(f'array sparse>dense {d}', {'m': ('c', d)}, real, lambda x, k: x['m'], fn=FN, bound=f'shape {d}', num=4)


def noise_scn(kd, p, how):
    """a noise instance sent through the tree operations and compilation"""
    def mk():
        from horqrux.noise import DigitalNoiseInstance, DigitalNoiseType
        return DigitalNoiseInstance(DigitalNoiseType(kd), p)

    def real(a):
        t = TRANS[how](mk()) if how in TRANS else mk()
        g = B._pr.X(0, (None,), (t,))
        return B.dense_out(g(DensityMatrix(a['s'])))
    return Scn(f'noise {kd}({p}) {how}', {'s': ('c', (2,) * 4)}, real, lambda d, k: O.act_rho(('g', 'X', (0,), (), ((kd, tuple(core.const(x) for x in p) if k.sym and isinstance(p, tuple) else (core.const(p) if k.sym else p)),)), d['s'], {}, k),
               fn=('DigitalNoiseInstance.tree_flatten',), bound='n=2')


def dm_scn(how, n):
    def real(a):
        d = DensityMatrix(a['s'])
        if how == 'vmap':
            g = jax.vmap(lambda x: B.build(('g', 'H', (0,), ()))(x))
            r = g(DensityMatrix(jnp.stack([a['s'], 2 * a['s']])))
            return r.array
        if how == 'vmapout':
            r = jax.vmap(lambda x: density_mat(x))(jnp.stack([a['v'], a['v']]))
            return r.array
        if how == 'jit':
            return jax.jit(lambda x: B.build(('g', 'H', (0,), ()))(x))(d).array
        if how == 'grad':
            return jax.jit(lambda x: jax.tree_util.tree_map(lambda y: 2 * y, x))(d).array
        return TRANS[how](d).array

    def spec(d, k):
        if how in ('vmap', 'jit'):
            x = O.act_rho(('g', 'H', (0,), ()), d['s'], {}, k)
            return np.stack([x, O.scal(2, x)]) if how == 'vmap' else x
        if how == 'vmapout':
            return np.stack([O.outer(d['v'])] * 2)
        if how == 'grad':
            return O.scal(2, d['s'])
        return d['s']
    return Scn(f'density matrix {how} n={n}', {'s': ('c', (2,) * (2 * n)), 'v': ('c', (2,) * n)}, real, spec, fn=('DensityMatrix.tree_flatten',), bound=f'n={n}', num=1)


def shift_scn(nm, how, shift):
    """gates with a shift (as made for parameter-shift rules)"""
    op = ('r', nm, 'a', (1,), (0,))

    def real(a):
        g = B.build(op)
        g.shift = shift
        t = TRANS[how](g)
        return t(a['s'], {'a': a['a']})

    def spec(d, k):
        return O.act(op, d['s'], {'a': d['a'] + (core.const(shift) if k.sym else shift)}, k)
    return Scn(f'shifted {nm} {how} {shift}', {'s': ('c', (2, 2)), 'a': ('r',)}, real, spec, fn=FN, bound='n=2')


def evo_scn(how):
    from horqrux.analog import HamiltonianEvolution

    def real(a):
        t = TRANS[how](HamiltonianEvolution((1, 0)))
        return apply_gates(a['s'], t, {'hamiltonian': a['h'], 'time_evolution': a['t']})

    def spec(d, k):
        from .c15 import evo
        return O.apply_mat(evo(d['h'], d['t'], k), d['s'], (1, 0))
    return Scn(f'evolution {how}', {'s': ('c', (2, 2)), 'h': ('herm', 4), 't': ('r',)}, real, spec, fn=FN, bound='n=2')


def scenarios():
    # every gate through every transformation
    tr = list(TRANS)
    i = 0
    for nm in G.FIXED1 + G.FIXED2 + G.ROT:
        m = O.NQ.get(nm, 1)
        for t, c in ((tuple(range(m)), ()), (tuple(range(m, 0, -1))[:m], ()), ((0, 2)[:m], (1,)), ((1, 0)[:m], (2,)), ((2,) if m == 1 else (0, 2), (0, 1)[:2] if m == 1 else (1,))):
            for p in ((('a', 0.75)) if nm in G.ROT else (None,)):
                op = ('r', nm, p, t, c) if nm in G.ROT else ('g', nm, t, c)
                n = max(t + c) + 1
                for tn in (tr if THOROUGH else [tr[i % 8], tr[(i + 3) % 8]]):
                    yield conv_scn('gate', op, n, tn)
                i += 1
    for nm in G.ROT:
        for tn in tr:
            yield shift_scn(nm, tn, 0.5)
    for tn in ('sparse>dense', 'tree_map', 'unflatten', 'flatten method', 'jit', 'in a list'):
        if tn != 'sparse>dense':
            yield evo_scn(tn)
    # noisy gates
    for j, (kd, m) in enumerate(G.NOISES):
        pr = {1: 0.3, 2: (0.3, 0.6), 3: (0.1, 0.2, 0.3)}[m]
        fine = {1: 0.12345678, 2: (0.31234567, 0.65432198), 3: (0.11223344, 0.22334455, 0.33445566)}[m]
        for tn in ('tree_map', 'unflatten', 'flatten method', 'jit', 'in a list'):
            yield noise_scn(kd, fine, tn)
            yield conv_scn('noisy', ('r', 'RY', 'a', (0,), (), ((kd, fine),)), 1, tn)
        for tn in ('sparse>dense', 'tree_map', 'flatten method', 'jit', 'in a list'):
            yield noise_scn(kd, pr, tn) if tn != 'sparse>dense' else conv_scn('noisy', ('g', 'X', (0,), (1,), ((kd, pr),)), 2, tn)
            yield conv_scn('noisy', ('r', 'RY', 'a', (0,), (), ((kd, pr), ('BitFlip', 0.2))), 1, tn)
    # composite objects
    for i in range(q(80, 32)):
        r = rng('c16', i)
        n = int(r.integers(1, 4))
        op = strip_noise(rand_op(r, range(n), 3))
        if op[0] in 'gr':
            op = ('seq', [op])
        for tn in ([tr[i % 8]] if not THOROUGH else tr):
            yield conv_scn(f'tree{i}', op, n, tn)
        yield sparse_scn(f'tree{i}', op, n)
    for i in range(q(40, 16)):
        r = rng('c16o', i)
        n = int(r.integers(1, 4))
        op = ('obs', G.rand_obs(r, n, names=('o',))[1])
        yield conv_scn(f'observable{i}', op, n, tr[i % 8])
        yield sparse_scn(f'observable{i}', op, n)
    for i in range(q(60, 24)):
        r = rng('c16c', i)
        nz = i % 3 == 2
        n = int(r.integers(1, 3 if nz else 4))
        ops = G.rand_tree(r, n, int(r.integers(0, 5)), noise=0.4 if nz else None)
        nmz = names_of(ops)
        yield conv_scn(f'circuit{i}', ('seq', ops), n, tr[i % 8], wrap='circuit', fparams=tuple(x for x in nmz if r.random() < 0.5) + (('zz',) if i % 4 == 0 else ()))
        yield conv_scn(f'oversized{i}', ('seq', ops), n, tr[(i + 5) % 8], wrap='circuit', fparams=tuple(nmz))
    for d in ((2, 2), (4, 4), (2, 2, 2), (8,), (2,) * 4):
        yield array_conv(0, d)
    for how in ('tree_map', 'unflatten', 'flatten method', 'jit', 'in a list', 'vmap', 'vmapout', 'grad'):
        yield dm_scn(how, 1)
        yield dm_scn(how, 2)
    # compiled functions
    for i in range(q(60, 24)):
        r = rng('c16j', i)
        n = int(r.integers(1, 4))
        rep = ['psi', 'rho', 'psi'][i % 3] if n < 3 else 'psi'
        ops = G.rand_tree(r, n, int(r.integers(0, 4)), names=('a', 'b'), noise=0.4 if i % 4 == 3 and n < 3 else None)
        yield jit_scn(f'run{i}', ops, n, rep, 'ad', fparams=('a',) if i % 2 else ())
        mode = ['ad', 'adjoint', 'gpsr'][i % 3] if rep == 'psi' and not any(O.has_noise(o) for o in ops) else ['ad', 'gpsr'][i % 2]
        yield jit_scn(f'expectation{i}', ops, n, rep, mode, obs=[G.rand_obs(r, n, names=('o',) if mode != 'gpsr' else ()) for _ in range(int(r.integers(1, 3)))])
    # sparse objects as arguments of compiled functions
    for i in range(q(30, 12)):
        r = rng('c16s', i)
        n = int(r.integers(1, 4))
        ops = G.rand_ops(r, n, int(r.integers(1, 4)), names=('a', 'b'))
        nm = names_of(ops)

        def real(a, ops=ops, n=n, nm=nm):
            f = jax.jit(lambda c, s, v: run(c, s, v).todense())
            return f(B.circ(ops, n, sparse=True), BCOO.fromdense(a['s']), env_of(a, nm))
        yield Scn(f'sparse jit{i} n={n} {label(ops)}', {'s': ('c', (2,) * n), **env_inputs(nm)}, real, lambda d, k, ops=ops, nm=nm: seq_act(ops, d['s'], env_of(d, nm), k), fn=FN, bound=f'n={n}', num=0)
    # matrices inside compiled functions
    for i in range(q(30, 12)):
        r = rng('c16m', i)
        op = strip_noise(rand_op(r, range(3), 1))
        nm = sorted(O.params(op))
        sp = i % 2 == 0
        yield Scn(f'tensor jit{i} {"sparse " if sp else ""}{G.short(op)[:100]}', env_inputs(nm), lambda a, op=op, nm=nm, sp=sp: B.dense_out(jax.jit(lambda o, v: o.tensor(v, (0, 1, 2)))(B.build(op, sp), env_of(a, nm))),
                  lambda d, k, op=op, nm=nm: O.mat(op, [0, 1, 2], env_of(d, nm), k), fn=('tensor',), bound='3 qubits', num=1)
    for kind in ('gate', 'seq', 'circuit', 'scale', 'scalename', 'add', 'obs', 'noise'):
        for j in range(q(6, 2)):
            yield again(f'{kind} {j}', lambda r, kind=kind: gates_list(r, kind), lambda o, s, v: B.dense_out(o.forward(s, v) if isinstance(o, Observable) else o(s, v)))
    yield again('values', lambda r: [(jnp.asarray(core.rand_psi(r, 2)), {'a': jnp.asarray(float(x)), 'b': jnp.asarray(float(y))}) for x, y in r.normal(size=(4, 2))],
                lambda s, v: run(B.circ([('r', 'RX', 'a', (0,), ()), ('r', 'PHASE', 'b', (1,), (0,))], 2), s, v))
    yield again('observables', lambda r: [(OB(o), jnp.asarray(core.rand_psi(r, 2)), {'u': jnp.asarray(0.4), 'w': jnp.asarray(2.0)}) for o in
                                          [('add', [('scale', x, ('g', g, (t,), ()))]) for x in (1.0, 2.0, 'u', 'w') for g in 'XZ' for t in (0, 1)]],
                lambda o, s, v: expectation(s, B.circ([('g', 'H', (0,), ())], 2), [o], v))
    for mode in ('ad', 'adjoint', 'gpsr'):
        def mk(r):
            out = []
            for k in range(4):
                ops = [('r', 'RX', 'a', (k % 2,), ()), ('r', 'RY', ['a', 'b'][k // 2], (0,), ()), ('g', 'X', (1,), (0,))]
                for x in (0.4, -1.2):
                    out.append((B.circ(ops, 2), jnp.asarray(core.rand_psi(r, 2)), {'a': jnp.asarray(x), 'b': jnp.asarray(0.9)}))
            return out
        yield again(f'gradient {mode}', mk, lambda c, s, v, mode=mode: jax.grad(lambda w: expectation(s, c, [OB(('add', [('g', 'Z', (0,), ()), ('g', 'Y', (1,), ())]))], w, diff_mode=DiffMode(mode)).sum())(v), tol=1e-7)
    # circuits differing in declared parameters and size only
    def mkc(r):
        return [(QuantumCircuit(k, [B.build(('r', 'RX', 'a', (0,), ()))], f), jnp.asarray(core.rand_psi(r, 1)), {'a': jnp.asarray(0.2)}) for k in (1, 2) for f in ([], ['a'], ['b'])]
    yield again('declared parameters', mkc, lambda c, s, v: [run(c, s, v), jnp.asarray(c.n_vparams), jnp.asarray(c.n_qubits), jnp.asarray(len(c.fparams))])
