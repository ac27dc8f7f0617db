from .common import *
from .c02 import _shift, _sp

CONTRACTS = [
    '_jacobian(G, t) / Parametric.jacobian / _PHASE.jacobian: ensures d/dt of the textbook unitary, for every real t',
    'shift s: ensures the derivative at t + s',
    'apply_gates(state, gate, values, JACOBIAN), uncontrolled gate: ensures d/dt of apply_gates(state, gate, values), linear in the state',
]
ASSUMPTIONS = ['the derivative of cos, sin, exp(i.) is taken from calculus in the specification; it is cross-checked against jax forward derivatives of the real unitary']


def jmat(g, v):
    return B.dense_out(g.jacobian(v))


def umat(g, v):
    return B.dense_out(g._unitary(v))


def scenarios():
    fn = ('_jacobian', 'jacobian', 'parse_values')
    for sp in (False, True):
        tag = ' sparse' if sp else ''
        for nm in G.ROT:
            for ctl in ((), (1,), (2, 1)):
                ct = f' {len(ctl)} controls' if ctl else ''
                yield Scn(f'derivative {nm}{ct} named{tag}', {'a': ('r',), 'b': ('r',)},
                          lambda a, nm=nm, sp=sp, ctl=ctl: jmat(B.build(('r', nm, 'a', (0,), ctl), sp), {'a': a['a'], 'b': a['b']}),
                          lambda d, k, nm=nm: O.d_rotation(nm, d['a'], k), fn=fn, num=6)
                yield Scn(f'derivative {nm}{ct} literal{tag}', {'a': ('r',)},
                          lambda a, nm=nm, sp=sp, ctl=ctl: jmat(B.build(('r', nm, a['a'], (0,), ctl), sp), {}),
                          lambda d, k, nm=nm: O.d_rotation(nm, d['a'], k), fn=fn, num=6)
                yield Scn(f'derivative {nm}{ct} shifted{tag}', {'a': ('r',), 'h': ('r',)},
                          lambda a, nm=nm, sp=sp, ctl=ctl: jmat(_shift(B.build(('r', nm, 'a', (0,), ctl), sp), a['h']), {'a': a['a']}),
                          lambda d, k, nm=nm: O.d_rotation(nm, d['a'] + d['h'], k), fn=fn + ('shift',), num=3)
                yield Scn(f'derivative {nm}{ct} literal shifted{tag}', {'a': ('r',), 'h': ('r',)},
                          lambda a, nm=nm, sp=sp, ctl=ctl: jmat(_shift(B.build(('r', nm, a['a'], (0,), ctl), sp), a['h']), {}),
                          lambda d, k, nm=nm: O.d_rotation(nm, d['a'] + d['h'], k), fn=fn + ('shift',), num=3)
            # the derivative matrix against the forward derivative of the real unitary (no oracle of ours in between)
            yield Scn(f'derivative {nm} of its own unitary{tag}', {'a': ('r',)},
                      lambda a, nm=nm, sp=sp: jmat(B.build(('r', nm, 'a', (0,), ()), sp), {'a': a['a']})
                      - jax.jvp(lambda x: umat(B.build(('r', nm, 'a', (0,), ()), sp), {'a': x}), (jnp.asarray(a['a'], float),), (jnp.ones(()),))[1],
                      lambda d, k: O.arr([[0, 0], [0, 0]]), fn=fn + ('_unitary',), num=3, sym=not (sp and nm == 'PHASE'),
                      bound='sampled angles' if sp and nm == 'PHASE' else None)
            for n, t in ((1, 0), (2, 0), (2, 1), (3, 1)):
                for lit in (False, True):
                    ins = {'s': ('c', (2,) * n), 'a': ('r',)}

                    def gate(a, nm=nm, sp=sp, t=t, lit=lit):
                        return B.build(('r', nm, a['a'] if lit else 'a', (t,), ()), sp), ({} if lit else {'a': a['a']})

                    def real(a, gate=gate, sp=sp):
                        g, v = gate(a)
                        return B.dense_out(apply_gates(_sp(a['s'], sp), g, v, OperationType.JACOBIAN))
                    yield Scn(f'state derivative {nm} qubit {t} of {n}{" literal" if lit else ""}{tag}', ins, real,
                              lambda d, k, nm=nm, t=t: O.apply_mat(O.d_rotation(nm, d['a'], k), d['s'], (t,)),
                              fn=fn + ('apply_gates', 'apply_operator'), bound=f'n={n}', num=1)
            for n, t in ((1, 0), (3, 2)):
                ins = {'s': ('c', (2,) * n), 'w': ('c', (2,) * n), 'a': ('r',), 'x': ('r',), 'y': ('r',)}

                def lin(a, nm=nm, sp=sp, t=t):
                    g = B.build(('r', nm, 'a', (t,), ()), sp)
                    v = {'a': a['a']}
                    f = lambda s: B.dense_out(apply_gates(_sp(s, sp), g, v, OperationType.JACOBIAN))
                    return f(a['x'] * a['s'] + a['y'] * a['w']) - a['x'] * f(a['s']) - a['y'] * f(a['w'])
                yield Scn(f'state derivative {nm} linear n={n}{tag}', ins, lin,
                          lambda d, k, n=n: O.obj(np.zeros((2,) * n)), fn=fn, bound=f'n={n}', num=1)

    def jf(nm, vt, conv):
        def f(rg):
            th = float(rg.choice([rg.uniform(-20, 20), 0.0, np.pi, 2 * np.pi, -3.0, 2.0, 1.0]))
            v = conv(th)
            th = float(np.asarray(v).reshape(-1)[0])
            for sp in (False, True):
                for g, vals in ((B.build(('r', nm, 'p', (1,), (0,)), sp), {'p': v}), (B.build(('r', nm, v, (1,), ()), sp), {})):
                    got = np.asarray(jmat(g, vals))
                    want = O.d_rotation(nm, th, O.K(False)).astype(complex)
                    if got.shape != want.shape or not np.allclose(got, want, atol=1e-5 if 'float32' in vt else 1e-9):
                        return f'{nm} with {vt} value {v!r} ({"named" if vals else "literal"}{", sparse" if sp else ""}): {got.ravel()} instead of {want.ravel()}'
        return f
    for nm in G.ROT:
        for vt, conv in {'float': float, 'np.float64': np.float64, 'np.float32': np.float32, 'jnp': jnp.asarray, '0d': lambda x: np.array(x),
                         'int': lambda x: int(round(x))}.items():
            yield Custom(f'derivative value type {nm} {vt}', jf(nm, vt, conv), ('jacobian', 'parse_values'), 'sampled values', runs=4)
    # under jit
    for nm in G.ROT:
        for sp in (False, True):
            def fj(rg, nm=nm, sp=sp):
                th = float(rg.uniform(-9, 9))
                got = np.asarray(jax.jit(lambda v: jmat(B.build(('r', nm, 'p', (1,), ()), sp), v))({'p': th}))
                want = O.d_rotation(nm, th, O.K(False)).astype(complex)
                if not np.allclose(got, want, atol=1e-9):
                    return f'{nm} compiled, angle {th}: {got.ravel()} instead of {want.ravel()}'
            yield Custom(f'derivative compiled {nm}{" sparse" if sp else ""}', fj, ('jacobian',), 'sampled values', runs=2)
