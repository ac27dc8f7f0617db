from .common import *

CONTRACTS = [
    'gate constructors + _unitary: ensures the textbook matrix of the gate name, for every angle t in R (named or literal) and shift',
    '_dagger / Primitive.dagger: ensures the conjugate transpose, hence U^dagger U = 1 for every angle',
    '_controlled / controlled: ensures identity unless all controls are 1',
]
ASSUMPTIONS = ['number of controls bounded by 4 here; the unbounded embedding contract is discharged under C01/C06 where listed']


def umat(g, v):
    return B.dense_out(g._unitary(v))


def kmat(nm, th, k):
    return O.rotation(nm, th, k) if nm in G.ROT else O.gate_matrix(nm, k)


def scenarios():
    yield from matrix_gates('C02')
    fn = ('_unitary', 'OPERATIONS_DICT', 'parse_values')
    for sp in (False, True):
        tag = ' sparse' if sp else ''
        for nm in G.FIXED1 + G.FIXED2:
            t = (0, 1) if nm in G.FIXED2 else (0,)
            op = ('g', nm, t, ())
            yield Scn(f'matrix {nm}{tag}', {}, lambda a, op=op, sp=sp: umat(B.build(op, sp), {}),
                      lambda d, k, nm=nm: O.gate_matrix(nm, k), fn=fn, num=1)
            yield Scn(f'dagger {nm}{tag}', {}, lambda a, op=op, sp=sp: B.dense_out(B.build(op, sp).dagger({})),
                      lambda d, k, nm=nm: O.dag(O.gate_matrix(nm, k)), fn=('dagger', '_dagger'), num=1)
            yield Scn(f'inverse {nm}{tag}', {}, lambda a, op=op, sp=sp: B.dense_out(B.build(op, sp).dagger({})) @ umat(B.build(op, sp), {}),
                      lambda d, k, t=t: O.eye(2 ** len(t)), fn=('dagger', '_dagger'), num=1)
        for nm in G.ROT:
            yield Scn(f'matrix {nm} named{tag}', {'a': ('r',)}, lambda a, nm=nm, sp=sp: umat(B.build(('r', nm, 'a', (0,), ()), sp), {'a': a['a']}),
                      lambda d, k, nm=nm: O.rotation(nm, d['a'], k), fn=fn, num=6)
            yield Scn(f'matrix {nm} named among others{tag}', {'a': ('r',), 'b': ('r',)},
                      lambda a, nm=nm, sp=sp: umat(B.build(('r', nm, 'b', (3,), ()), sp), {'a': a['a'], 'b': a['b']}),
                      lambda d, k, nm=nm: O.rotation(nm, d['b'], k), fn=fn, num=2)
            yield Scn(f'matrix {nm} literal{tag}', {'a': ('r',)}, lambda a, nm=nm, sp=sp: umat(B.build(('r', nm, a['a'], (0,), ()), sp), {}),
                      lambda d, k, nm=nm: O.rotation(nm, d['a'], k), fn=fn, num=6)
            yield Scn(f'matrix {nm} shifted{tag}', {'a': ('r',), 'h': ('r',)},
                      lambda a, nm=nm, sp=sp: umat(_shift(B.build(('r', nm, 'a', (0,), ()), sp), a['h']), {'a': a['a']}),
                      lambda d, k, nm=nm: O.rotation(nm, d['a'] + d['h'], k), fn=fn + ('shift',), num=2)
            yield Scn(f'matrix {nm} literal shifted{tag}', {'a': ('r',), 'h': ('r',)},
                      lambda a, nm=nm, sp=sp: umat(_shift(B.build(('r', nm, a['a'], (0,), ()), sp), a['h']), {}),
                      lambda d, k, nm=nm: O.rotation(nm, d['a'] + d['h'], k), fn=fn + ('shift',), num=6)
            yield Scn(f'dagger {nm} shifted{tag}', {'a': ('r',), 'h': ('r',)},
                      lambda a, nm=nm, sp=sp: B.dense_out(_shift(B.build(('r', nm, 'a', (0,), ()), sp), a['h']).dagger({'a': a['a']})),
                      lambda d, k, nm=nm: O.dag(O.rotation(nm, d['a'] + d['h'], k)), fn=('dagger', '_dagger', 'shift'), num=6)
            yield Scn(f'dagger {nm}{tag}', {'a': ('r',)}, lambda a, nm=nm, sp=sp: B.dense_out(B.build(('r', nm, 'a', (0,), ()), sp).dagger({'a': a['a']})),
                      lambda d, k, nm=nm: O.dag(O.rotation(nm, d['a'], k)), fn=('dagger', '_dagger'), num=4)
            yield Scn(f'inverse {nm}{tag}', {'a': ('r',)},
                      lambda a, nm=nm, sp=sp: B.dense_out(B.build(('r', nm, 'a', (0,), ()), sp).dagger({'a': a['a']})) @ umat(B.build(('r', nm, 'a', (0,), ()), sp), {'a': a['a']}),
                      lambda d, k: O.eye(2), fn=('dagger', '_dagger'), num=2)
    # the action (matrix columns through apply_gates), every named and literal value type
    for nm in G.ROT:
        for vt, conv in {'float': float, 'np.float64': np.float64, 'np.float32': np.float32, 'jnp': jnp.asarray, '0d': lambda x: np.array(x), 'jnp(1,)': lambda x: jnp.array([x]),
                         'int': lambda x: int(round(x))}.items():
            if vt == 'jnp(1,)' and nm == 'PHASE':
                continue

            def f(rg, nm=nm, vt=vt, conv=conv):
                th = float(rg.choice([rg.uniform(-20, 20), 0.0, np.pi, 2 * np.pi, -3.0, 2.0, 1.0]))
                v = conv(th)
                th = float(np.asarray(v).reshape(-1)[0])
                x = rg.normal(size=(2, 2)) + 0j
                for op, vals in ((('r', nm, 'p', (1,), (0,)), {'p': v}), (('r', nm, v, (1,), ()), {})):
                    got = np.asarray(apply_gates(jnp.asarray(x), B.build(op), vals))
                    want = O.apply_mat(O.rotation(nm, th, O.K(False)), O.obj(x), op[3], op[4]).astype(complex)
                    if got.shape != want.shape or not np.allclose(got, want, atol=1e-5 if 'float32' in vt else 1e-9):
                        return f'{nm} with {vt} value {v!r} ({"named" if vals else "literal"}): {got.ravel()} instead of {want.ravel()}'
            yield Custom(f'value type {nm} {vt}', f, ('parse_values',), 'sampled values', runs=4)
    # dagger applied to states undoes the gate, any placement
    r = rng('c02')
    for i in range(q(60, 20)):
        n = 3
        op = G.rand_gate(r, range(n), names=('a',), lit=False)
        names = sorted(O.params(op))
        yield Scn(f'undo{i} {G.short(op)}', {'s': ('c', (2,) * n), **env_inputs(names)},
                  lambda a, op=op, names=names: apply_gates(apply_gates(a['s'], B.build(op), env_of(a, names)), B.build(op), env_of(a, names), OperationType.DAGGER),
                  lambda d, k: d['s'], fn=('dagger', 'apply_gates'), bound='n=3')
    # controls
    for sp in (False, True):
        for nc in range(1, 5):
            for nm in ('X', 'Y', 'S', 'SWAP', 'ISQRTSWAP', 'RX', 'RZ', 'PHASE'):
                if nc > 3 and not THOROUGH and nm not in ('Y', 'RX'):
                    continue
                m = 2 if nm in G.FIXED2 else 1
                n = nc + m
                t = tuple(range(nc, n))
                c = tuple(range(nc))
                op = ('r', nm, 'a', t, c) if nm in G.ROT else ('g', nm, t, c)
                inp = {'a': ('r',)} if nm in G.ROT else {}
                yield Scn(f'controlled {nm} x{nc}{" sparse" if sp else ""}', inp,
                          lambda a, op=op, sp=sp: B.dense_out(B.build(op, sp).tensor(dict(a))),
                          lambda d, k, op=op, n=n: O.mat(op, list(range(n)), d, k), fn=('controlled', 'prepare_controlled', 'tensor'), bound=f'{nc} controls', num=1)
                if nc <= 3:
                    yield Scn(f'controlled dagger {nm} x{nc}{" sparse" if sp else ""}', {**inp, 's': ('c', (2,) * n)},
                              lambda a, op=op, sp=sp: B.dense_out(apply_gates(_sp(a['s'], sp), B.build(op, sp), {k: v for k, v in a.items() if k != 's'}, OperationType.DAGGER)),
                              lambda d, k, op=op, nm=nm, t=t, c=c: O.apply_mat(O.dag(kmat(nm, d.get('a'), k)), d['s'], t, c),
                              fn=('_controlled', 'dagger', 'apply_gates'), bound=f'{nc} controls')


def _sp(s, sp):
    return BCOO.fromdense(s) if sp else s


def _shift(g, h):
    ch, aux = g.tree_flatten()
    return type(g).tree_unflatten(aux[:-1] + (h,), ch)
