from .common import *
from ..build import DiffMode, to_sparse, to_dense, OpSequence, Scale, Add, Observable, QuantumCircuit
from .c09 import OB
from .c06 import strip_noise, rand_op
from ..core import Skip
import dataclasses

CONTRACTS = [
    'frame condition of every public call (run, sample, expectation, gradients, apply_gates, tensor, dagger, conversions, measurement helpers): assigns nothing reachable from its arguments',
    'every function and method of the source: assigns nothing which existed before the call (own objects, and self in constructors, excepted), uses no source of chance and no global state',
    'determinism: equal arguments give equal results, whatever was called before',
]
ASSUMPTIONS = ['functions of the libraries do not modify their arguments, except the mutating ones listed in hv/frame.py', 'uuid4 yields fresh names and nothing else depends on them', 'cached properties added to a gate are not modifications', 'jax arrays are immutable (library guarantee)']
FN = ('run', 'sample', 'expectation', 'apply_gates', 'to_sparse', 'to_dense', 'tensor', 'dagger')


def snap(x, seen=None):
    """structural snapshot: identities of immutable leaves, contents of mutable ones"""
    if isinstance(x, np.ndarray):
        return ('np', id(x), x.shape, x.strides, x.dtype.str, x.tobytes())
    if isinstance(x, (jax.core.Tracer, jax.Array)):
        return ('leaf', id(x))
    if isinstance(x, BCOO):
        return ('bcoo', snap(x.data), snap(x.indices), x.shape)
    if isinstance(x, dict):
        return ('dict', [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return ('set', sorted(map(repr, x)))
    if type(x).__module__.startswith('horqrux') and hasattr(x, '__dict__') and not isinstance(x, str):
        return ('obj', type(x).__name__, {k: snap(v) for k, v in x.__dict__.items()})
    if callable(x):
        return ('fn', getattr(x, '__qualname__', ''))
    return ('val', type(x).__name__, repr(x))


def diff(a, b, path=''):
    """None, or where snapshot b differs from a (attributes added by caching are allowed)"""
    if a[0] != b[0]:
        return f'{path}: {a[:2]} became {b[:2]}'
    if a[0] == 'obj':
        if a[1] != b[1]:
            return f'{path}: class {a[1]} became {b[1]}'
        for k in a[2]:
            if k not in b[2]:
                return f'{path}.{k} removed'
            d = diff(a[2][k], b[2][k], f'{path}.{k}')
            if d:
                return d
        return None
    if a[0] in ('list', 'tuple'):
        if len(a[1]) != len(b[1]):
            return f'{path}: length {len(a[1])} became {len(b[1])}'
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            d = diff(x, y, f'{path}[{i}]')
            if d:
                return d
        return None
    if a[0] == 'dict':
        if [k for k, _ in a[1]] != [k for k, _ in b[1]]:
            return f'{path}: keys {[k for k, _ in a[1]]} became {[k for k, _ in b[1]]}'
        for (k, x), (_, y) in zip(a[1], b[1]):
            d = diff(x, y, f'{path}[{k!r}]')
            if d:
                return d
        return None
    if a[0] == 'bcoo':
        return diff(a[1], b[1], path + '.data') or diff(a[2], b[2], path + '.indices') or (None if a[3] == b[3] else f'{path}: shape')
    return None if a == b else f'{path}: {str(a)[:120]} became {str(b)[:120]}'


def arr(x):
    if isinstance(x, (str, int)):
        return x
    x = B.dense_out(x)
    if hasattr(x, 'items') and not isinstance(x, dict):
        return dict(x)
    if isinstance(x, dict):
        return {k: arr(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [arr(y) for y in x]
    if type(x).__module__.startswith('horqrux') and not isinstance(x, DensityMatrix):
        return repr(snap(x)[1]) + str(getattr(x, 'qubit_support', '')) + str(sorted(getattr(x, 'param_names', [])))
    return np.asarray(x)


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, int)):
        return a == b
    return a.shape == b.shape and np.allclose(a, b, atol=1e-12, equal_nan=True)


class World:
    """the caller's objects"""
    def __init__(self, r, n, kind):
        self.n, self.kind = n, kind
        noisy = kind in ('noisy', 'noisyrho')
        self.rho = kind in ('rho', 'noisyrho')
        self.sparse = kind == 'sparse'
        self.ops = G.rand_tree(r, n, int(r.integers(2, 6)), names=('a', 'b'), noise=0.5 if noisy else None, ctrl_rot=False, lit=True)
        if not names_of(self.ops):
            self.ops.append(('r', 'RX', 'a', (0,), ()))
        if len([g for o in self.ops for g in O.flat(o) if O.params(g)]) < 2 and r.random() < 0.6:
            self.ops.append(('r', 'RY', 'a', (n - 1,), ()))
        self.obs = [G.rand_obs(r, n, names=('o',)) for _ in range(2)]
        psi = core.rand_psi(r, n)
        self.data = psi
        self.numpy = bool(r.random() < 0.5) and not self.sparse
        self.vals = {x: float(r.uniform(-3, 3)) for x in ('b', 'a', 'o')}
        self.nvals = bool(r.random() < 0.5)
        self.fresh()

    def fresh(self):
        conv = (lambda x: np.array(x)) if self.numpy and not self.rho else (lambda x: jnp.asarray(x))
        s = conv(self.data)
        if self.rho:
            n = self.n
            m = np.outer(self.data.reshape(-1), self.data.reshape(-1).conj()).reshape((2,) * (2 * n))
            s = DensityMatrix(np.array(m) if self.numpy else jnp.asarray(m))
        if self.sparse:
            s = BCOO.fromdense(s)
        self.s = s
        self.c = B.circ(self.ops, self.n, sparse=self.sparse, fparams=['a'])
        self.o = [B.Observable([B.build(x, self.sparse) for x in ob[1]]) for ob in self.obs]
        self.v = {k: jnp.asarray(x) for k, x in self.vals.items()}
        if self.nvals:
            self.v2 = {'circuit': {k: self.v[k] for k in ('b', 'a')}, 'observables': {'o': self.v['o']}}
        else:
            self.v2 = self.v
        self.cv = {k: self.v[k] for k in ('b', 'a')}
        self.g = [B.build(g, self.sparse) for o in self.ops for g in O.flat(o)]
        self.o1 = [OB(('add', [('g', 'Z', (0,), ())])), OB(('add', [('g', 'X', (self.n - 1,), ())]))]
        self.key = jax.random.PRNGKey(4)

    def args(self):
        return dict(state=self.s, circuit=self.c, observables=self.o, values=self.v, separate_values=self.v2, circuit_values=self.cv, gates=self.g, plain_observables=self.o1, key=self.key)


def grad(w, mode, how, shots=0, sep=False):
    v = w.cv
    f = lambda x: expectation(w.s, w.c, w.o1, x, diff_mode=DiffMode(mode), n_shots=shots).sum()
    return getattr(jax, how)(f)(v)


def mat_values(w):
    return {**w.v}


CALLS = {
    'run': lambda w: run(w.c, w.s, w.v),
    'apply_gates': lambda w: apply_gates(w.s, w.g, w.v),
    'apply_gates grouped': lambda w: apply_gates(w.s, w.g, w.v, OperationType.UNITARY, True, True),
    'apply_gates unmerged': lambda w: apply_gates(w.s, w.g, w.v, OperationType.UNITARY, False, False),
    'gate': lambda w: w.g[0](w.s, w.v),
    'expectation ad': lambda w: expectation(w.s, w.c, w.o, w.v),
    'expectation separate': lambda w: expectation(w.s, w.c, w.o, w.v2),
    'expectation gpsr': lambda w: expectation(w.s, w.c, w.o, w.v, diff_mode=DiffMode.GPSR),
    'to_sparse': lambda w: [to_sparse(w.c), to_sparse(w.o[0])],
    'to_dense': lambda w: [to_dense(w.c), to_dense(w.o[0]), to_dense(w.g[0])],
    'tree': lambda w: jax.tree_util.tree_leaves((w.c, w.o, w.s, w.v)),
    'params': lambda w: [sorted(w.c.param_names), w.c.n_vparams, sorted(w.c.vparams), [len(list(w.c))], list(w.c.qubit_support)],
    'tensor': lambda w: [g.tensor(w.v, tuple(range(w.n - 1, -1, -1))) for g in w.g] + [o.tensor(w.v, tuple(range(w.n - 1, -1, -1))) for o in w.o],
    'dagger': lambda w: [g.dagger(w.v) for g in w.g],
    'jit': lambda w: jax.jit(lambda c, s, v: B.dense_out(run(c, s, v)))(w.c, w.s, w.v),
}
DENSE = {
    'sample': lambda w: sample(w.s, w.c, w.v, 20),
    'grad ad': lambda w: grad(w, 'ad', 'grad'),
    'grad gpsr': lambda w: grad(w, 'gpsr', 'grad'),
    'jacfwd gpsr': lambda w: grad(w, 'gpsr', 'jacfwd'),
    'shots ad': lambda w: expectation(w.s, w.c, w.o, w.v, n_shots=5, key=w.key),
    'shots gpsr': lambda w: expectation(w.s, w.c, w.o, w.v2, diff_mode=DiffMode.GPSR, n_shots=5, key=w.key),
    'shots default key': lambda w: expectation(w.s, w.c, w.o, w.v, n_shots=5),
    'shots grad': lambda w: grad(w, 'gpsr', 'grad', 5),
    'bwd': lambda w: __import__('horqrux.differentiation.gpsr', fromlist=['x']).analytical_gpsr_bwd(w.s, w.g, w.o1, w.cv),
    'shots backward': lambda w: __import__('horqrux.differentiation.gpsr', fromlist=['x']).finite_shots_gpsr_backward(w.s, w.g, w.o1, w.cv, 5, w.key),
    'density_mat': lambda w: density_mat(w.s),
    'observable': lambda w: [o(w.s, w.v) for o in w.o],
}
PURE = {
    'expectation adjoint': lambda w: expectation(w.s, w.c, w.o, w.v2, diff_mode=DiffMode.ADJOINT),
    'grad adjoint': lambda w: grad(w, 'adjoint', 'grad'),
}


def avail(w):
    d = dict(CALLS)
    if w.kind != 'sparse':
        d.update(DENSE)
    if w.kind == 'psi':
        d.update(PURE)
    if w.kind in ('noisy', 'noisyrho'):
        d.pop('tensor', None)
    return d


def frame(call, kind, i):
    """one call: nothing reachable changes; the second call and a call on fresh objects give the same"""
    def run_(r):
        w = World(r, int(r.integers(1, 4)) if kind == 'psi' else int(r.integers(1, 3)), kind)
        f = avail(w)[call]
        before = snap(w.args())
        try:
            x = arr(f(w))
        except (NotImplementedError, TypeError) as e:
            if w.numpy and not isinstance(e, AssertionError):          # numpy arrays are not accepted everywhere
                w.numpy = False
                w.fresh()
                before = snap(w.args())
                x = arr(f(w))
            else:
                raise
        d = diff(before, snap(w.args()), 'arguments')
        if d:
            return f'{call} modified its {d}'
        y = arr(f(w))
        if not same(x, y):
            return f'{call} called twice gives {str(x)[:150]} and {str(y)[:150]}'
        d = diff(before, snap(w.args()), 'arguments')
        if d:
            return f'{call} modified its {d}'
        w.fresh()
        z = arr(f(w))
        if not same(x, z):
            return f'{call} gives {str(x)[:150]}, on fresh equal objects {str(z)[:150]}'
    return Custom(f'frame {call} {kind} {i}', run_, fn=(call,), bound='sampled objects')


def traced(call, kind, i):
    """the same frame condition while every state and value is an arbitrary (traced) array: holds for all values"""
    def run_(r):
        w = World(r, int(r.integers(1, 4)) if kind == 'psi' else int(r.integers(1, 3)), kind)
        w.numpy = False
        w.fresh()
        f = avail(w)[call]
        msg = []

        def g(s, v):
            w.s, w.v = s, dict(v)
            w.cv = {k: w.v[k] for k in ('b', 'a')}
            w.v2 = {'circuit': dict(w.cv), 'observables': {'o': w.v['o']}} if w.nvals else w.v
            before = snap(w.args())
            try:
                out = f(w)
            finally:
                d = diff(before, snap(w.args()), 'arguments')
                if d:
                    msg.append(d)
            return 0
        try:
            jax.make_jaxpr(g)(w.s, w.v)
        except Exception as e:
            if not msg:
                raise Skip(f'{type(e).__name__}: {str(e)[:100]}')
        if msg:
            return f'{call} modified its {msg[0]}'
    return Custom(f'frame for all values {call} {kind} {i}', run_, fn=(call,), bound='sampled structure, all values', backend='tracing', decides=True)


def changed(call, kind, i):
    """the caller updates its own dictionaries between two calls: the second call sees the new values only"""
    def run_(r):
        w = World(r, int(r.integers(1, 4)) if kind == 'psi' else int(r.integers(1, 3)), kind)
        w.numpy = False
        w.fresh()
        f = avail(w)[call]
        f(w)
        w.vals = {k: x + float(r.uniform(0.5, 2.5)) for k, x in w.vals.items()}
        for d in [w.v, w.cv] + ([w.v2['circuit'], w.v2['observables']] if w.nvals else []):
            for k in d:
                d[k] = jnp.asarray(w.vals[k])
        x = arr(f(w))
        w.fresh()
        y = arr(f(w))
        if not same(x, y):
            return f'{call} after the caller changed its values gives {str(x)[:150]}, on fresh objects {str(y)[:150]}'
    return Custom(f'changed values {call} {kind} {i}', run_, fn=(call,), bound='sampled objects')


def history(i, kind):
    """any history of calls: every result equals the result on fresh objects"""
    def run_(r):
        w = World(r, 2, kind)
        w.numpy = False
        w.fresh()
        al = avail(w)
        names = [str(x) for x in r.choice(sorted(al), size=6)]
        ref = {}
        for c in sorted(set(names)):
            w.fresh()
            ref[c] = arr(al[c](w))
        w.fresh()
        for k, c in enumerate(names):
            x = arr(al[c](w))
            if not same(ref[c], x):
                return f'after {names[:k]}, {c} gives {str(x)[:150]} instead of {str(ref[c])[:150]}'
    return Custom(f'history {i} {kind}', run_, fn=FN, bound='histories of six calls')


def helpers(i):
    def run_(r):
        from horqrux.utils import operator_utils as ou
        n = int(r.integers(1, 4))
        a, b = jnp.asarray(core.rand_psi(r, n)), jnp.asarray(core.rand_psi(r, n))
        m = jnp.asarray(r.normal(size=(2, 2)) + 0j)
        dm = density_mat(a)
        args = [a, b, m, dm]
        before = snap(args)
        for f in (lambda: ou.overlap(a, b), lambda: ou.inner(a, b), lambda: ou.equivalent_state(a, b), lambda: ou.probabilities(a), lambda: ou.num_qubits(dm), lambda: density_mat(dm),
                  lambda: ou.expand_operator(m, (0,), tuple(range(n))), lambda: ou.hilbert_reshape(m), lambda: ou.is_normalized(a), lambda: to_dense(to_sparse(a))):
            x, y = f(), f()
            if not same(arr(x) if not isinstance(x, (int, bool)) else [x], arr(y) if not isinstance(y, (int, bool)) else [y]):
                return 'a helper called twice gives different results'
            d = diff(before, snap(args), 'arguments')
            if d:
                return d
        for f in (lambda: ou.zero_state(n), lambda: ou.uniform_state(n), lambda: ou.random_state(n), lambda: ou.product_state('1' * n)):
            if not same(arr(f()), arr(f())):
                return 'a state constructor called twice gives different states'
    return Custom(f'helpers {i}', run_, fn=('overlap', 'inner', 'expand_operator'), bound='sampled')


def frames():
    """the frame condition of every function of the source, for all arguments (hv/frame.py)"""
    from .. import frame

    def ob(nm, bad):
        def run_(r):
            if bad:
                raise Skip('; '.join(bad)[:400])
        return Custom(f'assigns nothing which existed before: {nm}', run_, fn=(nm.split('.')[-1].split(' ')[0],), bound=None, backend='effect analysis')
    try:
        got = list(frame.functions())
    except (SyntaxError, RecursionError) as e:
        return
    for nm, bad in got:
        yield ob(nm, bad)


def scenarios():
    yield from frames()
    for kind in ('psi', 'rho', 'noisy', 'noisyrho', 'sparse'):
        w = World(rng('c17', kind), 2, kind)
        for c in avail(w):
            for i in range(q(6, 2 if kind in ('psi', 'rho') else 1)):
                yield frame(c, kind, i)
            if c not in ('tree', 'params', 'density_mat', 'to_sparse', 'to_dense') and kind in (('psi', 'noisy', 'sparse') if not THOROUGH else ('psi', 'rho', 'noisy', 'noisyrho', 'sparse')):
                yield changed(c, kind, 0)
            if kind != 'sparse' and c not in ('sample', 'params', 'tree', 'to_sparse', 'to_dense'):
                yield traced(c, kind, 0)
        for i in range(q(12, 4)):
            yield history(i, kind)
    for i in range(q(8, 3)):
        yield helpers(i)
