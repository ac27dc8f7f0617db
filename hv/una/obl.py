"""Obligations over registers of any size (and any placement of targets and controls): the real functions of /repo are
executed on symbolic registers (load.py), the result compared with the contract of the function by tensor identity (ten.py);
every open order of the positions is a separate path, feasibility by z3 over linear integer arithmetic."""
from __future__ import annotations
import itertools, os, time, traceback, types
import numpy as np
import z3
from ..err import of_code
from . import load, sym, ten
from .sym import CTX, Lin, SymInt, Unsupported, ent0, lin, mk, var
from .ten import Differ, F, Label, T, TS

_world = None


def world():
    global _world
    if _world is None:
        w = load.World()
        w.load('horqrux.apply')
        w.load('horqrux.utils.operator_utils')
        w.load('horqrux.differentiation.ad')
        _world = w
    return _world


def mod(n):
    return world().load(n)


class Una:
    """one obligation: setup() -> (assumptions); body() -> result; spec(result) raises Differ; replay(env, rng) -> None or text"""
    bound = None

    def __init__(self, key, ints, assume, body, spec, fn, replay=None, limit=11, max_paths=3000):
        self.key, self.ints, self.assume, self.body, self.spec, self.fn, self.replay, self.limit, self.max_paths = key, ints, assume, body, spec, tuple(fn), replay, limit, max_paths


def run(o, rng_for, deadline):
    """('discharged', paths, None) | ('undecided', reason, None) | ('refuted', text, env)"""
    bad = []

    def judge(res):
        if time.time() > deadline:
            raise Unsupported('time limit')
        try:
            o.spec(res)
            return None
        except Differ as e:
            return str(e)[:300]
    sym.DEADLINE[0] = deadline
    try:
        paths = sym.explore(o.body, o.assume, o.max_paths, judge)
    except Unsupported as e:
        return 'undecided', f'unsupported: {e}', None
    except RecursionError:
        return 'undecided', 'recursion', None
    for p in paths:
        if p.exc is not None:
            bad.append((p, f'raises {type(p.exc).__name__}: {str(p.exc)[:200]}'))
        elif p.result is not None:
            bad.append((p, p.result))
    if not bad:
        return 'discharged', f'{len(paths)} paths', None
    notes = []
    for p, text in bad[:6]:
        env = model(o, p.cond)
        if env is None:
            notes.append('no model within reach: ' + text[:120])
            continue
        notes.append(f'{env}: {text[:160]}')
        if o.replay is None:
            continue
        for k in range(2):
            try:
                r = o.replay(env, rng_for(k))
            except Exception as e:
                r = f'raised {type(e).__name__}: {str(e)[:200]}'
                if not of_code(e):
                    return 'undecided', 'replay: ' + r, None
            if r is not None:
                return 'refuted', f'{env}: {r} [{text[:200]}]', env
    return 'undecided', 'not confirmed on the real code: ' + ' / '.join(notes)[:300], None


def model(o, cond):
    for lim in (3, 4, 5, 6, 7, 8, 9, 10, 12, o.limit):
        s = z3.Solver()
        s.add(*o.assume)
        s.add(*cond)
        s.add(z3.Int('n') <= min(lim, o.limit))
        if s.check() == z3.sat:
            m = s.model()
            return {v: m.eval(z3.Int(v), model_completion=True).as_long() for v in o.ints}
    return None


# ---------------------------------------------------------------- vocabulary of the specifications
def pos(t, ps):
    """makes each position a single axis; their entries"""
    for p in ps:
        ten.at(t, lin(p))
    return [ten.at(t, lin(p)) for p in ps]


def on(t, fname, ps, conj=False, batch=()):
    """sum_j f[new, j] t[.. ps := j ..]"""
    t = t.copy()
    ix = pos(t, ps)
    new, old = [], []
    for i in ix:
        l, = ten.dim_labels(t.dims[i])
        a = Label(Lin(None, 1))
        old.append(l)
        new.append(a)
        t.dims[i] = ['blk', a]
    t.factors.append(F(fname, conj, list(batch) + new + old))
    t.summed += old
    return t


def want(got, exp):
    ten.equal(got, exp)


def want_int(got, exp):
    d = lin(got) - lin(exp)
    if not ent0(d):
        raise Differ(f'{got!r} instead of {exp!r}')


def reg(m, c):
    """names and assumptions: n and m + c distinct positions"""
    names = ['n'] + [f't{i}' for i in range(m)] + [f'c{i}' for i in range(c)]
    ps = names[1:]
    n = z3.Int('n')
    asm = [n >= 1]
    for p in ps:
        asm += [z3.Int(p) >= 0, z3.Int(p) < n]
    if len(ps) > 1:
        asm.append(z3.Distinct(*[z3.Int(p) for p in ps]))
    return names, asm


def tc(m, c):
    t = tuple(var(f't{i}') for i in range(m))
    k = tuple(var(f'c{i}') for i in range(c))
    CTX.points = [x.l for x in t + k]
    return var('n'), t, k


def ctl(m, c, k):
    return k if c else (None,) * m


def opname(c):
    return f'ctrl[0](U)' if c else 'U'


# ---------------------------------------------------------------- concrete counterparts
def np_apply(U, s, t, c, off=0):
    t, c = [x + off for x in t], [x + off for x in c]
    s = np.array(s, dtype=complex)
    m = len(t)
    x = np.moveaxis(s, c + t, range(len(c) + m)).copy()
    v = x[(1,) * len(c)]
    sh = v.shape
    w = (U @ v.reshape(2 ** m, -1)).reshape(sh)
    x[(1,) * len(c)] = w
    return np.moveaxis(x, range(len(c) + m), c + t)


def rnd(rng, *shape):
    return rng.normal(size=shape) + 1j * rng.normal(size=shape)


def diff(got, exp, tol=1e-6):
    got = np.asarray(got.todense() if hasattr(got, 'todense') else got)
    if got.shape != exp.shape:
        return f'shape {got.shape} instead of {exp.shape}'
    e = np.abs(got - exp).max() if got.size else 0
    if not e <= tol * (1 + np.abs(exp).max()):
        i = np.unravel_index(np.argmax(np.abs(got - exp)), got.shape)
        return f'entry {tuple(int(x) for x in i)}: {got[i]:.6g} instead of {exp[i]:.6g}'


def real(name, attr):
    import importlib
    return getattr(importlib.import_module(name), attr)


def envtc(env, m, c):
    return env['n'], tuple(env[f't{i}'] for i in range(m)), tuple(env[f'c{i}'] for i in range(c))


# ---------------------------------------------------------------- obligations
def apply_array(m, c, sp=False):
    names, asm = reg(m, c)

    def body():
        n, t, k = tc(m, c)
        s = ten.named('s', n, sp=sp)
        U = ten.named('U', ('m', m), ('m', m), sp=sp)
        return mod('horqrux.apply').apply_operator(s, U, t, ctl(m, c, k))

    def spec(r):
        n, t, k = tc(m, c)
        want(r, on(ten.named('s', n, sp=sp), opname(c), k + t))

    def replay(env, rng):
        import jax.numpy as jnp
        from jax.experimental.sparse import BCOO
        n, t, k = envtc(env, m, c)
        U, s = rnd(rng, 2 ** m, 2 ** m), rnd(rng, *(2,) * n)
        cv = (lambda x: BCOO.fromdense(jnp.asarray(x))) if sp else jnp.asarray
        got = real('horqrux.apply', 'apply_operator')(cv(s), cv(U), t, ctl(m, c, k))
        return diff(got, np_apply(U, s, list(t), list(k)))
    return Una(f'any register: apply_operator {"sparse " if sp else ""}{m} targets {c} controls', names, asm, body, spec,
               ('apply_operator', '_controlled', 'is_controlled'), replay, limit=9 if sp else 16)


class Gen:
    """a multiple of the time, or of the Hamiltonian times the time"""
    def __init__(self, kind, c=1):
        self.kind, self.c = kind, c

    def __mul__(self, o):
        if isinstance(o, Gen) and {self.kind, o.kind} == {'t', 'h'}:
            return Gen('ht', self.c * o.c)
        if isinstance(o, (int, float, complex)):
            return Gen(self.kind, self.c * o)
        return NotImplemented
    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        return NotImplemented
    __radd__ = __add__

    def __neg__(self):
        return Gen(self.kind, -self.c)


def evolution(m, c, kind):
    """HamiltonianEvolution on a register of any size; expm at its contract (any matrix E with name U stands for exp(-i t H))"""
    names, asm = reg(m, c)
    dag = kind == 'dagger'

    def body():
        n, t, k = tc(m, c)
        U = ten.named('U', ('m', m), ('m', m))
        M = mod('horqrux.analog')

        def expm(a, *r, **kw):
            if not isinstance(a, Gen) or a.kind != 'ht' or r or kw:
                raise Unsupported('expm')
            if a.c != -1j:
                raise Differ(f'exponential of {a.c} t H')
            return U
        import importlib
        P = importlib.import_module('horqrux.primitives.primitive')
        old, M.expm = (M.expm, P._dagger), expm
        try:
            P._dagger = mod('horqrux.utils.operator_utils')._dagger
            g = M.HamiltonianEvolution(t, ctl(m, c, k))
            v = {'hamiltonian': Gen('h'), 'time_evolution': Gen('t')}
            A = mod('horqrux.apply')
            if kind == 'rho':
                return A.apply_gates(mod('horqrux.utils.operator_utils').DensityMatrix(ten.named('r', n, n)), g, v)
            s = ten.named('s', n)
            if dag:
                return A.apply_gates(s, g, v, mod('horqrux.utils.operator_utils').OperationType.DAGGER)
            if kind == 'list':
                return A.apply_gates(s, [g], v)
            return A.apply_gates(s, g, v)
        finally:
            M.expm, P._dagger = old

    def spec(r):
        n, t, k = tc(m, c)
        if kind == 'rho':
            x = on(ten.named('r', n, n), opname(c), k + t)
            return want(dm_array(r), on(x, opname(c), tuple(n + p for p in k + t), conj=True))
        if not dag:
            return want(r, on(ten.named('s', n), opname(c), k + t))
        x = on(ten.named('s', n), opname(c), k + t)
        f, h = x.factors[-1], len(k + t)
        x.factors[-1] = F(f.name, True, list(f.idx[h:]) + list(f.idx[:h]))
        want(r, x)

    def replay(env, rng):
        import jax.numpy as jnp
        n, t, k = envtc(env, m, c)
        h = rnd(rng, 2 ** m, 2 ** m)
        h, x = h + h.conj().T, float(rng.uniform(-2, 2))
        w, u = np.linalg.eigh(h)
        U = (u * np.exp(-1j * x * w)) @ u.conj().T
        if dag:
            U = U.conj().T
        g = real('horqrux.analog', 'HamiltonianEvolution')(t if m > 1 else t[0], (None,) if not c else k if c > 1 else k[0])
        v = {'hamiltonian': jnp.asarray(h), 'time_evolution': x}
        f = real('horqrux.apply', 'apply_gates')
        if kind == 'rho':
            s = rnd(rng, *(2,) * (2 * n))
            got = f(real('horqrux.utils.operator_utils', 'DensityMatrix')(jnp.asarray(s)), g, v).array
            return diff(got, np_apply(U.conj(), np_apply(U, s, list(t), list(k)), list(t), list(k), n))
        s = rnd(rng, *(2,) * n)
        kw = dict(op_type=real('horqrux.utils.operator_utils', 'OperationType').DAGGER) if dag else {}
        return diff(f(jnp.asarray(s), [g] if kind == 'list' else g, v, **kw), np_apply(U, s, list(t), list(k)))
    return Una(f'any register: evolution {kind} {m} targets {c} controls', names, asm, body, spec,
               ('_HamiltonianEvolution._unitary', 'apply_gates', 'apply_operator', 'dagger'), replay, limit=9)


def apply_dm(m, c):
    names, asm = reg(m, c)

    def body():
        n, t, k = tc(m, c)
        A = mod('horqrux.utils.operator_utils').DensityMatrix
        U = ten.named('U', ('m', m), ('m', m))
        return mod('horqrux.apply').apply_operator(A(ten.named('r', n, n)), U, t, ctl(m, c, k))

    def spec(r):
        n, t, k = tc(m, c)
        x = on(ten.named('r', n, n), opname(c), k + t)
        x = on(x, opname(c), tuple(n + p for p in k + t), conj=True)
        want(dm_array(r), x)

    def replay(env, rng):
        import jax.numpy as jnp
        n, t, k = envtc(env, m, c)
        U, s = rnd(rng, 2 ** m, 2 ** m), rnd(rng, *(2,) * (2 * n))
        D = real('horqrux.utils.operator_utils', 'DensityMatrix')
        got = real('horqrux.apply', 'apply_operator')(D(jnp.asarray(s)), jnp.asarray(U), t, ctl(m, c, k)).array
        return diff(got, np_apply(U.conj(), np_apply(U, s, list(t), list(k)), list(t), list(k), n))
    return Una(f'any register: apply_operator density {m} targets {c} controls', names, asm, body, spec, ('apply_operator', 'permute_basis', '_dagger', '_controlled'), replay, limit=9)


def dm_array(r):
    if type(r).__name__ != 'DensityMatrix':
        raise Differ(f'result is {type(r).__name__}')
    return r.array


def dm_error(m):
    """a target outside the register is rejected"""
    names, asm = reg(m, 0)
    asm = [z3.Int('n') >= 1] + [z3.Int(f't{i}') >= 0 for i in range(m)] + [z3.Or([z3.Int(f't{i}') >= z3.Int('n') for i in range(m)])]
    if m > 1:
        asm.append(z3.Distinct(*[z3.Int(f't{i}') for i in range(m)]))

    def body():
        n, t, k = tc(m, 0)
        A = mod('horqrux.utils.operator_utils').DensityMatrix
        try:
            mod('horqrux.apply').apply_operator(A(ten.named('r', n, n)), ten.named('U', ('m', m), ('m', m)), t, (None,) * m)
        except ValueError:
            return 'rejected'
        return 'accepted'

    def spec(r):
        if r != 'rejected':
            raise Differ('a target outside the register is accepted')

    def replay(env, rng):
        import jax.numpy as jnp
        n, t, k = envtc(env, m, 0)
        D = real('horqrux.utils.operator_utils', 'DensityMatrix')
        try:
            real('horqrux.apply', 'apply_operator')(D(jnp.asarray(rnd(rng, *(2,) * (2 * n)))), jnp.asarray(rnd(rng, 2 ** m, 2 ** m)), t, (None,) * m)
        except (ValueError, TypeError, IndexError):
            return None
        return f'targets {t} accepted on {n} qubits'
    return Una(f'any register: density matrix rejects targets outside, {m} targets', names, asm, body, spec, ('apply_operator',), replay, limit=8)


def dens():
    names, asm = ['n'], [z3.Int('n') >= 1]

    def body():
        return mod('horqrux.utils.operator_utils').density_mat(ten.named('s', var('n')))

    def spec(r):
        n = var('n')
        a, b = Label(n.l), Label(n.l)
        want(dm_array(r), T([['blk', a], ['blk', b]], [F('s', False, [a]), F('s', True, [b])]))

    def replay(env, rng):
        import jax.numpy as jnp
        s = rnd(rng, *(2,) * env['n'])
        got = real('horqrux.utils.operator_utils', 'density_mat')(jnp.asarray(s)).array
        return diff(got, np.multiply.outer(s, s.conj()))
    return Una('any register: density_mat', names, asm, body, spec, ('density_mat',), replay, limit=10)


def dagger(half=True):
    names, asm = ['n'], [z3.Int('n') >= 1]

    def body():
        n = var('n')
        x = ten.named('r', n, n) if half else ten.named('r', ('m', n), ('m', n))
        return mod('horqrux.utils.operator_utils')._dagger(x)

    def spec(r):
        n = var('n')
        a, b = Label(n.l), Label(n.l)
        k = 'blk' if half else 'ax'
        w = (lambda l: l) if half else (lambda l: [l])
        want(r, T([[k, w(a)], [k, w(b)]], [F('r', True, [b, a])]))

    def replay(env, rng):
        import jax.numpy as jnp
        n = env['n']
        x = rnd(rng, 2 ** n, 2 ** n)
        sh = (2,) * (2 * n) if half else (2 ** n, 2 ** n)
        got = real('horqrux.utils.operator_utils', '_dagger')(jnp.asarray(x.reshape(sh)))
        return diff(got, x.conj().T.reshape(sh))
    return Una(f'any register: _dagger {"tensor" if half else "matrix"}', names, asm, body, spec, ('_dagger',), replay, limit=8)


_gates = None


def gates():
    """a world in which the class of the gates is under contract as well"""
    global _gates
    if _gates is None:
        w = load.World()
        w.load('horqrux.utils.operator_utils')
        w.load('horqrux.primitives.primitive')
        w.load('horqrux.analog')
        _gates = w
    return _gates


def gate_tensor(m, c, full):
    """the matrix of a gate on the sorted qubits of its own, or on those of a register of any size which holds them"""
    names, asm = reg(m, c)

    def controlled(a, t, k):
        """contract of controlled: requires the matrix of an operator on the sorted targets; ensures that of the controlled
        operator on the sorted qubits (C02)"""
        t, k = [[x if isinstance(x, int) else lin(x) for x in q[0]] for q in (t, k)]
        if not isinstance(a, T) or len(a.dims) != 2 or [d[0] for d in a.dims] != ['ax', 'ax'] or len(a.factors) != 1 or a.factors[0].name != 'U' or a.deltas:
            raise Unsupported('controlled')
        srt = lambda q: [r[0] for r in sym.order_runs([(lin(x), Lin(None, 1)) for x in q])]
        at = lambda q, p: next(i for i, x in enumerate(q) if ent0(lin(x) - p))
        a = a.copy()
        f, = a.factors
        rows, cols, st = list(a.dims[0][1]), list(a.dims[1][1]), srt(t)
        if len(rows) != len(t) or len(cols) != len(t):
            raise Unsupported('controlled: axes')
        d1, d2, kr, kc = [], [], [None] * len(k), [None] * len(k)
        for p in srt(t + k):
            i = next((i for i, x in enumerate(st) if ent0(x - p)), None)
            if i is None:
                x, y = Label(Lin(None, 1)), Label(Lin(None, 1))
                kr[at(k, p)], kc[at(k, p)] = x, y
            else:
                x, y = rows[i], cols[i]
            d1.append(x)
            d2.append(y)
        h = len(f.idx) // 2
        return T([['ax', d1], ['ax', d2]], [F(opname(c), f.conj, kr + f.idx[:h] + kc + f.idx[h:])])

    def body():
        n, t, k = tc(m, c)
        w = gates()
        M, P = w.load('horqrux.analog'), w.load('horqrux.primitives.primitive')
        l = [Label(Lin(None, 1)) for _ in range(2 * m)]
        U = T([['ax', l[:m]], ['ax', l[m:]]], [F('U', False, l)])

        def expm(a, *r, **kw):
            if not isinstance(a, Gen) or a.kind != 'ht' or a.c != -1j or r or kw:
                raise Unsupported('expm')
            return U
        old, M.expm, P.controlled = (M.expm, P.controlled), expm, controlled
        try:
            g = M.HamiltonianEvolution(t, ctl(m, c, k) if c else (None,))
            return g.tensor({'hamiltonian': Gen('h'), 'time_evolution': Gen('t')}, *([load.S_tuple(load.S_range(n))] if full else []))
        finally:
            M.expm, P.controlled = old

    def spec(r):
        n, t, k = tc(m, c)
        ps = [q[0] for q in sym.order_runs([(lin(x), Lin(None, 1)) for x in t + k])]
        if full:
            x = full_matrix('U', t + k, n)
        else:
            l = [Label(Lin(None, 1)) for _ in range(2 * len(ps))]
            x = T([['ax', l[:len(ps)]], ['ax', l[len(ps):]]], [F('U', False, l)])
        f, = x.factors
        h = len(ps)
        ix = [next(i for i, p in enumerate(ps) if ent0(lin(q) - p)) for q in k + t]
        x.factors = [F(opname(c), False, [f.idx[i] for i in ix] + [f.idx[h + i] for i in ix])]
        want(r, x)

    def replay(env, rng):
        import jax.numpy as jnp
        n, t, k = envtc(env, m, c)
        if not full:
            q = sorted(t + k)
            n, t, k = len(q), tuple(q.index(x) for x in t), tuple(q.index(x) for x in k)
        h = rnd(rng, 2 ** m, 2 ** m)
        h, x = h + h.conj().T, float(rng.uniform(-2, 2))
        w, u = np.linalg.eigh(h)
        U = (u * np.exp(-1j * x * w)) @ u.conj().T
        g = real('horqrux.analog', 'HamiltonianEvolution')(t if m > 1 else t[0], (None,) if not c else k if c > 1 else k[0])
        got = g.tensor({'hamiltonian': jnp.asarray(h), 'time_evolution': x}, *([tuple(range(n))] if full else []))
        return diff(got, np_apply(U, np.eye(2 ** n).reshape((2,) * (2 * n)), list(t), list(k)).reshape(2 ** n, 2 ** n))
    return Una(f'any register: matrix of a gate {m} targets {c} controls{" on a larger register" if full else ""}', names, asm, body, spec,
               ('Primitive.tensor', 'Primitive.qubit_support', 'expand_operator', 'permute_basis'), replay, limit=8)


def permute(inv):
    """any permutation of the qubits of any register"""
    names, asm = ['n'], [z3.Int('n') >= 1]
    same = z3.Bool('same_pi_0_0')

    def perm(n):
        return sym.Seq([('perm', 'pi', ((Lin(), n.l),), Lin())])

    def body():
        n = var('n')
        pb = mod('horqrux.utils.operator_utils').permute_basis
        x = ten.named('r', n, n)
        y = pb(x, perm(n), False)
        return pb(y, perm(n), True) if inv else y

    def spec(r):
        n = var('n')
        x = ten.named('r', n, n)
        if inv or CTX.entailed(same):
            want(r, x)
            return
        a, b = x.dims[0][1], x.dims[1][1]
        x.dims = [['shuf', 'pi', [[a]], ((Lin(), n.l),)], ['shuf', 'pi', [[b]], ((n.l, n.l),)]]
        r2 = r.copy()
        for d in r2.dims:
            if d[0] != 'shuf':
                raise Differ('not permuted')
        want(r, x)

    def replay(env, rng):
        import jax.numpy as jnp
        n = env['n']
        p = tuple(int(x) for x in rng.permutation(n))
        x = rnd(rng, *(2,) * (2 * n))
        pb = real('horqrux.utils.operator_utils', 'permute_basis')
        y = np.asarray(pb(jnp.asarray(x), p, False))
        e = x.transpose(p + tuple(n + q for q in p))
        return diff(np.asarray(pb(jnp.asarray(y), p, True)), x) if inv else diff(y, e)
    return Una(f'any register: permute_basis {"inverse after forward" if inv else "forward"}', names, asm, body, spec, ('permute_basis',), replay, limit=9)


def expand(m, sp=False, ordered=False):
    names, asm = reg(m, 0)
    if ordered:
        asm = asm + [z3.Int(f't{i}') < z3.Int(f't{i + 1}') for i in range(m - 1)]

    def body():
        n, t, k = tc(m, 0)
        U = ten.named('U', ('m', m), ('m', m), sp=sp)
        return mod('horqrux.utils.operator_utils').expand_operator(U, t, load.S_tuple(load.S_range(n)))

    def spec(r):
        n, t, k = tc(m, 0)
        want(r, full_matrix('U', t, n, sp))

    def replay(env, rng):
        import jax.numpy as jnp
        from jax.experimental.sparse import BCOO
        n, t, k = envtc(env, m, 0)
        U = rnd(rng, 2 ** m, 2 ** m)
        cv = (lambda x: BCOO.fromdense(jnp.asarray(x))) if sp else jnp.asarray
        got = real('horqrux.utils.operator_utils', 'expand_operator')(cv(U), t, tuple(range(n)))
        I = np.eye(2 ** n).reshape((2,) * (2 * n))
        return diff(got, np_apply(U, I, sorted(t), []).reshape(2 ** n, 2 ** n))
    return Una(f'any register: expand_operator {"sparse " if sp else ""}{m} {"ordered " if ordered else ""}qubits', names, asm, body, spec, ('expand_operator', 'permute_basis', 'hilbert_reshape'), replay, limit=9)


def full_matrix(fname, t, n, sp=False, batch=()):
    """matrix on n qubits of an operator on the sorted qubits t, identity elsewhere"""
    ps = [r[0] for r in sym.order_runs([(lin(x), Lin(None, 1)) for x in t])]
    rows, cols, deltas, fr, fc = [], [], [], [], []
    prev = Lin()
    for p in ps + [lin(n)]:
        a, b = Label(p - prev), Label(p - prev)
        rows.append(a)
        cols.append(b)
        deltas.append((a, b))
        if p is not ps[-1] or True:
            pass
        if len(fr) < len(ps):
            a, b = Label(Lin(None, 1)), Label(Lin(None, 1))
            rows.append(a)
            cols.append(b)
            fr.append(a)
            fc.append(b)
        prev = p + 1
    return (TS if sp else T)([['ax', rows], ['ax', cols]], [F(fname, False, list(batch) + fr + fc)], deltas).clean()


def expand_error(m):
    """a support that misses one of the qubits is rejected, whatever its size"""
    names, asm = reg(m, 0)
    asm = [z3.Int('n') >= 1] + [z3.Int(f't{i}') >= 0 for i in range(m)] + [z3.Or([z3.Int(f't{i}') >= z3.Int('n') for i in range(m)])]
    if m > 1:
        asm.append(z3.Distinct(*[z3.Int(f't{i}') for i in range(m)]))

    def body():
        n, t, k = tc(m, 0)
        try:
            mod('horqrux.utils.operator_utils').expand_operator(ten.named('U', ('m', m), ('m', m)), t, load.S_tuple(load.S_range(n)))
        except ValueError:
            return 'rejected'
        return 'accepted'

    def spec(r):
        if r != 'rejected':
            raise Differ('a support missing a qubit is accepted')

    def replay(env, rng):
        import jax.numpy as jnp
        n, t, k = envtc(env, m, 0)
        try:
            real('horqrux.utils.operator_utils', 'expand_operator')(jnp.asarray(rnd(rng, 2 ** m, 2 ** m)), t, tuple(range(n)))
        except ValueError:
            return None
        except Exception as e:
            return f'{type(e).__name__} instead of ValueError for {t} in {n} qubits'
        return f'support {t} accepted for {n} qubits'
    return Una(f'any register: expand_operator rejects a support that misses a qubit, {m} qubits', names, asm, body, spec, ('expand_operator',), replay, limit=5)


def kraus_op(m, arbitrary=True):
    names, asm = reg(m, 0)

    def body():
        n, t, k = tc(m, 0)
        return mod('horqrux.apply').apply_kraus_operator(ten.named('U', ('m', n), ('m', n)), ten.named('r', n, n), load.S_tuple(load.S_range(n)))

    def spec(r):
        n, t, k = tc(m, 0)
        a, b, c, d = (Label(n.l) for _ in range(4))
        want(r, T([['blk', a], ['blk', b]], [F('U', False, [a, c]), F('U', True, [b, d]), F('r', False, [c, d])], [], [c, d]))

    def replay(env, rng):
        import jax.numpy as jnp
        n = env['n']
        U, s = rnd(rng, 2 ** n, 2 ** n), rnd(rng, 2 ** n, 2 ** n)
        got = real('horqrux.apply', 'apply_kraus_operator')(jnp.asarray(U), jnp.asarray(s.reshape((2,) * (2 * n))), tuple(range(n)))
        return diff(got, (U @ s @ U.conj().T).reshape((2,) * (2 * n)))
    return Una('any register: apply_kraus_operator on the whole register', ['n'], [z3.Int('n') >= 1], body, spec, ('apply_kraus_operator', '_dagger'), replay, limit=8)


def kraus_sum():
    def body():
        n = var('n')
        return mod('horqrux.apply').apply_kraus_sum(ten.named('K', ('b',), ('m', n), ('m', n)), ten.named('r', n, n), load.S_tuple(load.S_range(n)))

    def spec(r):
        n = var('n')
        a, b, c, d = (Label(n.l) for _ in range(4))
        i = Label(Lin(None, 1), 'batch')
        want(dm_array(r), T([['blk', a], ['blk', b]], [F('K', False, [i, a, c]), F('K', True, [i, b, d]), F('r', False, [c, d])], [], [c, d, i]))

    def replay(env, rng):
        import jax.numpy as jnp
        n = env['n']
        K, s = rnd(rng, 3, 2 ** n, 2 ** n), rnd(rng, 2 ** n, 2 ** n)
        got = real('horqrux.apply', 'apply_kraus_sum')(jnp.asarray(K), jnp.asarray(s.reshape((2,) * (2 * n))), tuple(range(n))).array
        return diff(got, sum(k @ s @ k.conj().T for k in K).reshape((2,) * (2 * n)))
    return Una('any register, any number of Kraus operators: apply_kraus_sum', ['n'], [z3.Int('n') >= 1], body, spec, ('apply_kraus_sum', 'apply_kraus_operator'), replay, limit=7)


def with_noise(m, c, ch):
    """a gate followed by ch channels on its targets, any number of Kraus operators each"""
    names, asm = reg(m, c)

    def body():
        n, t, k = tc(m, c)
        A = mod('horqrux.utils.operator_utils').DensityMatrix
        noise = []
        for i in range(ch):
            lab = Label(Lin(None, 1), 'batch')
            x = ten.named(f'K{i}', ('m', m), ('m', m))
            x.factors[0].idx = [lab] + x.factors[0].idx
            noise.append(types.SimpleNamespace(kraus=ten.GenList(x, lab)))
        return mod('horqrux.apply').apply_operator_with_noise(A(ten.named('r', n, n)), ten.named('U', ('m', m), ('m', m)), t, ctl(m, c, k), tuple(noise))

    def spec(r):
        n, t, k = tc(m, c)
        x = on(ten.named('r', n, n), opname(c), k + t)
        x = on(x, opname(c), tuple(n + p for p in k + t), conj=True)
        st = [mk(r_[0]) for r_ in sym.order_runs([(lin(q), Lin(None, 1)) for q in t])]
        for i in range(ch):
            lab = Label(Lin(None, 1), 'batch')
            x = on(x, f'K{i}', st, batch=(lab,))
            x = on(x, f'K{i}', [n + p for p in st], conj=True, batch=(lab,))
            x.summed.append(lab)
        want(dm_array(r), x)

    def replay(env, rng):
        import jax.numpy as jnp
        n, t, k = envtc(env, m, c)
        U, s = rnd(rng, 2 ** m, 2 ** m), rnd(rng, *(2,) * (2 * n))
        Ks = [rnd(rng, 2 + i, 2 ** m, 2 ** m) for i in range(ch)]
        D = real('horqrux.utils.operator_utils', 'DensityMatrix')
        noise = tuple(types.SimpleNamespace(kraus=tuple(jnp.asarray(x) for x in K)) for K in Ks)
        got = real('horqrux.apply', 'apply_operator_with_noise')(D(jnp.asarray(s)), jnp.asarray(U), t, ctl(m, c, k), noise).array
        e = np_apply(U.conj(), np_apply(U, s, list(t), list(k)), list(t), list(k), n)
        for K in Ks:
            e = sum(np_apply(x.conj(), np_apply(x, e, sorted(t), []), sorted(t), [], n) for x in K)
        return diff(got, e)
    return Una(f'any register, any number of Kraus operators: noisy gate {m} targets {c} controls {ch} channels', names, asm, body, spec,
               ('apply_operator_with_noise', 'expand_operator', 'apply_kraus_sum', 'apply_operator'), replay, limit=6)


def noise_none(m, c):
    names, asm = reg(m, c)

    def body():
        n, t, k = tc(m, c)
        A = mod('horqrux.utils.operator_utils').DensityMatrix
        return mod('horqrux.apply').apply_operator_with_noise(A(ten.named('r', n, n)), ten.named('U', ('m', m), ('m', m)), t, ctl(m, c, k), None)
    o = apply_dm(m, c)

    def replay(env, rng):
        import jax.numpy as jnp
        n, t, k = envtc(env, m, c)
        U, s = rnd(rng, 2 ** m, 2 ** m), rnd(rng, *(2,) * (2 * n))
        D = real('horqrux.utils.operator_utils', 'DensityMatrix')
        got = real('horqrux.apply', 'apply_operator_with_noise')(D(jnp.asarray(s)), jnp.asarray(U), t, ctl(m, c, k), None).array
        return diff(got, np_apply(U.conj(), np_apply(U, s, list(t), list(k)), list(t), list(k), n))
    return Una(f'any register: noiseless gate among noisy ones {m} targets {c} controls', names, asm, body, o.spec, ('apply_operator_with_noise',), replay, limit=8)


def inner_(sp=False):
    def body():
        n = var('n')
        return mod('horqrux.utils.operator_utils').inner(ten.named('s', n, sp=sp), ten.named('p', n, sp=sp))

    def spec(r):
        a = Label(var('n').l)
        want(r, (TS if sp else T)([], [F('s', True, [a]), F('p', False, [a])], [], [a]))

    def replay(env, rng):
        import jax.numpy as jnp
        s, p = rnd(rng, *(2,) * env['n']), rnd(rng, *(2,) * env['n'])
        got = real('horqrux.utils.operator_utils', 'inner')(jnp.asarray(s), jnp.asarray(p))
        return diff(got, np.asarray(np.vdot(s, p)))
    return Una(f'any register: inner{" sparse" if sp else ""}', ['n'], [z3.Int('n') >= 1], body, spec, ('inner',), replay, limit=16)


def probs_pure():
    def body():
        return mod('horqrux.utils.operator_utils').probabilities(ten.named('s', var('n')))

    def spec(r):
        a = Label(var('n').l)
        want(r, T([['ax', [a]]], [F('s', False, [a]), F('s', True, [a])]))

    def replay(env, rng):
        import jax.numpy as jnp
        s = rnd(rng, *(2,) * env['n'])
        return diff(real('horqrux.utils.operator_utils', 'probabilities')(jnp.asarray(s)), np.abs(s.ravel()) ** 2)
    return Una('any register: probabilities of a state vector', ['n'], [z3.Int('n') >= 1], body, spec, ('probabilities',), replay, limit=16)


def probs_dm():
    def body():
        ou = mod('horqrux.utils.operator_utils')
        n = var('n')
        return ou.probabilities(ou.DensityMatrix(ten.named('r', ('m', n), ('m', n))))

    def spec(r):
        a = Label(var('n').l)
        want(r, T([['ax', [a]]], [F('r', False, [a, a])], re=True))

    def replay(env, rng):
        import jax.numpy as jnp
        n = env['n']
        s = rnd(rng, 2 ** n, 2 ** n)
        D = real('horqrux.utils.operator_utils', 'DensityMatrix')
        return diff(real('horqrux.utils.operator_utils', 'probabilities')(D(jnp.asarray(s))), np.diag(s).real)
    return Una('any register: probabilities of a density matrix', ['n'], [z3.Int('n') >= 1], body, spec, ('probabilities',), replay, limit=10)


def nqubits(dm):
    def body():
        ou = mod('horqrux.utils.operator_utils')
        n = var('n')
        return ou.num_qubits(ou.DensityMatrix(ten.named('r', n, n)) if dm else ten.named('s', n))

    def spec(r):
        want_int(r, var('n'))

    def replay(env, rng):
        import jax.numpy as jnp
        n = env['n']
        D = real('horqrux.utils.operator_utils', 'DensityMatrix')
        s = jnp.zeros((2,) * (2 * n if dm else n))
        got = real('horqrux.utils.operator_utils', 'num_qubits')(D(s) if dm else s)
        return None if got == n else f'{got} instead of {n}'
    return Una(f'any register: num_qubits of a {"density matrix" if dm else "state"}', ['n'], [z3.Int('n') >= 1], body, spec, ('num_qubits',), replay, limit=10)


def hilbert():
    def body():
        n = var('n')
        return mod('horqrux.utils.operator_utils').hilbert_reshape(ten.named('r', ('m', n), ('m', n)))

    def spec(r):
        want(r, ten.named('r', var('n'), var('n')))

    def replay(env, rng):
        import jax.numpy as jnp
        n = env['n']
        s = rnd(rng, 2 ** n, 2 ** n)
        return diff(real('horqrux.utils.operator_utils', 'hilbert_reshape')(jnp.asarray(s)), s.reshape((2,) * (2 * n)))
    return Una('any register: hilbert_reshape', ['n'], [z3.Int('n') >= 1], body, spec, ('hilbert_reshape',), replay, limit=9)


class Obs:
    """an observable known only by its contract: forward applies it, tensor is its matrix on its sorted support"""
    def __init__(self, sup, fwd, mat):
        self.qubit_support, self._f, self._m = sup, fwd, mat

    def forward(self, state, values=None):
        return self._f(state)
    __call__ = forward

    def tensor(self, values=None, *a, **k):
        if a or k:
            raise Unsupported('tensor with a support')
        return self._m


def expect_pure(sp=False):
    def body():
        n = var('n')
        s = ten.named('s', n, sp=sp)
        o = Obs((0,), lambda x: on(x, 'O', (0,)), None)
        return mod('horqrux.differentiation.ad')._ad_expectation_single_observable(s, o, {})

    def spec(r):
        n = var('n')
        p = on(ten.named('s', n), 'O', (0,))
        e = ten.vdot(ten.named('s', n), p)
        e.re = True
        want(ten.dense(r), e)

    def replay(env, rng):
        import jax.numpy as jnp
        n = env['n']
        s, A = rnd(rng, *(2,) * n), rnd(rng, 2, 2)
        o = Obs((0,), lambda x: jnp.asarray(np_apply(A, np.asarray(x), [0], [])), None)
        got = real('horqrux.differentiation.ad', '_ad_expectation_single_observable')(jnp.asarray(s), o, {})
        return diff(got, np.asarray(np.vdot(s, np_apply(A, s, [0], [])).real))
    return Una(f'any register: expectation of a {"sparse " if sp else ""}state vector', ['n'], [z3.Int('n') >= 1], body, spec,
               ('_ad_expectation_single_observable', 'inner'), replay, limit=9)


def expect_dm(m):
    names, asm = reg(m, 0)
    # the support of an observable is sorted
    asm = asm + [z3.Int(f't{i}') < z3.Int(f't{i + 1}') for i in range(m - 1)]

    def body():
        n, t, k = tc(m, 0)
        D = mod('horqrux.utils.operator_utils').DensityMatrix
        o = Obs(t, None, ten.named('O', ('m', m), ('m', m)))
        return mod('horqrux.differentiation.ad')._ad_expectation_single_observable(D(ten.named('r', n, n)), o, {})

    def spec(r):
        n, t, k = tc(m, 0)
        x = on(ten.named('r', n, n), 'O', t)
        x = ten.trace(ten.reshape(x, (sym.Pow2(n.l), sym.Pow2(n.l))))
        x.re = True
        want(r, x)

    def replay(env, rng):
        import jax.numpy as jnp
        n, t, k = envtc(env, m, 0)
        A, s = rnd(rng, 2 ** m, 2 ** m), rnd(rng, *(2,) * (2 * n))
        D = real('horqrux.utils.operator_utils', 'DensityMatrix')
        got = real('horqrux.differentiation.ad', '_ad_expectation_single_observable')(D(jnp.asarray(s)), Obs(t, None, jnp.asarray(A)), {})
        return diff(got, np.asarray(np.trace(np_apply(A, s, list(t), []).reshape(2 ** n, 2 ** n)).real))
    return Una(f'any register: expectation of a density matrix, observable on {m} qubits', names, asm, body, spec,
               ('_ad_expectation_single_observable', 'apply_operator'), replay, limit=9)


PLACES = [(1, 0), (1, 1), (1, 2), (1, 3), (2, 0), (2, 1), (2, 2), (3, 0), (3, 1)]


def tensors():
    for m, c in [(1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (1, 2), (2, 2)]:
        yield gate_tensor(m, c, False)
    for m, c in [(1, 0), (2, 0), (1, 1)]:
        yield gate_tensor(m, c, True)


def obligations(pid):
    if pid == 'C15':
        for m, c in PLACES:
            yield evolution(m, c, 'state')
        for m, c in [(1, 0), (1, 1), (2, 0), (2, 1)]:
            yield evolution(m, c, 'list')
            yield evolution(m, c, 'dagger')
            yield evolution(m, c, 'rho')
        yield from tensors()
    elif pid == 'C01':
        for m, c in PLACES:
            yield apply_array(m, c)
        for m, c in [(1, 0), (1, 1), (2, 0), (2, 1)]:
            yield evolution(m, c, 'list')
    elif pid == 'C13':
        for m, c in PLACES:
            yield apply_array(m, c, sp=True)
        for m in (1, 2):
            yield expand(m, sp=True)
        yield inner_(sp=True)
    elif pid == 'C03':
        for m, c in [(1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (3, 0)]:
            yield apply_dm(m, c)
        for m, c in [(1, 0), (1, 1), (2, 0), (2, 1)]:
            yield evolution(m, c, 'rho')
        for m in (1, 2):
            yield dm_error(m)
        yield nqubits(True)
    elif pid == 'C05':
        for m, c, ch in [(1, 0, 1), (1, 0, 2), (1, 1, 1), (2, 0, 1), (1, 2, 1), (2, 1, 1)]:
            yield with_noise(m, c, ch)
        yield kraus_op(1)
        yield kraus_sum()
        yield noise_none(1, 0)
        yield noise_none(1, 1)
    elif pid == 'C06':
        for m in (1, 2):
            yield expand(m)
        yield expand(3, ordered=True)
        for m in (1, 2):
            yield expand_error(m)
        yield permute(False)
        yield permute(True)
        yield hilbert()
        yield from tensors()
    elif pid == 'C09':
        yield expect_pure()
        yield expect_pure(True)
        for m in (1, 2, 3):
            yield expect_dm(m)
        yield dens()
    elif pid == 'C11':
        yield probs_pure()
        yield probs_dm()
        yield nqubits(False)
        yield nqubits(True)
    elif pid == 'C14':
        yield dens()
        yield dagger(True)
        yield dagger(False)
        yield inner_()
        yield nqubits(False)
        yield nqubits(True)
        yield permute(False)
        yield permute(True)
        yield hilbert()
        yield probs_pure()
        yield probs_dm()
