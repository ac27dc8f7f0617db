from __future__ import annotations
import itertools
import numpy as np
from .. import build as B, oracle as O, gen as G, core, jxi
from ..core import Scn, Custom
from ..build import jax, jnp, BCOO
from ..build import apply_gates, apply_operator, run, sample, expectation, density_mat, DensityMatrix
from horqrux.utils.operator_utils import OperationType

THOROUGH = core.TIER == 'thorough'


def rng(*k):
    return core.seeded('gen:' + ':'.join(map(str, k)))


def q(t, quick):
    return t if THOROUGH else quick


def wrap_dm(a):
    return DensityMatrix(a)


def env_inputs(names):
    return {n: ('r',) for n in sorted(names)}


def env_of(d, names):
    return {n: d[n] for n in names}


def names_of(ops):
    return sorted(set().union(*[O.params(o) for o in ops])) if ops else []


def seq_act(ops, psi, env, k):
    for o in ops:
        psi = O.act(o, psi, env, k)
    return psi


def seq_rho(ops, rho, env, k):
    for o in ops:
        rho = O.act_rho(o, rho, env, k)
    return rho


def label(ops):
    return ';'.join(G.short(o) for o in ops)[:160]


def state_scn(key, ops, n, runner, fn, bound, rho=False, num=0, sym=True, spec_ops=None, extra=None, out_rho=None, **kw):
    """runner(real_state, values_dict) -> state; specification: left-to-right action of ops"""
    names = names_of(ops)
    sops = spec_ops if spec_ops is not None else ops
    inputs = {'s': ('c', (2,) * (2 * n if rho else n))}
    inputs.update(env_inputs(names))
    out_rho = rho if out_rho is None else out_rho

    def real(a):
        st = DensityMatrix(a['s']) if rho else a['s']
        return B.dense_out(runner(st, env_of(a, names)))

    def spec(d, k):
        env = env_of(d, names)
        if rho:
            return seq_rho(sops, d['s'], env, k)
        if out_rho:
            return seq_rho(sops, O.outer(d['s']), env, k)
        return seq_act(sops, d['s'], env, k)
    return Scn(key, inputs, real, spec, fn=fn, bound=bound, num=num, sym=sym, **kw)


def unbounded(pid):
    """obligations for registers of any size (hv/una)"""
    from ..core import UnaScn
    from ..una import obl
    for o in obl.obligations(pid):
        yield UnaScn(o.key, o.fn, lambda o=o: o)


def anylist(pid):
    """obligations for lists of any length (hv/lst)"""
    from ..core import UnaScn
    from ..lst import obl
    for o in obl.obligations(pid):
        yield UnaScn(o.key, o.fn, lambda o=o: o, 'lst')


class stub_uuid:
    """any random identifiers which differ, however little: only in the digit at one position"""
    def __init__(self, pos):
        import sys, uuid
        self.pos, self.n = pos, 0
        self.spots = [(uuid, 'uuid4')]
        for nm, m in list(sys.modules.items()):
            if nm.split('.')[0] == 'horqrux' and m is not None:
                self.spots += [(m, k) for k, v in list(vars(m).items()) if v is uuid.uuid4]
        self.size = 0 if pos == 12 else 4 if pos == 16 else 16

    def make(self):
        import uuid
        h = list('3b241101e2bb4255acaf4136c566a962')
        h[self.pos] = '89ab'[self.n % 4] if self.pos == 16 else '0123456789abcdef'[self.n % 16]
        self.n += 1
        return uuid.UUID(''.join(h))

    def __enter__(self):
        self.old = [(m, k, getattr(m, k)) for m, k in self.spots]
        for m, k in self.spots:
            setattr(m, k, self.make)
        return self

    def __exit__(self, *a):
        for m, k, v in self.old:
            setattr(m, k, v)


def matrix_gates(pid, fn=()):
    """gates of two and three targets whose matrix has no symmetry (exponentials of given matrices): targets in every order, several of them in a row"""
    from horqrux.analog import HamiltonianEvolution

    def ev(t, c):
        return HamiltonianEvolution(B._tgt(t), B._ctl(c))

    def hami(r, m):
        a = r.normal(size=(2 ** m, 2 ** m)) + 1j * r.normal(size=(2 ** m, 2 ** m))
        h, t = (a + a.conj().T) / 2, float(r.uniform(0.3, 1.2))
        w, v = np.linalg.eigh(h)
        return {'hamiltonian': jnp.asarray(h), 'time_evolution': t}, (v * np.exp(-1j * t * w)) @ v.conj().T

    def worst(got, want, what):
        got, want = np.asarray(got), np.asarray(want, dtype=complex)
        if got.shape != want.shape:
            return f'{what}: shape {got.shape} instead of {want.shape}'
        if np.abs(got - want).max() > 1e-6:
            return f'{what}: off by {np.abs(got - want).max():.3g}'

    def tensors(r):
        for n in (2, 3, 4):
            for m in (2, 3):
                if m > n:
                    continue
                v, U = hami(r, m)
                for t, c in G.placements(n, m, n - m):
                    if n == 4 and r.random() < (0.7 if m == 3 else 0.8):
                        continue
                    g, sup = ev(t, c), sorted(t + c)
                    e = worst(g.tensor(v), O.full_op(O.obj(U), list(t), list(c), sup), f'tensor of targets {t} controls {c}')
                    full = [int(x) for x in r.permutation(n)]
                    F = np.asarray(O.full_op(O.obj(U), list(t), list(c), list(range(n))), dtype=complex)
                    e = e or worst(g.tensor(v, tuple(full)), F, f'tensor of targets {t} controls {c} on {n} qubits')
                    s = core.rand_psi(r, n)
                    e = e or worst(apply_gates(jnp.asarray(s), g, v).reshape(-1), F @ s.reshape(-1), f'action of targets {t} controls {c}')
                    if e:
                        return e

    def rows(rho):
        def f(r):
            for k in range(14):
                n, m = (2, 2) if k < 4 else (3, 2) if k < 9 else (3, 3) if k < 12 else (4, 2)
                if rho and n == 4:
                    continue
                v, U = hami(r, m)
                t0 = [int(x) for x in r.permutation(n)[:m]]
                ops, spec = [], []
                for j in range(2 + k % 4):
                    x = r.random()
                    if x < 0.15:
                        q_ = int(r.integers(n))
                        ops.append(B.build(('g', 'T', (q_,), ())))
                        spec.append((np.diag([1, np.exp(0.25j * np.pi)]), (q_,), ()))
                        continue
                    t = tuple(int(y) for y in (r.permutation(t0) if x < 0.85 else r.permutation(n)[:m]))
                    c = tuple(int(y) for y in r.permutation([y for y in range(n) if y not in t])[:int(r.integers(0, n - m + 1))]) if x > 0.6 else ()
                    ops.append(ev(t, c))
                    spec.append((U, t, c))
                s = core.rand_psi(r, n)
                for merge in (True, False):
                    for group in (True, False):
                        for dag in (False, True):
                            st = s
                            for M, t, c in (spec if not dag else [(M.conj().T, t, c) for M, t, c in spec]):
                                st = np.asarray(O.apply_mat(O.obj(M), O.obj(st), t, c), dtype=complex)
                            kw = dict(op_type=OperationType.DAGGER) if dag else {}
                            arg = density_mat(jnp.asarray(s)) if rho else jnp.asarray(s)
                            got = apply_gates(arg, ops, v, group_gates=group, merge_ops=merge, **kw)
                            want = np.asarray(O.outer(O.obj(st)), dtype=complex) if rho else st
                            e = worst(got.array.reshape(want.shape) if rho else got, want, f'{ops} merge={merge} group={group} dagger={dag}'[:300])
                            if e:
                                return e
        return f
    if pid in ('C06', 'C15'):
        yield Custom('gates given by a matrix: tensor and action for every order of the targets', tensors, fn=fn, bound='n<=4')
    if pid in ('C08', 'C01', 'C03'):
        yield Custom('gates given by a matrix: rows of them, targets in any order', rows(False), fn=fn, bound='n<=4')
    if pid in ('C08', 'C02'):
        yield Custom('gates given by a matrix: rows of them on a density matrix', rows(True), fn=fn, bound='n<=3')
