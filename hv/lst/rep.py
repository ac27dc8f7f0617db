"""Replays of the obligations over lists: lists of the length the path asks for (and the lengths around it), on the real code of /repo,
compared with the same contract read on concrete values."""
from __future__ import annotations
import numpy as np
from .. import gen as G, oracle as O, build as B
from ..build import jax, jnp, apply_gates, apply_operator, DensityMatrix, density_mat, OpSequence, Add, Scale, Observable, QuantumCircuit, to_sparse, to_dense
from horqrux import apply as AP

TOL = 1e-7
ENV = {'a': 0.43, 'b': -1.27, 'c': 2.9, 'u': 0.7, 'w': -1.6}


def lengths(env):
    """lengths of the lists to try: what the path asks for and above, then lengths around the constants of the source"""
    from ..wide import sizes
    n = max([v for v in env.values() if isinstance(v, int)] + [0])
    out = [min(n + d, 70) for d in (0, 0, 1, 2, 5)]
    return out + [x for x in sizes((9, 13, 18), n + 1, 132) if x not in out]


def dense(x):
    return np.asarray(jax.device_get(B.dense_out(x)))


def differ(a, b, what=''):
    a, b = dense(a), dense(b)
    if a.shape != b.shape:
        return f'{what} shape {a.shape} instead of {b.shape}'
    d = np.max(np.abs(a - b)) if a.size else 0
    return None if d <= TOL * max(1, np.max(np.abs(b)) if b.size else 1) else f'{what} differs by {d:.3e}'


def psi(rng, n):
    v = rng.normal(size=(2,) * n) + 1j * rng.normal(size=(2,) * n)
    return jnp.asarray(v / np.linalg.norm(v))


def rho(rng, n):
    d = 2 ** n
    a = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    a = a @ a.conj().T
    return jnp.asarray((a / np.trace(a)).reshape((2,) * (2 * n)))


def start(kind, rng, n):
    s = rho(rng, n) if kind == 'dm' else psi(rng, n)
    return DensityMatrix(s) if kind == 'dm' else B.to_sparse(s) if kind == 'sp' else s


def glist(rng, n, L, kind='arr', noise=None, op='_unitary', style=0):
    """random gates; style 1: many on one support, style 2: single-qubit gates only, style 3: everything on one support"""
    if op == 'jacobian':
        ops = [('r', G.ROT[rng.integers(4)], str(rng.choice(['a', 'b'])), *G.rand_place(rng, range(n), 1, int(rng.integers(0, 2)))) for _ in range(L)]
        if style in (1, 3) and L:
            ops = [o[:3] + ops[0][3:5] if style == 3 or rng.random() < .6 else o for o in ops]
    else:
        ops = [G.rand_gate(rng, range(n), names=('a', 'b'), noise=noise, ctrl=style != 2, two=style != 2) for _ in range(L)]
        if style in (1, 3) and L:
            t, c = G.rand_place(rng, range(n), 1, int(rng.integers(0, 2)))
            ops = [G.rand_gate(rng, t, names=('a', 'b'), ctrl=False, two=False)[:2] if False else (('g', ['X', 'H', 'S', 'T', 'Y'][rng.integers(5)], t, c) if style == 3 or rng.random() < .6 else o) for o in ops]
    return [B.build(o, kind == 'sp') for o in ops]


def fold(st, gs, values, op='_unitary'):
    if not isinstance(st, DensityMatrix) and not isinstance(st, B.BCOO) and any(g.noise is not None for g in gs):
        st = density_mat(st)
    for g in gs:
        m = getattr(g, op)(values)
        st = AP.apply_operator(st, m, g.target[0], g.control[0]) if g.noise is None else AP.apply_operator_with_noise(st, m, g.target[0], g.control[0], g.noise)
    return st


def r_apply(kind, op, group, merge, noise):
    def replay(env, rng):
        for k, L in enumerate(lengths(env)):
            if kind == 'sp' and k > 4 and L > 20:
                break
            n = 3 if kind == 'arr' and noise == 'none' else 2
            gs = glist(rng, n, L, kind, 0.4 if noise != 'none' and kind != 'sp' else None, op, k % 4)
            st = start(kind, rng, n)
            r = differ(apply_gates(st, gs, ENV, AP.OperationType(op), group, merge), fold(st, gs, ENV, op), f'apply_gates on {L} gates: the result')
            if r:
                return r
    return replay


def r_single(kind, op, noise):
    def replay(env, rng):
        for k in range(6):
            g = glist(rng, 2, 1, kind, 0.7 if noise != 'none' and kind != 'sp' else None, op)[0]
            st = start(kind, rng, 2)
            r = differ(apply_gates(st, g, ENV, AP.OperationType(op)), fold(st, [g], ENV, op), f'apply_gates on {g}: the result')
            if r:
                return r
    return replay


def guarded(internal, public):
    """the contract of an internal function may be moved to another one by an edit: its breach counts when the public functions show it, or when the
    function keeps the contract on short lists and breaks it on longer ones"""
    def replay(env, rng):
        r = public(env, rng)
        if r:
            return r
        try:
            if internal(range(0, 6), np.random.default_rng(5)):
                return None
        except Exception:
            return None
        return internal(lengths(env), rng)
    return replay


def r_merge(env, rng):
    def public(env, rng):
        return r_apply('arr', '_unitary', False, True, 'none')(env, rng) or r_apply('arr', '_unitary', True, True, 'none')(env, rng)
    return guarded(i_merge, public)(env, rng)


def i_merge(ls, rng):
    for k, L in enumerate(ls):
        gs = glist(rng, 3, L, style=k % 4)
        m = tuple(g._unitary(ENV) for g in gs)
        a, t, c = AP.merge_operators(m, tuple(g.target[0] for g in gs), tuple(g.control[0] for g in gs))
        if not len(a) == len(t) == len(c) <= L:
            return f'{L} gates merged to {len(a)} operators, {len(t)} targets, {len(c)} controls'
        st = psi(rng, 3)
        out = st
        for x in zip(a, t, c):
            out = AP.apply_operator(out, *x)
        r = differ(out, fold(st, gs, ENV), f'merged operators of {L} gates: the result')
        if r:
            return r


def r_group(env, rng):
    for k, L in enumerate(lengths(env)):
        gs = glist(rng, 3, L, noise=0.2 if k == 1 else None, style=k % 4)
        hs = list(AP.group_by_index(gs))
        if sorted(map(id, hs)) != sorted(map(id, gs)):
            return f'group_by_index of {L} gates does not return these gates'
        n = 3 if k != 1 else 2
        if k == 1:
            gs = glist(rng, 2, L, noise=0.2)
            hs = list(AP.group_by_index(gs))
        st = psi(rng, n)
        r = differ(fold(st, hs, ENV), fold(st, gs, ENV), f'grouped list of {L} gates: the result')
        if r:
            return r


# ---------------------------------------------------------------- composites
def tree(rng, n, L, depth=1, kinds=('seq', 'add', 'scale')):
    out = []
    for _ in range(L):
        x = rng.random()
        if depth and x < 0.4:
            k = kinds[rng.integers(len(kinds))]
            sub = tree(rng, n, int(rng.integers(1, 3)), depth - 1, kinds)
            out.append(('scale', str(rng.choice(['u', 'w'])), sub[0]) if k == 'scale' else (k, sub))
        else:
            out.append(G.rand_gate(rng, range(n), names=('a', 'b')))
    return out


def values(st, ops):
    return [b(st, ENV) for b in ops]


def wrap(cls, ops, p='u', n=2):
    return {'OpSequence': lambda: OpSequence(ops), 'QuantumCircuit': lambda: QuantumCircuit(n, ops), 'Add': lambda: Add(ops), 'Observable': lambda: Observable(ops),
            'Scale': lambda: Scale(ops, p)}[cls]()


def r_call(cls, how=lambda o, s, v: o(s, v), param='u'):
    def replay(env, rng):
        for k, L in enumerate(lengths(env)):
            L = max(L, 1 if cls in ('Add', 'Observable') else 0)
            ops = [B.build(o) for o in tree(rng, 2, L)]
            st = psi(rng, 2)
            got = how(wrap(cls, ops, param), st, ENV)
            if cls in ('Add', 'Observable'):
                want = sum(dense(o(st, ENV)) for o in ops)
            else:
                want = st
                for o in ops:
                    want = o(want, ENV)
                if cls == 'Scale':
                    want = dense(want) * (ENV[param] if isinstance(param, str) else param)
            r = differ(got, want, f'{cls} of {L} operations: the result')
            if r:
                return r
    return replay


def r_flat(env, rng):
    for k, L in enumerate(lengths(env)):
        t = tree(rng, 2, L, 2, ('seq',))
        for j in range(3 if k % 2 else L if k < 8 else 1):      # the list one or more sequences down
            t = [('seq', t)]
        memo = []

        def b(o):
            if o[0] == 'seq':
                return OpSequence([b(x) for x in o[1]])
            memo.append(B.build(o))
            return memo[-1]
        got = list(iter(OpSequence([b(o) for o in t])))
        if len(got) != len(memo) or any(x is not y for x, y in zip(got, memo)):
            return f'iteration over a sequence of {L} operations gives {got} instead of {memo}'[:400]


def r_tensor(cls, full):
    def replay(env, rng):
        for k, L in enumerate(lengths(env)):
            L = max(L, 1)
            L = min(L, 40)
            n = 3
            ts = tree(rng, n, L, 1)
            ops = [B.build(o) for o in ts]
            c = wrap(cls, ops)
            sup = tuple(range(n)) if full else c.qubit_support
            if not full and tuple(sup) != tuple(sorted(set().union(*[set(o.qubit_support) for o in ops]))):
                return f'qubit_support {sup}'
            ms = [np.asarray(o.tensor(ENV, sup)).reshape(2 ** len(sup), -1) for o in ops]
            want = sum(ms)
            if cls not in ('Add', 'Observable'):
                want = np.eye(2 ** len(sup))
                for m in ms:
                    want = m @ want
            if cls == 'Scale':
                want = want * ENV['u']
            r = differ(np.asarray(c.tensor(ENV, sup) if full else c.tensor(ENV)).reshape(want.shape), want, f'tensor of {cls} of {L} operations')
            if r:
                return r
    return replay


def r_tensor_err(cls):
    def replay(env, rng):
        ops = [B.build(o) for o in tree(rng, 3, max(lengths(env)[0], 1), 1)]
        c = wrap(cls, ops)
        for q in c.qubit_support:
            try:
                c.tensor(ENV, tuple(x for x in range(3) if x != q))
            except ValueError:
                continue
            return f'{cls} on {c.qubit_support}: a support without qubit {q} is accepted'
    return replay


def same_op(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, OpSequence):
        keys = {k for k in list(vars(a)) + list(vars(b)) if k != 'operations'}
        return all(getattr(a, k, 0) == getattr(b, k, 1) for k in keys) and len(a.operations) == len(b.operations) and all(same_op(x, y) for x, y in zip(a.operations, b.operations))
    return a.tree_flatten() == b.tree_flatten()


def r_convert(cls, sparse):
    def replay(env, rng):
        for k, L in enumerate(lengths(env)):
            t = tree(rng, 2, L, 2)
            src, want = (wrap(cls, [B.build(o, s) for o in t]) for s in (not sparse, sparse))
            if cls == 'QuantumCircuit':
                src.fparams = want.fparams = [f'z{i}' for i in range(L + 2)]
            keep = wrap(cls, [B.build(o, not sparse) for o in t])
            got = (to_sparse if sparse else to_dense)(src)
            if not same_op(got, want):
                return f'{"to_sparse" if sparse else "to_dense"} of {cls} of {L} operations gives {got}'[:400]
            if cls == 'QuantumCircuit':
                keep.fparams = [f'z{i}' for i in range(L + 2)]
            if not same_op(src, keep):
                return f'the argument of {"to_sparse" if sparse else "to_dense"} is changed'
    return replay


def r_pytree(cls):
    def replay(env, rng):
        for k, L in enumerate(lengths(env)):
            c = wrap(cls, [B.build(o) for o in tree(rng, 2, L, 2)])
            if cls == 'QuantumCircuit':
                c.fparams = [f'z{i}' for i in range(L + 2)]
            ch, aux = c.tree_flatten()
            if not same_op(type(c).tree_unflatten(aux, ch), c):
                return f'{cls} of {L} operations is not rebuilt from its tree'
            le, td = jax.tree_util.tree_flatten(c)
            if not same_op(jax.tree_util.tree_unflatten(td, le), c):
                return f'{cls} of {L} operations is not rebuilt by jax.tree_util'
    return replay


def r_names(what):
    def replay(env, rng):
        for k, L in enumerate(lengths(env)):
            names = [f'p{rng.integers(0, max(2, L))}' for _ in range(L)]
            ops = [B.build(('r', 'RX', nm, (0,), ()) if rng.random() < .6 else ('g', 'H', (0,), ()) if rng.random() < .5 else ('r', 'RY', 0.3, (0,), ())) for nm in names]
            want = {g.param for g in ops if getattr(g, 'is_parametric', False)}
            fp = [nm for nm in sorted(want) if rng.random() < .4] + ['zz']
            c = QuantumCircuit(1, [OpSequence(ops[:L // 2]), *ops[L // 2:]], fp)
            got, exp = {'param_names': lambda: (c.param_names, want), 'vparams': lambda: (c.vparams, want - set(fp)), 'n_vparams': lambda: (c.n_vparams, len(want - set(fp))),
                        'n_vparams seq': lambda: (OpSequence(ops).n_vparams, len(want))}[what]()
            if got != exp:
                return f'{what} of a circuit of {L} gates: {got} instead of {exp}'[:400]
    return replay


def r_expect(fn):
    def replay(env, rng):
        for k, L in enumerate(lengths(env)):
            L = max(L, 1)
            n = 2
            gs = [B.build(o) for o in G.rand_ops(rng, n, min(L, 12), names=('a', 'b'))]
            obs = [Observable([B.build(('g', 'XYZ'[rng.integers(3)], (int(rng.integers(n)),), ())), B.build(('scale', 'u', ('g', 'Z', (0,), ())))]) for _ in range(L)]
            st = psi(rng, n)
            out = fold(st, gs, ENV)
            want = np.array([np.vdot(dense(out), dense(o.forward(out, ENV))).real for o in obs])
            r = differ(np.asarray(fn(st, gs, obs)).reshape(-1), want, f'{L} observables: the expectation values')
            if r:
                return r
    return replay


def r_gpsr(what):
    return guarded(lambda ls, rng: i_gpsr(what, ls, rng), p_gpsr)


def gpsr_cases(env, rng, most):
    """gates with shared names, two observables and names in an order of their own"""
    for k, L in enumerate([max(lengths(env)[0], 1), 3, 5, most]):
        names = ('a', 'b', 'c') if k < 3 else ('b',)
        gs = [B.build(G.rand_gate(rng, range(2), names=names, ctrl=False, two=False)) for _ in range(min(L, most))]
        if k == 3:
            gs = [B.build(('r', ('RX', 'RY', 'RZ')[i % 3], 'b', (i % 2,), ())) for i in range(most)]
        gs += [B.build(('r', 'RX', 'a', (0,), ())), B.build(('g', 'X', (0,), (1,))), B.build(('r', 'RY', 'b' if k % 2 else 'a', (1,), ()))]
        yield k, gs, {x: ENV[x] for x in ('bca', 'acb', 'cab', 'abc')[k]}


def p_gpsr(env, rng):
    """gradients of the parameter-shift rules against automatic differentiation"""
    from horqrux.differentiation.gpsr import analytical_gpsr_bwd
    from horqrux.api import expectation
    from horqrux.utils.operator_utils import DiffMode
    for k, gs, vs in gpsr_cases(env, rng, 12):
        obs = [Observable([B.build(('g', 'Z', (0,), ())), B.build(('g', 'X', (1,), ()))]), Observable([B.build(('r', 'RX', 'c', (1,), ())), B.build(('g', 'Y', (0,), ()))])][:1 + (k != 1)]
        st, c = psi(rng, 2), QuantumCircuit(2, gs)
        want = jax.grad(lambda v: expectation(st, c, obs, v).sum())(vs)
        want = np.array([want[x] for x in vs])
        got = jax.grad(lambda v: expectation(st, c, obs, v, DiffMode.GPSR).sum())(vs)
        for nm, g in (('expectation', np.array([got[x] for x in vs])), ('analytical_gpsr_bwd', np.asarray(analytical_gpsr_bwd(st, gs, obs, vs)).reshape(-1))):
            if g.shape != want.shape or np.max(np.abs(g - want)) > 1e-6:
                return f'{nm}: gradient {g} instead of {want} for {gs}'[:500]


def p_shots_grad(env, rng, jvp=False):
    """the finite-shot gradient with many shots against automatic differentiation (tolerance: over seven standard deviations)"""
    from horqrux.differentiation.gpsr import finite_shots_gpsr_backward
    from horqrux.api import expectation
    from horqrux.utils.operator_utils import DiffMode
    for k, gs, vs in gpsr_cases(env, rng, 10):
        obs = [Observable([B.build(('g', 'Z', (0,), ())), B.build(('g', 'X', (1,), ()))]), Observable([B.build(('g', 'Y', (0,), ()))])]
        st, c = psi(rng, 2), QuantumCircuit(2, gs)
        want = jax.grad(lambda v: expectation(st, c, obs, v).sum())(vs)
        want = np.array([want[x] for x in vs])
        if jvp:
            g = jax.grad(lambda v: expectation(st, c, obs, v, DiffMode.GPSR, n_shots=200000, key=jax.random.PRNGKey(k)).sum())(vs)
            g = np.array([g[x] for x in vs])
        else:
            g = np.asarray(finite_shots_gpsr_backward(st, gs, obs, vs, 200000, jax.random.PRNGKey(k))).reshape(-1)
        if g.shape != want.shape or np.max(np.abs(g - want)) > 0.06:
            return f'{"jax.grad of finite shots" if jvp else "finite_shots_gpsr_backward"}: mean gradient {g} instead of {want} for {gs}'[:500]


def p_shots_jvp(env, rng):
    return p_shots_grad(env, rng, True)


def i_gpsr(what, ls, rng):
    from horqrux.differentiation.gpsr import gpsr_utils as U
    for k, L in enumerate(ls):
        L = max(L, 1)
        names = ('a', 'b', 'c')
        gs = [B.build(G.rand_gate(rng, range(2), names=names)) for _ in range(L)]
        par = [g.param if getattr(g, 'is_parametric', False) else None for g in gs]
        if what == 'names':
            got, want = U.extract_gate_names(gs), [p for p in par if p is not None]
            if list(got) != want:
                return f'extract_gate_names: {got} instead of {want}'[:300]
        if what == 'prepare':
            ks = ('a', 'c')
            got = U.prepare_param_gates_seq(ks, gs)
            want = {p: tuple(i for i, q in enumerate(par) if q == p) for p in ks}
            if {p: tuple(v) for p, v in got.items()} != want:
                return f'prepare_param_gates_seq: {got} instead of {want}'[:300]
        if what == 'rename':
            got = list(U.create_renamed_operators(gs, ('a', 'c')))
            if len(got) != L:
                return f'{len(got)} gates instead of {L}'
            new = []
            for g, h, p in zip(gs, got, par):
                if p in ('a', 'c'):
                    x, y = g.tree_flatten()[1], h.tree_flatten()[1]
                    if type(g) is not type(h) or x[:5] != y[:5] or x[6:] != y[6:]:
                        return f'{g} becomes {h}'
                    new.append(h.param)
                elif not same_op(g, h):
                    return f'{g} becomes {h}'
            if len(set(new)) != len(new) or set(new) & set(names):
                return f'new names {new}'[:300]
        if what == 'alter':
            ii = [i for i, p in enumerate(par) if p is not None]
            for i in ii[:3] + ii[-3:]:
                got = list(U.alter_gate_sequence(gs, i, 0.25))
                if len(got) != L or any(not same_op(g, h) for j, (g, h) in enumerate(zip(gs, got)) if j != i):
                    return f'gate {i} of {L}: the other gates change'
                x, y = gs[i].tree_flatten()[1], got[i].tree_flatten()[1]
                if x[:6] != y[:6] or abs(y[6] - x[6] - 0.25) > 1e-12:
                    return f'gate {i} of {L}: {gs[i]} becomes {got[i]}'


# ---------------------------------------------------------------- entry points
def shots_of(env):
    from ..wide import constants
    n = env.get('n_shots', 0)
    cs = sorted(constants()[0] - {0})
    return list(dict.fromkeys([n, 0, 1, -1, 2, 7, -7, *[-c + d for c in cs for d in (-1, 0, 1)], *[c + d for c in cs[-3:] for d in (-1, 0, 1) if c <= 5000]]))


def small_case(kind, rng, L=4):
    n = 2
    gs = [B.build(o, kind == 'sp') for o in G.rand_ops(rng, n, L, names=('a', 'b'))]
    obs = [Observable([B.build(('g', 'XYZ'[i], (i % 2,), ()), kind == 'sp')]) for i in (2, 0, 1)]
    return start(kind, rng, n), QuantumCircuit(n, gs), gs, obs


def raises(f):
    try:
        f()
    except Exception:
        return True
    return False


def r_route(mode, kind):
    def replay(env, rng):
        from horqrux.api import expectation
        from horqrux.shots import finite_shots
        st, c, gs, obs = small_case(kind, rng)
        key = jax.random.PRNGKey(int(rng.integers(1000)))
        out = fold(st, gs, ENV)
        if kind == 'dm':
            d = dense(out)
            d = d.reshape(int(round(d.size ** .5)), -1)
            want = np.array([np.trace(np.asarray(o.tensor(ENV, (0, 1))).reshape(4, 4) @ d).real for o in obs])
        else:
            want = np.array([np.vdot(dense(out), dense(o.forward(out, ENV))).real for o in obs])
        for n in shots_of(env):
            f = lambda: expectation(st, c, obs, ENV, mode, n, key)
            if mode not in ('ad', 'adjoint', 'gpsr') or mode == 'adjoint' and kind == 'dm' or n < 0:
                if not raises(f):
                    return f'expectation with diff_mode {mode!r} and {n} shots does not raise'
            elif n == 0 or mode == 'adjoint':
                r = differ(np.asarray(dense(f())).reshape(-1), want, f'{mode} expectation ({n} shots)')
                if r:
                    return r
            elif kind != 'sp':
                r = differ(np.asarray(f()), np.asarray(finite_shots(st, gs, obs, ENV, n, key)), f'{mode} expectation with {n} shots')
                if r:
                    return r
    return replay


def r_sample(kind):
    def replay(env, rng):
        from horqrux.api import sample
        st, c, gs, obs = small_case(kind, rng)
        out = dense(fold(st, gs, ENV))
        p = np.diagonal(out.reshape(4, 4)).real if kind == 'dm' else np.abs(out.reshape(-1)) ** 2
        for n in shots_of(env):
            f = lambda: sample(st, c, ENV, n)
            if n < 1:
                if not raises(f):
                    return f'sample with {n} shots does not raise'
                continue
            got = f()
            if sum(got.values()) != n or any(p[int(k, 2)] < 1e-9 or len(k) != 2 for k in got):
                return f'sample with {n} shots gives {dict(got)} for probabilities {p}'
    return replay


def r_finite(kind):
    def replay(env, rng):
        from horqrux.shots import eigen_sample, finite_shots
        key = jax.random.PRNGKey(int(rng.integers(1000)))
        from ..wide import sizes
        top = max([v for v in env.values() if v < 60] + [0])
        for k, L in enumerate(dict.fromkeys((max(top, 1), 3, 10, *sizes((), 1, 40)[-3:]))):
            st, c, gs, obs = small_case(kind, rng, L)
            obs = (obs * (L // 3 + 1))[:max(min(L, 12), 1)]
            out = fold(st, gs, ENV)
            if kind == 'dm':
                out = DensityMatrix(out.array.reshape(4, 4))
            for v in (ENV, {'circuit': ENV, 'observables': {'u': 0.4}}):
                r = differ(np.asarray(finite_shots(st, gs, obs, v, 50, key)), np.asarray(eigen_sample(out, obs, ENV, 2, 50, key)), f'estimates of {len(obs)} observables')
                if r:
                    return r
    return replay
