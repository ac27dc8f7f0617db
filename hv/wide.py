"""Bounded executions at sizes the symbolic obligations do not reach: registers, lists, nestings, counts and numbers well beyond
the small instances, and next to every constant that occurs in the text of the code under contract (a place where behaviour may
change with a size is a constant there).  Always labelled bounded; never counted as proved."""
from __future__ import annotations
import ast, glob, os
from .props.common import *
from .build import REPO, OpSequence, Scale, Add, Observable, QuantumCircuit, hea, to_sparse, to_dense, DiffMode
from .core import Skip

_c = None


def constants():
    """ints and floats in the source"""
    global _c
    if _c is None:
        ints, fl = set(), set()
        for f in glob.glob(REPO + '/horqrux/**/*.py', recursive=True):
            try:
                for x in ast.walk(ast.parse(open(f).read())):
                    if isinstance(x, ast.Constant) and type(x.value) in (int, float):
                        (ints if float(x.value).is_integer() else fl).add(x.value)
            except (SyntaxError, OSError):
                pass
        _c = {int(x) for x in ints if abs(x) < 2 ** 40}, {float(x) for x in fl}
    return _c


def sizes(base, lo, hi, scale=()):
    """base sizes, and the neighbours of the constants of the source (also divided by the given scales) inside [lo, hi]"""
    out = set(base)
    for c in constants()[0]:
        for k in (1, *scale):
            out |= {c // k + d for d in (-1, 0, 1)}
    logs = {c.bit_length() + d for c in constants()[0] if c > 3 for d in (-1, 0, 1)}
    return sorted(x for x in out | logs if lo <= x <= hi)


def numbers():
    """angles, times: large, and next to the constants of the source"""
    out = [0.0, 25.0, -40.0, 333.25, -1000.5, 1e-3, -1e-7]
    for c in sorted(constants()[0] | constants()[1]):
        if 0 < abs(c) < 1e5:
            out += [c - 0.37, c + 0.41, -c - 0.29]
    return [float(x) for x in out]


def conc(s, num=1):
    s.sym, s.num = False, num
    return s


def gates(r, n, L, **kw):
    return G.rand_ops(r, n, L, **kw)


def noisy_list(r, k):
    out = []
    while len(out) < k:
        out += list(G.rand_noise(r, 3))
        if len(out) > 1 and r.random() < 0.4:
            out.append(out[int(r.integers(len(out)))])          # equal instances
    return tuple(out[:k])


def many_params(r, n, L, ctrl_rot=True, names=None):
    """L gates, mostly rotations, each with its own name, some shared"""
    ops = []
    for i in range(L):
        if r.random() < 0.75:
            nm = G.ROT[r.integers(4)]
            t = (int(r.integers(n)),)
            c = ()
            if n > 1 and nm == 'PHASE' and r.random() < 0.3:
                c = (int(r.choice([q_ for q_ in range(n) if q_ not in t])),)
            ops.append(('r', nm, f'p{i}' if r.random() < 0.7 or i == 0 else f'p{int(r.integers(i))}', t, c))
        else:
            ops.append(G.rand_gate(r, range(n), rot=False))
    return ops


def same_support(r, n, L):
    """runs of gates on equal supports, mixed with others"""
    ops = []
    while len(ops) < L:
        m, k = (1, int(r.integers(0, n))) if r.random() < .7 else (2, int(r.integers(0, n - 1)))
        t, c = G.rand_place(r, range(n), m, k)
        for _ in range(int(r.integers(1, 1 + L))):
            if m == 2:
                ops.append(('g', G.FIXED2[r.integers(4)], t, c))
            else:
                ops.append(('g', str(r.choice(['X', 'H', 'S', 'T', 'Y'])), t, c) if r.random() < .6 else ('r', G.ROT[r.integers(4)], str(r.choice(['a', 'b'])), t, c))
            if r.random() < .1:
                break
    return ops[:L]


def nest(r, ops, depth):
    """the same gates inside depth levels of sequences"""
    if depth == 0 or len(ops) < 1:
        return list(ops)
    i, j = sorted(int(x) for x in r.integers(0, len(ops) + 1, size=2))
    if i == j:
        i, j = 0, len(ops)
    return list(ops[:i]) + [('seq', nest(r, ops[i:j], depth - 1))] + list(ops[j:])


def c01():
    for n in sizes((11, 12, 13), 6, 15):
        for i in range(2):
            r = rng('w01', n, i)
            op = G.rand_gate(r, range(n))
            yield state_scn(f'wide register n={n}.{i} {G.short(op)}', [op], n, lambda s, v, op=op: apply_gates(s, [B.build(op)], v), ('apply_operator',), f'n={n}', sym=False, num=1)
        from .props.c01 import generic
        for m in (2, 3):
            t, c = G.rand_place(rng('w01t', n, m), range(n), m, int(rng('w01k', n, m).integers(0, 3)))
            yield conc(generic(n, t, c))
    from .props.c01 import generic
    for k in sizes((4, 5, 6, 7), 3, 9):
        for m in (1, 2):
            r = rng('w01c', k, m)
            n = k + m + int(r.integers(0, 2))
            t, c = G.rand_place(r, range(n), m, k)
            yield conc(generic(n, t, c))
            op = ('g', G.FIXED1[r.integers(1, 8)] if m == 1 else G.FIXED2[r.integers(4)], t, c)
            yield state_scn(f'wide controls k={k} {G.short(op)}', [op], n, lambda s, v, op=op: apply_gates(s, B.build(op), v), ('_controlled',), f'{k} controls', sym=False, num=1)
    for m in sizes((4, 5), 3, 7):
        r = rng('w01m', m)
        t, c = G.rand_place(r, range(m + 3), m, int(r.integers(0, 3)))
        yield conc(generic(m + 3, t, c))


def c02():
    for x in numbers():
        for nm in G.ROT:
            r = rng('w02', x, nm)
            for form in ('number', 'name'):
                ctl = tuple(range(1, 1 + int(r.integers(0, 3))))

                def run_(rg, x=x, nm=nm, form=form, ctl=ctl):
                    sp = bool(rg.random() < .4)
                    g = getattr(B._pa, nm)(x if form == 'number' else 'a', 0, ctl or (None,), None, sp)
                    e = {} if form == 'number' else {'a': x, 'other': 1.0}
                    k = O.K(False)
                    U = O.rotation(nm, x, k).astype(complex)
                    for what, got, want in (('unitary', g._unitary(e), U), ('dagger', g.dagger(e), U.conj().T),
                                            ('tensor', g.tensor(e), O.mat(('r', nm, x, (0,), ctl), list(range(1 + len(ctl))), e, k).astype(complex))):
                        bad = core.compare_num(np.asarray(B.dense_out(got)), want, 1e-8)
                        if bad:
                            return f'{what} of {nm}({x}) given as a {form}: {bad}'
                yield Custom(f'wide angle {nm}({x}) {form} controls {ctl}', run_, ('_unitary', 'dagger'), 'sampled angle')
    for k in sizes((3, 4, 5, 6), 3, 8):
        r = rng('w02c', k)
        op = G.rand_gate(r, range(2), ctrl=False)
        t = op[2] if op[0] == 'g' else op[3]
        lab = [int(z) for z in r.permutation(k + 3)]
        tt, cc = tuple(lab[:len(t)]), tuple(lab[len(t):len(t) + k])
        op = op[:2] + ((tt, cc) if op[0] == 'g' else (op[2], tt, cc)) + ((),)

        def run_(rg, op=op):
            e = {x: float(rg.uniform(-9, 9)) for x in 'abc'}
            want = O.mat(op, O.support(op), e, O.K(False))
            bad = core.compare_num(np.asarray(B.build(op).tensor(e)), want, 1e-8)
            return bad and f'{G.short(op)}: {bad}'
        yield Custom(f'wide controls {G.short(op)}', run_, ('controlled', 'tensor'), f'{k} controls', runs=2)


def c03():
    for n in sizes((5, 6, 7), 4, 8, (2,)):
        for i in range(3):
            r = rng('w03', n, i)
            op = G.rand_gate(r, range(n))
            yield state_scn(f'wide density n={n}.{i} {G.short(op)}', [op], n, lambda s, v, op=op: apply_gates(s, [B.build(op)], v), ('apply_operator[DensityMatrix]',), f'n={n}', rho=True, sym=False, num=1)
        r = rng('w03p', n)
        ops = gates(r, n, 3)
        yield state_scn(f'wide pure n={n} {label(ops)}', ops, n, lambda s, v, ops=ops: apply_gates(density_mat(s), [B.build(o) for o in ops], v), ('density_mat',), f'n={n}', rho=False, out_rho=True, sym=False, num=1)
    for k in sizes((3, 4, 5), 3, 5):
        r = rng('w03c', k)
        m = 1 + k % 2
        t, c = G.rand_place(r, range(min(k + m + 1, 7)), m, k)
        op = ('g', G.FIXED1[r.integers(1, 8)] if m == 1 else G.FIXED2[r.integers(4)], t, c)
        yield state_scn(f'wide density controls {G.short(op)}', [op], min(k + m + 1, 7), lambda s, v, op=op: apply_gates(s, B.build(op), v), ('_controlled',), f'{k} controls', rho=True, sym=False, num=1)
    for L in sizes((8, 12, 20), 6, 40):
        r = rng('w03l', L)
        ops = gates(r, 3, L)
        yield state_scn(f'wide density list of {L} {label(ops)[:60]}', ops, 3, lambda s, v, ops=ops: apply_gates(s, [B.build(o) for o in ops], v), ('apply_gates',), f'{L} gates', rho=True, sym=False, num=1)
    for m in sizes((3, 4), 3, 5):
        r = rng('w03m', m)
        n = m + 2
        t, c = G.rand_place(r, range(n), m, int(r.integers(0, 2)))
        yield Scn(f'wide density targets T={t} C={c}', {'U': ('c', (2 ** m, 2 ** m)), 's': ('c', (2,) * (2 * n))},
                  lambda a, t=t, c=c, m=m: apply_operator(DensityMatrix(a['s']), a['U'], t, c if c else (None,) * m).array,
                  lambda d, k, t=t, c=c: O.apply_rho(d['U'], d['s'], t, c), fn=('apply_operator[DensityMatrix]',), bound=f'n={n}', sym=False, num=1)


def c04():
    eps = (1e-12, 1e-9, 1e-7, 1e-5, 1e-3)
    near = [0.0, 1.0] + list(eps) + [1 - e for e in eps] + [x + d for x in sorted(constants()[1]) if 0 < x < 1 for d in (-1e-4, 1e-4)]

    near = [x for x in near if 0 <= x <= 1]

    def run_(kind, p):
        def f(rg):
            a = B.DigitalNoiseInstance(B.DigitalNoiseType(kind), p)
            Ks = [np.asarray(x) for x in a.kraus]
            S = sum(x.conj().T @ x for x in Ks)
            if np.abs(S - np.eye(2)).max() > 1e-12:
                return f'{kind}({p}): sum K^dagger K differs from 1 by {np.abs(S - np.eye(2)).max()}'
            rho = (rg.normal(size=(2, 2)) + 1j * rg.normal(size=(2, 2)))
            got = sum(x @ rho @ x.conj().T for x in Ks)
            want = O.channel(kind, p, rho, 0, O.K(False))
            # accurate to the rate itself, however small
            if np.abs(got - want).max() > 1e-13:
                return f'{kind}({p}): map differs from the documented one by {np.abs(got - want).max()}'
        return f
    for kind, k in G.NOISES:
        if k == 1:
            ps = near
        elif k == 2:
            ps = [(x, y) for x in near[:9] for y in (0.0, 1.0, 0.37)] + [(0.61, x) for x in near]
        else:
            ps = [(x, 0.0, 0.0) for x in near] + [(0.0, x, 0.0) for x in near] + [(0.0, 0.0, x) for x in near] + [(0.2, x / 4, 0.1) for x in near]
        yield Custom(f'wide rates of {kind}', lambda rg, ps=ps, kind=kind: next((b for b in (run_(kind, p)(rg) for p in ps) if b), None), ('kraus', kind), f'{len(ps)} rates')
        bad = [-e for e in eps] + [1 + e for e in eps] + [-1.0, -3.5, 2.0, 1e6, -1e6, float('inf'), float('-inf')] + [float(c) for c in constants()[0] if c > 1]

        def rej(rg, kind=kind, k=k, bad=bad):
            for x in bad:
                for i in range(k):
                    good = [0.25, 0.0, 1.0][int(rg.integers(3))] if k == 2 else 0.0
                    p = x if k == 1 else tuple(x if j == i else good for j in range(k))
                    try:
                        B.DigitalNoiseInstance(B.DigitalNoiseType(kind), p).kraus
                    except Exception:
                        continue
                    return f'{kind}({p}) is accepted'
            if k == 3:
                for e in eps:
                    for p in ((0.5 + e, 0.5, 0.0), (0.4, 0.3 + e, 0.3), (1 / 3, 1 / 3, 1 / 3 + e), (0.0, 1.0, e)):
                        if sum(p) <= 1:
                            continue
                        try:
                            B.DigitalNoiseInstance(B.DigitalNoiseType(kind), p).kraus
                        except Exception:
                            continue
                        return f'{kind}({p}), a sum of {sum(p)!r}, is accepted'
        yield Custom(f'wide rejected rates of {kind}', rej, ('kraus', kind), f'{len(bad)} rates')


def c05():
    def scn(key, ops, n, rho):
        return state_scn(key, ops, n, lambda s, v: apply_gates(s, [B.build(o) for o in ops], v), ('apply_operator_with_noise', 'apply_gates'), f'n={n}', rho=rho, out_rho=True, sym=False, num=1)
    for L in sizes((4, 5, 6, 8), 3, 14):
        for i in range(2):
            r = rng('w05', L, i)
            n = int(r.integers(1, 4))
            g = G.rand_gate(r, range(n), two=False)
            ns = noisy_list(r, L)
            g = g[:4] + (ns,) if g[0] == 'g' else g[:5] + (ns,) + g[6:]
            yield scn(f'wide noise list of {L} {label([g])}', [g], n, bool(i))
    for n in sizes((4, 5, 6), 4, 6, (2,)):
        r = rng('w05n', n)
        g = G.rand_gate(r, range(n), two=False)
        ns = noisy_list(r, 2)
        g = g[:4] + (ns,) if g[0] == 'g' else g[:5] + (ns,) + g[6:]
        yield scn(f'wide noisy register n={n} {label([g])}', [g], n, bool(n % 2))
    for L in sizes((8, 12, 16), 6, 30):
        r = rng('w05l', L)
        ops = gates(r, 2, L, noise=0.4)
        if not any(O.has_noise(o) for o in ops):
            ops[-1] = ('g', 'X', (0,), (), noisy_list(r, 2))
        yield scn(f'wide noisy sequence of {L} {label(ops)[:60]}', ops, 2, bool(L % 2))
    for j in (0, 3, 9):              # one noisy gate somewhere in a long noiseless list
        r = rng('w05j', j)
        ops = gates(r, 2, 10)
        ops[j] = ('g', 'H', (1,), (0,), noisy_list(r, 2))
        yield scn(f'wide one noisy gate at {j} {label(ops)[:60]}', ops, 2, False)


def mat_check(key, op, full, fn, shuffle=False):
    """matrix form on the sorted full support against the specification, and against the action on states"""
    def run_(rg):
        e = {x: float(rg.uniform(-3, 3)) for x in O.params(op)}
        fs = tuple(full) if full is not None else None
        got = np.asarray(B.dense_out(B.build(op).tensor(e, fs)))
        want = np.asarray(O.mat(op, sorted(fs) if fs is not None else O.support(op), e, O.K(False))).astype(complex)
        bad = core.compare_num(got, want, 1e-8)
        return bad and f'{G.short(op)[:120]} on {fs}: {bad}'
    return Custom(key, run_, fn, f'{len(full or O.support(op))} qubits')


def c06():
    from .props.c06 import strip_noise
    for L in sizes((6, 8, 12, 16), 5, 30):
        for kind in ('seq', 'add'):
            r = rng('w06', L, kind)
            n = int(r.integers(2, 4))
            op = (kind, gates(r, n, L, names=('a', 'b')))
            full = None if r.random() < .5 else tuple(int(x) for x in r.permutation(n + 1))
            if full is not None and not set(O.support(op)) <= set(full):
                full = None
            yield mat_check(f'wide {kind} of {L} {G.short(op)[:60]} on {full}', op, full, ('tensor',))
    for k in sizes((4, 5, 6), 3, 7):
        r = rng('w06f', k)
        lab = sorted(int(x) for x in r.permutation(3 * k)[:k + 2])
        op = G.rand_gate(r, [int(x) for x in r.permutation(lab)[:int(r.integers(1, 4))]])
        full = tuple(int(x) for x in r.permutation(lab))
        yield mat_check(f'wide support of {k + 2} {G.short(op)} on {full}', op, full, ('expand_operator', 'tensor'))
        op2 = ('scale', 0.7, ('add', [op, ('seq', [G.rand_gate(r, lab), G.rand_gate(r, lab)])]))
        yield mat_check(f'wide tree {G.short(op2)[:90]} on {full}', op2, full, ('tensor',))
        t, c = G.rand_place(r, lab, 1 + k % 2, k - 1)
        op3 = ('g', G.FIXED1[r.integers(1, 8)] if k % 2 == 0 else G.FIXED2[r.integers(4)], t, c)
        yield mat_check(f'wide controls {G.short(op3)} on {full}', op3, full if r.random() < .5 else None, ('controlled', 'tensor'))
    for d in sizes((5, 8, 11), 4, 14):
        r = rng('w06d', d)
        op = ('seq', nest(r, gates(r, 2, 6, names=('a', 'b')), d))
        yield mat_check(f'wide nesting {d} {G.short(op)[:60]}', op, None, ('tensor',))


def c07():
    def calls(ops, n):
        return {
            'list': lambda s, v: apply_gates(s, [B.build(g) for o in ops for g in O.flat(o)], v),
            'circuit': lambda s, v: run(B.circ(ops, n), s, v),
            'iter': lambda s, v: apply_gates(s, list(iter(B.circ(ops, n))), v),
            'sequence': lambda s, v: OpSequence([B.build(o) for o in ops])(s, v),
        }
    for L in sizes((10, 15, 20, 30), 8, 70):
        for i, nm in enumerate(('list', 'circuit', 'iter', 'sequence')):
            if L > 25 and i % 2:
                continue
            r = rng('w07', L, nm)
            ops = gates(r, 3, L)
            if i % 2:
                ops = nest(r, ops, 3)
            yield state_scn(f'wide {nm} of {L} {label(ops)[:60]}', ops, 3, calls(ops, 3)[nm], ('OpSequence.__call__', '__iter__', 'apply_gates'), f'{L} gates', sym=False, num=1)
        r = rng('w07a', L)
        op = ('add', [G.rand_gate(r, range(2)) for _ in range(L)])
        yield state_scn(f'wide sum of {L} {G.short(op)[:60]}', [op], 2, lambda s, v, op=op: B.build(op)(s, v), ('Add.__call__',), f'{L} terms', sym=False, num=1)
    for d in sizes((4, 6, 9, 12), 4, 16):
        for nm in ('circuit', 'iter'):
            r = rng('w07d', d, nm)
            ops = nest(r, gates(r, 2, 8), d)
            yield state_scn(f'wide nesting {d} {nm} {label(ops)[:60]}', ops, 2, calls(ops, 2)[nm], ('__iter__', 'OpSequence.__call__'), f'depth {d}', sym=False, num=1)
        r = rng('w07s', d)
        op = G.rand_gate(r, range(2))
        for j in range(d):
            x = r.random()
            if x < .5:
                op = ('scale', str(r.choice(['a', 'b', 'c'])) if r.random() < .5 else float(np.round(r.uniform(-1.5, 1.5), 2)), op)
            elif x < .75:
                op = ('add', [op, G.rand_gate(r, range(2))])
            else:
                op = ('seq', [G.rand_gate(r, range(2)), op])
        yield state_scn(f'wide nested scalings {d} {G.short(op)[:80]}', [op], 2, lambda s, v, op=op: B.build(op)(s, v), ('Scale.__call__', 'Add.__call__'), f'depth {d}', sym=False, num=1)
    for x in numbers():
        if abs(x) < 1e4:
            op = ('scale', x, ('g', 'H', (0,), ()))
            yield state_scn(f'wide scale {x}', [op], 1, lambda s, v, op=op: B.build(op)(s, v), ('Scale.__call__',), 'n=1', sym=False, num=1)


def c08():
    from .props.c08 import rn, FN, FLAGS
    for L in sizes((8, 12, 16, 24, 32), 7, 70):
        for i, kind in enumerate(('same', 'single', 'mixed', 'noisy')):
            r = rng('w08', L, kind)
            n = 3
            ops = same_support(r, n, L) if kind == 'same' else (gates(r, n, L, ctrl=False, two=False, names=('a', 'b')) if kind == 'single' else gates(r, n, L, names=('a', 'b')))
            if kind == 'noisy':
                n = 2
                ops = gates(r, n, min(L, 20), names=('a', 'b'))
                ops[int(r.integers(len(ops)))] = ('g', 'S', (1,), (), G.rand_noise(r, 2))
            flags = FLAGS if L <= 16 else [FLAGS[(L + i) % 4], FLAGS[(L + i + 1) % 4]]
            for m, g in flags if kind != 'noisy' else flags[:2]:
                yield state_scn(f'wide {kind} of {L} merge={int(m)} group={int(g)} {label(ops)[:50]}', ops, n, rn(ops, m, g), FN, f'{L} gates', out_rho=kind == 'noisy', sym=False, num=1)
    for n in sizes((6, 8, 10), 6, 13):
        r = rng('w08n', n)
        ops = gates(r, n, 14, names=('a', 'b'))
        m, g = FLAGS[n % 4]
        yield state_scn(f'wide n={n} merge={int(m)} group={int(g)} {label(ops)[:50]}', ops, n, rn(ops, m, g), FN, f'n={n}', sym=False, num=1)
        ops = gates(r, n, 20, ctrl=False, two=False, names=('a', 'b'))
        yield state_scn(f'wide single n={n} merge=1 group=1 {label(ops)[:50]}', ops, n, rn(ops, True, True), FN, f'n={n}', sym=False, num=1)


def c09():
    from .props.c09 import scn, MODES
    for k in sizes((4, 5, 6, 8), 4, 14):
        for j, mode in enumerate(MODES):
            r = rng('w09', k, mode)
            obs = [G.rand_obs(r, 3, names=('o',), depth=1) for _ in range(k)]
            obs[-1] = obs[0]
            ops = gates(r, 3, 4, names=('a', 'b'))
            rep = 'psi' if mode == 'adjoint' else ['psi', 'rho', 'pure'][(k + j) % 3]
            yield conc(scn(f'wide {k} observables', ops, obs, 3, mode, rep, ['flat', 'nested'][k % 2]))
    for n in sizes((6, 7, 9), 5, 11):
        for mode in MODES:
            r = rng('w09n', n, mode)
            yield conc(scn('wide', gates(r, n, 3, names=('a', 'b')), [G.rand_obs(r, n, depth=1), G.rand_obs(r, n, depth=1)], n, mode, 'psi', 'flat'))
    for n in sizes((5, 6, 7), 4, 7, (2,)):
        for rep in ('rho', 'pure'):
            r = rng('w09d', n, rep)
            obs = [('add', [('seq', [('g', str(r.choice(['X', 'Y', 'Z', 'H'])), (int(x),), ()) for x in r.permutation(n)[:k]])]) for k in (1, 2, 3)]
            yield conc(scn('wide', gates(r, n, 2, names=('a', 'b')), obs, n, ['ad', 'gpsr'][n % 2], rep, 'nested'))
    for L in sizes((10, 16, 24), 8, 40):
        for mode in MODES:
            r = rng('w09l', L, mode)
            yield conc(scn(f'wide list of {L}', nest(r, many_params(r, 3, L), 2), [G.rand_obs(r, 3)], 3, mode, 'psi', 'flat'))
        r = rng('w09t', L)
        yield conc(scn(f'wide {L} terms', gates(r, 3, 2), [('add', [x for _ in range(L) for x in G.rand_obs(r, 3, depth=1)[1]][:L])], 3, MODES[L % 3], 'psi', 'flat'))


def c10():
    from .props.c10 import scn
    ways = [('ad', 'jacrev'), ('adjoint', 'jacrev'), ('gpsr', 'jacfwd'), ('bwd', '-')]
    for L in sizes((8, 12, 17, 20), 7, 26):
        for mode, how in ways:
            r = rng('w10', L, mode)
            n = 2
            ops = many_params(r, n, L)
            yield conc(scn(f'wide list of {L}', ops, [G.rand_obs(r, n, depth=1)], n, mode, how))
            ops = [(('r', G.ROT[r.integers(4)], 'a', (int(r.integers(n)),), ()) if r.random() < .7 else G.rand_gate(r, range(n), rot=False)) for _ in range(L)]
            ops[-1] = ('r', 'RX', 'a', (0,), ())
            if L <= 12:
                yield conc(scn(f'wide shared {L}', ops, [G.rand_obs(r, n, depth=1)], n, mode, how))
    for k in sizes((4, 5, 6), 4, 9):
        for mode, how in ways:
            r = rng('w10o', k, mode)
            yield conc(scn(f'wide {k} observables', many_params(r, 2, 4), [G.rand_obs(r, 2, depth=1) for _ in range(k)], 2, mode, how))
    for n in sizes((4, 5, 6), 4, 7):
        mode, how = ways[n % 4]
        r = rng('w10n', n)
        yield conc(scn('wide', many_params(r, n, 6), [G.rand_obs(r, n, depth=1)], n, mode, how))
        for k in (2, 5):
            mode, how = ways[(n + k) % 4]
            nm = [f'x{i}' for i in range(k + n)]
            ops = many_params(r, 2, 4)
            yield conc(scn(f'wide {k + n} unused values', ops, [G.rand_obs(r, 2, depth=1)], 2, mode, how, extra=nm, order=[str(x) for x in r.permutation(nm + names_of(ops))]))
    for i, L in enumerate(sizes((4, 6, 8), 4, 10)):
        mode, how = [('ad', 'jacrev'), ('gpsr', 'jacfwd'), ('bwd', '-')][i % 3]
        r = rng('w10z', L)
        ops = many_params(r, 2, L)
        j = int(r.integers(L))
        ops[j] = ('r', 'RY', 'p0', (1,), (), noisy_list(r, 3))
        yield conc(scn(f'wide noisy {L}', ops, [G.rand_obs(r, 2, depth=1)], 2, mode, how, rep=['psi', 'rho'][L % 2]))


def c11():
    from .props.c11 import scn, counts, shape_ok
    for n in sizes((6, 8, 9, 10), 5, 11):
        r = rng('w11', n)
        yield conc(scn('wide', gates(r, n, 3), n))
        yield counts(n, int(r.integers(2 ** n)), int(r.integers(1, 40)), 'psi')
    for n in sizes((4, 5, 6), 4, 7, (2,)):
        r = rng('w11d', n)
        yield conc(scn('wide', gates(r, n, 2), n, 'rho'))
        yield counts(n, int(r.integers(2 ** n)), 7, 'rho')
    for k in sizes((1, 2, 3, 1001, 4096, 20000), 1, 200000):
        def run_(rg, k=k):
            psi = core.rand_psi(rg, 2)
            c = sample(jnp.asarray(psi), B.circ([('g', 'H', (0,), ())], 2), {}, k)
            bad = shape_ok(c, 2, k)
            if bad:
                return bad
            p = np.abs(np.asarray(O.act(('g', 'H', (0,), ()), psi, {}, O.K(False))).ravel()) ** 2
            f = np.array([c.get(format(i, '02b'), 0) for i in range(4)]) / k
            if (np.abs(f - p) > 6.5 * np.sqrt(p * (1 - p) / k) + 8 / k).any():
                return f'{k} shots: frequencies {f}, Born probabilities {p}'
        yield Custom(f'wide shots {k}', run_, ('sample', 'sample_from_probs'), f'{k} shots')


def parity(k, obs, ops, n, mode, rep):
    """observables with eigenvalues 1 and -1: n times the average of n of them is an integer of the parity of n"""
    def run_(rg):
        psi = core.rand_psi(rg, n)
        e = {x: float(rg.uniform(-3, 3)) for x in names_of(ops)}
        s = jnp.asarray(psi) if rep == 'psi' else density_mat(jnp.asarray(psi))
        x = np.asarray(expectation(s, B.circ(ops, n), [B.Observable([B.build(o)]) for o in obs], e, diff_mode=DiffMode(mode), n_shots=k))
        if x.shape != (len(obs),):
            return f'{len(obs)} observables, {x.shape} estimates'
        for v, o in zip(x, obs):
            up = (v + 1) / 2 * k
            if abs(up - round(up)) > 1e-5 * max(1, k ** .5) + 1e-9 * k or not -1e-9 <= up / k <= 1 + 1e-9:
                return f'{k} shots: {v} is not the average of {k} eigenvalues of {G.short(o)}'
            rho = seq_rho(ops, O.outer(psi), e, O.K(False))
            m = O.expval_rho(('add', [o]), rho, e, O.K(False))
            if abs(v - m) > 7 * np.sqrt(max(0, 1 - m * m) / k) + 12 / k + 1e-6:
                return f'{k} shots: estimate {v}, mean {m}'
    return Custom(f'wide average of {k} {mode} {rep} {" , ".join(G.short(o) for o in obs)} after {label(ops)[:50]}', run_, ('eigen_sample', 'finite_shots'), f'{k} shots')


def c12():
    from .props.c12 import mean_scn, grad_scn, single_shot, g
    for k in sizes((1, 2, 3, 7, 101, 999, 1001, 4099), 1, 100000):
        for i, (mode, rep) in enumerate((('ad', 'psi'), ('gpsr', 'rho'))):
            r = rng('w12', k, i)
            obs = [[g('Z', 0)], [g('Z', 0), g('Z', 1)], [g('X', 1)], [g('Z', 0), g('X', 0)]][int(r.integers(4))]
            yield parity(k, obs, gates(r, 2, 3), 2, mode, rep)
    for c in sizes((3, 4, 5, 6), 3, 9):
        r = rng('w12o', c)
        obs = [('add', [g(str(r.choice(['X', 'Z'])), int(r.integers(3)))]) for _ in range(c)]
        yield single_shot(700 + c, gates(r, 3, 3), obs, 3, ['psi', 'rho'][c % 2], ['ad', 'gpsr'][c % 2], shots=1)
        obs = [('add', [('seq', [g('Z', int(x)) for x in r.permutation(3)[:2]])]) for _ in range(c)]
        yield single_shot(720 + c, gates(r, 3, 3), obs, 3, ['psi', 'rho'][c % 2], ['gpsr', 'ad'][c % 2], shots=11)
    for n in sizes((3, 4, 5), 3, 6):
        r = rng('w12n', n)
        yield single_shot(740 + n, gates(r, n, 3), [('add', [g('Z', n - 1)]), ('add', [g('Z', 0), g('Z', 1)])], n, ['psi', 'rho'][n % 2], 'ad', shots=1)
        yield single_shot(760 + n, gates(r, n, 3), [('add', [g('X', n - 2)]), ('add', [g('Z', 0)])], n, ['rho', 'psi'][n % 2], 'gpsr', shots=9)
    for L in sizes((7, 8, 10), 6, 14):
        r = rng('w12g', L)
        for how in ('jacfwd', 'backward'):
            ops = many_params(r, 2, L)[:L - 1] + [('r', 'RX', 'p0', (0,), ())]
            ops = [o for o in ops if o[0] == 'g' or not o[4]]
            yield conc(grad_scn(f'wide {L}', ops, [('add', [g('Z', 0), g('X', 1)]), ('add', [g('Y', 1)])] if L % 2 else [('add', [g('Z', 1)])], 2, how))


def c13():
    from .props.c13 import scn, mat_scn
    for k in sizes((3, 4, 5), 3, 6):
        for how in ('ctor', 'conv'):
            r = rng('w13', k, how)
            m = 1 + int(r.integers(2))
            t, c = G.rand_place(r, range(k + m), m, k)
            op = ('g', G.FIXED1[r.integers(1, 8)] if m == 1 else G.FIXED2[r.integers(4)], t, c)
            yield conc(scn(f'wide controls {k}', [op], k + m, how))
        op = ('r', G.ROT[k % 4], 'a', (k,), tuple(range(k)))
        yield conc(scn(f'wide controls {k}', [op], k + 1))
        yield conc(mat_scn(('g', 'Y', (0,), tuple(range(1, k + 1))), 'tensor'))
        yield conc(mat_scn(op, 'tensor'))
        yield conc(mat_scn(('g', 'ISWAP', (k + 1, 1), (0,)), 'tensor', tuple(range(k + 2))))
    for n in sizes((5, 6, 7, 8), 5, 9):
        r = rng('w13n', n)
        yield conc(scn('wide', gates(r, n, 3), n, ['ctor', 'conv'][n % 2]))
        yield conc(scn('wide', gates(r, n, 2), n, 'ctor', obs=[G.rand_obs(r, n, depth=1), G.rand_obs(r, n, depth=1)], mode=['ad', 'adjoint'][n % 2]))
    for L in sizes((8, 12, 16), 6, 24):
        r = rng('w13l', L)
        yield conc(scn(f'wide list of {L}', nest(r, gates(r, 3, L), L % 3), 3, ['ctor', 'conv'][L % 2]))
    for c in sizes((4, 6), 4, 9):
        r = rng('w13o', c)
        yield conc(scn(f'wide {c} observables', gates(r, 3, 3), 3, 'conv', obs=[G.rand_obs(r, 3, depth=1) for _ in range(c)], mode='ad'))


def c14():
    from horqrux.utils.operator_utils import product_state, zero_state, uniform_state, random_state, is_normalized, equivalent_state, overlap
    for n in sizes((8, 10, 12, 13, 14), 6, 16):
        def run_(rg, n=n):
            for sp in (False, True):
                b = ''.join(str(int(x)) for x in rg.integers(0, 2, n))
                e = np.zeros(2 ** n)
                e[int(b, 2)] = 1
                for what, s, w in ((f'product_state({b})', product_state(b, sp), e), ('zero_state', zero_state(n, sp), np.eye(1, 2 ** n)[0]),
                                   ('uniform_state', uniform_state(n, sp), np.full(2 ** n, 2.0 ** (-n / 2)))):
                    s = np.asarray(B.dense_out(s))
                    if s.shape != (2,) * n or np.abs(s.ravel() - w).max() > 1e-12:
                        return f'{what} of {n} qubits, sparse={sp}: wrong amplitude at {int(np.abs(s.ravel() - w).argmax())}'
                s = np.asarray(B.dense_out(random_state(n, sp)))
                if s.shape != (2,) * n or abs(np.linalg.norm(s.ravel()) - 1) > 1e-10:
                    return f'random_state of {n} qubits, sparse={sp}: norm {np.linalg.norm(s.ravel())}'
            x, y = core.rand_psi(rg, n), core.rand_psi(rg, n)
            o = float(overlap(jnp.asarray(x), jnp.asarray(y)))
            if abs(o - abs(np.vdot(x, y)) ** 2) > 1e-10:
                return f'overlap {o}, specified {abs(np.vdot(x, y)) ** 2}'
            if not bool(equivalent_state(jnp.asarray(x), jnp.asarray(x * np.exp(1j * rg.uniform(0, 6))))):
                return f'states of {n} qubits equal up to a phase are not equivalent'
            if bool(equivalent_state(jnp.asarray(x), jnp.asarray(y))):
                return f'different states of {n} qubits are equivalent'
            z = x.copy()
            i = tuple(rg.integers(0, 2, n))
            z[i] = -z[i]
            if abs(x[i]) > 1e-4 and bool(equivalent_state(jnp.asarray(x), jnp.asarray(z))):
                return 'states differing in the sign of one amplitude are equivalent'
            if not bool(is_normalized(jnp.asarray(x))) or bool(is_normalized(jnp.asarray(2 * x))):
                return 'is_normalized'
        yield Custom(f'wide states n={n}', run_, ('product_state', 'uniform_state', 'random_state', 'overlap', 'equivalent_state'), f'n={n}')
    for n in sizes((4, 5, 6, 7), 4, 8, (2,)):
        def run_(rg, n=n):
            x = core.rand_psi(rg, n) * 1.3
            got = np.asarray(density_mat(jnp.asarray(x)).array)
            return core.compare_num(got, O.outer(x), 1e-10)
        yield Custom(f'wide density matrix n={n}', run_, ('density_mat',), f'n={n}')


def c15():
    from .props.c15 import scn
    for n in sizes((5, 6, 8, 10), 5, 11):
        r = rng('w15', n)
        m = int(r.integers(1, 4))
        t, c = G.rand_place(r, range(n), m, int(r.integers(0, 3)))
        yield conc(scn('wide', ('herm', 2 ** m), t, c, n))
    for m in sizes((3, 4), 3, 5):
        for kind in ('state', 'rho', 'dagger', 'tensor'):
            if kind == 'rho' and m > 4:
                continue
            r = rng('w15m', m, kind)
            n = m + (1 if kind != 'rho' else 0)
            t, _ = G.rand_place(r, range(n), m, 0)
            yield conc(scn('wide', ('herm', 2 ** m), t, (), n, kind))
    for x in numbers():
        if 0 < abs(x) < 400:
            def run_(rg, x=x):
                m = int(rg.integers(1, 3))
                a = rg.normal(size=(2 ** m, 2 ** m)) + 1j * rg.normal(size=(2 ** m, 2 ** m))
                H = (a + a.conj().T) / 2 / 2 ** m
                w, v = np.linalg.eigh(H)
                U = (v * np.exp(-1j * x * w)) @ v.conj().T
                t = tuple(int(q_) for q_ in rg.permutation(3)[:m])
                psi = core.rand_psi(rg, 3)
                e = {'hamiltonian': jnp.asarray(H), 'time_evolution': x}
                from horqrux.analog import HamiltonianEvolution
                got = np.asarray(apply_gates(jnp.asarray(psi), HamiltonianEvolution(t), e))
                bad = core.compare_num(got, O.apply_mat(U, psi, t), 1e-7)
                return bad and f'time {x} on {t}: {bad}'
            yield Custom(f'wide time {x}', run_, ('_HamiltonianEvolution._unitary',), 'sampled H')


def c16():
    def eq_(a, b, n, e, rho=False):
        psi = core.rand_psi(np.random.default_rng(3), n)
        x, y = B.dense_out(a(jnp.asarray(psi), e)), B.dense_out(b(jnp.asarray(psi), e))
        return core.compare_num(np.asarray(x), np.asarray(y), 1e-9)

    def same(what, a, b, n, e):
        if type(a) is not type(b):
            return f'{what}: {type(b).__name__} instead of {type(a).__name__}'
        fa, fb = ([repr(x) for x in list(iter(c))] for c in (a, b))
        if fa != fb:
            return f'{what}: {len(fb)} operations, {len(fa)} before' if len(fa) != len(fb) else f'{what}: operations differ'
        if [repr(getattr(x, 'noise', None)) for x in iter(a)] != [repr(getattr(x, 'noise', None)) for x in iter(b)]:
            return f'{what}: noise differs'
        if isinstance(a, QuantumCircuit) and (a.n_qubits != b.n_qubits or list(a.fparams) != list(b.fparams) or a.param_names != b.param_names):
            return f'{what}: attributes differ'
        r = eq_(a, b, n, e)
        return r and f'{what}: {r}'
    for L in sizes((8, 13, 20), 6, 40):
        for d in (0, 2, 5):
            def run_(rg, L=L, d=d):
                n = 2
                ops = nest(rg, many_params(rg, n, L), d)
                e = {x: float(rg.uniform(-3, 3)) for x in names_of(ops)}
                fp = [x for x in names_of(ops) if rg.random() < .4]
                c = B.circ(ops, n, fparams=fp)
                lv, td = jax.tree_util.tree_flatten(c)
                for what, x in (('dense of sparse', to_dense(to_sparse(c))), ('tree operations', jax.tree_util.tree_unflatten(td, lv)), ('tree map', jax.tree_util.tree_map(lambda y: y, c))):
                    bad = same(f'{what}, {L} gates, depth {d}', c, x, n, e)
                    if bad:
                        return bad
                f = jax.jit(lambda c, s, e: run(c, s, e))
                for k in range(2):
                    psi = jnp.asarray(core.rand_psi(rg, n))
                    bad = core.compare_num(np.asarray(f(c, psi, e)), np.asarray(run(c, psi, e)), 1e-9)
                    if bad:
                        return f'compiled, call {k}: {bad}'
                    e = {x: v + 0.7 for x, v in e.items()}
                    ops = [o if o[0] != 'g' else ('g', 'Y', o[2][:1], ()) for o in ops]
                    c = B.circ(ops, n, fparams=fp)
            yield Custom(f'wide conversion of {L} depth {d}', run_, ('to_sparse', 'to_dense', 'tree_flatten', 'tree_unflatten'), f'{L} gates')
    for L in sizes((4, 6), 4, 12):
        def run_(rg, L=L):
            g = ('g', 'X', (0,), (), noisy_list(rg, L))
            c = B.circ([g], 1)
            lv, td = jax.tree_util.tree_flatten(c)
            x = jax.tree_util.tree_unflatten(td, lv)
            bad = same(f'tree operations, {L} channels', c, x, 1, {})
            if bad:
                return bad
            psi = jnp.asarray(core.rand_psi(rg, 1))
            return core.compare_num(np.asarray(jax.jit(lambda c, s: run(c, s, {}).array)(c, psi)), np.asarray(run(c, psi, {}).array), 1e-9)
        yield Custom(f'wide noise of {L}', run_, ('tree_flatten',), f'{L} channels')


def snap(x):
    """deep value of an object"""
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [snap(v) for v in x]
    if isinstance(x, DensityMatrix):
        return ('dm', snap(x.array))
    if hasattr(x, 'todense'):
        return ('bcoo', snap(x.data), snap(x.indices), x.shape)
    if hasattr(x, '__array__') and not isinstance(x, (int, float, str)):
        return ('arr', np.asarray(x).tobytes(), np.asarray(x).shape, str(np.asarray(x).dtype))
    if hasattr(x, '__dict__'):
        return (type(x).__name__, {k: snap(v) for k, v in vars(x).items() if not callable(v) and k not in ('eigenvals_generator', 'spectral_gap')})
    return repr(x)


def c17():
    shots = sizes((100, 3000), 1, 120000)
    jobs = [(L, k) for i, L in enumerate(sizes((5, 12, 20), 4, 30)) for k in (shots[i % len(shots)], shots[-1 - i % len(shots)])]
    jobs += [(6, k) for k in shots]
    for L, k in jobs:
        def run_(rg, L=L, k=k):
            n = 2
            ops = many_params(rg, n, L)
            e = {x: float(rg.uniform(-3, 3)) for x in names_of(ops)}
            e.update({x: 1.0 for x in ('unused', 'zzz')})
            c, ob = B.circ(ops, n), [B.Observable([B.build(('scale', 0.5, ('g', 'Z', (0,), ())))]), B.Observable([B.build(('g', 'X', (1,), ()))])]
            st = jnp.asarray(core.rand_psi(rg, n))
            nest_v = {'circuit': dict(e), 'observables': {'o': 0.3}}
            todo = {'run': lambda: run(c, st, e), 'sample': lambda: sample(st, c, e, k), 'ad': lambda: expectation(st, c, ob, e, 'ad'),
                    'shots': lambda: expectation(st, c, ob, e, 'ad', n_shots=k), 'gpsr': lambda: expectation(st, c, ob, e, 'gpsr'),
                    'nested': lambda: expectation(st, c, ob, nest_v, 'adjoint'), 'grad': lambda: jax.grad(lambda v: expectation(st, c, ob, v, 'ad').sum())(e),
                    'tensor': lambda: c.tensor(e), 'sparse': lambda: to_sparse(c), 'list': lambda: apply_gates(st, list(c.operations), e)}
            for nm, f in todo.items():
                a = snap([c, ob, st, e, nest_v])
                x = f()
                if snap([c, ob, st, e, nest_v]) != a:
                    return f'{nm} ({L} gates, {k} shots) changes an argument'
                y = f()
                x, y = jax.tree_util.tree_leaves(jax.tree_util.tree_map(np.asarray, dict(x) if nm == 'sample' else x)), jax.tree_util.tree_leaves(jax.tree_util.tree_map(np.asarray, dict(y) if nm == 'sample' else y))
                if len(x) != len(y) or any(not np.array_equal(p, q_) for p, q_ in zip(x, y)):
                    return f'{nm} ({L} gates, {k} shots) differs when repeated'
        yield Custom(f'wide repeat {L} gates {k} shots', run_, ('run', 'sample', 'expectation'), f'{L} gates, {k} shots')


def c18():
    from .props.c18 import ansatz
    for n in sizes((8, 10, 12), 7, 20):
        yield ansatz(n, 2, ('RX', 'RY', 'RX'), None)
    for L in sizes((6, 10, 25), 5, 40):
        yield ansatz(3, L, ('RY', 'RX'), 'w')
    yield ansatz(12, 60, ('RX', 'RY', 'RX'), None)
    yield ansatz(2, 300, ('RX', 'RY', 'RZ', 'RX'), 'q')
    for L in sizes((10, 20, 40), 8, 80):
        def run_(rg, L=L):
            ops = nest(rg, many_params(rg, 3, L), L % 7)
            w = {x for x in names_of(ops)}
            fp = [x for x in sorted(w) if rg.random() < .5]
            c = B.circ(ops, 3, fparams=fp)
            if set(c.param_names) != w or set(c.vparams) != w - set(fp) or c.n_vparams != len(w - set(fp)):
                return f'{L} gates with {len(w)} names, {len(fp)} declared: {len(c.param_names)} names, {c.n_vparams} variational'
        yield Custom(f'wide names of {L} gates', run_, ('param_names', 'vparams'), f'{L} gates', runs=3)


def c19():
    for x in numbers():
        def run_(rg, x=x):
            k = O.K(False)
            for nm in G.ROT:
                for sp in (False, True):
                    for sh in (0.0, 1.5, -x / 2):
                        for form in ('number', 'name'):
                            g0 = getattr(B._pa, nm)(x if form == 'number' else 'a', 0, (None,), None, sp)
                            g = type(g0)(g0.generator_name, g0.target[0], g0.control[0], None, sp, g0.param, sh)
                            J = np.asarray(B.dense_out(g.jacobian({} if form == 'number' else {'a': x})))
                            bad = core.compare_num(J, O.d_rotation(nm, x + sh, k).astype(complex), 1e-8)
                            if bad:
                                return f'{nm}({x}) given as a {form}, shift {sh}, sparse={sp}: {bad}'
        yield Custom(f'wide angle {x}', run_, ('jacobian',), 'sampled angle')


def c20():
    from .props.c20 import need_raise, dm_of, obs_of
    ks = sorted({0, -1, -2, -3, -7} | {-c + d for c in constants()[0] if 0 < c < 10 ** 7 for d in (-1, 0, 1) if -c + d <= 0})
    for k in ks:
        def mk(r, k=k):
            n = int(r.integers(1, 3))
            c = B.circ(gates(r, n, 2, rot=False), n)
            return f'sample with {k} shots', lambda: sample(jnp.asarray(core.rand_psi(r, n)), c, {}, k)
        yield need_raise(f'wide sample n_shots={k}', mk, ('sample',), runs=1)
        if k < 0:
            for mode in ('ad', 'gpsr'):
                def mk(r, k=k, mode=mode):
                    n = int(r.integers(1, 3))
                    c, ob = B.circ(gates(r, n, 2, rot=False), n), obs_of(r, n)
                    st = dm_of(r, n) if r.random() < .4 else jnp.asarray(core.rand_psi(r, n))
                    return f'{mode} expectation with {k} shots', lambda: expectation(st, c, ob, {'u': 0.1}, mode, n_shots=k)
                yield need_raise(f'wide expectation {mode} n_shots={k}', mk, ('expectation',), runs=1)
    for L in sizes((1, 2, 4, 6, 10), 1, 24):
        for where in ('run', 'ad', 'gpsr', 'adjoint', 'dm', 'sample', 'tensor', 'sparse', 'scale'):
            def mk(r, L=L, where=where):
                n = 2
                ops = [('r', G.ROT[r.integers(4)], f'p{i}', (int(r.integers(n)),), ()) for i in range(L + 1)]
                v = {f'p{i}': float(r.uniform(-3, 3)) for i in range(L + 1)}
                kill = f'p{int(r.integers(L + 1))}'
                v.pop(kill)
                c, st, ob = B.circ(ops, n), jnp.asarray(core.rand_psi(r, n)), obs_of(r, n)
                th = {'run': lambda: run(c, st, v), 'ad': lambda: expectation(st, c, ob, v, 'ad'), 'gpsr': lambda: expectation(st, c, ob, v, 'gpsr'),
                      'adjoint': lambda: expectation(st, c, ob, v, 'adjoint'), 'dm': lambda: run(c, dm_of(r, n), v), 'sample': lambda: sample(st, c, v, 3),
                      'tensor': lambda: c.tensor(v), 'sparse': lambda: run(to_sparse(c), BCOO.fromdense(st), v),
                      'scale': lambda: [Scale(B.build(('g', 'X', (0,), ())), kill)(st, v), Scale(B.build(('g', 'X', (0,), ())), kill).tensor(v)][int(r.integers(2))]}[where]
                return f'{where} with {L} of {L + 1} values, {kill} missing', th
            yield need_raise(f'wide missing value {where} {L}', mk, ('parse_values', where), runs=1)
    for n in sizes((3, 5, 7, 9), 1, 12):
        for what in ('psi', 'dm', 'noisy', 'sparse'):
            if n > 6 and what in ('dm', 'noisy'):
                continue
            for j in (n, n + 1, n + 7):
                def mk(r, n=n, what=what, j=j):
                    qs = [int(x) for x in r.permutation(n)]
                    k = int(r.integers(0, min(n, 3) + 1))
                    if r.random() < .5 or k == 0:
                        op = ('g', 'X', (j,), tuple(qs[:k]))
                    else:
                        op = ('g', 'X', (qs[0],), (j,) + tuple(qs[1:k]))
                    if n > 1 and r.random() < .3:
                        op = ('g', 'SWAP', (j, qs[0]) if r.random() < .5 else (qs[0], j), ())
                    if what == 'noisy':
                        op = ('g', 'X', (j,), (), (('BitFlip', 0.2),))
                    st = jnp.asarray(core.rand_psi(r, n))
                    if what == 'dm':
                        st = density_mat(st)
                    if what == 'sparse':
                        st = BCOO.fromdense(st)
                    g = B.build(op, what == 'sparse')
                    return f'{G.short(op)} on {n} qubits, {what}', lambda: apply_gates(st, [g], {})
                yield need_raise(f'wide qubit {j} of {n} {what}', mk, ('apply_gates',), runs=2)
    for k in sizes((3, 5, 8), 2, 10):
        def mk(r, k=k):
            lab = [int(x) for x in r.permutation(2 * k)]
            op = G.rand_gate(r, lab[:3], lit=True, names=('a',))
            sup = O.support(op)
            if r.random() < .5:
                op = ('seq', [op, ('g', 'X', (lab[3],), ())])
                sup = O.support(op)
            drop = sup[int(r.integers(len(sup)))]
            full = tuple(x for x in lab if x != drop)[:k + 2]
            return f'{G.short(op)} on the support {full}', lambda: B.build(op).tensor({'a': 0.3}, full)
        yield need_raise(f'wide support {k}', mk, ('tensor', 'expand_operator'), runs=5)


def wide(pid):
    for s in globals()[pid.lower()]():
        yield s


def every(mod, pid):
    """all scenarios of a property"""
    from .props.common import anylist
    yield from anylist(pid)
    yield from mod.scenarios()
    yield from wide(pid)
