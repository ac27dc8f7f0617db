from .common import *

CONTRACTS = [
    'merge_operators: ensures the fold of the returned operators equals the fold of the given ones (products in order, equal targets and controls only)',
    'group_by_index: ensures a permutation of the gates that only moves gates past gates on other qubits',
    'apply_gates(merge_ops, group_gates): ensures the result does not depend on either flag',
]
ASSUMPTIONS = []
FN = ('merge_operators', 'group_by_index', 'prepare_sequence_reduce', 'apply_gates')
FLAGS = [(m, g) for m in (True, False) for g in (True, False)]


def rn(ops, m, g, optype=None, single=False):
    def f(s, v):
        gs = B.build(ops[0]) if single else [B.build(o) for o in ops]
        kw = {} if optype is None else dict(op_type=optype)
        return apply_gates(s, gs, v, group_gates=g, merge_ops=m, **kw)
    return f


def all_flags(key, ops, n, rho, sym=True, num=0, optype=None, single=False):
    for m, g in FLAGS:
        noisy = any(O.has_noise(o) for o in ops)
        yield state_scn(f'{key} merge={int(m)} group={int(g)} {"rho" if rho else "psi"} {label(ops)}', ops, n, rn(ops, m, g, optype, single), FN,
                        f'n={n}, {len(ops)} gates', rho=rho, out_rho=rho or noisy, sym=sym, num=num)


SHAPES1 = ['X', 'H', 'S', 'T', 'Y']


def scenarios():
    yield from matrix_gates('C08', FN)
    n = 2
    # adjacent gates on equal targets with equal / different controls, orders of non-commuting products
    atoms = [('g', 'H', (0,), ()), ('g', 'S', (0,), ()), ('r', 'RX', 'a', (0,), ()), ('g', 'X', (1,), ()), ('r', 'RY', 'b', (1,), ()),
             ('g', 'X', (0,), (1,)), ('g', 'H', (0,), (1,)), ('r', 'PHASE', 'a', (1,), (0,)), ('g', 'SWAP', (0, 1), ()), ('g', 'SQRTSWAP', (1, 0), ()), ('g', 'ISWAP', (1, 0), ())]
    k = 0
    for a, b in itertools.product(atoms, atoms):
        k += 1
        if not THOROUGH and k % 2:
            continue
        m, g = FLAGS[(k // 2) % 4]
        yield state_scn(f'pair merge={int(m)} group={int(g)} {label([a, b])}', [a, b], n, rn([a, b], m, g), FN, 'n=2, 2 gates')
    # interleavings with barriers
    for i in range(q(160, 50)):
        r = rng('c08', i)
        n = int(r.integers(2, 4))
        L = int(r.integers(3, 8 if n == 2 else 6))
        ops = []
        for _ in range(L):
            x = r.random()
            if ops and x < 0.35:               # repeat the support of an earlier gate
                p = ops[int(r.integers(len(ops)))]
                t, c = (p[2], p[3]) if p[0] == 'g' else (p[3], p[4])
                if len(t) == 2:
                    ops.append(('g', G.FIXED2[r.integers(4)], t if r.random() < .5 else t[::-1], c))
                else:
                    ops.append(('g', SHAPES1[r.integers(5)], t, c) if r.random() < .5 else ('r', G.ROT[r.integers(4)], str(r.choice(['a', 'b'])), t, c))
            else:
                ops.append(G.rand_gate(r, range(n), names=('a', 'b'), lit=False))
        m, g = FLAGS[i % 4] if not THOROUGH else FLAGS[0]
        rho = (i % 5 == 0) and n == 2
        if THOROUGH:
            yield from all_flags(f'mix{i}', ops, n, rho)
        else:
            yield state_scn(f'mix{i} merge={int(m)} group={int(g)} {"rho" if rho else "psi"} {label(ops)}', ops, n, rn(ops, m, g), FN, f'n={n}, {len(ops)} gates', rho=rho)
    # noisy mixtures
    for i in range(q(60, 20)):
        r = rng('c08n', i)
        n = 2
        ops = G.rand_ops(r, n, int(r.integers(2, 5)), names=('a', 'b'), lit=False, noise=0.4)
        if not any(O.has_noise(o) for o in ops):
            ops[-1] = ('g', 'T', (1,), (), G.rand_noise(r, 1))
        yield from (list(all_flags(f'noisy{i}', ops, n, bool(i % 2))) if THOROUGH else list(all_flags(f'noisy{i}', ops, n, bool(i % 2)))[i % 4::4])
    # long lists on larger registers, all flag values agree with the plain fold
    for i in range(q(40, 16)):
        r = rng('c08b', i)
        n = int(r.integers(4, 7))
        ops = G.rand_ops(r, n, int(r.integers(10, 30)), noise=0.1 if i % 4 == 0 else None) if not (i % 4 == 0) else G.rand_ops(r, min(n, 4), 8, noise=0.2)
        nn = n if i % 4 else min(n, 4)
        yield from all_flags(f'long{i}', ops, nn, i % 8 == 4, sym=False, num=1)
    # equal supports, many merges
    for i in range(q(24, 10)):
        r = rng('c08m', i)
        t, c = [((0,), ()), ((1,), (0,)), ((0, 1), ()), ((1, 0), ()), ((2,), (1, 0)), ((2,), (0, 1)), ((0, 2), (1,))][i % 7]
        n = 3
        ops = []
        for _ in range(int(r.integers(3, 6))):
            if len(t) == 2:
                ops.append(('g', G.FIXED2[r.integers(4)], t, c))
            else:
                ops.append(('g', SHAPES1[r.integers(5)], t, c) if r.random() < .5 else ('r', G.ROT[r.integers(4)], str(r.choice(['a', 'b'])), t, c))
        yield from list(all_flags(f'same{i}', ops, n, False))[:: (1 if THOROUGH else 2)]
    # sparse state
    for i in range(q(16, 6)):
        r = rng('c08s', i)
        n = 3
        ops = G.rand_ops(r, n, 6, names=('a', 'b'))
        for m, g in FLAGS:
            def f(s, v, ops=ops, m=m, g=g):
                return apply_gates(B.to_sparse(s), [B.build(o, True) for o in ops], v, group_gates=g, merge_ops=m)
            yield state_scn(f'sparse{i} merge={int(m)} group={int(g)} {label(ops)}', ops, n, f, FN, f'n={n}', sym=False, num=1)
    # a single gate object with the flags on
    for g in (('g', 'H', (1,), (0,)), ('r', 'RZ', 'a', (0,), ())):
        yield from all_flags('one', [g], 2, False, single=True)
        yield from all_flags('onelist', [g], 2, True)
