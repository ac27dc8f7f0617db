"""Generators of placements, gates, circuits and observables (seeded)."""
from __future__ import annotations
import itertools
import numpy as np

FIXED1 = ['I', 'X', 'Y', 'Z', 'H', 'S', 'T', 'NOT']
FIXED2 = ['SWAP', 'SQRTSWAP', 'ISWAP', 'ISQRTSWAP']
ROT = ['RX', 'RY', 'RZ', 'PHASE']


def placements(n, m, kmax):
    """all ordered tuples of m distinct targets and up to kmax ordered distinct controls"""
    for t in itertools.permutations(range(n), m):
        rest = [q for q in range(n) if q not in t]
        for k in range(0, min(kmax, len(rest)) + 1):
            for c in itertools.permutations(rest, k):
                yield t, c


def rand_place(rng, qubits, m, k):
    q = list(rng.permutation(list(qubits)))
    return tuple(int(x) for x in q[:m]), tuple(int(x) for x in q[m:m + k])


def rand_gate(rng, qubits, names=('a', 'b', 'c'), ctrl=True, two=True, rot=True, fixed=True, noise=None, lit=True, ctrl_rot=True, shift=True):
    qubits = list(qubits)
    kinds = []
    if fixed:
        kinds += ['f'] * 4
        if two and len(qubits) >= 2:
            kinds += ['t'] * 2
    if rot:
        kinds += ['r'] * 4
    kd = kinds[rng.integers(len(kinds))]
    m = 2 if kd == 't' else 1
    free = len(qubits) - m
    k = int(rng.choice([0, 0, 0, 1, 1, 2, 3])) if ctrl else 0
    if kd == 'r' and not ctrl_rot:
        k = 0
    k = min(k, free)
    t, c = rand_place(rng, qubits, m, k)
    ns = ()
    if noise is not None and m == 1 and rng.random() < noise:
        ns = rand_noise(rng)
    if kd == 'r':
        nm = ROT[rng.integers(4)]
        p = str(rng.choice(list(names))) if (not lit or rng.random() < 0.7) else float(np.round(rng.uniform(-7, 7), 3))
        if shift and rng.random() < 0.25:
            return ('r', nm, p, t, c, ns, float(np.round(rng.uniform(-5, 5), 5)))
        return ('r', nm, p, t, c, ns)
    nm = (FIXED1 if m == 1 else FIXED2)
    return ('g', nm[rng.integers(len(nm))], t, c, ns)


NOISES = [('BitFlip', 1), ('PhaseFlip', 1), ('Depolarizing', 1), ('PauliChannel', 3), ('AmplitudeDamping', 1),
          ('PhaseDamping', 1), ('GeneralizedAmplitudeDamping', 2)]


def rand_noise(rng, mx=3):
    out = []
    for _ in range(int(rng.integers(1, mx + 1))):
        kd, k = NOISES[rng.integers(len(NOISES))]
        if k == 1:
            out.append((kd, float(np.round(rng.random(), int(rng.choice([2, 7]))))))
        elif k == 2:
            out.append((kd, tuple(float(np.round(x, 6)) for x in rng.random(2))))
        else:
            out.append((kd, tuple(float(np.round(x * 0.999, 6)) for x in rng.dirichlet([1, 1, 1, 1])[:3])))
    return tuple(out)


def rand_ops(rng, n, length, **kw):
    return [rand_gate(rng, range(n), **kw) for _ in range(length)]


def rand_tree(rng, n, length, depth=2, **kw):
    """sequence tree of gates with random nesting; empty nested sequences included"""
    ops = []
    while length > 0:
        if depth > 0 and rng.random() < 0.3:
            l = int(rng.integers(0, min(3, length) + 1))
            ops.append(('seq', rand_tree(rng, n, l, depth - 1, **kw)))
            length -= max(l, 1)
        else:
            ops.append(rand_gate(rng, range(n), **kw))
            length -= 1
    return ops


PAULI = ['X', 'Y', 'Z']


def rand_obs(rng, n, names=(), depth=2, herm=True):
    """observable: list of Hermitian (or arbitrary) terms"""
    def term(d):
        r = rng.random()
        if d == 0 or r < 0.35:
            q = int(rng.integers(n))
            return ('g', str(rng.choice(PAULI + ['H', 'I'])), (q,), ())
        if r < 0.6:
            p = str(rng.choice(list(names))) if names and rng.random() < 0.5 else float(np.round(rng.uniform(-2, 2), 2))
            return ('scale', p, term(d - 1))
        if r < 0.8 and n >= 2:
            k = int(rng.integers(2, min(n, 3) + 1))
            qs = [int(x) for x in rng.permutation(n)[:k]]
            return ('seq', [('g', str(rng.choice(PAULI)), (q,), ()) for q in qs])
        return ('add', [term(d - 1) for _ in range(int(rng.integers(1, 3)))])
    return ('add', [term(depth) for _ in range(int(rng.integers(1, 4)))])


def ren(op, f):
    """rename parameters"""
    t = op[0]
    if t == 'r':
        return op[:2] + (f(op[2]),) + op[3:]
    if t == 'scale':
        return ('scale', f(op[1]), ren(op[2], f))
    if t in ('add', 'seq', 'obs'):
        return (t, [ren(o, f) for o in op[1]])
    return op


def short(op):
    t = op[0]
    if t == 'g':
        s = f'{op[1]}{list(op[2])}'
        if op[3]:
            s += f'c{list(op[3])}'
        if len(op) > 4 and op[4]:
            s += '!' + '+'.join(f'{k}({p})' for k, p in op[4])
        return s.replace(' ', '')
    if t == 'r':
        s = f'{op[1]}({op[2]}){list(op[3])}'
        if op[4]:
            s += f'c{list(op[4])}'
        if len(op) > 5 and op[5]:
            s += '!' + '+'.join(f'{k}({p})' for k, p in op[5])
        if len(op) > 6:
            s += f'>>{op[6]}'
        return s.replace(' ', '')
    if t == 'scale':
        return f'{op[1]}*{short(op[2])}'
    return t + '(' + ';'.join(short(o) for o in op[1]) + ')'
