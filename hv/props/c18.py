from .common import *
from ..build import OpSequence, Scale, Add, Observable, QuantumCircuit, hea, to_sparse
from collections import Counter as Cn

CONTRACTS = [
    'param_names: ensures exactly the string angles of the gates reachable by nesting',
    'vparams: ensures param_names minus fparams; n_vparams: ensures |vparams| (|param_names| on sequences); fparams kept as declared',
    'hea(n, L, rots, prefix): ensures the rotations rots in order on every qubit of every layer, all angles fresh distinct names with the prefix; every other gate is a controlled NOT between two different qubits of the register',
]
ASSUMPTIONS = ['uuid4 never repeats (its values may differ in one digit only)']
FN = ('param_names', 'vparams', 'n_vparams', 'hea')


def names(r, k):
    pool = ['a', 'b', 'theta', 'x_1', '', 'A', '0', 'v_', 'é', 'a b', 'aa', '1.5', 'None']
    return [str(x) for x in r.choice(pool, size=k, replace=False)]


def tree(r, n, depth, nm):
    """gates, rotations with name or number, scaled/added/nested sequences and circuits"""
    x = r.random()
    if depth == 0 or x < 0.45:
        g = G.rand_gate(r, range(n), names=tuple(nm), noise=0.2)
        return g
    kids = [tree(r, n, depth - 1, nm) for _ in range(int(r.integers(0, 4)))]
    if x < 0.65:
        return ('seq', kids)
    if x < 0.75:
        return ('add', kids or [('g', 'X', (0,), ())])
    if x < 0.85:
        return ('obs', kids or [('g', 'X', (0,), ())])
    if x < 0.93:
        return ('circ', kids)
    return ('scale', str(r.choice(nm)) + '_s' if r.random() < 0.5 else 0.5, kids[0] if kids else ('g', 'Z', (0,), ()))


def mk(op, n):
    if op[0] == 'circ':
        return QuantumCircuit(n, [mk(o, n) for o in op[1]])
    if op[0] == 'seq':
        return OpSequence([mk(o, n) for o in op[1]])
    if op[0] == 'add':
        return Add([mk(o, n) for o in op[1]])
    if op[0] == 'obs':
        return Observable([mk(o, n) for o in op[1]])
    if op[0] == 'scale':
        return Scale(mk(op[2], n), op[1])
    return B.build(op)


def want(op):
    if op[0] == 'r':
        return {op[2]} if isinstance(op[2], str) else set()
    if op[0] == 'g':
        return set()
    if op[0] == 'scale':
        return want(op[2])
    return set().union(*[want(o) for o in op[1]]) if op[1] else set()


def book(i):
    def run_(r):
        n = int(r.integers(1, 5))
        nm = names(r, int(r.integers(1, 6)))
        ops = [tree(r, n, int(r.integers(0, 5)), nm) for _ in range(int(r.integers(0, 6)))]
        w = set().union(*[want(o) for o in ops]) if ops else set()
        fp = [str(x) for x in r.permutation(sorted(w) + ['other'])[:int(r.integers(0, len(w) + 2))]]
        if fp and r.random() < 0.2:
            fp = fp + [fp[0]]
        ways = {'list': [mk(o, n) for o in ops], 'sequence': OpSequence([mk(o, n) for o in ops]), 'tuple': tuple(mk(o, n) for o in ops)}
        for how, body in ways.items():
            c = QuantumCircuit(n, body, list(fp))
            d = f'circuit of {label_(ops)} with declared {fp} ({how})'
            if set(c.param_names) != w or len(c.param_names) != len(w):
                return f'{d}: param_names {sorted(map(str, c.param_names))}, specified {sorted(w)}'
            if set(c.vparams) != w - set(fp) or len(c.vparams) != len(w - set(fp)):
                return f'{d}: vparams {sorted(map(str, c.vparams))}, specified {sorted(w - set(fp))}'
            if c.n_vparams != len(w - set(fp)):
                return f'{d}: n_vparams {c.n_vparams}, specified {len(w - set(fp))}'
            if list(c.fparams) != fp or c.n_qubits != n:
                return f'{d}: fparams {c.fparams}, n_qubits {c.n_qubits}'
        c0 = QuantumCircuit(n, [mk(o, n) for o in ops])
        if set(c0.vparams) != w or c0.n_vparams != len(w) or list(c0.fparams):
            return f'circuit without declared parameters: vparams {c0.vparams}, fparams {c0.fparams}, names {sorted(w)}'
        s = OpSequence([mk(o, n) for o in ops])
        if set(s.param_names) != w or s.n_vparams != len(w):
            return f'sequence {label_(ops)}: param_names {s.param_names}, n_vparams {s.n_vparams}, specified {sorted(w)}'
        o = Observable([mk(o, n) for o in ops])
        if set(o.param_names) != w or o.n_vparams != len(w):
            return f'observable {label_(ops)}: param_names {o.param_names}, n_vparams {o.n_vparams}, specified {sorted(w)}'
    return Custom(f'names {i}', run_, fn=FN, bound='sampled trees of depth at most 4', runs=12)


def label_(ops):
    def sh(o):
        if o[0] == 'circ':
            return 'circ(' + ';'.join(map(sh, o[1])) + ')'
        if o[0] in 'gr':
            return G.short(o)
        if o[0] == 'scale':
            return f'{o[1]}*{sh(o[2])}'
        return o[0] + '(' + ';'.join(map(sh, o[1])) + ')'
    return ';'.join(map(sh, ops))[:250]


def numeric(i):
    """numeric angles of any numeric type are not parameters"""
    def run_(r):
        vals = [0, 1, -2, 0.5, np.float64(0.3), np.float32(1.5), np.int64(2), jnp.asarray(0.7), True, np.array(0.2)]
        ops = []
        for v in vals:
            nm = G.ROT[int(r.integers(4))]
            g = getattr(B._pa, nm)(v, int(r.integers(3)))
            ops.append(g)
        ops.append(B._pa.RX('p', 0))
        r.shuffle(ops)
        c = QuantumCircuit(3, list(ops))
        if c.param_names != {'p'} or c.vparams != {'p'} or c.n_vparams != 1:
            return f'param_names {c.param_names}'
        d = QuantumCircuit(3, [o for o in ops if o.param is not None and not isinstance(o.param, str)])
        if d.param_names != set() or d.n_vparams != 0:
            return f'param_names {d.param_names} although every angle is a number'
    return Custom(f'numeric angles {i}', run_, fn=FN, bound='sampled', runs=3)


def ansatz(n, L, rots, prefix):
    def run_(r):
        rn = [getattr(B._pa, x) for x in rots]
        kw = {}
        if rots != ('RX', 'RY', 'RX'):
            kw['rot_fns'] = rn
        if prefix is not None:
            kw['variational_param_prefix'] = prefix
        g1, g2 = list(hea(n, L, **kw)), list(hea(n, L, **kw))
        pre = 'v_' if prefix is None else prefix
        nm = []
        for gates in (g1, g2):
            seq = {x: [] for x in range(n)}
            for g in gates:
                if isinstance(g, B._pa.Parametric):
                    if not isinstance(g.param, str) or not g.param.startswith(pre):
                        return f'parameter {g.param!r}'
                    nm.append(g.param)
                    sup = tuple(g.qubit_support)
                    if len(sup) != 1 or not 0 <= sup[0] < n:
                        return f'rotation on {sup}'
                    seq[sup[0]].append((g.generator_name, type(g).__name__))
                else:
                    sup = tuple(g.qubit_support)
                    if len(sup) != 2 or not all(isinstance(x, int) and 0 <= x < n for x in sup):
                        return f'entangling gate on {sup} of {n} qubits'
                    if g.generator_name not in ('X', 'NOT') or len(g.control[0]) != 1 or g.control[0][0] == g.target[0][0]:
                        return f'entangling gate {g}'
            wantseq = [(x(0.0, 0).generator_name, type(x(0.0, 0)).__name__) for x in rn] * L
            for x in range(n):
                if seq[x] != wantseq:
                    return f'rotations on qubit {x}: {[a for a, _ in seq[x]]}, specified {[a for a, _ in wantseq]}'
            if n > 1 and L > 0 and rn:
                cnt = Cn(tuple(g.qubit_support) for g in gates if not isinstance(g, B._pa.Parametric))
                if len({x for p in cnt for x in p}) != n:
                    return f'entangling gates reach only {sorted({x for p in cnt for x in p})} of {n} qubits'
        if len(set(nm)) != len(nm):
            return f'{len(nm)} rotations share {len(set(nm))} names'
        c = QuantumCircuit(n, g1)
        if c.n_vparams != n * L * len(rn):
            return f'the ansatz has {c.n_vparams} parameters, specified {n * L * len(rn)}'
        # every gate acts: the circuit runs and differs when any one parameter changes
        if n <= 3 and L <= 2 and c.n_vparams:
            v = {x: float(y) for x, y in zip(sorted(c.param_names), r.uniform(-2, 2, c.n_vparams))}
            x = np.asarray(run(c, jnp.asarray(core.rand_psi(r, n)), v))
            if not np.isfinite(x).all() or abs((abs(x) ** 2).sum() - 1) > 1e-9:
                return 'the ansatz does not give a state'
    return Custom(f'ansatz n={n} layers={L} {",".join(rots)} prefix={prefix!r}', run_, fn=('hea',), bound=f'n={n}, {L} layers')


def close_ids():
    def run_(r):
        for pos in range(32):
            st = stub_uuid(pos)
            if not st.size:
                continue
            with st:
                gates = list(hea(*((2, 2, [B._pa.RX, B._pa.RZ]) if st.size > 8 else (1, 1))))
            nm = [g.param for g in gates if isinstance(g, B._pa.Parametric)]
            if st.n > st.size:
                return None      # more identifiers drawn than there are
            if len(set(nm)) != len(nm):
                return f'{len(nm)} rotations share {len(set(nm))} names when the identifiers drawn differ in digit {pos} only: {sorted(nm)[:4]}'
    return Custom('ansatz names are as distinct as the identifiers drawn', run_, fn=('hea',), bound='identifiers which differ in one digit, at every position')


def scenarios():
    yield close_ids()
    for i in range(q(60, 24)):
        yield book(i)
    for i in range(4):
        yield numeric(i)
    for n in (1, 2, 3, 4, 5, 8):
        for L in (0, 1, 2, 3, 5):
            for rots in (('RX', 'RY', 'RX'), ('RZ',), ('RX', 'PHASE'), ()):
                if L * n <= 16:
                    yield ansatz(n, L, rots, [None, 'w', ''][(n + L) % 3])
