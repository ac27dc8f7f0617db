from .common import *

CONTRACTS = [
    'Primitive.tensor / controlled / prepare_controlled: ensures the matrix of the (controlled) gate on its sorted support',
    'expand_operator: requires support within full_support; ensures M on its qubits and identity elsewhere, rows/columns ordered by the sorted full support; raises otherwise',
    'OpSequence/Add/Scale/Observable.tensor: ensures product (last op leftmost), sum, multiple of the parts on the common sorted support',
    'permute_basis, hilbert_reshape: ensures the row/column reordering',
]
ASSUMPTIONS = ['targets and controls are distinct']
FN = ('tensor', 'controlled', 'prepare_controlled', 'expand_operator', 'permute_basis', 'hilbert_reshape')


def scn(key, op, full=None, sparse=False, sym=True, num=0, sortq=True):
    """tensor(values, full) equals the matrix of the action on the sorted qubits"""
    nm = sorted(O.params(op))
    sup = O.support(op)
    qs = sorted(full) if full is not None else sup

    def real(a):
        g = B.build(op, sparse)
        return B.dense_out(g.tensor(env_of(a, nm)) if full is None else g.tensor(env_of(a, nm), full))

    # a spec-side reading of "multiplying a state by the matrix equals applying the operation"
    return Scn(key, env_inputs(nm), real, lambda d, k: O.mat(op, qs, env_of(d, nm), k), fn=FN,
               bound=f'{len(qs)} qubits', sym=sym, num=num)


def action(key, op, full, n):
    """matrix times flattened state equals the real action on the state (no specification in between)"""
    nm = sorted(O.params(op))
    pos = {x: i for i, x in enumerate(sorted(full))}

    def rel(o):
        t = o[0]
        if t == 'g':
            return ('g', o[1], tuple(pos[x] for x in o[2]), tuple(pos[x] for x in o[3]))
        if t == 'r':
            return ('r', o[1], o[2], tuple(pos[x] for x in o[3]), tuple(pos[x] for x in o[4])) + o[5:]
        if t == 'scale':
            return ('scale', o[1], rel(o[2]))
        return (t, [rel(x) for x in o[1]])
    ro = rel(op)

    def real(a):
        env = env_of(a, nm)
        M = B.build(op).tensor(env, full)
        return [(M @ a['s'].reshape(-1)).reshape((2,) * n), B.build(ro)(a['s'], env)]

    def spec(d, k):
        r = O.act(ro, d['s'], env_of(d, nm), k)
        return [r, r]
    return Scn(key, {'s': ('c', (2,) * n), **env_inputs(nm)}, real, spec, fn=FN + ('__call__',), bound=f'n={n}')


def rand_op(r, qs, depth=2):
    x = r.random()
    if depth == 0 or x < 0.3:
        return G.rand_gate(r, qs, names=('a', 'b'), lit=True)[:]
    if x < 0.55:
        return ('seq', [rand_op(r, qs, depth - 1) for _ in range(int(r.integers(1, 4)))])
    if x < 0.8:
        return ('add', [rand_op(r, qs, depth - 1) for _ in range(int(r.integers(1, 4)))])
    return ('scale', 'u' if r.random() < 0.5 else float(np.round(r.uniform(-2, 2), 2)), rand_op(r, qs, depth - 1))


def scenarios():
    yield from matrix_gates('C06', FN)
    yield from unbounded('C06')
    # gates: all placements within three and four qubits
    r = rng('c06')
    pl3 = [(t, c) for m in (1, 2) for t, c in G.placements(3, m, 3 - m)]
    for i, (t, c) in enumerate(pl3):
        nms = (G.FIXED1[1:] + G.ROT) if len(t) == 1 else G.FIXED2
        for j in range(2):
            nm = nms[(3 * i + 5 * j + 1) % len(nms)]
            op = ('r', nm, 'a', t, c) if nm in G.ROT else ('g', nm, t, c)
            yield scn(f'gate {G.short(op)}', op)
            yield scn(f'gate {G.short(op)} full 3', op, (0, 1, 2))
    pl4 = [(t, c) for m in (1, 2) for t, c in G.placements(4, m, 4 - m)]
    for i in (range(len(pl4)) if THOROUGH else r.permutation(len(pl4))[:36]):
        t, c = pl4[i]
        nms = (G.FIXED1[1:] + G.ROT) if len(t) == 1 else G.FIXED2
        nm = nms[i % len(nms)]
        op = ('r', nm, 'a', t, c) if nm in G.ROT else ('g', nm, t, c)
        yield scn(f'gate4 {G.short(op)}', op, None if i % 2 else (0, 1, 2, 3))
    # supports with gaps, large indices and any order
    for i in range(q(60, 30)):
        r = rng('c06g', i)
        pool = [int(x) for x in r.permutation(40)[:4]]
        op = G.rand_gate(r, pool[:3])
        full = tuple(int(x) for x in r.permutation(pool))
        yield scn(f'gap{i} {G.short(op)} full={full}', op, full)
        yield scn(f'gap{i} {G.short(op)} own', op)
    # generic matrix through expand_operator and permute_basis
    from horqrux.utils import operator_utils as ou
    ex = [((0,), (0, 1)), ((1,), (0, 1)), ((1,), (0, 1, 2)), ((2,), (0, 1, 2)), ((0, 2), (0, 1, 2)), ((1, 2), (0, 1, 2)), ((0, 1), (0, 1)), ((2, 5), (9, 5, 2)), ((3,), (3,)),
          ((1, 3), (0, 1, 2, 3)), ((0, 3), (3, 2, 1, 0)), ((2, 3), (0, 1, 2, 3)), ((7,), (11, 7, 3))]
    for sup, full in ex:
        m = len(sup)
        yield Scn(f'expand {sup}->{full}', {'M': ('c', (2 ** m, 2 ** m))}, lambda a, sup=sup, full=full: ou.expand_operator(a['M'], sup, full),
                  lambda d, k, sup=sup, full=full: O.full_op(d['M'], list(sup), [], sorted(full)), fn=('expand_operator', 'permute_basis', 'hilbert_reshape'), bound=f'{len(full)} qubits')
    # trees
    for i in range(q(150, 60)):
        r = rng('c06t', i)
        nq = int(r.integers(2, 4))
        qs = list(range(nq)) if i % 3 else [int(x) for x in r.permutation(15)[:nq]]
        op = rand_op(r, qs, 3 if i % 4 == 0 else 2)
        full = None if r.random() < 0.5 else tuple(int(x) for x in r.permutation(qs))
        yield scn(f'tree{i} {G.short(op)[:120]} full={full}', op, full)
        if i % 2 == 0:
            f2 = tuple(int(x) for x in r.permutation(qs))
            o2 = strip_noise(op)
            yield action(f'action{i} {G.short(op)[:110]} full={f2}', o2, f2, nq)
    for i in range(q(40, 14)):
        r = rng('c06b', i)
        nq = int(r.integers(4, 7))
        qs = [int(x) for x in r.permutation(20)[:nq]]
        op = rand_op(r, qs, 2)
        full = None if r.random() < 0.4 else tuple(int(x) for x in r.permutation(qs))
        yield scn(f'bigtree{i} {G.short(op)[:110]} full={full}', op, full, sym=False, num=1)
    # Observable, circuits and gate iterables share the matrix form
    for i in range(q(20, 8)):
        r = rng('c06o', i)
        ob = G.rand_obs(r, 3, names=('u',))
        nm = sorted(O.params(ob))
        yield Scn(f'observable{i} {G.short(ob)[:110]}', env_inputs(nm), lambda a, ob=ob, nm=nm: B.build(('obs', ob[1])).tensor(env_of(a, nm), (2, 0, 1)),
                  lambda d, k, ob=ob, nm=nm: O.mat(ob, [0, 1, 2], env_of(d, nm), k), fn=('Observable.tensor',), bound='3 qubits')
        ops = G.rand_tree(r, 3, 4, names=('a',))
        ops = [o for o in ops if O.support(o)]
        if ops and not any(o[0] == 'seq' and any(not O.support(x) for x in o[1]) for o in ops):
            nm2 = names_of(ops)
            yield Scn(f'circuit{i} {label(ops)}', env_inputs(nm2), lambda a, ops=ops, nm2=nm2: B.circ(ops, 3).tensor(env_of(a, nm2), (0, 1, 2)),
                      lambda d, k, ops=ops, nm2=nm2: O.mat(('seq', ops), [0, 1, 2], env_of(d, nm2), k), fn=('OpSequence.tensor',), bound='3 qubits')
    # sparse tensors
    for i in range(q(24, 10)):
        r = rng('c06s', i)
        qs = [int(x) for x in r.permutation(6)[:3]]
        op = strip_noise(rand_op(r, qs, 1))
        yield scn(f'sparse tree{i} {G.short(op)[:110]}', op, None if i % 2 else tuple(int(x) for x in r.permutation(qs)), sparse=True)
    # errors: a support that misses one of the qubits
    for i in range(q(40, 16)):
        r = rng('c06e', i)
        qs = [int(x) for x in r.permutation(8)[:3]]
        op = strip_noise(rand_op(r, qs, 2 if i % 2 else 0))
        sup = O.support(op)
        miss = int(r.choice(sup))
        full = tuple(x for x in range(8) if x != miss) if i % 3 == 0 else tuple(x for x in sup if x != miss) + (9,)
        nm = sorted(O.params(op))
        yield Scn(f'error{i} {G.short(op)[:100]} full={full}', env_inputs(nm), lambda a, op=op, full=full, nm=nm: B.dense_out(B.build(op).tensor(env_of(a, nm), full)),
                  raises=(ValueError,), fn=('expand_operator', 'tensor'), bound='8 labels', num=1)


def strip_noise(o):
    t = o[0]
    if t == 'g':
        return o[:4]
    if t == 'r':
        return o[:5] + (((),) + o[6:] if len(o) > 6 else ())
    if t == 'scale':
        return ('scale', o[1], strip_noise(o[2]))
    return (t, [strip_noise(x) for x in o[1]])
