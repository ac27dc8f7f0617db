from .common import *

CONTRACTS = [
    'OpSequence.__call__ / QuantumCircuit.__call__ / run: ensures the left fold of the operations over the state, whatever the nesting',
    'Add.__call__: ensures the sum of the terms applied to the same input state',
    'Scale.__call__: ensures value(parameter) times the wrapped operation as a whole',
    'apply_gates(list): ensures the same fold; empty list and empty sequence are the identity',
]
ASSUMPTIONS = ['sums and scalings act on state vectors (they are not linear operations on density matrices)']
FN = ('OpSequence.__call__', 'Add.__call__', 'Scale.__call__', 'apply_gates', 'run', 'OpSequence.__iter__')


def flatg(ops):
    return [g for o in ops for g in O.flat(o)]


def one_by_one(s, v, ops, n):
    for g in flatg(ops):
        s = apply_gates(s, B.build(g), v)
    return s


def calls(s, v, ops, n):
    for o in ops:
        s = B.build(o)(s, v)
    return s


def tuples(o):
    """sequences given as tuples of operations instead of lists"""
    return B.OpSequence(tuple(tuples(x) for x in o[1])) if o[0] == 'seq' else B.build(o)


FORMS = {
    'run': lambda s, v, ops, n: run(B.circ(ops, n), s, v),
    'circ': lambda s, v, ops, n: B.circ(ops, n)(s, v),
    'seq': lambda s, v, ops, n: B.OpSequence([B.build(o) for o in ops])(s, v),
    'nested': lambda s, v, ops, n: B.OpSequence([B.OpSequence([B.build(o) for o in ops])])(s, v),
    'list': lambda s, v, ops, n: apply_gates(s, [B.build(g) for g in flatg(ops)], v),
    'tuple': lambda s, v, ops, n: apply_gates(s, tuple(B.build(g) for g in flatg(ops)), v),
    'gen': lambda s, v, ops, n: apply_gates(s, (B.build(g) for g in flatg(ops)), v),
    'single': one_by_one,
    'calls': calls,
    'iter': lambda s, v, ops, n: apply_gates(s, list(iter(B.circ(ops, n))), v),
    'iterseq': lambda s, v, ops, n: apply_gates(s, iter(B.OpSequence([B.build(o) for o in ops])), v),
    'tupleseq': lambda s, v, ops, n: tuples(('seq', ops))(s, v),
}


def tree(r, n, length, depth, names=('a', 'b')):
    out = []
    for _ in range(length):
        x = r.random()
        if depth > 0 and x < 0.25:
            out.append(('seq', tree(r, n, int(r.integers(0, 3)), depth - 1, names)))
        elif depth > 0 and x < 0.42:
            out.append(('add', [y for y in tree(r, n, int(r.integers(1, 4)), depth - 1, names)]))
        elif depth > 0 and x < 0.6:
            inner = tree(r, n, 1, depth - 1, names)[0]
            if r.random() < 0.3:
                inner = ('seq', tree(r, n, int(r.integers(1, 3)), depth - 1, names))
            p = str(r.choice(['u', 'w', 'a'])) if r.random() < 0.6 else float(np.round(r.uniform(-3, 3), 2))
            out.append(('scale', p, inner))
        else:
            out.append(G.rand_gate(r, range(n), names=names))
    return out


def scenarios():
    forms = list(FORMS)
    # flat and nested sequences of gates through every entry point
    for i in range(q(180, 84)):
        r = rng('c07', i)
        n = int(r.integers(1, 4))
        ops = G.rand_tree(r, n, int(r.integers(0, 5)), depth=3)
        fm = forms[i % len(forms)]
        rho = r.random() < 0.25 and n < 3
        yield state_scn(f'form{i} {fm} n={n} {"rho" if rho else "psi"} {label(ops)}', ops, n,
                        lambda s, v, ops=ops, fm=fm, n=n: FORMS[fm](s, v, ops, n), FN, f'n={n}, {len(flatg(ops))} gates', rho=rho)
    # empty programs
    for fm in forms:
        for ops in ([], [('seq', [])], [('seq', [('seq', [])]), ('seq', [])]):
            for rho in (False, True):
                yield state_scn(f'empty {fm} {label(ops)} {"rho" if rho else "psi"}', ops, 2,
                                lambda s, v, ops=ops, fm=fm: FORMS[fm](s, v, ops, 2), FN, 'n=2', rho=rho)
    # sums and scalings anywhere in the tree
    cf = ['seq', 'circ', 'run', 'calls', 'nested', 'tupleseq']
    for i in range(q(200, 80)):
        r = rng('c07t', i)
        n = int(r.integers(1, 4))
        ops = tree(r, n, int(r.integers(1, 4)), 3 if i % 3 else 2)
        fm = cf[i % len(cf)]
        if i % 4 == 0:
            def rn(s, v, ops=ops, n=n):
                return B.circ(ops, n, memo={})(s, v)
            yield state_scn(f'tree shared{i} n={n} {label(ops)}', ops, n, rn, FN, f'n={n}')
        yield state_scn(f'tree{i} {fm} n={n} {label(ops)}', ops, n, lambda s, v, ops=ops, fm=fm, n=n: FORMS[fm](s, v, ops, n), FN, f'n={n}')
    # fixed shapes: what Scale and Add wrap
    h, x, rx = ('g', 'H', (0,), ()), ('g', 'X', (1,), (0,)), ('r', 'RX', 'a', (1,), ())
    for nm, op in {
        'scale(seq)': ('scale', 'u', ('seq', [h, x])), 'scale(add)': ('scale', 'u', ('add', [h, x])), 'scale(scale)': ('scale', 2.5, ('scale', 'u', h)),
        'scale(0)': ('scale', 0.0, x), 'scale(-1)': ('scale', -1, x), 'scale(int)': ('scale', 3, x), 'add(scale,seq)': ('add', [('scale', 'u', h), ('seq', [x, rx])]),
        'add(one)': ('add', [rx]), 'add(same,same)': ('add', [h, h]), 'scale shares the name of a gate': ('scale', 'a', rx),
        'add(add)': ('add', [('add', [h, x]), ('add', [rx])]), 'seq(add,scale)': ('seq', [('add', [h, x]), ('scale', 'u', rx), h]),
    }.items():
        for wrap in ('plain', 'seq', 'circ'):
            def rn(s, v, op=op, wrap=wrap):
                b = B.build(op)
                if wrap == 'seq':
                    b = B.OpSequence([b])
                if wrap == 'circ':
                    b = B.QuantumCircuit(2, [b])
                return b(s, v)
            yield state_scn(f'{nm} {wrap}', [op], 2, rn, FN, 'n=2')
    # complex factors, named and literal
    for i, (u, op) in enumerate([(1j, h), (0.5 - 2j, x), (-1j, ('add', [h, rx])), (2 + 1j, ('seq', [h, x]))]):
        yield state_scn(f'complex literal factor {u} {G.short(op)}', [('scale', u, op)], 2, lambda s, v, u=u, op=op: B.Scale(B.build(op), u)(s, v) if op[0] in ('seq', 'add') else B.build(('scale', u, op))(s, v), FN, 'n=2', num=1)
        yield Scn(f'complex named factor {G.short(op)}', {'s': ('c', (2, 2)), 'u': ('c', ()), 'a': ('r',)}, lambda a, op=op: B.build(('scale', 'u', op))(a['s'], {'u': a['u'], 'a': a['a']}),
                  lambda d, k, op=op: O.act(('scale', 'u', op), d['s'], {'u': d['u'].item() if hasattr(d['u'], 'item') else d['u'], 'a': d['a']}, k), fn=FN, bound='n=2', num=1)
    # one object used several times
    rep = [[('add', [h, h])], [('add', [h, x, h])], [h, x, h, h], [('add', [('seq', [h, x]), ('seq', [h, x])]), h], [('seq', [rx, x, rx])],
           [('scale', 'u', ('add', [x, x])), ('add', [('scale', 'u', h), ('scale', 'u', h), rx])], [('add', [('add', [h, x]), ('add', [h, x]), h])]]
    for i, ops in enumerate(rep):
        for fm in ('seq', 'circ', 'list'):
            if fm == 'list' and any(o[0] != 'g' for o in ops):
                continue
            def rn(s, v, ops=ops, fm=fm):
                m = {}
                if fm == 'list':
                    return apply_gates(s, [B.build(o, memo=m) for o in ops], v)
                return (B.circ(ops, 2, memo=m) if fm == 'circ' else B.OpSequence([B.build(o, memo=m) for o in ops]))(s, v)
            yield state_scn(f'shared object {i} {fm} {label(ops)}', ops, 2, rn, FN, 'n=2')
    # Scale with a list argument, an Add inside QuantumCircuit, Observable.forward
    yield state_scn('Scale([g1,g2])', [('scale', 'u', ('seq', [h, x]))], 2, lambda s, v: B.Scale([B.build(h), B.build(x)], 'u')(s, v), FN, 'n=2')
    yield state_scn('Scale(OpSequence)', [('scale', 'u', ('seq', [h, x]))], 2, lambda s, v: B.Scale(B.OpSequence([B.build(h), B.build(x)]), 'u')(s, v), FN, 'n=2')
    yield state_scn('Scale(circuit)', [('scale', 'u', ('seq', [h, x]))], 2, lambda s, v: B.Scale(B.QuantumCircuit(2, [B.build(h), B.build(x)]), 'u')(s, v), FN, 'n=2')
    yield state_scn('Observable.forward', [('add', [h, ('scale', 'u', x), ('seq', [h, x])])], 2,
                    lambda s, v: B.Observable([B.build(h), B.build(('scale', 'u', x)), B.build(('seq', [h, x]))]).forward(s, v), FN, 'n=2')
    yield state_scn('apply_gates default values', [h, x], 2, lambda s, v: apply_gates(s, [B.build(h), B.build(x)]), FN, 'n=2')
    yield state_scn('circuit of one primitive', [h], 2, lambda s, v: B.QuantumCircuit(2, B.build(h))(s), FN, 'n=2')
    # longer programs, more qubits (concrete)
    for i in range(q(60, 24)):
        r = rng('c07b', i)
        n = int(r.integers(4, 8))
        ops = G.rand_tree(r, n, int(r.integers(8, 25)), depth=4) if i % 2 else tree(r, n, int(r.integers(3, 8)), 3)
        fm = forms[i % len(forms)] if i % 2 else cf[(i // 2) % len(cf)]
        yield state_scn(f'long{i} {fm} n={n} {label(ops)}', ops, n, lambda s, v, ops=ops, fm=fm, n=n: FORMS[fm](s, v, ops, n), FN, f'n={n}', sym=False, num=1)
