"""The hardware-efficient ansatz with any number of qubits and layers."""
from __future__ import annotations
import z3
from .obl import *
from . import obl, val, load, loop
from ..una import sym
from ..una.sym import var

I = z3.IntSort()


class Ix:
    """an integer which depends on the positions in the loops"""
    def __init__(self, z):
        self.z = z

    def hv_sub(self, a, b):
        return Ix(z3.substitute(self.z, (a, b)))

    def hv_mentions(self, a):
        return val.mentions(self.z, a)

    @staticmethod
    def of(o):
        if isinstance(o, Ix):
            return o.z
        if isinstance(o, SymInt):
            return o.l.z3()
        if isinstance(o, int):
            return z3.IntVal(o)
        return None

    def _op(self, o, f):
        z = Ix.of(o)
        return NotImplemented if z is None else Ix(z3.simplify(f(self.z, z)))

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._op(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __mod__(self, o):
        z = Ix.of(o)
        if z is None or not ent(z > 0):
            raise Unsupported('modulus')
        return Ix(self.z % z)

    def _cmp(self, o, f):
        z = Ix.of(o)
        return NotImplemented if z is None else val.decide(f(self.z, z))

    def __eq__(self, o):
        return True if isinstance(o, Ix) and o.z.eq(self.z) else self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)
    __hash__ = None


class Rot(Ix):
    """rotation number j of the list, on a qubit, with the name drawn last"""
    def __init__(self, j, z, param):
        self.j, self.z, self.param = j, z, param

    def hv_sub(self, a, b):
        return Rot(self.j, z3.substitute(self.z, (a, b)), self.param)

    def __eq__(self, o):
        return self is o or isinstance(o, Rot) and (self.j, self.param) == (o.j, o.param) and o.z.eq(self.z)


class Ent:
    """entangling gate"""
    def __init__(self, t, c):
        self.t, self.c = t, c

    def hv_sub(self, a, b):
        return Ent(*(z3.substitute(x, (a, b)) for x in (self.t, self.c)))

    def hv_mentions(self, a):
        return val.mentions(self.t, a) or val.mentions(self.c, a)

    def __eq__(self, o):
        return self is o or isinstance(o, Ent) and o.t.eq(self.t) and o.c.eq(self.c)
    __hash__ = None


def rng_(*a):
    if not any(isinstance(x, SymInt) for x in a):
        if any(isinstance(x, Ix) for x in a):
            raise Unsupported('range')
        return range(*a)
    if len(a) != 1:
        raise Unsupported('range')
    n = a[0].l
    nm = f'range:{n!r}@{len(CTX.active)}'
    at = lambda z: uf('int:' + nm, z, sort=I)
    b = Base(nm, lambda z: Ix(at(z)), (lambda z: z3.And(at(z) >= 0, at(z) < n.z3()),))
    b.count, b.at = n, at
    CTX.solver.add(b.length().z3() == z3.If(n.z3() >= 0, n.z3(), 0))
    return AList('list', [Seg(b, False, [((), (Ix(at(b.var)),))])])


def ob_hea(m):
    """for every layer and every qubit: the m rotations in order, each with a name drawn for it; otherwise only X gates with one
    control, on two different qubits of the register"""
    TOK = []

    class U:
        def __init__(self):
            TOK.append(frozenset(CTX.active))
            self.k = f'\0{len(TOK) - 1}\0'

        def __str__(self):
            return self.k

    def fn(j):
        def f(name, qubit, *a, **k):
            if not isinstance(name, str) or a or k or Ix.of(qubit) is None:
                raise Unsupported('rotation')
            return Rot(j, Ix.of(qubit), name)
        return f

    def NOT(t, c=None, *a, **k):
        if a or k or Ix.of(t) is None or Ix.of(c) is None:
            raise Unsupported('entangling gate')
        return Ent(Ix.of(t), Ix.of(c))

    def body():
        C = mod('circuit')
        n, L = var('n'), var('L')
        CTX.solver.add(n.l.z3() >= 2, L.l.z3() >= 1)
        CTX.vars |= {'n', 'L'}
        had = 'range' in vars(C)
        with patched((C, 'uuid4', U), (C, 'NOT', NOT)):
            C.range = rng_
            try:
                return C.hea(n, L, [fn(j) for j in range(m)], 'pre')
            finally:
                if not had:
                    del C.range

    def spec(r):
        n = var('n').l.z3()
        found, ents = [], [0]

        def walk(ps, ctx):
            rots = [p for p in ps if isinstance(p, Rot)]
            if rots:
                found.append((rots, ctx))
            for p in ps:
                if isinstance(p, Rot):
                    continue
                if isinstance(p, Ent):
                    ents[0] += 1
                    need(ent(z3.And(p.t >= 0, p.t < n, p.c >= 0, p.c < n, p.t != p.c)), 'entangling gate outside the register or on one qubit')
                elif isinstance(p, Seg):
                    for c, items in p.cases:
                        CTX.enter(*c, *[q(p.base.var) for q in p.base.preds])
                        try:
                            if CTX.solver.check() != z3.unsat:
                                walk(items, ctx + [p.base])
                        finally:
                            CTX.leave()
                elif isinstance(p, AList):
                    walk(p.parts, ctx)
                else:
                    raise Unsupported(f'gate {type(p).__name__}')
        walk(parts(r), [])
        if len(found) != 1:
            raise Unsupported('rotations in several places')
        rots, ctx = found[0]
        if [str(b.count) for b in ctx] != [str(var('L').l), str(var('n').l)]:
            raise Unsupported('order of the loops')
        if [x.j for x in rots] != list(range(m)):
            raise Wrong(f'rotations {[x.j for x in rots]} instead of {list(range(m))}')
        b = ctx[1]
        seen = set()
        for x in rots:
            if not ent(x.z == b.at(b.var)):
                raise Wrong('a rotation is not on the qubit of the iteration')
            if not (x.param.startswith('pre\0') and x.param.count('\0') == 2 and x.param.endswith('\0')):
                raise Unsupported('name')
            k = int(x.param.split('\0')[1])
            if k in seen or not {c.name for c in ctx} <= TOK[k]:
                raise Unsupported('name drawn once for several rotations')
            seen.add(k)
        if not ents[0]:
            raise Wrong('no entangling gate')

    def replay(env, rng):
        from ..props import c18
        for n in (2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 33):
            for L in (1, 2, 3):
                r = c18.ansatz(n, L, ('RX', 'RY', 'RX')[:m], None).run(rng)
                if r is not None:
                    return f'{n} qubits, {L} layers: {r}'
    return Lst(f'ansatz of any size with {m} rotations per qubit', ('hea',), body, spec, replay)
