"""Parameter-shift gradients of any circuit: analytical_gpsr_bwd and finite_shots_gpsr_backward on any number of gates, any number of names, any sharing of names
between gates. Numbers are linear forms over what the circuit's expectation is as a function of one shifted angle:

    E(shift d of gate i) = E + B_i (cos d - 1) + C_i sin d        (every gate here has spectral gap 2: obligation 'shift rule')

so the derivative with respect to that gate's angle is C_i, and with respect to a name it is the sum of C_i over the gates which carry it. Shifting the *value* of a name
has this form only where at most one gate carries the name. The utilities are represented by their contracts (obligations of their own)."""
from __future__ import annotations
import functools, math, types
import numpy as np
import z3
from .obl import *
from . import obl, val, load, loop
from .comp import KeyDict, Keys, rep
from ..una.sym import var


class Q:
    """per observable (or summed over them): a linear form"""
    __hv__ = True

    def __init__(self, t, tot=False):
        self.t, self.tot = {k: c for k, c in t.items() if abs(c) > 1e-9}, tot

    def __add__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        if not isinstance(o, Q) or o.tot != self.tot:
            raise Unsupported('sum of numbers')
        t = dict(self.t)
        for k, c in o.t.items():
            k = same_key(k, t)
            t[k] = t.get(k, 0) + c
        return type(self)(t, self.tot)
    __radd__ = __add__

    def __neg__(self):
        return self * -1.0

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, c):
        if isinstance(c, Q) or load.symbolic(c):
            raise Unsupported('product of numbers')
        c = float(np.asarray(c).reshape(()) if np.asarray(c).size == 1 else math.nan)
        if math.isnan(c):
            raise Unsupported('factor')
        return type(self)({k: x * c for k, x in self.t.items()}, self.tot)
    __rmul__ = __mul__

    def __truediv__(self, c):
        if isinstance(c, Q) or load.symbolic(c):
            raise Unsupported('quotient of numbers')
        return self * (1.0 / float(np.asarray(c).reshape(())))

    def reshape(self, *a):
        return self
    flatten = ravel = reshape

    def sum(self, axis=None, **k):
        if self.tot:
            raise Unsupported('sum')
        return type(self)(self.t, True)

    def hv_total(self, base, conds):
        """the sum over the elements of a list which satisfy the conditions"""
        return type(self)({('sum', base.name, z3.And(*conds) if conds else z3.BoolVal(True), k): c for k, c in self.t.items()}, self.tot)

    def hv_sub(self, a, b):
        return type(self)({val.sub(k, a, b): c for k, c in self.t.items()}, self.tot)

    def hv_mentions(self, a):
        return val.mentions(tuple(self.t), a)

    def __repr__(self):
        return 'Q' + str(self.t)


def same(a, b):
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        if not (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef)) or a.sort() != b.sort():
            return False
        return a.eq(b) or ent(a == b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def same_key(k, t):
    for x in t:
        if same(x, k):
            return x
    return k


F = 'F'


def name():
    return A(names_base().var)


def names_base():
    return Base(F, A)


class Ks(Keys):
    """the names of the dictionary of values, in its order"""
    def __init__(self):
        super().__init__(name())

    @property
    def hv_parts(self):
        b = names_base()
        return [Seg(b, False, [((), (A(b.var),))])]

    def symlen(self):
        return mk(names_base().length())

    def has(self, x):
        return True if decide(term(x) == self.k.z) else decide(pred('in:F', term(x)))
    __contains__ = has


class KD(KeyDict):
    def values(self):
        b = names_base()
        return AList('tuple', [Seg(b, False, [((), (self.at,))])])

    def keys(self):
        return self.keys_


class V:
    """the value of a name, shifted"""
    __hv__ = True

    def __init__(self, z, d=0.0):
        self.z, self.d = z, d

    def __add__(self, c):
        if load.symbolic(c):
            raise Unsupported('value')
        return V(self.z, self.d + float(c))
    __radd__ = __add__

    def __sub__(self, c):
        return self + (-float(c))


class VD:
    """the dictionary of values; in a copy, values may be replaced by shifted ones"""
    __hv__ = True

    def __init__(self, own=False, over=()):
        self.own, self.over = own, list(over)

    def keys(self):
        return Ks()
    hv_parts = property(lambda s: s.keys().hv_parts)

    def symlen(self):
        return Ks().symlen()

    def copy(self):
        return VD(True, self.over)

    def __getitem__(self, k):
        z = term(k)
        if z is None:
            raise Unsupported('key')
        for n, v in reversed(self.over):
            if decide(n == z):
                return v
        return V(z)

    def __setitem__(self, k, v):
        if not self.own:
            raise Mutation('the values are changed in place')
        if not isinstance(v, V) or not ent(term(k) == v.z):
            raise Unsupported('a value replaced by the value of another name')
        self.over.append((term(k), v))

    def has(self, k):
        z = term(k)
        return False if z is None or isinstance(k, str) else True
    __contains__ = has

    def shifts(self):
        out = []
        for n, v in self.over:
            out = [(m, w) for m, w in out if not ent(m == n)] + [(n, v)]
        return [(n, v.d) for n, v in out if v.d]


class Count(SymInt):
    """how many gates carry the name"""
    def hv_max(self, base):
        m = var('int:maxcount')
        loop.assume(lin(m).z3() >= self.l.z3(), z3.Implies(lin(var('int:named')).z3() > lin(var('int:distinct')).z3(), lin(m).z3() >= 2))
        return m


def count():
    c = Count(lin(var('int:count')))
    return c


class Positions(AList):
    """the positions of the gates which carry the name"""
    def __init__(self):
        L, b = gates('L', (), gate_class())
        c = carries(b.var)
        super().__init__('tuple', [Seg(b, False, [((c,), (A(uf('index', b.var)),)), ((z3.Not(c),), ())])], True)

    def symlen(self):
        return count()


def carries(z):
    return z3.And(pred('is_parametric', z), uf('param', z) == name().z)


class GateNames:
    """the names which gates carry, with repetitions"""
    __hv__ = True

    def symlen(self):
        return var('int:named')

    def hv_set(self):
        return types.SimpleNamespace(__hv__=True, symlen=lambda: var('int:distinct'))


class Gates(AList):
    """the gates; one of them by its position"""
    def __init__(self):
        L, b = gates('L', (), gate_class())
        super().__init__('list', L.parts, True)

    def __getitem__(self, i):
        if isinstance(i, A) and i.z.num_args() == 1 and i.z.decl().eq(uf('index', i.z.arg(0)).decl()):
            return gate_class()(i.z.arg(0))
        return super().__getitem__(i)


class Shifted:
    __hv__ = True

    def __init__(self, z, d):
        self.z, self.d = z, d


class Marker:
    """the values of the observables, to be differentiated"""
    __hv__ = True


def shift_form(dirn, d):
    return Q({('E',): 1.0, ('B',) + dirn: math.cos(d) - 1.0, ('C',) + dirn: math.sin(d)})


def estimate(st, obs, separate):
    def f(state_, gates_, observables, values, n_shots=None, key=None):
        need(state_ is st, 'the state')
        need(observables is obs, 'the observables')
        if n_shots is not None:
            need(ent(lin(n_shots).z3() == lin(var('int:n_shots')).z3()), 'the number of shots')
        if isinstance(values, dict):
            need(set(values) == {'circuit', 'observables'}, 'the values')
            vc, vo = values['circuit'], values['observables']
        else:
            vc = vo = values
            need(isinstance(vc, VD) and (not separate or not vc.shifts()), 'the values of the observables are shifted')
        need(isinstance(vc, VD) and (isinstance(vo, Marker) or isinstance(vo, VD) and (not separate or not vo.shifts())), 'the values')
        sh = vc.shifts()
        if isinstance(gates_, Shifted):
            need(not sh and isinstance(vo, VD), 'two shifts')
            return shift_form(('gate', gates_.z), gates_.d)
        need(isinstance(gates_, Gates), 'the gates')
        if isinstance(vo, Marker):
            need(not sh, 'shifted values')
            return Q({('obs',): 1.0})
        if not sh:
            return Q({('E',): 1.0})
        need(len(sh) == 1, 'two values are shifted')
        need(ent(sh[0][0] == name().z), 'another name is shifted')
        need(ent(count().l.z3() <= 1), 'the value of a name carried by several gates is shifted')
        return shift_form(('name', sh[0][0]), sh[0][1])
    return f


class Jac:
    __hv__ = True

    def __getitem__(self, p):
        return Q({('D', term(p)): 1.0})


def jacfwd(f, *a, **k):
    if a or k:
        raise Unsupported('jacfwd')

    def g(v):
        need(isinstance(v, VD) and not v.over, 'the point of differentiation')
        r = f(Marker())
        need(isinstance(r, Q) and set(r.t) == {('obs',)} and abs(r.t[('obs',)] - 1) < 1e-9, 'the function of the observables')
        return Jac()
    return g


def split(key, n=2):
    if isinstance(n, int) and not load.symbolic(n):
        return [A(uf(f'split{i}', term(key))) for i in range(n)]
    b = names_base()
    if isinstance(n, Count):
        L, g = gates('L', (), gate_class())
        c = carries(g.var)
        return AList('tuple', [Seg(g, False, [((c,), (A(uf('splitL', term(key), g.var)),)), ((z3.Not(c),), ())])])
    if ent(lin(n).z3() == b.length().z3()):
        return AList('tuple', [Seg(b, False, [((), (A(uf('splitF', term(key), b.var)),))])])
    raise Unsupported('number of keys')


def facts_of_names():
    n, m, d = lin(var('int:count')).z3(), lin(var('int:named')).z3(), lin(var('int:distinct')).z3()
    loop.assume(names_base().length().z3() >= 1, n >= 0, m >= n, d >= 0, d <= m, z3.Implies(n >= 1, m - d >= n - 1))


def ob_bwd(which):
    shots = which == 'shots'

    def body():
        m = mod('differentiation.gpsr.shots' if shots else 'differentiation.gpsr.analytical')
        facts_of_names()
        st, (O, ob) = state(), gates('O', (), op_class())
        f = estimate(st, O, not shots)

        def prepare(names, gs):
            need(isinstance(gs, Gates) and isinstance(names, Ks) or eqparts(parts(names), Ks().hv_parts), 'names and gates')
            return KD(Ks(), Positions())

        def names(gs):
            need(isinstance(gs, Gates), 'gates')
            return GateNames()

        def alter(gs, i, d):
            need(isinstance(gs, Gates) and isinstance(i, A), 'gates')
            return Shifted(gs[i].z, float(d))

        def init(values):
            need(isinstance(values, VD), 'values')
            return Ks(), KD(Ks(), 2.0), math.pi / 2
        ps = [(m, 'prepare_param_gates_seq', prepare), (m, 'extract_gate_names', names), (m, 'alter_gate_sequence', alter), (m, 'initialize_gpsr_ingredients', init)]
        if shots:
            ps += [(m, 'jitted_finite_shots', f), (m, 'random', load.UProxy(m.random, split=split) if hasattr(m, 'random') else None)]
            with patched(*[p for p in ps if p[2] is not None]):
                return m.finite_shots_gpsr_backward(st, Gates(), O, VD(), mk(lin(var('int:n_shots'))), A(const('key')))
        j = load.UProxy(m.jax, jacfwd=jacfwd)
        ps += [(m, 'jitted_analytical_exp', f), (m, 'analytical_expectation', f), (m, 'jax', j)]
        with patched(*ps):
            return m.analytical_gpsr_bwd(st, Gates(), O, VD())

    def spec(r):
        need(isinstance(r, load.Stack) and r.axis == 0, 'the result is not a stack')
        ps = parts(r.items)
        b = names_base()
        need(len(ps) == 1 and isinstance(ps[0], Seg) and ps[0].base.name == b.name and not ps[0].rev, f'the derivatives are not listed in the order of the names: {ps}'[:200])
        L, g = gates('L', (), gate_class())
        for cc, i in ps[0].cases:
            CTX.enter(*cc)
            try:
                if CTX.solver.check() == z3.unsat:
                    continue
                need(len(i) == 1 and isinstance(i[0], Q) and i[0].tot, f'derivative {i}')
                t = {}
                for k, c in i[0].t.items():
                    if k[0] == 'C' and k[1] == 'name':       # carried by one gate at most
                        need(ent(k[2] == b.var) and ent(count().l.z3() <= 1), 'name')
                        k = ('total',)
                    elif k[0] == 'sum' and k[1] == g.name and k[3][:2] == ('C', 'gate'):
                        need(same(k[3][2], g.var) and ent(k[2] == carries(g.var)), f'sum over the gates with {k[2]}'[:200])
                        k = ('total',)
                    elif k[0] == 'D':
                        need(ent(k[1] == b.var), 'derivative with respect to another name')
                        k = ('D',)
                    t[k] = t.get(k, 0) + c
                want = {('total',): 1.0, **({} if shots else {('D',): 1.0})}
                need(set(t) == set(want) and all(abs(t[k] - c) < 1e-9 for k, c in want.items()), f'derivative {t}'[:300])
            finally:
                CTX.leave()

    def replay(env, rng):
        return rep().p_gpsr(env, rng) if not shots else rep().p_shots_grad(env, rng)
    fn = 'finite_shots_gpsr_backward' if shots else 'analytical_gpsr_bwd'
    return Lst(f'{fn}: any number of gates and names, shared in any way', (fn,), body, spec, replay)


def of(pid):
    if pid == 'C10':
        yield ob_bwd('exact')
    if pid == 'C12':
        yield ob_bwd('shots')
