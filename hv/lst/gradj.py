"""Parameter-shift rules of jax.grad: analytical_gpsr_jvp and finite_shots_jvp on any number of gates and names, any sharing of names between gates.

On top of hv/lst/grad.py: dictionaries with any number of entries (the names; or the gates which carry one, renamed), arrays made of their values, unit vectors over their
entries and jax.lax.scan over them. The gates which carry a name of the dictionary, listed name by name, are a list R of their own: each of them exactly once (a gate carries one name)."""
from __future__ import annotations
import contextlib, math
import numpy as np
import z3
from .obl import *
from . import obl, val, load, loop
from .comp import Other, rep
from .grad import Q, V, Marker, Count, F, same, shift_form, facts_of_names
from ..una.sym import var

INF = lambda z: pred('in:F', z)


def fbase():
    return Base(F, A, (INF,))


def par(g):
    return uf('param', g)


def rbase():
    return Base('R', A, (lambda z: z3.And(pred('is_parametric', z), INF(par(z)), pred('used', par(z))),))


def fresh(g):
    return uf('fresh', g)


def isfresh(z):
    return z.num_args() == 1 and z.decl().eq(fresh(z.arg(0)).decl())


def carries(f, g):
    return z3.And(pred('is_parametric', g), par(g) == f)


class NV:
    """the value of a name"""
    def __init__(self, z, d=0.0):
        self.z, self.d = z, d

    def hv_sub(self, a, b):
        return type(self)(z3.substitute(self.z, (a, b)), self.d)

    def hv_mentions(self, a):
        return val.mentions(self.z, a)


class Tan(NV):
    """the tangent of a name"""


class Unit:
    """a multiple of the unit vector of one entry"""
    def __init__(self, k, c):
        self.k, self.c = k, c

    def hv_sub(self, a, b):
        return Unit(z3.substitute(self.k, (a, b)), self.c)

    def hv_mentions(self, a):
        return val.mentions(self.k, a)

    def __neg__(self):
        return Unit(self.k, -self.c)

    def __mul__(self, c):
        if load.symbolic(c):
            raise Unsupported('factor')
        return Unit(self.k, self.c * float(c))
    __rmul__ = __mul__


class Dom(SymInt):
    """the number of entries of a dictionary"""
    def __init__(self, l, ps):
        super().__init__(l)
        self.ps = ps


def names_parts():
    b = fbase()
    return [Seg(b, False, [((), (A(b.var),))])]


class Keys_(AList):
    """the keys of a dictionary, in order"""
    def symlen(self):
        if len(self.parts) == 1 and self.parts[0].base.name == F and len(self.parts[0].cases) == 1:
            return Dom(fbase().length(), self.parts)
        return Dom(lin(var('int:entries')), self.parts)


def lift(f, ps):
    """f of every item"""
    return [Seg(p.base, p.rev, [(c, tuple(f(x) for x in i)) for c, i in p.cases]) if isinstance(p, Seg) else f(p) for p in ps]


def skeleton(ps, qs):
    """the same entries"""
    if len(ps) != len(qs):
        return False
    for p, q in zip(ps, qs):
        if not (isinstance(p, Seg) and isinstance(q, Seg)) or load.aligned([p, q]) is None or p.uniform() is None and [len(i) for _, i in p.cases] != [len(i) for _, i in q.cases]:
            return False
    return True


def normal(ps):
    """entries without nested segments"""
    out = []
    for p in ps:
        if not isinstance(p, Seg):
            raise Unsupported('dictionary with a known entry')
        cases, flat = [], None
        for c, i in p.cases:
            if any(isinstance(x, Seg) for x in i):
                if len(i) != 1:
                    raise Unsupported('nested entries')
                s = i[0]
                if s.rev or p.rev:
                    raise Unsupported('order of the entries')
                got = nested(p, c, s)
                if isinstance(got, Seg):
                    if len(p.cases) != 1 or c:
                        raise Unsupported('nested entries')
                    flat = got
                else:
                    cases += [(tuple(c) + tuple(d), j) for d, j in got]
            else:
                cases.append((c, i))
        out.append(flat if flat is not None else Seg(p.base, p.rev, cases))
    return [p for p in out if any(i for _, i in p.cases)]


def nested(p, c, s):
    live = []
    for d, j in s.cases:
        CTX.enter(*c, *d)
        try:
            # every gate which carries a name is a reason for the name to be used
            CTX.solver.add(z3.Implies(pred('is_parametric', s.base.var), pred('used', par(s.base.var))))
            if CTX.solver.check() != z3.unsat and j:
                live.append((d, j))
        finally:
            CTX.leave()
    if not live:
        return [((), ())]
    if len(live) != 1 or len(live[0][1]) != 1 or s.base.name != 'L':
        raise Unsupported('nested entries')
    d, j = live[0]
    g, f = s.base.var, p.base.var
    if not val.mentions(j, g):                 # the same entry again and again: once, if a gate is there
        if p.base.name != 'R':
            raise Unsupported('entry repeated for every gate')
        CTX.enter(*c)
        try:
            facts(p.base, f)
            ok = ent(z3.substitute(z3.And(*d), (g, f)))
        finally:
            CTX.leave()
        if not ok:
            raise Unsupported('entry repeated for every gate')
        return [((), j)]
    if p.base.name != F:
        raise Unsupported('nested entries')
    # gates listed name by name: the list R
    b = rbase()
    CTX.enter(*c, *d)
    try:
        ok = ent(par(g) == f)
    finally:
        CTX.leave()
    CTX.enter()
    try:
        facts(b, b.var)
        r = [z3.substitute(x, (f, par(b.var)), (g, b.var)) for x in d]
        ok = ok and ent(z3.And(*r))
    finally:
        CTX.leave()
    if not ok or c:
        raise Unsupported('nested entries')
    return Seg(b, False, [((), val.sub(val.sub(j, f, par(b.var)), g, b.var))])


class D:
    """a dictionary with any number of entries: the names which satisfy a condition, renamed gates, or both"""
    __hv__ = True

    def __init__(self, ps, shift=None):
        self.ps, self.shift = normal(ps), shift
        seen = set()
        for p in self.ps:
            kinds = set()
            for c, i in p.cases:
                if len(i) > 1:
                    raise Unsupported('several entries for one element')
                for k, v in i:
                    z = term(k)
                    if z is None or not (z.eq(p.base.var) and p.base.name == F or z.eq(fresh(p.base.var)) and p.base.name == 'R'):
                        raise Unsupported('keys which may coincide')
                    kinds.add(p.base.name)
            if kinds & seen:
                raise Unsupported('keys which may coincide')
            seen |= kinds

    def keys(self):
        return Keys_('tuple', lift(lambda e: e[0], self.ps), True)
    hv_parts = property(lambda s: s.keys().parts)

    def symlen(self):
        return self.keys().symlen()

    def values(self):
        return AList('tuple', lift(lambda e: e[1], self.ps), True)

    def items(self):
        return AList('tuple', self.ps, True)

    def copy(self):
        return D(self.ps, self.shift)

    def update(self, o):
        if not isinstance(o, D) or self.shift or o.shift:
            raise Unsupported('update')
        self.ps = D(self.ps + o.ps).ps

    def find(self, k):
        z = term(k)
        if z is None or isinstance(k, str):
            raise Unsupported('key')
        b, x = ('R', z.arg(0)) if isfresh(z) else (F, z)
        for p in self.ps:
            if p.base.name != b:
                continue
            for c, i in p.cases:
                cs = [z3.substitute(y, (p.base.var, x)) for y in c]
                if not cs or decide(z3.And(*cs)):
                    return val.sub(i[0][1], p.base.var, x) if i else None
        return None

    def __getitem__(self, k):
        v = self.find(k)
        if v is None:
            raise KeyError(k)
        return v

    def has(self, k):
        return self.find(k) is not None
    __contains__ = has


class Legit:
    """{name: [] for every name}, seen at the arbitrary name K"""
    __hv__ = True
    K = const('name:K')

    def __init__(self, at):
        self.at = at

    def __getitem__(self, k):
        return self.at if decide(term(k) == self.K) else Other_()

    def __hv_box__(self):
        return self.at

    def __hv_rebox__(self, v):
        return Legit(v)

    def symlen(self):
        return Keys_('tuple', names_parts(), True).symlen()

    def keys(self):
        return Keys_('tuple', names_parts(), True)

    def values(self):
        return AList('tuple', [Seg(fbase(), False, [((), (AtK(self.at, fbase().var),))])], True)


class Other_(Other):
    """what belongs to another name"""
    def append(self, x):
        pass

    def sum(self, *a, **k):
        return self

    def hv_sub(self, a, b):
        return self

    def hv_mentions(self, a):
        return False


def AtK(v, z):
    return val.sub(v, Legit.K, z)


def mkdict(ps):
    # {name: [] ...}
    if len(ps) == 1 and isinstance(ps[0], Seg) and ps[0].base.name == F and len(ps[0].cases) == 1 and not ps[0].cases[0][0]:
        i = ps[0].cases[0][1]
        if len(i) == 1 and isinstance(i[0], tuple) and term(i[0][0]) is not None and term(i[0][0]).eq(ps[0].base.var) and isinstance(i[0][1], (list, AList)) and not parts(i[0][1]):
            loop.assume(INF(Legit.K))
            return Legit([])
    return D(ps)


class Vec:
    """an array: one row per entry"""
    __hv__ = True
    dtype = None

    def __init__(self, ps, unit=None):
        self.ps, self.unit = ps, unit

    @property
    def hv_parts(self):
        if self.unit is not None:
            raise Unsupported('shifted values')
        return self.ps

    @property
    def shape(self):
        return Shape(self)

    def reshape(self, *a):
        return self

    def squeeze(self, *a, **k):
        return self

    def __add__(self, o):
        if isinstance(o, Unit) and self.unit is None:
            return Vec(self.ps, o)
        raise Unsupported('sum of arrays')
    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if not isinstance(o, Vec) or self.unit or o.unit:
            raise Unsupported('product of arrays')
        if not skeleton(self.ps, o.ps):
            raise Unsupported('product of arrays over different entries')
        return Vec(load.h_flat(load.s_zip(self, o), lambda xy: (times(*xy),), 'vec.mul').parts)
    __rmul__ = __mul__

    def sum(self, axis=None, **k):
        if axis != 0:
            raise Unsupported('sum of an array')
        r = load.total(self.ps)
        if r is None:
            raise Unsupported('sum of an array')
        return r

    def hv_zip(self, its):
        if self.unit is None:
            return NotImplemented
        if len(its) != 2 or its[1] is not self or not isinstance(its[0], Keys_) or not skeleton(its[0].parts, self.ps):
            raise Unsupported('zip of shifted values')
        return Pairs(parts(load.s_zip(its[0], Vec(self.ps))), self.unit)

    def hv_sub(self, a, b):
        return Vec(val.sub(self.ps, a, b), self.unit and self.unit.hv_sub(a, b))


class Pairs:
    __hv__ = True

    def __init__(self, ps, unit):
        self.ps, self.unit = ps, unit

    def hv_dict(self):
        return D(self.ps, (self.unit.k, self.unit.c))


class Shape:
    """the shape of an array (whether it has a second axis is not known)"""
    __hv__ = True

    def __init__(self, of):
        self.of = of

    def __getitem__(self, i):
        return mk(lin(var('int:shape')))


def times(x, y):
    if isinstance(x, Other_) or isinstance(y, Other_):
        return Other_()
    if isinstance(x, Tan):
        x, y = y, x
    if isinstance(x, Q) and isinstance(y, Tan):
        return QQ({('t', y.z, k): c for k, c in x.t.items()})
    raise Unsupported('product')


class QQ(Q):
    @property
    def shape(self):
        return Shape(self)

    dtype = None


def stack_sp(xs):
    if isinstance(xs, Other_):
        return xs
    ps = parts(xs)
    out = []
    for p in ps:
        if isinstance(p, Seg) and any(isinstance(x, Other_) for c, i in p.cases for x in i):
            # what the dictionary holds at a name, for every name
            if p.base.name != F or len(p.cases) != 2:
                raise Unsupported('values of a dictionary')
            (c, i), = [x for x in p.cases if not isinstance(x[1][0], Other_)]
            if len(i) != 1 or not same_cond(c, p.base.var == Legit.K):
                raise Unsupported('values of a dictionary')
            p = Seg(p.base, p.rev, [((), (val.sub(i[0], Legit.K, p.base.var),))])
        out.append(p)
    return Vec(out)


def same_cond(c, d):
    c = z3.And(*c) if c else z3.BoolVal(True)
    s = z3.Solver()
    s.add(c != d)
    return s.check() == z3.unsat


class Eye:
    __hv__ = True

    def __init__(self, ps, c=1.0):
        self.ps, self.c = ps, c

    def __mul__(self, c):
        if load.symbolic(c):
            raise Unsupported('factor')
        return Eye(self.ps, self.c * float(c))
    __rmul__ = __mul__

    @property
    def hv_parts(self):
        return lift(lambda k: Unit(term(k), self.c), self.ps)


def domain(n):
    if isinstance(n, Dom):
        return n.ps
    if ent(lin(n).z3() == fbase().length().z3()):
        return names_parts()
    raise Unsupported('number of entries')


class Carry:
    def __add__(self, o):
        return self
    __radd__ = __add__

    def hv_sub(self, a, b):
        return self


def scan(f, init, xs, *a, **k):
    if a or k:
        raise Unsupported('scan')
    ks = sorted(xs) if isinstance(xs, dict) else None
    if not ks:
        raise Unsupported('scan')
    ps = [AList('tuple', parts(xs[x])) for x in ks]
    need(all(skeleton(ps[0].parts, p.parts) for p in ps[1:]), 'the arrays handed to scan are not aligned')

    def step(vals):
        c, y = f(Carry(), dict(zip(ks, vals)))
        return (y,)
    z = load.s_zip(*ps) if len(ps) > 1 else [(x,) for x in ps[0]]
    return Carry(), Vec(parts(load.h_flat(z, step, 'scan')))


def split(key, n=2):
    if isinstance(n, int) and not load.symbolic(n):
        return [A(uf(f'split{i}', term(key))) for i in range(n)]
    return AList('tuple', lift(lambda k: A(uf('splitD', term(key), term(k))), domain(n)), True)


class PosOf(AList):
    """the positions of the gates which carry a name"""
    def __init__(self, f):
        self.f = f
        L, b = gates('L', (), gate_class())
        c = carries(f, b.var)
        super().__init__('tuple', [Seg(b, False, [((c,), (A(uf('index', b.var)),)), ((z3.Not(c),), ())])], True)

    def symlen(self):
        if self.f.eq(fbase().var):
            return Count(lin(var('int:count')))
        raise Unsupported('number of gates')

    def __bool__(self):
        return decide(pred('used', self.f))

    def hv_sub(self, a, b):
        return PosOf(z3.substitute(self.f, (a, b)))

    def hv_mentions(self, a):
        return val.mentions(self.f, a)


class Idx:
    """where the gates are which carry a name"""
    __hv__ = True

    def __getitem__(self, k):
        z = term(k)
        if isfresh(z) or not ent(INF(z)):
            raise KeyError(k)
        return PosOf(z)

    def keys(self):
        return Keys_('tuple', names_parts(), True)

    def values(self):
        b = fbase()
        return AList('tuple', [Seg(b, False, [((), (PosOf(b.var),))])], True)


class Gates_(AList):
    def __init__(self, renamed=False):
        L, b = gates('L', (), gate_class())
        self.renamed = renamed
        super().__init__('list', L.parts, True)

    def __getitem__(self, i):
        if isinstance(i, A) and i.z.num_args() == 1 and i.z.decl().eq(uf('index', i.z.arg(0)).decl()):
            g = i.z.arg(0)
            return Ren(g) if self.renamed else gate_class()(g)
        raise Unsupported('gate')


class Ren:
    """a gate of the renamed sequence"""
    spectral_gap = 2.0

    def __init__(self, g):
        self.g = g

    @property
    def param(self):
        if not ent(z3.And(pred('is_parametric', self.g), INF(par(self.g)))):
            raise Unsupported('name of a gate which may have kept it')
        return A(fresh(self.g))


class VO:
    """the values of the observables (or their tangents)"""
    __hv__ = True

    def __init__(self, w):
        self.w = w


class Raw:
    """a dictionary of values as given"""
    __hv__ = True

    def __init__(self, w):
        self.w = w


def names_dict(cls):
    b = fbase()
    return D([Seg(b, False, [((), ((A(b.var), cls(b.var)),))])])


def estimate(st, obs, vo, raw, shots):
    def f(state_, gates_, observables, values, n_shots=None, key=None):
        need(state_ is st and observables is obs, 'the state and the observables')
        if shots:
            need(ent(lin(n_shots).z3() == lin(var('int:n_shots')).z3()), 'the number of shots')
        need(isinstance(gates_, Gates_), 'the gates')
        if values is raw:
            need(not gates_.renamed, 'the gates')
            return QQ({('E',): 1.0})
        vc = values
        if not shots:
            need(isinstance(values, dict) and set(values) == {'circuit', 'observables'}, 'the values')
            vc, o = values['circuit'], values['observables']
            if isinstance(o, Marker):
                need(isinstance(vc, D) and not vc.shift and not gates_.renamed, 'the point of differentiation')
                return QQ({('obs',): 1.0})
            need(o is vo, 'the values of the observables')
        need(isinstance(vc, D), 'the values')
        seg = [p for p in vc.ps if p.base.name == ('R' if gates_.renamed else F)]
        need(len(seg) == 1 and len(seg[0].cases) == 1 and not seg[0].cases[0][0] and len(seg[0].cases[0][1]) == 1, 'a value for every gate')
        p = seg[0]
        k, v = p.cases[0][1][0]
        z = p.base.var
        need(isinstance(v, NV) and not isinstance(v, Tan) and same(v.z, par(z) if gates_.renamed else z), 'the value of every gate')
        if vc.shift is None:
            return QQ({('E',): 1.0})
        k, d = vc.shift
        if isfresh(k):
            need(gates_.renamed, 'renamed gates')
            return QQ(shift_form(('gate', k.arg(0)), d).t)
        if gates_.renamed:
            need(ent(z3.Not(pred('used', k))), 'the value of a name is shifted although its gates are renamed')
            return QQ({('E',): 1.0})
        need(ent(k == fbase().var) and ent(count_() <= 1), 'the value of a name carried by several gates is shifted')
        return QQ(shift_form(('name', k), d).t)
    return f


def count_():
    return lin(var('int:count')).z3()


@contextlib.contextmanager
def dictionaries():
    old = load.DICT
    load.DICT = mkdict
    try:
        yield
    finally:
        load.DICT = old


def ob_jvp(shots):
    fn = 'finite_shots_jvp' if shots else 'analytical_gpsr_jvp'

    def body():
        m = mod('differentiation.gpsr.shots' if shots else 'differentiation.gpsr.analytical')
        facts_of_names()
        b = fbase()
        st, (O, ob) = state(), gates('O', (), op_class())
        raw, traw = Raw('values'), Raw('tangents')
        vo, to = VO('values'), VO('tangents')
        if shots:
            raw, traw = names_dict(NV), names_dict(Tan)
        f = estimate(st, O, vo, raw, shots)

        def processing(v):
            need(v is raw or v is traw, 'values')
            return (names_dict(NV), vo) if v is raw else (names_dict(Tan), to)

        def prepare(names, gs):
            need(isinstance(gs, Gates_) and not gs.renamed and eqparts(parts(names), names_parts()), 'names and gates')
            return Idx()

        def rename(gs, names):
            need(isinstance(gs, Gates_) and not gs.renamed and eqparts(parts(names), names_parts()), 'names and gates')
            return Gates_(True)

        def gate_names(gs):
            need(isinstance(gs, Gates_) and not gs.renamed, 'gates')
            from .grad import GateNames
            return GateNames()

        def init(values):
            need(isinstance(values, D), 'values')
            return values.keys(), D([Seg(b, False, [((), ((A(b.var), 2.0),))])]), math.pi / 2

        def jvp(g, p, t):
            need(len(p) == 1 and len(t) == 1 and p[0] is vo and t[0] is to, 'the derivative of the observables')
            r = g(Marker())
            need(isinstance(r, Q) and set(r.t) == {('obs',)} and abs(r.t[('obs',)] - 1) < 1e-9, 'the function of the observables')
            return None, QQ({('Dt',): 1.0})
        R, lax = m.jax, m.jax.lax
        j = load.UProxy(R, jvp=jvp, lax=load.UProxy(lax, scan=scan))
        J = m.jnp
        jn = load.UProxy(J, eye=lambda n, *a, **k: Eye(domain(n)) if load.symbolic(n) else J.eye(n, *a, **k), zeros=lambda s, *a, **k: Carry() if isinstance(s, Shape) else J.zeros(s, *a, **k),
                         array=lambda x, *a, **k: float(x[0]) if isinstance(x, list) and len(x) == 1 and isinstance(x[0], float) else J.array(x, *a, **k))
        ps = [(m, 'prepare_param_gates_seq', prepare), (m, 'extract_gate_names', gate_names), (m, 'create_renamed_operators', rename), (m, 'initialize_gpsr_ingredients', init),
              (m, 'stack_sp', stack_sp), (m, 'jax', j), (m, 'jnp', jn)]
        with dictionaries():
            if shots:
                ps += [(m, 'finite_shots_fwd', f), (m, 'finite_shots', f)] + ([(m, 'random', load.UProxy(m.random, split=split))] if hasattr(m, 'random') else [])
                with patched(*ps):
                    return m.finite_shots_jvp(st, Gates_(), O, mk(lin(var('int:n_shots'))), A(const('key')), (raw,), (traw,))
            ps += [(m, 'analytical_gpsr_fwd', f), (m, 'analytical_expectation', f), (m, '_values_processing', processing)]
            with patched(*ps):
                return m.analytical_gpsr_jvp(st, Gates_(), O, (raw,), (traw,))

    def spec(r):
        need(isinstance(r, tuple) and len(r) == 2, 'value and tangent')
        fwd, jv = r
        need(isinstance(fwd, Q) and set(fwd.t) == {('E',)} and abs(fwd.t[('E',)] - 1) < 1e-9, f'value {fwd}')
        need(isinstance(jv, Q), f'tangent {jv}')
        fv, rv = fbase().var, rbase().var
        t = {}
        for k, c in jv.t.items():
            if k == ('Dt',) and not shots:
                t['observables'] = t.get('observables', 0) + c
                continue
            need(k[0] == 'sum' and k[1] == F and z3.is_true(z3.simplify(k[2])) and k[3][0] == 't' and same(k[3][1], fv), f'term {k}'[:200])
            x = k[3][2]
            if x[:2] == ('C', 'name'):
                need(ent(x[2] == fv) and ent(count_() <= 1), 'name')
            else:
                need(x[0] == 'sum' and x[1] == 'R' and x[3][:2] == ('C', 'gate') and same(x[3][2], rv) and same_cond_R(x[2], fv, rv), f'term {x}'[:200])
            t['gates'] = t.get('gates', 0) + c
        want = {'gates': 1.0, **({} if shots else {'observables': 1.0})}
        need(set(t) == set(want) and all(abs(t[k] - c) < 1e-9 for k, c in want.items()), f'tangent {t}')

    def replay(env, rng):
        return rep().p_gpsr(env, rng) if not shots else rep().p_shots_jvp(env, rng)
    return Lst(f'{fn}: any number of gates and names, shared in any way', (fn,), body, spec, replay)


def same_cond_R(c, f, r):
    s = z3.Solver()
    s.add(rbase().preds[0](r), c != (par(r) == f))
    return s.check() == z3.unsat


def of(pid):
    if pid == 'C10':
        yield ob_jvp(False)
    if pid == 'C12':
        yield ob_jvp(True)
