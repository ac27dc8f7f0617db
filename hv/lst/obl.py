"""Obligations over lists of any length (gates, observables, terms, shifts): the real functions of /repo are executed on lists
with segments (val.py, loop.py); operators, states and the functions which act on one gate are opaque, known by their contracts."""
from __future__ import annotations
import time, traceback
import z3
from ..err import of_code
from ..una import sym
from ..una.sym import CTX, Lin, SymBool, SymInt, Unsupported, ent0, lin, mk
from . import load, loop, val
from .load import ASet, Stack, Vals
from .loop import NeedHom, explore
from .val import *


def rep():
    from . import rep as r
    return r


def lazy(name, *a):
    """a replay of rep.py"""
    return lambda env, rng: (getattr(rep(), name)(*a) if a else getattr(rep(), name))(env, rng)


_w = None


def world():
    global _w
    if _w is None:
        _w = load.World()
        for m in ('apply', 'composite', 'circuit', 'utils.conversion', 'differentiation.ad', 'differentiation.gpsr.gpsr_utils', 'differentiation.gpsr.analytical', 'api'):
            _w.load('horqrux.' + m)
    return _w


def mod(n):
    return world().load('horqrux.' + n)


class Wrong(Exception):
    """a postcondition does not hold"""


class patched:
    """module globals replaced by the contracts of the functions they name"""
    def __init__(self, *reps):
        self.reps = reps

    def __enter__(self):
        self.old = []
        for m, n, f in self.reps:
            if not hasattr(m, n):
                raise Unsupported(f'{n} is gone')
            self.old.append((m, n, getattr(m, n)))
            setattr(m, n, f)

    def __exit__(self, *a):
        for m, n, f in reversed(self.old):
            setattr(m, n, f)


# ---------------------------------------------------------------- generic gates
_cls = {}


def gate_class():
    if 'gate' in _cls:
        return _cls['gate']
    Prim = mod('primitives.primitive').Primitive

    class AGate(Obj, Prim):
        real_class = True

        def __init__(self, z):
            object.__setattr__(self, 'z', z)

        def again(self, z):
            return AGate(z)
        target = property(lambda s: (A(uf('target', s.z)),))
        control = property(lambda s: (A(uf('control', s.z)),))
        noise = property(lambda s: A(uf('noise', s.z)))
        param = property(lambda s: A(uf('param', s.z)))
        is_parametric = property(lambda s: SymBool(pred('is_parametric', s.z)))
        generator_name = property(lambda s: A(uf('name', s.z)))
        sparse = property(lambda s: A(uf('sparse', s.z)))
        spectral_gap = property(lambda s: 2.0)          # contract, discharged under C10
        qubit_support = property(lambda s: ASet([A(uf('support', s.z))]))

        def _unitary(self, values=None):
            return leaf(uf('op_unitary', self.z, vz(values)))

        def dagger(self, values=None):
            return leaf(uf('op_dagger', self.z, vz(values)))

        def jacobian(self, values=None):
            return leaf(uf('op_jacobian', self.z, vz(values)))

        def __call__(self, state=None, values=None):
            if not isinstance(state, P):
                raise Unsupported('state')
            return state.act(('den', self.z, vz(values)))

        def tensor(self, values=None, full_support=None):
            return leaf(uf('tensor', self.z, vz(values), fz(full_support)))

        def __eq__(self, o):
            return self is o or (isinstance(o, Obj) and decide(self.z == o.z))
        __hash__ = None

        def __repr__(self):
            return f'gate {self.z}'

        def __setattr__(self, n, v):
            raise Mutation('a gate is changed in place')

        def has(self, n):
            return decide(pred('is_Parametric', self.z)) if n in ('param', 'shift', 'parse_values', 'spectral_gap') else hasattr(type(self), n)

        def is_a(self, c):
            if c is Prim or issubclass(Prim, c):
                return True
            if issubclass(c, Prim):
                return decide(pred('is_' + c.__name__, self.z))
            return False
    AGate.make = staticmethod(AGate)
    _cls['gate'] = AGate
    return AGate


def op_class():
    """an operation of any kind (a gate or a sequence, sum, scaled operation)"""
    if 'op' in _cls:
        return _cls['op']
    Prim, Seq_ = mod('primitives.primitive').Primitive, mod('composite.sequence').OpSequence
    comp = mod('composite.compose')
    G = gate_class()

    class AOp(Obj):
        def __init__(self, z):
            object.__setattr__(self, 'z', z)

        def again(self, z):
            return AOp(z)
        __call__ = G.__call__
        tensor = G.tensor
        forward = G.__call__
        qubit_support = G.qubit_support
        __eq__ = G.__eq__
        __hash__ = None
        __setattr__ = G.__setattr__
        has = G.has
        target, control, noise, param, is_parametric = G.target, G.control, G.noise, G.param, G.is_parametric
        _unitary, dagger, jacobian = G._unitary, G.dagger, G.jacobian

        @property
        def operations(self):
            return AList('list', [Seg(subbase(self.z), False, [((), (AOp(subbase(self.z).var),))])], True)

        def is_a(self, c):
            z = self.z
            k = lambda n: pred('is_' + n, z)
            CTX.solver.add(z3.Xor(k('Primitive'), k('OpSequence')), z3.Implies(k('Add'), k('OpSequence')), z3.Implies(k('Scale'), k('OpSequence')), z3.Implies(k('Observable'), k('Add')),
                           z3.Implies(k('QuantumCircuit'), k('OpSequence')), z3.Implies(k('Parametric'), k('Primitive')), z3.Not(z3.And(k('Add'), k('Scale'))),
                           z3.Not(z3.And(k('QuantumCircuit'), z3.Or(k('Add'), k('Scale')))), z3.Implies(pred('is_parametric', z), k('Parametric')))
            CTX.cache, CTX.models = {}, []
            if not isinstance(c, type):
                raise Unsupported('class')
            return decide(k(c.__name__)) if c.__name__ in ('Primitive', 'OpSequence', 'Add', 'Scale', 'Observable', 'QuantumCircuit', 'Parametric') else False

        def __repr__(self):
            return f'operation {self.z}'
    AOp.make = staticmethod(AOp)
    _cls['op'] = AOp
    return AOp


class Fam(Base):
    """the base of a list which belongs to an element (its operations, what it flattens to)"""
    def __init__(self, fam, z, make):
        super().__init__(f'{fam}({z.sexpr()})', make, (), (z,))
        self.fam = fam

    def derive(self, args):
        b = Fam(self.fam, args[0], self.make)
        return b


def subbase(z):
    return Fam('ops', z, op_class())


def flatbase(z):
    return Fam('flat', z, op_class())


def vz(v):
    if v is None or isinstance(v, dict) and not v:
        return const('values:none')
    if isinstance(v, Vals):
        return v.z
    if isinstance(v, A):
        return v.z
    raise Unsupported('values')


def fz(s):
    if s is None:
        return const('support:none')
    if isinstance(s, A):
        return s.z
    if isinstance(s, AList):
        ps = s.resolve()
        if len(ps) == 1 and isinstance(ps[0], Seg) and len(ps[0].cases) == 1 and ps[0].cases[0][1] and isinstance(ps[0].cases[0][1][0], A) and ps[0].cases[0][1][0].z.eq(ps[0].base.var) and not ps[0].rev:
            return const('support:' + ps[0].base.name)
    raise Unsupported('support')


def gates(nm='L', preds=(), cls=None):
    b = Base(nm, cls or gate_class(), preds)
    return AList('list', [Seg(b, False, [((), ((cls or gate_class())(b.var),))])], True), b


def vals(nm='values'):
    return Vals(const(nm))


def state(cls=PArr, nm='state'):
    return cls([((), (('sym', nm),))])


def OPS(g, op, values):
    return leaf(uf('op_' + {'_unitary': 'unitary', 'dagger': 'dagger', 'jacobian': 'jacobian'}[op], g.z, vz(values)))


def tz(x):
    """the qubits of a position: an opaque tuple"""
    if isinstance(x, A):
        return x
    raise Unsupported('position')


# ---------------------------------------------------------------- contracts used at the call sites
def c_apply_operator(st, op, target, control):
    """C01/C03/C13: apply_operator acts with the (controlled) operator on target, control"""
    if not isinstance(st, P) or not isinstance(op, P) or op.kind != 'mat':
        raise Unsupported('arguments of apply_operator')
    return st.act(('act', op, tz(target), tz(control)))


def c_with_noise(st, op, target, control, noise):
    """C05: the gate followed by its channels on the target"""
    if not isinstance(st, P) or not isinstance(op, P):
        raise Unsupported('arguments of apply_operator_with_noise')
    if not (noise is None or isinstance(noise, A)):
        raise Unsupported('noise')
    return st.act(('actn', op, tz(target), tz(control), noise))


def c_density(st):
    return PDM([(c, w + (('density',),)) for c, w in st.terms]) if not isinstance(st, PDM) else st


class PDM(P):
    kind = 'dm'


def c_merge(ops, targets, controls):
    """C08: the merged lists act like the given ones"""
    z = load.s_zip(ops, targets, controls)
    src = parts(z)
    b = Base(val.fresh('merged', src), None)

    def eqv(rv, cases):
        if rv or len(cases) != 1 or cases[0][0] or len(cases[0][1]) != 1:
            return None
        f = cases[0][1][0]
        if f[0] != 'act' or not eqval(f[1], leaf(uf('f0', b.var))) or not f[2].z.eq(uf('f1', b.var)) or not f[3].z.eq(uf('f2', b.var)):
            return None
        return word_of(src, lambda it: [('act', it[0], tz(it[1]), tz(it[2]))])
    CTX.equiv[b.name] = eqv
    CTX.solver.add(b.length().z3() <= lin(AList('list', src).symlen()).z3())
    mk_ = lambda x: AList('tuple', [Seg(b, False, [((), (x,))])])
    return mk_(leaf(uf('f0', b.var))), mk_(A(uf('f1', b.var))), mk_(A(uf('f2', b.var)))


def c_group(gs):
    """C08: the grouped list is the given one up to moving single-qubit uncontrolled gates past each other on different qubits"""
    src = parts(gs)
    b = Base(val.fresh('grouped', src), gate_class())

    def eqv(rv, cases):
        if rv or len(cases) != 1 or cases[0][0] or not val.std(cases[0][1], b.var):
            return None
        return word_of(src, lambda g: sub(cases[0][1], b.var, g.z))
    CTX.equiv[b.name] = eqv
    n = AList('list', src).symlen()
    CTX.solver.add(b.length().z3() == lin(n).z3())
    # what holds of every gate of the list holds of every gate of the result
    if len(src) == 1 and isinstance(src[0], Seg) and len(src[0].cases) == 1 and isinstance(src[0].cases[0][1][0], Obj) and src[0].cases[0][1][0].z.eq(src[0].base.var):
        CTX.univ[b.name] = AliasUniv(src[0].base.name, b.var)
        CTX.alias[b.name] = src[0].base
    return AList('list', [Seg(b, False, [((), (gate_class()(b.var),))])])


class AliasUniv(list):
    """facts about every element shared with another list"""
    def __init__(self, other, var):
        super().__init__()
        self.other, self.var = other, var

    def __iter__(self):
        yield from list.__iter__(self)
        yield from list(CTX.univ.get(self.other, ()))


# ---------------------------------------------------------------- running an obligation
class Lst:
    """one obligation over lists of any length"""
    bound = None

    def __init__(self, key, fn, body, spec, replay=None, hom=None, raises=()):
        self.key, self.fn, self.body, self.spec, self.replay, self.hom, self.raises = key, tuple(fn), body, spec, replay, hom, raises


class Hom:
    pass


def setup():
    CTX.subsets, CTX.subq, CTX.setbases = [], {}, []
    CTX.objmake = gate_class()
    CTX.contracts, CTX.setiter = None, False


def run(o, rng_for, deadline):
    sym.DEADLINE[0] = deadline
    n = [0]

    def go(mode=None, h=None):
        CTX.hom = h
        if h is not None:
            h.hits = 0
            h.mode = mode

        def body():
            setup()
            if h is None:
                return o.spec(o.body())
            h.hits = 0
            if mode == 'base':
                h.mode = 'base'
                r = o.body()
                if h.hits == 0:
                    return o.spec(r)               # this path does not reach the loop
                if h.hits != 1:
                    raise Unsupported('the loop is reached several times')
                o.hom(r, 'base', None, None, h)
            else:
                h.mode = 'step0'
                r0 = o.body()
                if h.hits == 0:
                    return None                    # as in the base
                h.mode, h.hits = 'step1', 0
                r1 = o.body()
                if h.hits != 1:
                    raise Unsupported('the loop is not reached once')
                o.hom(r1, 'step', r0, h.x, h)

        def judged():
            try:
                body()
                return None
            except Wrong as e:
                return str(e)[:300] or 'postcondition'
        try:
            ps = explore(judged)
        finally:
            CTX.hom = None
        n[0] += len(ps)
        return ps
    try:
        try:
            ps = go()
        except NeedHom as e:
            if o.hom is None:
                return 'undecided', 'loop without an invariant', None
            h = Hom()
            h.site, h.info, h.base = e.site, e.info, e.base
            h.x = const('el:' + e.base)
            ps = go('base', h) + go('step', h)
    except (Unsupported, NeedHom) as e:
        return 'undecided', f'unsupported: {e}', None
    except RecursionError:
        return 'undecided', 'recursion', None
    bad = [(p, f'raises {type(p.exc).__name__}: {str(p.exc)[:200]}' if p.exc is not None else p.result) for p in ps
           if (p.exc is not None and not isinstance(p.exc, o.raises)) or p.result is not None]
    if not bad:
        return 'discharged', f'{n[0]} paths', None
    notes = []
    for p, text in bad[:4]:
        env = model(p.cond)
        if env is None:
            continue
        notes.append(f'{env}: {text[:200]}')
        if o.replay is None:
            continue
        for k in range(3):
            try:
                r = o.replay(env, rng_for(k))
            except Exception as e:
                r = f'raised {type(e).__name__}: {str(e)[:200]}'
                if not of_code(e):
                    return 'undecided', 'replay: ' + r, None
            if r is not None:
                return 'refuted', f'{env}: {r} [{text[:200]}]', env
    return 'undecided', 'not confirmed on the real code: ' + ' / '.join(notes or [bad[0][1]])[:300], None


def model(cond):
    """lengths of the lists on a path, as small as it allows"""
    names = sorted({str(v) for c in cond for v in z3vars(c) if str(v)[:4] in ('len:', 'int:') and '/' not in str(v)})
    for lim in (2, 4, 8, 16, 40, 200, 10000):
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*cond)
        for v in names:
            s.add(z3.Int(v) <= lim, z3.Int(v) >= (0 if v[0] == 'l' else -lim))
        if s.check() == z3.sat:
            m = s.model()
            return {v[4:]: m.eval(z3.Int(v), model_completion=True).as_long() for v in names}
    return None


def z3vars(c):
    out, todo, seen = [], [c], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo += x.children()
    return out


def need(c, text):
    if not c:
        raise Wrong(text)


def same_word(a, b, what):
    if not weq(a, b):
        raise Wrong(f'{what}: {[show(f) for f in wnorm(a)]} instead of {[show(f) for f in wnorm(b)]}')


# ---------------------------------------------------------------- C08
def acts3(ops, targets, controls):
    return word_of(parts(load.s_zip(ops, targets, controls)), lambda it: [('act', it[0], tz(it[1]), tz(it[2]))])


def ob_merge():
    def inputs():
        b = Base('L', None)
        mk_ = lambda x: AList('tuple', [Seg(b, False, [((), (x,))])], True)
        return mk_(leaf(uf('op', b.var))), mk_(A(uf('target', b.var))), mk_(A(uf('control', b.var)))

    def body():
        return mod('apply').merge_operators(*inputs())

    def lens(r):
        need(isinstance(r, tuple) and len(r) == 3, 'shape of the result')
        a, b, c = (AList('tuple', parts(x)).symlen() for x in r)
        need(ent0(lin(a) - lin(b)) and ent0(lin(a) - lin(c)), 'lists of different lengths')
        return lin(a)

    def spec(r):
        need(entge(lin(inputs()[0].symlen()) - lens(r)), 'more operators than given')
        same_word(acts3(*r), acts3(*inputs()), 'merged operators')

    def hom(r, mode, r0, x, h):
        n = lens(r)
        if mode == 'base':
            # what was taken from the list before the loop
            before = [f for f in wnorm(acts3(*inputs())) if not (f[0] == 'prod' and f[1].name == h.base)]
            need(entge(lin(inputs()[0].symlen()) - Base(h.base, None).length() - n), 'more operators than given')
            same_word(acts3(*r), before, 'merged operators before the loop')
        else:
            one = [('act', leaf(uf('op', x)), A(uf('target', x)), A(uf('control', x)))]
            w0 = acts3(*r0)
            need(entge(lens(r0) + Lin(None, 1) - n), 'more operators than given')
            same_word(acts3(*r), one + w0 if h.rev else w0 + one, 'merged operators after one more gate')
    return Lst('merge_operators on lists of any length', ('merge_operators',), body, spec, lazy('r_merge'), hom=hom)


def gact(values=None, op='_unitary', noise=False):
    v = values if values is not None else vals()
    return lambda g: [('actn', OPS(g, op, v), g.target[0], g.control[0], g.noise) if noise else ('act', OPS(g, op, v), g.target[0], g.control[0])]


def ctl_contract(c):
    """is_controlled of one control tuple"""
    if isinstance(c, tuple) and len(c) == 1:
        c = c[0]
    return decide(pred('controlled', tz(c).z))


def ob_group():
    def body():
        L, b = gates()
        with patched((mod('apply'), 'is_controlled', ctl_contract)):
            return mod('apply').group_by_index(L)

    def wd(r):
        for p in parts(r):
            need(isinstance(p, Seg) or isinstance(p, Obj), 'elements of the result')
        return word_of(parts(r), gact(noise=True))

    def spec(r):
        same_word(wd(r), wd(gates()[0]), 'grouped gates')

    def hom(r, mode, r0, x, h):
        if mode == 'base':
            same_word(wd(r), [f for f in wnorm(wd(gates()[0])) if not (f[0] == 'prod' and f[1].name == h.base)], 'grouped gates before the loop')
        else:
            one = gact(noise=True)(gate_class()(x))
            same_word(wd(r), one + wd(r0) if h.rev else wd(r0) + one, 'grouped gates after one more gate')
    return Lst('group_by_index on lists of any length', ('group_by_index',), body, spec, lazy('r_group'), hom=hom)


def ob_apply(kind, op, group, merge, noise):
    """apply_gates on a list of any length"""
    S = {'arr': PArr, 'sp': PSp, 'dm': None}[kind]

    def body():
        ap = mod('apply')
        L, b = gates()
        if noise == 'none':
            universal(b, pred('is_none', uf('noise', b.var)))
        st = state(S) if S else dm_state()
        OT = mod('utils.operator_utils').OperationType
        with patched((ap, 'apply_operator', c_apply_operator), (ap, 'apply_operator_with_noise', c_with_noise), (ap, 'merge_operators', c_merge),
                     (ap, 'group_by_index', c_group), (ap, 'density_mat', c_density)):
            return ap.apply_gates(st, L, vals(), OT(op), group, merge)

    def spec(r):
        L, b = gates()
        need(isinstance(r, P), 'the result is not a state')
        allnone = val.ent(z3.Or(*[q for q in [pred('is_none', uf('noise', b.var))]])) 
        st = state(S) if S else dm_state()
        if kind == 'arr' and not isinstance(r, PArr):
            st = c_density(st)
            need(not allnone, 'a density matrix without noise')
        elif kind == 'arr':
            need(allnone, 'noise is dropped')
        else:
            need(type(r) is type(st), 'kind of the result')
        want = word_of(parts(L), gact(op=op, noise=True))
        need(len(r.terms) == 1 and not r.terms[0][0], 'the result is not the image of the state')
        same_word(r.terms[0][1], st.terms[0][1] + tuple(want), 'gates applied')
    return Lst(f'apply_gates[{kind}] any list, {op}, group={group}, merge={merge}, noise {noise}', ('apply_gates', 'prepare_sequence_reduce'), body, spec,
               lazy('r_apply', kind, op, group, merge, noise), raises=(NotImplementedError,) if kind == 'sp' and noise != 'none' else ())


_dm = {}


def dm_state():
    if 'c' not in _dm:
        D = mod('utils.operator_utils').DensityMatrix

        class ADM(PDM, D):
            def __init__(self, terms):
                P.__init__(self, terms)

            @property
            def array(self):
                raise Unsupported('entries of a density matrix')
        _dm['c'] = ADM
    return _dm['c']([((), (('sym', 'state'),))])


def ob_single(kind, op, noise):
    """apply_gates on one gate"""
    S = {'arr': PArr, 'sp': PSp, 'dm': None}[kind]

    def body():
        ap = mod('apply')
        g = gate_class()(const('g'))
        if noise == 'none':
            loop.assume(pred('is_none', uf('noise', g.z)))
        st = state(S) if S else dm_state()
        OT = mod('utils.operator_utils').OperationType
        with patched((ap, 'apply_operator', c_apply_operator), (ap, 'apply_operator_with_noise', c_with_noise), (ap, 'density_mat', c_density)):
            return ap.apply_gates(st, g, vals(), OT(op))

    def spec(r):
        g = gate_class()(const('g'))
        st = state(S) if S else dm_state()
        if kind == 'arr' and not isinstance(r, PArr):
            st = c_density(st)
        same_word(r.terms[0][1], st.terms[0][1] + tuple(gact(op=op, noise=True)(g)), 'gate applied')
    return Lst(f'apply_gates[{kind}] one gate, {op}, noise {noise}', ('apply_gates', 'prepare_sequence_reduce'), body, spec,
               lazy('r_single', kind, op, noise), raises=(NotImplementedError,) if kind == 'sp' and noise != 'none' else ())


def obligations(pid):
    out = []
    if pid == 'C08':
        out += [ob_merge(), ob_group()]
        for kind in ('arr', 'sp', 'dm'):
            for op in ('_unitary', 'dagger', 'jacobian'):
                for group in (False, True):
                    for merge in (False, True):
                        for noise in (('none', 'any') if op == '_unitary' else ('none',)):
                            out.append(ob_apply(kind, op, group, merge, noise))
    if pid == 'C05':
        for kind in ('arr', 'sp', 'dm'):
            out.append(ob_single(kind, '_unitary', 'any'))
        for kind in ('arr', 'dm'):
            out.append(ob_apply(kind, '_unitary', False, True, 'any'))
            out.append(ob_apply(kind, '_unitary', True, True, 'any'))
    if pid == 'C03':
        out.append(ob_single('dm', '_unitary', 'none'))
        out.append(ob_apply('dm', '_unitary', False, True, 'none'))
    if pid == 'C13':
        for noise in ('none', 'any'):
            out.append(ob_single('sp', '_unitary', noise))
            out.append(ob_apply('sp', '_unitary', False, True, noise))
    from . import comp, disp, grad, gradj
    return out + list(comp.of(pid)) + list(disp.of(pid)) + list(grad.of(pid)) + list(gradj.of(pid))
