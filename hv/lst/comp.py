"""Obligations over composites with any number of operations, observables, parameters: call, tensor, iteration, conversion, names."""
from __future__ import annotations
import z3
from .obl import *
from . import obl, val, load, loop

CLS = ('OpSequence', 'QuantumCircuit', 'Add', 'Observable', 'Scale')


def cls_(n):
    return getattr(mod({'OpSequence': 'composite.sequence', 'QuantumCircuit': 'circuit'}.get(n, 'composite.compose')), n)


def make(cls, L, param=None, n=None, fparams=None):
    c = cls_(cls)
    if cls == 'QuantumCircuit':
        return c(n if n is not None else A(const('n_qubits')), L, fparams if fparams is not None else AList('list', [Seg(Base('F', A), False, [((), (A(const('el:F')),))])], True))
    if cls == 'Scale':
        return c(L, param)
    return c(L)


def ops(preds=()):
    return gates('L', preds, op_class())


def den(values=None):
    v = values if values is not None else vals()
    return lambda g: [('den', g.z, vz(v))]


def addends(ps, f):
    """the sum over a list: one summand per element"""
    out = []
    for p in AList('list', ps).resolve():
        if isinstance(p, Seg):
            out.append(((), (('sum', p.base, False, tuple((c, tuple(addends(list(i), f))) for c, i in p.cases)),)))
        else:
            out.append(f(p))
    return out


def wpar(param, values):
    """the factor of a Scale"""
    if isinstance(param, A):
        if ent(pred('is_str', param.z)):
            return uf('value', values.z, param.z)
        return param.z
    return term(param)


def same_poly(r, want, what):
    if not (isinstance(r, P) and len(r.terms) == len(want) and peq(r, r.new(want))):
        raise Wrong(f'{what}: {r} instead of {P(want)}'[:400])


def ob_call(cls, entry='__call__'):
    par = A(const('factor'))

    def body():
        L, b = ops()
        if cls in ('Add', 'Observable'):
            loop.assume(b.length().z3() >= 1)
        o = make(cls, L, par)
        st, v = state(), vals()
        if entry == 'run':
            return mod('api').run(o, st, v)
        return getattr(o, entry)(st, v)

    def spec(r):
        L, b = ops()
        st, v = state(), vals()
        need(type(r) is type(st), 'kind of the result')
        s0 = st.terms[0][1]
        if cls in ('Add', 'Observable'):
            same_poly(r, [(c, s0 + w) if not any(f[0] == 'sum' for f in w) else (c, w) for c, w in addends(parts(L), lambda g: ((), tuple(s0) + tuple(den(v)(g))))] if False else
                      addends(parts(L), lambda g: ((), tuple(s0) + tuple(den(v)(g)))), f'{cls} of the state')
        else:
            c = (wpar(par, v),) if cls == 'Scale' else ()
            same_poly(r, [(c, s0 + tuple(word_of(parts(L), den(v))))], f'{cls} of the state')
    nm = {'forward': 'Observable.forward', 'run': f'run of a {cls}', '__call__': f'{cls}.__call__'}[entry]
    how = {'forward': 'lambda o, s, v: o.forward(s, v)'}.get(entry)

    def replay(env, rng):
        R = rep()
        if entry == 'forward':
            return R.r_call(cls, lambda o, s, v: o.forward(s, v))(env, rng)
        if entry == 'run':
            return R.r_call(cls, lambda o, s, v: R.B.run(o, s, v))(env, rng)
        return R.r_call(cls)(env, rng) or (R.r_call(cls, param=-1.75)(env, rng) if cls == 'Scale' else None)
    raises = (KeyError,) if cls == 'Scale' else ()

    def keyerr(p):
        pass
    return Lst(f'{nm} on any number of operations', (f'{cls}.{entry}' if entry != 'run' else 'run', 'OpSequence.__call__'), body, spec, replay, raises=raises)


def ob_scale_one(prim):
    """Scale of one operation (a gate, or a sequence of any kind: scaled as a whole)"""
    par = A(const('factor'))

    def inner():
        return gate_class()(const('g')) if prim else make('OpSequence', ops()[0])

    def body():
        o = inner()
        if prim:
            G = gate_class()
        return cls_('Scale')(o, par)(state(), vals())

    def spec(r):
        st, v = state(), vals()
        w = tuple(den(v)(gate_class()(const('g')))) if prim else tuple(word_of(parts(ops()[0]), den(v)))
        same_poly(r, [((wpar(par, v),), st.terms[0][1] + w)], 'Scale of the state')

    def replay(env, rng):
        R = rep()
        for k in range(4):
            t = R.tree(rng, 2, 1, 1)[0] if prim else ('seq', R.tree(rng, 2, R.lengths(env)[k], 1))
            if prim and t[0] != 'g':
                t = ('g', 'H', (1,), (0,))
            st = R.psi(rng, 2)
            r = R.differ(cls_r('Scale')(R.B.build(t), 'u')(st, R.ENV), R.dense(R.B.build(t)(st, R.ENV)) * R.ENV['u'], 'Scale of ' + R.G.short(t)[:80])
            if r:
                return r
    return Lst(f'Scale of one {"gate" if prim else "sequence of any length"}', ('Scale.__init__', 'Scale.__call__', 'OpSequence.__call__'), body, spec, replay, raises=(KeyError,))


def cls_r(n):
    from .. import build as B
    return getattr(B, n)


def ob_flat():
    """iteration over a sequence lists its gates in the order in which they act"""
    def body():
        L, b = ops()
        universal(b, z3.Not(z3.Or(pred('is_Add', b.var), pred('is_Scale', b.var))))
        CTX.contracts = {'flatten': lambda item: AList('list', [Seg(flatbase(item.z), False, [((), (op_class()(flatbase(item.z).var),))])])}
        it = make('OpSequence', L)
        return load.s_iter(it)

    def unfold(g):
        """one unfolding of: what an operation flattens to"""
        Q = op_class()
        isq = pred('is_OpSequence', g.z)
        b = subbase(g.z)
        fl = flatbase(b.var)
        return [('prod', Base1(g), False, ())]

    def spec(r):
        L, b = ops()
        isq = lambda z: pred('is_OpSequence', z)
        ops_ = subbase(b.var)
        fl = flatbase(ops_.var)
        want = []
        for p in parts(L):
            need(isinstance(p, Seg), 'parts')
            s = subbase(p.base.var)
            f = flatbase(s.var)
            want.append(Seg(p.base, p.rev, [((isq(p.base.var),), (Seg(s, False, [((), (Seg(f, False, [((), (op_class()(f.var),))]),))]),)),
                                            ((z3.Not(isq(p.base.var)),), (op_class()(p.base.var),))]))
        got = parts(r)
        f = lambda g: [('el', g.z)]
        same_word(word_of(got, f), word_of(want, f), 'gates listed')
    return Lst('iteration over a sequence of any length and nesting (structural induction)', ('OpSequence.__iter__',), body, spec, lazy('r_flat'))


def ob_primcall():
    def body():
        g = gate_class()(const('g'))
        rec = lambda st, gate, *a: st.act(('den', gate.z, vz(a[0] if a else None))) if len(a) <= 1 else (_ for _ in ()).throw(Unsupported('arguments of apply_gates'))
        with patched((mod('apply'), 'apply_gates', rec)):
            return mod('primitives.primitive').Primitive.__call__(g, state(), vals())

    def spec(r):
        same_poly(r, [((), state().terms[0][1] + tuple(den()(gate_class()(const('g')))))], 'the gate applied')

    def replay(env, rng):
        R = rep()
        for k in range(4):
            g = R.glist(rng, 2, 1)[0]
            st = R.psi(rng, 2)
            r = R.differ(g(st, R.ENV), R.fold(st, [g], R.ENV), f'{g} called')
            if r:
                return r
    return Lst('a gate called on a state', ('Primitive.__call__',), body, spec, replay)


# ---------------------------------------------------------------- C06
def sup_sets(L):
    return load.ASet(load.flat_sets([sub_support(p) for p in parts(L)]))


def sub_support(p):
    if isinstance(p, Seg):
        return Seg(p.base, p.rev, [(c, tuple(x.qubit_support for x in i)) for c, i in p.cases])
    return p.qubit_support


def ob_support():
    def body():
        return make('OpSequence', ops()[0]).qubit_support

    def spec(r):
        L, b = ops()
        need(isinstance(r, AList) and r.kind == 'tuple', 'kind of the support')
        s = load.setbase(sup_sets(L))
        need(eqparts(parts(r), [Seg(s, False, [((), (A(s.var),))])]), 'the support is not the sorted union of the supports')

    def replay(env, rng):
        R = rep()
        for k in range(4):
            ts = [R.B.build(o) for o in R.tree(rng, 6, R.lengths(env)[k], 1)]
            got, want = R.OpSequence(ts).qubit_support, tuple(sorted({q for o in ts for q in o.qubit_support}))
            if got != want:
                return f'qubit_support {got} instead of {want}'
    return Lst('qubit_support of any number of operations', ('OpSequence.qubit_support',), body, spec, replay)


def ob_tensor(cls, full):
    par = A(const('factor'))

    def fs():
        return A(const('full_support'))

    def body():
        L, b = ops()
        loop.assume(b.length().z3() >= 1)
        o = make(cls, L, par)
        if full:
            s = AList('tuple', [Seg(Base('S', A), False, [((), (A(const('el:S')),))])], True)
            return o.tensor(vals(), s), s
        return o.tensor(vals()), o.qubit_support

    def spec(r):
        r, s = r
        L, b = ops()
        v = vals()
        t = lambda g: ('op', uf('tensor', g.z, vz(v), fz(s)))
        c = (wpar(par, v),) if cls == 'Scale' else ()
        if cls in ('Add', 'Observable'):
            same_poly(r, addends(parts(L), lambda g: ((), (t(g),))), f'tensor of {cls}')
        else:
            same_poly(r, [(c, tuple(word_of(parts(L), lambda g: [t(g)])))], f'tensor of {cls}')
    # the error of a support that is too small is the subject of another obligation
    return Lst(f'{cls}.tensor of any number of operations{", given support" if full else ""}', (f'{cls}.tensor', 'OpSequence.tensor', 'OpSequence.qubit_support'), body, spec,
               lazy('r_tensor', cls, full), raises=((ValueError,) if full else ()) + ((KeyError,) if cls == 'Scale' else ()))


def ob_tensor_err(cls):
    """a support which does not contain the qubits of the operations raises ValueError, one which does raises nothing"""
    def body():
        L, b = ops()
        loop.assume(b.length().z3() >= 1)
        o = make(cls, L, 2.0)
        s = AList('tuple', [Seg(Base('S', A), False, [((), (A(const('el:S')),))])], True)
        inside = load.ASet(parts(o.qubit_support)).issubset(load.ASet(parts(s)))
        try:
            o.tensor(vals(), s)
        except ValueError:
            return inside, True
        return inside, False

    def spec(r):
        inside, err = r
        need(inside or err, 'a support which is too small is accepted')
        need(not (inside and err), 'a sufficient support is rejected')
    return Lst(f'{cls}.tensor rejects exactly the supports which are too small', (f'{cls}.tensor',), body, spec, lazy('r_tensor_err', cls))


# ---------------------------------------------------------------- C16
def ob_convert(cls, sparse):
    fn = 'to_sparse' if sparse else 'to_dense'
    par = A(const('factor'))

    def body():
        L, b = ops()
        CTX.contracts = {fn: lambda o: op_class()(uf(fn, o.z))}
        o = make(cls, L, par)
        keep = dict(vars(o))
        r = getattr(mod('utils.conversion'), fn)(o)
        need(r is not o, 'the argument is returned')
        for k, x in vars(o).items():
            need(x is keep.get(k) or eqval(x, keep[k]), 'the argument is changed')
        return r, o

    def spec(r):
        r, o = r
        L, b = ops()
        need(type(r) is cls_(cls), f'type {type(r).__name__}')
        want = [Seg(p.base, p.rev, [(c, tuple(op_class()(uf(fn, x.z)) for x in i)) for c, i in p.cases]) if isinstance(p, Seg) else op_class()(uf(fn, p.z)) for p in parts(L)]
        need(eqparts(parts(r.operations), want), f'operations {r.operations}')
        for k in vars(o):
            if k != 'operations':
                need(hasattr(r, k) and eqval(getattr(r, k), getattr(o, k)), f'attribute {k}')
    return Lst(f'{fn} of {cls} with any number of operations', (fn,), body, spec, lazy('r_convert', cls, sparse))


def ob_pytree(cls):
    par = A(const('factor'))

    def body():
        o = make(cls, ops()[0], par)
        ch, aux = o.tree_flatten()
        return type(o).tree_unflatten(aux, ch), o

    def spec(r):
        r, o = r
        need(type(r) is cls_(cls), f'type {type(r).__name__}')
        for k in vars(o):
            x, y = getattr(r, k, None), getattr(o, k)
            if k == 'fparams':
                need(eqparts(parts(x), parts(y)), k)
            else:
                need(eqval(x, y), f'attribute {k}: {x} instead of {y}'[:200])
    return Lst(f'{cls} with any number of operations is rebuilt from its tree', (f'{cls}.tree_flatten', f'{cls}.tree_unflatten'), body, spec, lazy('r_pytree', cls))


# ---------------------------------------------------------------- C18
def named():
    """gates given directly (what the iteration lists is another obligation)"""
    return gates('L', (), gate_class())


def is_named(z):
    return z3.And(pred('is_Parametric', z), pred('is_parametric', z))


def flat_seq(L, cls='OpSequence', F=None):
    c = cls_(cls)

    class Listed(c):
        """its gates, as the iteration lists them"""
        def __iter__(self):
            return L
    Listed.__module__ = c.__module__
    o = Listed.__new__(Listed)
    object.__setattr__(o, 'operations', L)
    if F is not None:
        o.fparams = F
    return o


def name_set(L, F=None):
    out = []
    for p in parts(L):
        z = p.base.var
        c = is_named(z)
        if F is not None:
            c = z3.And(c, z3.Not(F(uf('param', z))))
        out.append((p.base, p.rev, c, uf('param', z)))
    return out


def members(s, L, F=None):
    """is the set the names (not among F) of the parametric gates of L: for an arbitrary gate, its name is added exactly when it should be"""
    ps = parts(s) if not isinstance(s, load.ASet) else s.ps
    for base, rv, c, z in name_set(L, F):
        segs = [p for p in ps if isinstance(p, Seg) and eqbase(p.base, base)]
        need(len(segs) == len(ps) == 1, f'names {ps}'[:200])
        cover = []
        for cc, i in segs[0].cases:
            CTX.enter(*cc)
            try:
                if CTX.solver.check() == z3.unsat:
                    continue
                for x in i:
                    need(isinstance(x, A), 'a name')
                    need(ent(x.z == z) and ent(c), f'the name {x} is added')
                if not i:
                    need(ent(z3.Not(c)), 'the name of a parametric gate is left out')
            finally:
                CTX.leave()


def ob_names(what):
    def F():
        return AList('list', [Seg(Base('F', A), False, [((), (A(const('el:F')),))])], True)

    def body():
        L, b = named()
        if what == 'param_names':
            return flat_seq(L).param_names
        CTX.setiter = True                     # vparams is a set made of the elements of a set
        o = flat_seq(L, 'QuantumCircuit', InSet())
        return o.vparams

    def spec(r):
        CTX.setiter = False
        need(isinstance(r, (set, load.ASet)), 'the names are not a set')
        L, b = named()
        members(r, L, None if what == 'param_names' else (lambda z: pred('in:F', z)))
    return Lst(f'{what} of any number of gates', (f'OpSequence.{what}' if what == 'param_names' else f'QuantumCircuit.{what}',), body, spec, lazy('r_names', what))


class InSet:
    """a collection of names, known by membership"""
    __hv__ = True

    def has(self, x):
        return decide(pred('in:F', term(x)))
    __contains__ = has

    def __iter__(self):
        raise Unsupported('iteration over the feature map parameters')


# ---------------------------------------------------------------- C09 / C20: expectation values of any number of observables
class Scalar:
    """the real part of <bra|ket>, and what else is a number here"""


def ob_expect(where):
    """any number of observables: the expectation value of each, in the given order, on the state the gates make"""
    def values_of(v):
        """circuit and observable values"""
        return v

    def body():
        O, b = gates('O', (), op_class())
        loop.assume(b.length().z3() >= 1)
        st, v = state(), vals()
        G, gb = gates('L', (), gate_class())
        loop.assume(gb.length().z3() >= 1)

        def c_gates(s, g, values=None, op='_unitary', *a):
            need(isinstance(s, P), 'state')
            need(op == '_unitary' or getattr(op, 'value', None) == '_unitary', 'kind of operation')
            return s.act(*word_of(parts(g), lambda x: [('den', x.z, vz(values))]))

        def c_single(s, o, values=None):
            return A(uf('exp', wz(s), o.z, vz(values)))
        m = mod('differentiation.ad' if where == 'ad' else 'differentiation.gpsr.analytical')
        with patched((m, 'apply_gates', c_gates), (m, '_ad_expectation_single_observable', c_single)):
            if where == 'ad':
                return m.ad_expectation(st, flat_seq(G), O, v)
            return m.analytical_expectation(st, G, O, v)

    def spec(r):
        O, b = gates('O', (), op_class())
        G, gb = gates('L', (), gate_class())
        v = vals()
        need(isinstance(r, load.Stack) and r.axis == 0, 'the result is not a stack')
        if not ent(pred('nonempty', v.z)):
            vc = vo = None
        elif ent(pred('has', v.z, term('circuit'))) and ent(pred('has', v.z, term('observables'))):
            vc, vo = A(uf('value', v.z, term('circuit'))), A(uf('value', v.z, term('observables')))
        else:
            vc = vo = v
        w = wz(state().act(*word_of(parts(G), lambda x: [('den', x.z, vz(vc))])))
        e = lambda o: A(uf('exp', w, o.z, vz(vo)))
        want = [Seg(p.base, p.rev, [(c, tuple(e(x) for x in i)) for c, i in p.cases]) if isinstance(p, Seg) else e(p) for p in parts(O)]
        need(eqparts(parts(r.items), want), f'expectation values {r.items.parts}'[:300])

    def replay(env, rng):
        R = rep()
        if where == 'ad':
            from horqrux.differentiation.ad import ad_expectation as f
            g = lambda st, gs, obs: f(st, R.QuantumCircuit(2, gs), obs, R.ENV)
            h = lambda st, gs, obs: f(st, R.QuantumCircuit(2, gs), obs, {'circuit': {**R.ENV, 'u': 3.3}, 'observables': dict(u=R.ENV['u'], a=9.1, b=9.2, c=9.3)})
        else:
            from horqrux.differentiation.gpsr.analytical import analytical_expectation as f
            g = lambda st, gs, obs: f(st, gs, obs, R.ENV)
            h = lambda st, gs, obs: f(st, gs, obs, {'circuit': {**R.ENV, 'u': 3.3}, 'observables': dict(u=R.ENV['u'], a=9.1, b=9.2, c=9.3)})
        return R.r_expect(g)(env, rng) or R.r_expect(h)(env, rng)
    return Lst(f'{"ad_expectation" if where == "ad" else "analytical_expectation"} of any number of observables and gates',
               ('ad_expectation' if where == 'ad' else 'analytical_expectation', '_values_processing'), body, spec, replay, raises=())


_wz = []


def free(x):
    """the generic elements a word mentions outside the products over their lists"""
    if isinstance(x, z3.ExprRef):
        return {str(v) for v in obl.z3vars(x) if str(v).startswith('el:')}
    if isinstance(x, (A, Obj)):
        return free(x.z)
    if isinstance(x, P):
        return free(x.terms)
    if isinstance(x, tuple) and len(x) == 4 and x[0] in ('prod', 'sum'):
        return free(x[3]) - {str(x[1].var)} | free(tuple(x[1].args))
    if isinstance(x, (tuple, list)):
        return set().union(*[free(y) for y in x]) if x else set()
    return set()


def wz(s):
    """a term for a state: equal words (on this path) give equal terms"""
    for t, z in _wz:
        if type(t) is type(s) and len(t.terms) == len(s.terms) and peq(t, s):
            return z
    if free(s.terms):
        raise Unsupported('a state which depends on an element')
    z = const(val.fresh('state', type(s).__name__, s.terms))
    _wz.append((s, z))
    return z


# ---------------------------------------------------------------- C10: shifted gates
def ob_gpsr_names():
    def body():
        L, b = named()
        return mod('differentiation.gpsr.gpsr_utils').extract_gate_names(L)

    def spec(r):
        L, b = named()
        ps = parts(r)
        z = b.var
        c = z3.And(pred('is_Parametric', z), pred('is_str', uf('param', z)))
        need(len(ps) == 1 and isinstance(ps[0], Seg) and ps[0].base.name == b.name and not ps[0].rev, f'names {ps}')
        for cc, i in ps[0].cases:
            CTX.enter(*cc)
            try:
                if CTX.solver.check() == z3.unsat:
                    continue
                need(len(i) == (1 if ent(c) else 0), 'names')
                if i:
                    need(eqval(i[0], A(uf('param', z))), 'the name')
                else:
                    need(ent(z3.Not(c)), 'a name is left out')
            finally:
                CTX.leave()
    return Lst('extract_gate_names of any number of gates', ('extract_gate_names',), body, spec, lazy('r_gpsr', 'names'))


def ob_gpsr_rename():
    def body():
        L, b = named()
        U = mod('differentiation.gpsr.gpsr_utils')
        with patched((U, 'new_named_parametric', lambda g: gate_class()(uf('renamed', g.z)))):
            return U.create_renamed_operators(L, InSet())

    def spec(r):
        L, b = named()
        z = b.var
        c = z3.And(pred('is_parametric', z), pred('in:F', uf('param', z)))
        ps = parts(r)
        need(len(ps) == 1 and isinstance(ps[0], Seg) and ps[0].base.name == b.name and not ps[0].rev, f'gates {ps}'[:200])
        for cc, i in ps[0].cases:
            CTX.enter(*cc)
            try:
                if CTX.solver.check() == z3.unsat:
                    continue
                need(len(i) == 1, 'number of gates')
                if ent(c):
                    need(ent(i[0].z == uf('renamed', z)), 'a gate with a differentiated parameter is not renamed')
                elif ent(z3.Not(c)):
                    need(ent(i[0].z == z), 'another gate is changed')
                else:
                    raise Wrong('cases of the gates')
            finally:
                CTX.leave()
    return Lst('create_renamed_operators of any number of gates', ('create_renamed_operators',), body, spec, lazy('r_gpsr', 'rename'))


def ob_gpsr_prepare():
    """for an arbitrary name: the positions of the gates which carry it, in order"""
    K = A(const('name'))

    def body():
        L, b = named()
        U = mod('differentiation.gpsr.gpsr_utils')
        return U.prepare_param_gates_seq(Keys(K), L)

    def spec(r):
        L, b = named()
        need(isinstance(r, KeyDict), 'kind of the result')
        got = parts(r.at)
        z = b.var
        c = z3.And(pred('is_parametric', z), uf('param', z) == K.z)
        need(len(got) == 1 and isinstance(got[0], Seg) and got[0].base.name == b.name and not got[0].rev or not got, f'positions {got}'[:200])
        if not got:
            need(ent(b.length().z3() == 0), 'no positions')
            return
        for cc, i in got[0].cases:
            CTX.enter(*cc)
            try:
                if CTX.solver.check() == z3.unsat:
                    continue
                if i:
                    need(len(i) == 1 and ent(c) and eqval(i[0], A(uf('index', z))), f'position {i}')
                else:
                    need(ent(z3.Not(c)), 'the position of a gate is left out')
            finally:
                CTX.leave()
    return Lst('prepare_param_gates_seq of any number of gates and names', ('prepare_param_gates_seq',), body, spec, lazy('r_gpsr', 'prepare'))


class Keys:
    """any number of names, one of which is K"""
    __hv__ = True

    def __init__(self, k):
        self.k = k

    def has(self, x):
        if decide(term(x) == self.k.z):
            return True
        return decide(pred('in:F', term(x)))
    __contains__ = has

    def fromkeys(self, v):
        return KeyDict(self, v)

    def __iter__(self):
        raise Unsupported('iteration over the names')


class KeyDict:
    """a dictionary over these names, seen at the arbitrary name K (what it holds at K does not depend on what it holds elsewhere)"""
    __hv__ = True

    def __init__(self, keys, at):
        self.keys_, self.at = keys, at

    def __getitem__(self, k):
        if decide(term(k) == self.keys_.k.z):
            return self.at
        if not self.keys_.has(k):
            raise KeyError(k)
        return Other()

    def __setitem__(self, k, v):
        if decide(term(k) == self.keys_.k.z):
            if isinstance(v, Other):
                raise Unsupported('values mixed between names')
            self.at = v
        elif not isinstance(v, Other):
            pass

    def __hv_box__(self):
        return self.at

    def __hv_rebox__(self, v):
        return KeyDict(self.keys_, v)


class Other:
    """what the dictionary holds at another name"""
    def __add__(self, o):
        return self
    __radd__ = __iadd__ = __add__


def ob_gpsr_alter():
    """the gate at any position is replaced by its shifted form, the others stay"""
    def body():
        U = mod('differentiation.gpsr.gpsr_utils')
        i, pre, g, post = split_at()
        with patched((U, 'to_shift', lambda gate, s: gate_class()(uf('shifted', gate.z, term(s))))):
            return U.alter_gate_sequence(At(pre, g, post), Pos(), A(const('shift')))

    def spec(r):
        i, pre, g, post = split_at()
        want = pre + [gate_class()(uf('shifted', g.z, const('shift')))] + post
        need(eqparts(parts(r), want), f'gates {r}'[:300])
    return Lst('alter_gate_sequence at any position of a list of any length', ('alter_gate_sequence',), body, spec, lazy('r_gpsr', 'alter'))


def split_at():
    G = gate_class()
    a, b = Base('before', G), Base('after', G)
    return mk(a.length()), [Seg(a, False, [((), (G(a.var),))])], G(const('g')), [Seg(b, False, [((), (G(b.var),))])]


class Pos(SymInt):
    """a position of the list: as many elements before it as the segment 'before' has"""
    def __init__(self):
        super().__init__(Base('before', None).length())


class At(AList):
    """a list seen at one position"""
    def __init__(self, pre, g, post):
        super().__init__('list', pre + [g] + post, True)
        self.pre, self.g, self.post = pre, g, post

    def __getitem__(self, i):
        n = AList('list', self.pre).symlen()
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported('slice')
            if i.start is None and i.stop is not None:
                if ent0(lin(i.stop) - lin(n)):
                    return AList('list', self.pre)
                if ent0(lin(i.stop) - lin(n) - Lin(None, 1)):
                    return AList('list', self.pre + [self.g])
            if i.stop is None and i.start is not None:
                if ent0(lin(i.start) - lin(n) - Lin(None, 1)):
                    return AList('list', self.post)
                if ent0(lin(i.start) - lin(n)):
                    return AList('list', [self.g] + self.post)
            raise Unsupported('slice')
        if ent0(lin(i) - lin(n)):
            return self.g
        raise Unsupported('index')


def ob_to_shift():
    """the shifted gate: the same gate with the shift added"""
    def body():
        U = mod('differentiation.gpsr.gpsr_utils')
        return U.to_shift(AParam(), A(const('ds')))

    def spec(r):
        need(isinstance(r, AParam), 'kind of the result')
        a = aux0()
        need(len(r.aux) == len(a) and all(eqval(x, y) for x, y in zip(r.aux[:-1], a[:-1])), f'attributes {r.aux}')
        need(eqval(r.aux[-1], a[-1] + A(const('ds'))), f'shift {r.aux[-1]}')

    def replay(env, rng):
        R = rep()
        from horqrux.differentiation.gpsr.gpsr_utils import to_shift
        for k in range(4):
            g = R.B.build(R.G.rand_gate(rng, range(3), fixed=False, noise=0.5))
            h = to_shift(g, -0.7)
            x, y = g.tree_flatten()[1], h.tree_flatten()[1]
            if type(g) is not type(h) or x[:-1] != y[:-1] or abs(x[-1] - 0.7 - y[-1]) > 1e-12:
                return f'{g} becomes {h}'
    return Lst('to_shift', ('to_shift',), body, spec, replay)


def ob_renamed():
    def body():
        return mod('differentiation.gpsr.gpsr_utils').new_named_parametric(AParam())

    def spec(r):
        need(isinstance(r, AParam), 'kind of the result')
        a = aux0()
        need(len(r.aux) == len(a) and all(eqval(x, y) for i, (x, y) in enumerate(zip(r.aux, a)) if i != len(a) - 2), f'attributes {r.aux}')
        need(isinstance(r.aux[-2], str), 'the new name')
    return Lst('new_named_parametric', ('new_named_parametric',), body, spec, lazy('r_gpsr', 'rename'))


NAMES = ('generator_name', 'target', 'control', 'noise', 'sparse', 'param', 'shift')


def aux0():
    return tuple(A(const('attr:' + n)) for n in NAMES)


class AParam:
    """a parametric gate by its attributes (tree_flatten is an obligation of its own)"""
    def __init__(self, *aux):
        self.aux = aux or aux0()

    def tree_flatten(self):
        return (), self.aux

    @classmethod
    def tree_unflatten(cls, aux, children):
        return cls(*children, *aux)


def of(pid):
    if pid == 'C07':
        for c in ('OpSequence', 'QuantumCircuit', 'Add', 'Scale'):
            yield ob_call(c)
        yield ob_call('Observable', 'forward')
        yield ob_call('QuantumCircuit', 'run')
        yield ob_scale_one(True)
        yield ob_scale_one(False)
        from .ansatz import ob_hea
        for m in (1, 3):
            yield ob_hea(m)
        yield ob_flat()
        yield ob_primcall()
    if pid == 'C06':
        yield ob_support()
        for c in CLS:
            for f in (False, True):
                yield ob_tensor(c, f)
            yield ob_tensor_err(c)
    if pid == 'C13':
        for c in CLS:
            yield ob_convert(c, True)
    if pid == 'C16':
        for c in CLS:
            for s in (True, False):
                yield ob_convert(c, s)
            yield ob_pytree(c)
    if pid == 'C18':
        from .ansatz import ob_hea
        for m in (1, 3):
            yield ob_hea(m)
        yield ob_flat()
        yield ob_names('param_names')
        yield ob_names('vparams')
    if pid in ('C09', 'C20'):
        yield ob_expect('ad')
    if pid == 'C10':
        yield ob_expect('an')
        yield ob_gpsr_names()
        yield ob_gpsr_rename()
        yield ob_gpsr_prepare()
        yield ob_gpsr_alter()
        yield ob_to_shift()
        yield ob_renamed()
