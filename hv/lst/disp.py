"""Obligations on the entry points: which estimate a request gets (mode, number of shots, kind of state), on any circuit, any number of observables, any
number of shots; what is rejected."""
from __future__ import annotations
import z3
from .obl import *
from . import obl, val, load, loop
from .comp import flat_seq, free, op_class, rep, wz
from ..una.sym import Pow2, var


def number(name='int:n_shots'):
    return var(name)


def n_of(env):
    return env.get('n_shots', 0)


def st_of(kind):
    return dm_state() if kind == 'dm' else state(PSp if kind == 'sp' else PArr)


class Raised:
    def __init__(self, e):
        self.e = e


def outcome(f):
    try:
        return f()
    except (Unsupported, loop.NeedHom):
        raise
    except (ValueError, TypeError) as e:
        return Raised(e)


class Est:
    """an estimate: what it estimates, and how"""
    __hv__ = True

    def __init__(self, kind, st, gates, obs, values, n=None, key=None):
        self.kind, self.st, self.gates, self.obs, self.values, self.n, self.key = kind, st, gates, obs, values, n, key

    def reshape(self, *a):
        return self


def norm_gates(g):
    if hasattr(g, 'operations') and not isinstance(g, Obj):
        g = load.s_iter(g)
    return parts(g)


def est(kind):
    """contracts of the estimators (C09, C10, C12): the exact expectations, or the estimate with n shots"""
    if kind == 'ad':
        return lambda state, circuit, observables, values: Est('exact', state, norm_gates(circuit), observables, values)
    if kind == 'an':
        return lambda state, gates, observables, values: Est('exact', state, norm_gates(gates), observables, values)
    return lambda state, gates, observables, values, n_shots=100, key=None: Est('shots', state, norm_gates(gates), observables, values, n_shots, key)


def ob_route(mode, kind):
    K = A(const('key'))

    def body():
        api = mod('api')
        G, gb = gates('L', (), gate_class())
        O, ob = gates('O', (), op_class())
        n = number()
        with patched((api, 'ad_expectation', est('ad')), (api, 'adjoint_expectation', est('ad')), (api, 'analytical_gpsr_fwd', est('an')),
                     (api, 'finite_shots', est('shots')), (api, 'finite_shots_fwd', est('shots'))):
            return outcome(lambda: api.expectation(st_of(kind), flat_seq(G), O, vals(), mode, n, K))

    def spec(r):
        n = lin(number()).z3()
        if mode not in ('ad', 'adjoint', 'gpsr') or mode == 'adjoint' and kind == 'dm':
            need(isinstance(r, Raised), 'the request is honoured')
            return
        if isinstance(r, Raised):
            need(ent(n < 0), f'{type(r.e).__name__}: {r.e} for a valid request')
            return
        need(isinstance(r, Est), f'the result is {r}')
        need(not CTX.check(n < 0), 'a negative number of shots is accepted')
        if mode != 'adjoint':
            need(ent(n == 0) if r.kind == 'exact' else ent(n > 0), f'{r.kind} estimate')
        G, gb = gates('L', (), gate_class())
        O, ob = gates('O', (), op_class())
        need(type(r.st) is type(st_of(kind)) and peq(r.st, st_of(kind)), 'the state')
        need(eqparts(r.gates, parts(G)), 'the gates')
        need(eqparts(parts(r.obs), parts(O)), 'the observables')
        need(isinstance(r.values, Vals) and r.values.z.eq(vals().z), 'the values')
        if r.kind == 'shots':
            need(ent(lin(r.n).z3() == n), 'the number of shots')
            need(isinstance(r.key, A) and r.key.z.eq(K.z), 'the key')
    return Lst(f'expectation[{mode}] of a {dict(arr="state vector", dm="density matrix", sp="sparse state")[kind]}, any number of shots', ('expectation',), body, spec,
               lazy('r_route', mode, kind))


def ob_sample(kind):
    def body():
        api = mod('api')
        G, gb = gates('L', (), gate_class())
        q = var('int:qubits')
        loop.assume(lin(q).z3() >= 1)

        def run_(s, v):
            need(isinstance(v, Vals), 'values')
            return s.act(*word_of(parts(G), lambda x: [('den', x.z, vz(v))]))

        def counts(p, nq, n):
            return ('counts', p, nq, n)

        def probs(s):
            return ('probs', s.array.st if not isinstance(s, P) and hasattr(s, 'array') else s)
        with patched((api, 'num_qubits', lambda s: q), (api, 'probabilities', probs), (api, 'sample_from_probs', counts)):
            return outcome(lambda: api.sample(st_of(kind) if kind != 'dm' else dm_arr(), run_, vals(), number()))

    def spec(r):
        n = lin(number()).z3()
        if isinstance(r, Raised):
            need(ent(n < 1), f'{r.e} for a valid request')
            return
        need(not CTX.check(n < 1), 'fewer than one shot accepted')
        need(isinstance(r, tuple) and r[0] == 'counts' and r[1][0] == 'probs', 'result')
        G, gb = gates('L', (), gate_class())
        want = st_of(kind).act(*word_of(parts(G), lambda x: [('den', x.z, vz(vals()))]))
        need(peq(P(r[1][1].terms), P(want.terms)), 'the state which is measured')
        need(ent(lin(r[2]).z3() == z3.Int('int:qubits')), 'number of qubits')
        need(ent(lin(r[3]).z3() == n), 'number of shots')
    return Lst(f'sample of a {dict(arr="state vector", dm="density matrix", sp="sparse state")[kind]}, any number of shots', ('sample',), body, spec, lazy('r_sample', kind))


class Entries:
    """the array of a density matrix: its entries in one of their two layouts"""
    __hv__ = True

    def __init__(self, st, shape=None):
        self.st, self.shape = st, shape

    def reshape(self, *s):
        s = s[0] if len(s) == 1 else s
        need(isinstance(s, tuple) and len(s) == 2, 'shape of the density matrix')
        d = z3.Int('int:qubits')
        for x in s:
            need(isinstance(x, Pow2) and ent(x.l.z3() == d), 'shape of the density matrix')
        return Entries(self.st, s)


_dma = {}


def dm_arr(terms=None):
    if 'c' not in _dma:
        base = type(dm_state())

        class DmA(base):
            array = property(lambda s: Entries(s))
        _dma['c'] = DmA
    return _dma['c'](dm_state().terms if terms is None else terms)


def ob_adjoint_many():
    """api.adjoint_expectation: the adjoint value of each observable, in order"""
    def body():
        api = mod('api')
        G, gb = gates('L', (), gate_class())
        O, ob = gates('O', (), op_class())
        loop.assume(ob.length().z3() >= 1)

        def one(s, c, o, v):
            need(isinstance(s, P) and peq(s, state()), 'the state')
            need(eqparts(norm_gates(c), parts(G)), 'the gates')
            return A(uf('exact', o.z, vz(v)))
        with patched((api, 'apply_adjoint', one)):
            return api.adjoint_expectation(state(), flat_seq(G), O, vals())

    def spec(r):
        O, ob = gates('O', (), op_class())
        need(isinstance(r, load.Stack) and r.axis == 0, 'the result is not a stack')
        want = [Seg(p.base, p.rev, [(c, tuple(A(uf('exact', x.z, vals().z)) for x in i)) for c, i in p.cases]) for p in parts(O)]
        need(eqparts(parts(r.items), want), f'expectation values {r.items.parts}'[:300])

    def replay(env, rng):
        from horqrux.api import adjoint_expectation as f
        R = rep()
        return R.r_expect(lambda st, gs, obs: f(st, R.QuantumCircuit(2, gs), obs, R.ENV))(env, rng)
    return Lst('adjoint_expectation of any number of observables', ('adjoint_expectation',), body, spec, replay)


def split(v):
    """values for the circuit and for the observables"""
    if not ent(pred('nonempty', v.z)):
        return None, None
    if ent(pred('has', v.z, term('circuit'))) and ent(pred('has', v.z, term('observables'))):
        return A(uf('value', v.z, term('circuit'))), A(uf('value', v.z, term('observables')))
    return v, v


def ob_adjoint_one(kind='arr'):
    """adjoint.adjoint_expectation: Re <psi|O psi> after any number of gates"""
    def body():
        ad = mod('differentiation.adjoint')
        G, gb = gates('L', (), gate_class())
        o = op_class()(const('o'))

        def c_gates(s, g, values=None, op='_unitary', *a):
            need(op == '_unitary' or getattr(op, 'value', None) == '_unitary', 'kind of operation')
            return s.act(*word_of(parts(g), lambda x: [('den', x.z, vz(values))]))
        with patched((ad, 'apply_gates', c_gates), (ad, 'inner', lambda a, b: A(uf('inner', wz(a), wz(b)))), (ad, 'real_sp', lambda x: A(uf('re', x.z)))):
            return ad.adjoint_expectation(st_of(kind), flat_seq(G), o, vals())

    def spec(r):
        G, gb = gates('L', (), gate_class())
        vc, vo = split(vals())
        w = st_of(kind).act(*word_of(parts(G), lambda x: [('den', x.z, vz(vc))]))
        need(isinstance(r, A) and ent(r.z == uf('re', uf('inner', wz(w), wz(w.act(('den', const('o'), vz(vo))))))), f'expectation {r}')

    def replay(env, rng):
        from horqrux.differentiation.adjoint import adjoint_expectation as f
        import numpy as np
        R = rep()
        g = lambda st, gs, obs: np.array([f(st, R.QuantumCircuit(2, gs), o, R.ENV) for o in obs])
        h = lambda st, gs, obs: np.array([f(st, R.QuantumCircuit(2, gs), o, {'circuit': {**R.ENV, 'u': 3.3}, 'observables': dict(u=R.ENV['u'], a=9.1, b=9.2, c=9.3)}) for o in obs])
        return R.r_expect(g)(env, rng) or R.r_expect(h)(env, rng)
    return Lst(f'adjoint expectation after any number of gates', ('adjoint_expectation', '_values_processing'), body, spec, replay)


def ob_finite(kind):
    """finite_shots: the observables are sampled, in order, on the state which the gates make"""
    K = A(const('key'))

    def body():
        sh = mod('shots')
        G, gb = gates('L', (), gate_class())
        O, ob = gates('O', (), op_class())
        q = var('int:qubits')

        def c_gates(s, g, values=None, op='_unitary', *a):
            need(op == '_unitary' or getattr(op, 'value', None) == '_unitary', 'kind of operation')
            r = s.act(*word_of(parts(g), lambda x: [('den', x.z, vz(values))]))
            return dm_arr(r.terms) if kind == 'dm' else r

        def c_eig(state, observables, values, n_qubits, n_shots, key=None):
            return Est('eig', state.array.st if not isinstance(state, P) else state, n_qubits, observables, values, n_shots, key)
        with patched((sh, 'apply_gates', c_gates), (sh, 'num_qubits', lambda s: q), (sh, 'eigen_sample', c_eig)):
            return sh.finite_shots(st_of(kind), G, O, vals(), number(), K)

    def spec(r):
        need(isinstance(r, Est) and r.kind == 'eig', 'result')
        G, gb = gates('L', (), gate_class())
        O, ob = gates('O', (), op_class())
        vc, vo = split(vals())
        w = st_of(kind).act(*word_of(parts(G), lambda x: [('den', x.z, vz(vc))]))
        need(peq(P(r.st.terms), P(w.terms)), 'the state which is measured')
        need(eqparts(parts(r.obs), parts(O)), 'the observables')
        need(vz(r.values).eq(vz(vo)), 'the values of the observables')
        need(ent(lin(r.gates).z3() == z3.Int('int:qubits')), 'number of qubits')
        need(ent(lin(r.n).z3() == lin(number()).z3()), 'number of shots')
        need(isinstance(r.key, A) and r.key.z.eq(K.z), 'the key')
    return Lst(f'finite_shots of a {dict(arr="state vector", dm="density matrix")[kind]}, any number of gates, observables, shots', ('finite_shots', '_values_processing'), body, spec, lazy('r_finite', kind))


def of(pid):
    if pid in ('C09', 'C12', 'C20'):
        for m in ('ad', 'adjoint', 'gpsr') + (('backprop',) if pid == 'C20' else ()):
            for k in ('arr', 'dm', 'sp'):
                yield ob_route(m, k)
    if pid in ('C11', 'C20'):
        for k in ('arr', 'dm'):
            yield ob_sample(k)
    if pid == 'C09':
        yield ob_adjoint_many()
        yield ob_adjoint_one()
    if pid == 'C12':
        for k in ('arr', 'dm'):
            yield ob_finite(k)
