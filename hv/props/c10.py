from .common import *
from ..build import DiffMode
from ..core import Skip
from .c09 import OB

CONTRACTS = [
    'jax derivatives of expectation in AD, ADJOINT and GPSR mode: ensures d<O_i>/d(value) exactly, for every value',
    'analytical_gpsr_bwd: ensures [sum_i d<O_i>/d(value) for value in values], in the order of the dictionary',
    'spectral_gap: ensures the eigenvalue gap entering the shift rule',
]
ASSUMPTIONS = ['parameter-shift gradients are taken with respect to circuit parameters; in parameter-shift mode rotations carry no controls (see known findings)']
FN = ('ad_expectation', 'analytical_gpsr_jvp', 'analytical_gpsr_bwd', 'create_renamed_operators', 'alter_gate_sequence', 'to_shift', 'new_named_parametric', 'spectral_gap', 'adjoint_expectation')


def deriv_fn(mode, how, ops, obs, n, form='flat'):
    """(state, {names: values}, order) -> {name: d/dname of each observable}"""
    def f(s, v, order):
        vv = {x: v[x] for x in order}
        if mode == 'bwd':
            from horqrux.differentiation.gpsr import analytical_gpsr_bwd
            return list(analytical_gpsr_bwd(s, [B.build(g) for o in ops for g in O.flat(o)], [OB(o) for o in obs], vv))
        c, ob = B.circ(ops, n), [OB(o) for o in obs]

        def g(w):
            return expectation(s, c, ob, w if form == 'flat' else {'circuit': w, 'observables': vv}, diff_mode=DiffMode(mode))
        if how == 'grad':
            J = jax.grad(lambda w: g(w).sum())(vv)
        elif how == 'gradjit':
            J = jax.jit(jax.grad(lambda w: g(w).sum()))(vv)
        else:
            J = getattr(jax, how)(g)(vv)
        return [J[x] for x in order]
    return f


def scn(key, ops, obs, n, mode, how, rep='psi', order=None, extra=(), sym=True, num=0, form='flat', wide=None):
    nm = sorted(set(names_of(ops)) | set(extra) | (set().union(*[O.params(o) for o in obs]) if form == 'flat' else set()))
    order = list(order or nm)
    onm = sorted(set().union(*[O.params(o) for o in obs]))
    inputs = {'s': ('c', (2,) * (2 * n if rep == 'rho' else n)), **env_inputs(sorted(set(nm) | set(onm)))}
    if rep == 'psi1':                       # density matrix of a fixed pure state
        inputs['s'] = ('c', (2,) * n)
    fn = deriv_fn(mode, how, ops, obs, n, form)

    def real(a):
        s = DensityMatrix(a['s']) if rep == 'rho' else (density_mat(a['s']) if rep == 'psi1' else a['s'])
        v = env_of(a, set(nm) | set(onm))
        if form == 'nested':
            from types import SimpleNamespace
            c, ob = B.circ(ops, n), [OB(o) for o in obs]
            w0 = {x: v[x] for x in order}
            g = lambda w: expectation(s, c, ob, {'circuit': w, 'observables': {x: v[x] for x in onm}}, diff_mode=DiffMode(mode))
            J = getattr(jax, how)(g)(w0) if how != 'grad' else jax.grad(lambda w: g(w).sum())(w0)
            return [J[x] for x in order]
        return fn(s, v, order)

    noisy = any(O.has_noise(o) for o in ops)

    def val(d, ob, k, env):
        oe = {x: d[x] for x in onm} if form == 'nested' else env
        if rep != 'psi' or noisy:
            r = seq_rho(ops, d['s'] if rep == 'rho' else O.outer(d['s']), env, k)
            return O.expval_rho(ob, r, oe, k)
        return O.expval(ob, seq_act(ops, d['s'], env, k), oe, k)

    def spec(d, k):
        env = {x: d[x] for x in set(nm) | set(onm)}
        out = []
        base = {}
        for x in order:
            if k.sym:
                for i, ob in enumerate(obs):
                    if i not in base:
                        base[i] = val(d, ob, k, env)
                ds = [base[i].diff(x) if hasattr(base[i], 'diff') else 0 for i in range(len(obs))]
            else:
                ds = [O.deriv(lambda e, ob=ob: val(d, ob, k, e), x, env, k) for ob in obs]
            if mode == 'bwd' or how in ('grad', 'gradjit'):
                out.append(sum(ds))
            else:
                a = np.empty((len(ds),), dtype=object)
                for i, y in enumerate(ds):
                    a[i] = y
                out.append(a)
        return out
    return Scn(f'{key} {mode}/{how} {rep} {form} n={n} wrt {",".join(order)} {label(ops)} | {" , ".join(G.short(o) for o in obs)[:90]}', inputs, real, spec, fn=FN,
               bound=f'n={n}, {len(ops)} operations', sym=sym, num=num, tol=1e-7)


def cphase(r, ops, n):
    """some controlled phase gates"""
    out = []
    for o in ops:
        if o[0] == 'r' and o[1] == 'PHASE' and n > 1 and r.random() < 0.5:
            c = int(r.choice([x for x in range(n) if x not in o[3]]))
            o = o[:4] + ((c,),) + o[5:]
        if o[0] == 'seq':
            o = ('seq', cphase(r, o[1], n))
        out.append(o)
    return out


WAYS = [('ad', 'jacrev'), ('ad', 'jacfwd'), ('adjoint', 'jacrev'), ('gpsr', 'jacfwd'), ('gpsr', 'grad'), ('bwd', '-'), ('adjoint', 'grad'), ('ad', 'grad')]


def shift_rule(nm, ctl, how):
    """The rule itself: the expectation value of any circuit is linear in M (x) conj(M) of one of its
    gates, so an exact rule for M (x) conj(M) is exact for every circuit, state and observable."""
    def real(a):
        g = B.build(('r', nm, 'a', (1,) if ctl else (0,), ctl))
        try:
            from horqrux.differentiation.gpsr.gpsr_utils import initialize_gpsr_ingredients, to_shift
            gap = g.spectral_gap
            S = initialize_gpsr_ingredients({'a': 0.5})[2]
        except (ImportError, AttributeError) as e:
            raise Skip(f'no shift rule of this form: {e}')

        def prod(t):
            if how == 'values':
                u = to_shift(g, a['h']).tensor({'a': a['a'] + t})
            else:
                u = to_shift(to_shift(g, a['h']), t).tensor({'a': a['a']})
            return jnp.kron(u, jnp.conj(u))
        return gap * (prod(S) - prod(-S)) / (4.0 * jnp.sin(gap * S / 2.0))

    def spec(d, k):
        def f(e):
            u = O.rotation(nm, e['a'] + d['h'], k)
            if ctl:
                w = O.eye(4)
                w[2:, 2:] = u
                u = w
            n = u.shape[0]
            return [u[i, j] * (u[x, y].conj() if hasattr(u[x, y], 'conj') else np.conj(u[x, y])) for i in range(n) for x in range(n) for j in range(n) for y in range(n)]
        n = 4 if ctl else 2
        if k.sym:
            vals = [v.diff('a') if hasattr(v, 'diff') else 0 for v in f({'a': d['a']})]
        else:
            h = 1e-5
            vals = [(x - y) / (2 * h) for x, y in zip(f({'a': d['a'] + h}), f({'a': d['a'] - h}))]
        out = np.empty((n * n, n * n), dtype=object)
        for i, v in enumerate(vals):
            out.flat[i] = v
        return out
    return Scn(f'shift rule {nm}{" controlled" if ctl else ""} {how}', {'a': ('r',), 'h': ('r',)}, real, spec, fn=FN + ('shift',), num=3, tol=1e-6)


def scenarios():
    # the rule, for every angle and shift of every gate it serves
    for nm in G.ROT:
        for how in ('values', 'gate'):
            yield shift_rule(nm, (), how)
            if nm == 'PHASE':
                yield shift_rule(nm, (0,), how)
    z0, x1, y0 = ('add', [('g', 'Z', (0,), ())]), ('add', [('g', 'X', (1,), ())]), ('add', [('g', 'Y', (0,), ())])
    obs2 = [('add', [('g', 'Z', (0,), ()), ('scale', 0.5, ('g', 'X', (1,), ()))]), ('add', [('seq', [('g', 'X', (0,), ()), ('g', 'Y', (1,), ())])])]
    # every parametric gate alone, every mode
    for nm in G.ROT:
        for mode, how in WAYS:
            yield scn('one', [('r', nm, 'a', (0,), ())], [('add', [('g', 'X', (0,), ()), ('g', 'Z', (0,), ()), ('g', 'Y', (0,), ())])], 1, mode, how)
        # controlled: automatic and adjoint for all, shift rule for the phase gate
        for mode, how in WAYS:
            if nm == 'PHASE' or mode in ('ad', 'adjoint'):
                yield scn('ctrl', [('r', nm, 'a', (1,), (0,))], obs2, 2, mode, how)
    # sharing patterns
    rx0, ry1, rz0, p1, cp = [('r', 'RX', 'a', (0,), ()), ('r', 'RY', 'a', (1,), ()), ('r', 'RZ', 'b', (0,), ()), ('r', 'PHASE', 'a', (1,), ()), ('r', 'PHASE', 'b', (1,), (0,))]
    cx = ('g', 'X', (1,), (0,))
    pats = [[rx0, ry1], [rx0, rx0], [rx0, cx, ry1, rz0], [rz0, ('g', 'H', (0,), ()), p1, cx, p1], [cp, ('g', 'H', (0,), ()), cp, rx0], [rx0, rz0, rx0, ('r', 'RY', 'b', (1,), ()), cx],
            [('seq', [rx0, ('seq', [ry1])]), cx, rz0], [p1, rx0, ('g', 'X', (0,), (1,)), rx0], [rx0, ('r', 'RX', 0.7, (0,), ()), ry1], [('r', 'RX', 'b', (0,), ()), ry1, cx]]
    for i, ops in enumerate(pats):
        for j, (mode, how) in enumerate(WAYS):
            if THOROUGH or mode in ('gpsr', 'bwd') or (i + j) % 3 == 0:
                yield scn(f'share{i}', ops, obs2, 2, mode, how)
    # gates which carry a shift already
    sh = [[('r', 'RX', 'a', (0,), (), (), 0.7), ry1], [('r', 'RX', 'a', (0,), (), (), 0.7), ('r', 'RY', 'a', (0,), ())], [('r', 'RZ', 'b', (0,), (), (), -1.9), ('g', 'H', (0,), ()), ('r', 'PHASE', 'a', (0,), (), (), 2.5), ('r', 'PHASE', 'a', (1,), (), (), 0.4), cx],
          [('r', 'RX', 'a', (0,), (), (), 0.7)], [('r', 'RY', 1.1, (1,), (), (), 0.6), ('r', 'RX', 'a', (0,), ()), cx, ('r', 'RX', 'a', (0,), (), (), -0.25)]]
    for i, ops in enumerate(sh):
        for mode, how in WAYS:
            if THOROUGH or mode in ('gpsr', 'bwd') or (i % 2 == 0 and how != 'grad'):
                yield scn(f'shifted{i}', ops, obs2, 2, mode, how)
    # a shared parameter on noisy and noiseless gates
    nz = (('BitFlip', 0.1),)
    for i, ops in enumerate([[rx0, ry1, ('r', 'RX', 'a', (0,), (), nz)], [('r', 'RX', 'a', (0,), (), nz), cx, rx0], [('r', 'RX', 'a', (0,), (), nz), ('r', 'RY', 'a', (1,), (), nz), rx0]]):
        for mode, how in WAYS:
            if mode != 'adjoint' and (THOROUGH or mode in ('gpsr', 'bwd')):
                yield scn(f'shared noisy{i}', ops, obs2, 2, mode, how)
    # order of the dictionary and values which the circuit does not use
    for i, ops in enumerate([[rx0, rz0, cx], [rx0, ry1, rz0, cx], [('r', 'RX', 'c', (0,), ()), ('r', 'RY', 'a', (0,), ()), ('r', 'RZ', 'b', (0,), ())]]):
        nmz = names_of(ops)
        for j, ordr in enumerate([list(reversed(nmz)), ['unused'] + nmz, nmz + ['unused'], nmz[:1] + ['unused'] + list(reversed(nmz[1:])) + ['zz']]):
            for mode, how in WAYS:
                if THOROUGH or mode in ('gpsr', 'bwd'):
                    yield scn(f'order{i}.{j}', ops, obs2, 2, mode, how, order=ordr, extra=[x for x in ordr if x not in nmz])
    # only unused values
    for mode, how in WAYS:
        yield scn('unused only', [('g', 'H', (0,), ()), ('r', 'RX', 0.3, (0,), ())], [z0], 1, mode, how, order=['u'], extra=['u'])
    # single gate object instead of a list
    for nm in ('RX', 'PHASE'):
        def real(a, nm=nm):
            from horqrux.differentiation.gpsr import analytical_gpsr_bwd
            return analytical_gpsr_bwd(a['s'], B.build(('r', nm, 'a', (0,), ())), [OB(y0), OB(z0)], {'a': a['a']})

        def spec(d, k, nm=nm):
            f = lambda e: O.expval(y0, O.act(('r', nm, 'a', (0,), ()), d['s'], e, k), e, k) + O.expval(z0, O.act(('r', nm, 'a', (0,), ()), d['s'], e, k), e, k)
            a = np.empty((1,), dtype=object)
            a[0] = O.deriv(f, 'a', {'a': d['a']}, k)
            return a
        yield Scn(f'bwd single {nm}', {'s': ('c', (2,)), 'a': ('r',)}, real, spec, fn=FN, bound='n=1', tol=1e-7)
    # noise, density matrices, several observables
    for i in range(q(40, 14)):
        r = rng('c10n', i)
        ops = G.rand_ops(r, 2, int(r.integers(1, 4)), names=('a', 'b'), ctrl_rot=False, two=False, lit=False, noise=0.5)
        if not any(o[0] == 'r' for o in ops):
            ops.append(('r', 'RY', 'a', (0,), (), G.rand_noise(r, 1)))
        ops = cphase(r, ops, 2)
        mode, how = [w for w in WAYS if w[0] != 'adjoint'][i % 6]
        yield scn(f'noise{i}', ops, [G.rand_obs(r, 2) for _ in range(int(r.integers(1, 3)))], 2, mode, how, rep=['psi', 'psi1', 'rho'][i % 3])
    # random circuits
    for i in range(q(150, 48)):
        r = rng('c10', i)
        mode, how = WAYS[i % len(WAYS)]
        ad = mode in ('ad', 'adjoint')
        n = int(r.integers(1, 4))
        ops = G.rand_tree(r, n, int(r.integers(2, 6)), depth=2, names=('a', 'b', 'c'), ctrl_rot=ad, lit=True)
        if not names_of(ops):
            ops.append(('r', 'RX', 'a', (0,), ()))
        ops = cphase(r, ops, n)
        form = 'nested' if i % 3 == 0 and mode != 'bwd' else 'flat'
        obs = [G.rand_obs(r, n, names=('o', 'a') if (ad or form == 'nested') else ()) for _ in range(int(r.integers(1, 3)))]
        yield scn(f'circ{i}', ops, obs, n, mode, how, form=form)
    # larger circuits, concrete
    for i in range(q(40, 16)):
        r = rng('c10b', i)
        mode, how = WAYS[i % len(WAYS)]
        ad = mode in ('ad', 'adjoint')
        n = int(r.integers(3, 6))
        ops = cphase(r, G.rand_tree(r, n, int(r.integers(8, 16)), depth=2, names=('a', 'b', 'c', 'd'), ctrl_rot=ad), n)
        if not names_of(ops):
            ops.append(('r', 'RX', 'a', (0,), ()))
        yield scn(f'big{i}', ops, [G.rand_obs(r, n) for _ in range(2)], n, mode, how, sym=False, num=1)
    # derivative with literal angles present and angles at special values (concrete)
    for i, (mode, how) in enumerate(WAYS):
        ops = [rx0, ('r', 'RY', 1.3, (0,), ()), p1, cx, ry1]
        s = scn(f'special {i}', ops, obs2, 2, mode, how, sym=False, num=6)
        s.fixed = [dict(s=np.array([[1, 0], [0, 0]], complex), a=x) for x in (0.0, np.pi, -np.pi / 2, 2 * np.pi, 4 * np.pi, 17.3)]
        yield s
    # second derivatives through automatic differentiation
    yield second()
    yield close_ids()
    # -------- recorded defects: see known_findings.json
    for nm in ('RX', 'RY', 'RZ'):
        for mode, how in (('gpsr', 'jacfwd'), ('bwd', '-')):
            yield scn(f'gpsr controlled rotation {nm}', [('r', nm, 'a', (1,), (0,))], obs2, 2, mode, how, num=2)
    for mode, how in (('gpsr', 'jacfwd'), ('bwd', '-')):
        yield scn('gpsr observable parameter', [rx0], [('add', [('scale', 'o', ('g', 'Z', (0,), ()))])], 1, mode, how, num=2)


def close_ids():
    """gates which share a name get names of their own, however little the identifiers drawn differ"""
    def run_(r):
        from horqrux.differentiation.gpsr import gpsr_utils as U
        from horqrux.utils.operator_utils import DiffMode
        if not hasattr(U, 'create_renamed_operators'):
            return None
        ops = [('r', ('RX', 'RY', 'RZ')[i % 3], 'ab'[i % 2], (i % 2,), ()) for i in range(4)]
        gs, c = [B.build(o) for o in ops], B.circ(ops, 2)
        for pos in range(32):
            st = stub_uuid(pos)
            if not st.size:
                continue
            try:
                with st:
                    nm = [g.param for g in U.create_renamed_operators(gs, ('a', 'b'))]
            except Exception:
                return None      # private helper: another signature
            if st.n > st.size or len(set(nm)) == len(nm):
                continue
            s, v, ob = jnp.asarray(core.rand_psi(r, 2)), {'a': 0.4, 'b': -1.1}, [OB(('obs', [('g', 'Z', (0,), ()), ('g', 'X', (1,), ())]))]
            w = jax.grad(lambda v: expectation(s, c, ob, v).sum())(v)
            with stub_uuid(pos):
                g = jax.grad(lambda v: expectation(s, c, ob, v, DiffMode.GPSR).sum())(v)
            if any(abs(g[k] - w[k]) > 1e-6 for k in v):
                return f'gradient {g} instead of {w} when the identifiers drawn differ in digit {pos} only'
    return Custom('gates with a shared name, identifiers which differ in one digit', run_, fn=('create_renamed_operators', 'new_named_parametric', 'analytical_gpsr_jvp'), bound='4 gates, every position')


def second():
    ops = [('r', 'RX', 'a', (0,), ()), ('r', 'RY', 'b', (0,), ()), ('r', 'PHASE', 'a', (0,), ())]
    ob = ('add', [('g', 'X', (0,), ())])

    def real(a):
        g = lambda w: expectation(a['s'], B.circ(ops, 1), [OB(ob)], w)[0]
        h = jax.hessian(g)({'a': a['a'], 'b': a['b']})
        return [h['a']['a'], h['a']['b'], h['b']['b']]

    def spec(d, k):
        e = {'a': d['a'], 'b': d['b']}
        f = lambda env: O.expval(ob, seq_act(ops, d['s'], env, k), env, k)
        if k.sym:
            v = f(e)
            return [v.diff('a').diff('a'), v.diff('a').diff('b'), v.diff('b').diff('b')]
        D = lambda x, y: O.deriv(lambda e2: O.deriv(f, y, e2, k), x, e, k)
        return [D('a', 'a'), D('a', 'b'), D('b', 'b')]
    return Scn('second derivatives', {'s': ('c', (2,)), 'a': ('r',), 'b': ('r',)}, real, spec, fn=FN, bound='n=1', tol=1e-5)
