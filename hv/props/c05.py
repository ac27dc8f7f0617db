from .common import *

CONTRACTS = [
    'apply_operator_with_noise: ensures channel_k(...channel_1(U rho U^dagger)) with every channel acting on the target qubit only',
    'apply_kraus_operator / apply_kraus_sum: ensures sum_k K_k rho K_k^dagger on the named qubits',
    'apply_gates(Array|DensityMatrix) with noise: ensures the fold of the noisy-gate contracts from the outer product of a pure input',
]
ASSUMPTIONS = ['noise on single-target gates; rates valid; channels per C04']
FN = ('apply_operator_with_noise', 'apply_kraus_sum', 'apply_kraus_operator', 'expand_operator', 'apply_gates', 'prepare_sequence_reduce', 'density_mat')


def rates(ops):
    s = set()
    def go(o):
        for kd, p in O.noise_of(o):
            for x in (p if isinstance(p, (tuple, list)) else (p,)):
                if isinstance(x, str):
                    s.add(x)
        if o[0] in ('seq', 'add'):
            for y in o[1]:
                go(y)
    for o in ops:
        go(o)
    return sorted(s)


def scn(key, ops, n, runner, rho, sym=True, num=0, bound=None):
    nm, rt = names_of(ops), rates(ops)
    inputs = {'s': ('c', (2,) * (2 * n if rho else n)), **env_inputs(nm), **{x: ('p',) for x in rt}}

    def real(a):
        nv = {x: a[x] for x in rt}
        st = DensityMatrix(a['s']) if rho else a['s']
        return B.dense_out(runner(st, env_of(a, nm), nv))

    def spec(d, k):
        env = dict(d)
        noisy = any(O.has_noise(o) for o in ops)
        if rho:
            return seq_rho(ops, d['s'], env, k)
        if noisy:
            return seq_rho(ops, O.outer(d['s']), env, k)
        return seq_act(ops, d['s'], env, k)

    def assume(d):
        # Pauli triples
        from .c04 import zr
        out = []
        def go(o):
            for kd, p in O.noise_of(o):
                if kd == 'PauliChannel' and all(isinstance(x, str) for x in p):
                    out.append(sum(zr(d, x) for x in p) <= 1)
        for o in ops:
            go(o)
        return out
    fixed = []
    if rt and any(kd == 'PauliChannel' for o in ops for kd, _ in O.noise_of(o)):
        r = rng('c05fix', key)
        for j in range(max(num, 8)):
            v = core.num_inputs(inputs, r)
            for x in rt:
                v[x] = v[x] / len(rt)
            fixed.append(v)
    return Scn(key, inputs, real, spec, fn=FN, bound=bound or f'n={n}', sym=sym, num=num, assume=assume, fixed=fixed)


def symnoise(kind, nr, base):
    ns = [f'{base}{i}' for i in range(nr)]
    return (kind, ns[0] if nr == 1 else tuple(ns))


def scenarios():
    yield from unbounded('C05')
    # every channel alone, with every rate symbolic
    for kind, nr in G.NOISES:
        ns = (symnoise(kind, nr, 'p'),)
        for rho in (False, True):
            for g, n in ((('g', 'H', (0,), (), ns), 1), (('g', 'X', (1,), (), ns), 2), (('r', 'RX', 'a', (0,), (1,), ns), 2)):
                yield scn(f'{kind} {G.short(g)} {"rho" if rho else "psi"}', [g], n, lambda s, v, nv, g=g: apply_gates(s, B.build(g, nv=nv), v), rho)
    # two and three channels, order matters
    for a, b in itertools.product(G.NOISES, G.NOISES):
        if not THOROUGH and (hash_pair(a[0], b[0]) % 3):
            continue
        ns = (symnoise(a[0], a[1], 'p'), symnoise(b[0], b[1], 'q'))
        g = ('g', 'T', (1,), (), ns)
        yield scn(f'two channels {a[0]},{b[0]}', [g], 2, lambda s, v, nv, g=g: apply_gates(s, [B.build(g, nv=nv)], v), True)
    ns3 = (('AmplitudeDamping', 'p'), ('BitFlip', 'q'), ('AmplitudeDamping', 'w'))
    g = ('g', 'I', (0,), (), ns3)
    yield scn('three channels', [g], 1, lambda s, v, nv: apply_gates(s, B.build(g, nv=nv), v), True)
    # placements on three qubits with controls
    for i, (t, c) in enumerate(G.placements(3, 1, 2)):
        kind = 'AmplitudeDamping' if i % 2 else 'PhaseFlip'
        g = ('g', 'YHSX'[i % 4], t, c, ((kind, 'p'),))
        yield scn(f'placement {G.short(g)} psi', [g], 3, lambda s, v, nv, g=g: apply_gates(s, B.build(g, nv=nv), v), False)
        if THOROUGH or i % 4 == 0:
            yield scn(f'placement {G.short(g)} rho', [g], 3, lambda s, v, nv, g=g: apply_gates(s, B.build(g, nv=nv), v), True)
    # sequences mixing noisy and noiseless gates; forms
    PF = {
        'list': lambda s, v, ops, n, nv: apply_gates(s, [B.build(o, nv=nv) for o in ops], v),
        'run': lambda s, v, ops, n, nv: run(B.circ(ops, n, nv=nv), s, v),
        'seq': lambda s, v, ops, n, nv: B.OpSequence([B.build(o, nv=nv) for o in ops])(s, v),
        'nomerge': lambda s, v, ops, n, nv: apply_gates(s, [B.build(o, nv=nv) for o in ops], v, merge_ops=False),
    }
    forms = {
        'list': lambda s, v, ops, n: apply_gates(s, [B.build(o) for o in ops], v),
        'run': lambda s, v, ops, n: run(B.circ(ops, n), s, v),
        'seq': lambda s, v, ops, n: B.OpSequence([B.build(o) for o in ops])(s, v),
        'nomerge': lambda s, v, ops, n: apply_gates(s, [B.build(o) for o in ops], v, merge_ops=False),
    }
    # every pattern of noisy and noiseless gates, every amount of noise, through every form
    gs = [('g', 'H', (0,), ()), ('r', 'RX', 'a', (1,), (0,)), ('g', 'Y', (1,), ()), ('g', 'H', (1,), (0,))]
    for i, pat in enumerate(itertools.product((0, 1, 2), repeat=3)):
        if not any(pat):
            continue
        ops = [(g[:4] if g[0] == 'g' else g[:5]) + (((('AmplitudeDamping', 'p'), ('BitFlip', 'q'))[:m],) if m else ()) for g, m in zip(gs, pat)]
        for fm in ('list', list(forms)[1 + i % 3]) if not THOROUGH else list(forms):
            for rho in ((False, True) if THOROUGH else (bool(i % 2) if fm != 'list' else False,)):
                yield scn(f'pattern {pat} {fm} {"rho" if rho else "psi"}', ops, 2, lambda s, v, nv, ops=ops, fm=fm: PF[fm](s, v, ops, 2, nv), rho)
    for i in range(q(60, 24)):
        r = rng('c05s', i)
        n = 2
        ops = G.rand_ops(r, n, int(r.integers(2, 5)), noise=0.5, lit=False)
        if not any(O.has_noise(o) for o in ops):
            ops[int(r.integers(len(ops)))] = ('g', 'H', (int(r.integers(n)),), (), G.rand_noise(r))
        fm = list(forms)[i % len(forms)]
        rho = bool(i % 2)
        yield scn(f'mixed{i} {fm} {"rho" if rho else "psi"} {label(ops)}', ops, n, lambda s, v, nv, ops=ops, fm=fm: forms[fm](s, v, ops, 2), rho)
    for i in range(q(40, 16)):
        r = rng('c05t', i)
        n = int(r.integers(3, 5))
        ops = G.rand_tree(r, n, int(r.integers(2, 6)), noise=0.5)
        fm = ['run', 'seq'][i % 2]
        rho = bool(r.integers(2))
        yield scn(f'big mixed{i} {fm} n={n} {"rho" if rho else "psi"} {label(ops)}', ops, n, lambda s, v, nv, ops=ops, fm=fm, n=n: forms[fm](s, v, ops, n), rho, sym=False, num=1)
    # physicality on larger registers
    for i in range(q(12, 5)):
        r = rng('c05p', i)
        n = int(r.integers(4, 6))
        ops = G.rand_ops(r, n, 4, noise=0.6)

        def f(rg, ops=ops, n=n):
            x = rg.normal(size=(2,) * n) + 1j * rg.normal(size=(2,) * n)
            x /= np.linalg.norm(x)
            e = {k: float(rg.uniform(-7, 7)) for k in 'abc'}
            st = density_mat(jnp.asarray(x))
            out = np.asarray(apply_gates(st, [B.build(o) for o in ops], e).array).reshape(2 ** n, 2 ** n)
            if abs(np.trace(out) - 1) > 1e-9:
                return f'trace {np.trace(out)} for {label(ops)}'
            if not np.allclose(out, out.conj().T, atol=1e-9):
                return f'not Hermitian for {label(ops)}'
            if np.linalg.eigvalsh(out).min() < -1e-9:
                return f'not positive for {label(ops)}'
        yield Custom(f'physical{i} n={n} {label(ops)}', f, FN, f'n={n}')


def hash_pair(a, b):
    import zlib
    return zlib.crc32((a + '|' + b).encode())
