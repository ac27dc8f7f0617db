from .common import *
import z3
from .. import scalar

CONTRACTS = [
    'BitFlip/PhaseFlip/Depolarizing/PauliChannel/AmplitudeDamping/PhaseDamping/GeneralizedAmplitudeDamping: requires rates in [0,1] (and sum <= 1 for Pauli); '
    'ensures sum K^dagger K = 1 and sum K rho K^dagger = documented map for every 2x2 rho; raises otherwise',
    'DigitalNoiseInstance.kraus: ensures the operators of the constructor named by its type',
]
ASSUMPTIONS = ['rates are real numbers (NaN excluded); PauliChannel takes three rates']
BOUND = None


def kr(kind, p):
    return B.DigitalNoiseInstance(B.DigitalNoiseType(kind), p).kraus


def chan(ks, rho):
    out = 0
    for k_ in ks:
        out = out + k_ @ rho @ jnp.conj(k_).T
    return out


def compl(ks):
    out = 0
    for k_ in ks:
        out = out + jnp.conj(k_).T @ k_
    return out


def zr(d, n):
    return scalar.to_z3(d[n].item() if hasattr(d[n], 'item') else d[n], jxi.ZCTX)


def scenarios():
    ERR = (ValueError, TypeError, AssertionError)
    for kind, nr in G.NOISES:
        ns = ['p', 'q', 'w'][:nr]
        inp = {n: ('p',) for n in ns}
        asm = None
        if kind == 'PauliChannel':
            asm = lambda d, ns=ns: [zr(d, 'p') + zr(d, 'q') + zr(d, 'w') <= 1]

        def rate(a, ns=ns, nr=nr):
            return a[ns[0]] if nr == 1 else tuple(a[n] for n in ns)
        fx = []
        if nr == 1:
            fx = [{'p': x} for x in (0.0, 1.0, 0.5, 1e-12, 1 - 1e-12)]
        elif nr == 2:
            fx = [{'p': x, 'q': y} for x in (0.0, 1.0, 0.3) for y in (0.0, 1.0, 0.7)]
        else:
            fx = [{'p': x, 'q': y, 'w': z} for x, y, z in ((0., 0., 0.), (1., 0., 0.), (0., 1., 0.), (0., 0., 1.), (0.5, 0.5, 0.), (0.25, 0.5, 0.25), (0.1, 0.2, 0.3), (0.5, 0., 0.5))]
        r = rng('c04', kind)
        rhos = r.normal(size=(2, 2)) + 1j * r.normal(size=(2, 2))
        yield Scn(f'completeness {kind}', inp, lambda a, kind=kind, rate=rate: compl(kr(kind, rate(a))), lambda d, k: O.eye(2),
                  fn=(kind, 'DigitalNoiseInstance.kraus'), assume=asm, num=len(fx), fixed=fx)
        fx2 = [{**f, 's': rhos} for f in fx]

        def spec(d, k, kind=kind, rate=rate):
            return O.channel(kind, rate(d), d['s'].reshape(2, 2), 0, k)
        yield Scn(f'documented map {kind}', {**inp, 's': ('c', (2, 2))}, lambda a, kind=kind, rate=rate: chan(kr(kind, rate(a)), a['s']), spec,
                  fn=(kind, 'DigitalNoiseInstance.kraus'), assume=asm, num=len(fx2), fixed=fx2)
        # direct constructor as exported
        ctor = getattr(__import__('horqrux.noise.utils_noise', fromlist=[kind]), kind, None)
        if ctor is not None:
            yield Scn(f'documented map {kind} constructor', {**inp, 's': ('c', (2, 2))}, lambda a, ctor=ctor, rate=rate: chan(ctor(rate(a)), a['s']), spec,
                      fn=(kind,), assume=asm, num=3, fixed=fx2[:3])
        # rejection: every rate below 0 or above 1, the others arbitrary reals
        for i, n in enumerate(ns):
            for side in ('<0', '>1'):
                ip = {m: ('r',) for m in ns}

                def bad(d, n=n, side=side):
                    z = zr(d, n)
                    return [z < 0] if side == '<0' else [z > 1]
                ex = [-1e-9, -0.5, -3.0] if side == '<0' else [1 + 1e-9, 1.5, 4.0]
                fxb = [{m: (e if m == n else o) for m in ns} for e in ex for o in (0.0, 0.2)]
                yield Scn(f'rejects {kind} rate{i}{side}', ip, lambda a, kind=kind, rate=rate: [x for x in kr(kind, rate(a))], raises=ERR, assume=bad,
                          fn=(kind,), num=len(fxb), fixed=fxb)
        if nr > 1:
            # the remaining rates valid
            for i, n in enumerate(ns):
                for side in ('<0', '>1'):
                    def bad2(d, n=n, side=side):
                        z = zr(d, n)
                        return [z < 0] if side == '<0' else [z > 1]
                    ip = {m: (('r',) if m == n else ('p',)) for m in ns}
                    yield Scn(f'rejects {kind} rate{i}{side} others valid', ip, lambda a, kind=kind, rate=rate: [x for x in kr(kind, rate(a))], raises=ERR, assume=bad2,
                              fn=(kind,), num=2, fixed=[{m: ((-0.1 if side == '<0' else 1.1) if m == n else 0.05) for m in ns}, {m: ((-0.1 if side == '<0' else 1.1) if m == n else 0.0) for m in ns}])
        if kind == 'PauliChannel':
            fxs = [{'p': 0.5, 'q': 0.4, 'w': 0.2}, {'p': 1.0, 'q': 1.0, 'w': 1.0}, {'p': 0.34, 'q': 0.34, 'w': 0.34}, {'p': 0.0, 'q': 0.6, 'w': 0.6}, {'p': 0.6, 'q': 0.0, 'w': 0.6}, {'p': 0.6, 'q': 0.6, 'w': 0.0}, {'p': 1.0, 'q': 0.0, 'w': 1e-6}]
            yield Scn('rejects PauliChannel sum>1', {n: ('p',) for n in ns}, lambda a, rate=rate: [x for x in kr('PauliChannel', rate(a))], raises=ERR,
                      assume=lambda d: [zr(d, 'p') + zr(d, 'q') + zr(d, 'w') > 1], fn=(kind,), num=len(fxs), fixed=fxs)
        # accepted number types, concrete
        for tn, conv in {'int': int, 'np.float64': np.float64, 'np.float32': np.float32, 'jnp': jnp.asarray}.items():
            def f(rg, conv=conv, kind=kind, nr=nr, tn=tn):
                base = [0.0, 1.0, 1.0][int(rg.integers(3))] if tn == 'int' else float(np.float32(rg.random() / nr))
                ps = [conv(base)] + [conv(0 if tn == 'int' else 0.25 / nr) for _ in range(nr - 1)]
                ks = kr(kind, ps[0] if nr == 1 else tuple(ps))
                rho = rg.normal(size=(2, 2)) + 1j * rg.normal(size=(2, 2))
                got = np.asarray(chan(ks, jnp.asarray(rho)))
                fl = [float(x) for x in ps]
                want = O.channel(kind, fl[0] if nr == 1 else tuple(fl), O.obj(rho), 0, O.K(False)).astype(complex)
                if not np.allclose(got, want, atol=1e-5):
                    return f'{kind} with {tn} rates {fl}: {got.ravel()} instead of {want.ravel()}'
            yield Custom(f'rate type {kind} {tn}', f, (kind,), 'sampled rates', runs=4)
    # two instances do not influence each other (histories of constructions)
    def hist(rg):
        for _ in range(12):
            kind, nr = G.NOISES[int(rg.integers(7))]
            ps = [float(x) for x in rg.random(nr) / nr]
            ks = kr(kind, ps[0] if nr == 1 else tuple(ps))
            rho = rg.normal(size=(2, 2)) + 1j * rg.normal(size=(2, 2))
            got = np.asarray(chan(ks, jnp.asarray(rho)))
            want = O.channel(kind, ps[0] if nr == 1 else tuple(ps), O.obj(rho), 0, O.K(False)).astype(complex)
            if not np.allclose(got, want, atol=1e-9):
                return f'{kind}{ps} after other constructions: {got.ravel()} instead of {want.ravel()}'
    yield Custom('history of constructions', hist, ('DigitalNoiseInstance.kraus',), 'sampled histories', runs=4)
