"""Obligations, verdicts, evidence, replays."""
from __future__ import annotations
import hashlib, json, os, sys, time, traceback
import numpy as np
from . import jxi, scalar, oracle as O
from .err import of_code
from .jxi import SymArray, extract, expect
from .scalar import P, Unsupported, const, real_atom, cplx_atom
import jax, jax.numpy as jnp
import z3

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'


class Scn:
    """One contract instance: real(inputs) must equal spec(inputs) for ALL values of the inputs.

    inputs : {name: ('c', shape) | ('r',) | ('p',) probability | ('herm', d) | ('const', value)}
    real   : dict -> pytree of arrays   (runs the real code; values are tracers or jax arrays)
    spec   : (dict, K) -> matching structure of object arrays / scalars
    bound  : None when the obligation is over the full domain (no structural bound),
             otherwise a text naming the bound
    raises : exception classes: every execution must raise one of them
    sym    : run symbolically;  num: number of concrete executions (always run if symbolic undecided)
    """

    def __init__(self, key, inputs, real, spec=None, fn=(), bound=None, raises=None, sym=True, num=0,
                 assume=None, tol=1e-8, known=None, expectation=False, nontrivial=True, fixed=None):
        self.key, self.inputs, self.real, self.spec = key, inputs, real, spec
        self.fn, self.bound, self.raises = tuple(fn), bound, raises
        self.sym, self.num, self.assume, self.tol, self.known = sym, num, assume, tol, known
        self.expectation = expectation
        self.fixed = fixed or []


class Custom:
    """An obligation with its own decision procedure.

    run(rng) -> None (holds) or a text describing the violation found on the real code.
    back_end/bound as in Scn; bound None only for decision procedures covering the full domain."""
    def __init__(self, key, run, fn=(), bound='sampled', backend='concrete', runs=1, decides=False):
        self.decides = decides
        self.key, self.run, self.fn, self.bound, self.backend, self.runs = key, run, tuple(fn), bound, backend, runs


UNA_LIMIT = 200


class UnaScn:
    """an obligation of hv/una/obl.py (registers of any size) or hv/lst/obl.py (lists of any length), built lazily in the worker that runs it"""
    def __init__(self, key, fn, make, engine='una'):
        self.key, self.fn, self.make, self.bound, self.engine = key, tuple(fn), make, None, engine

    def setup_una(self):
        return self.make()


class Skip(Exception):
    """the anchored internal function no longer exists in this shape: nothing to decide"""


class Timeout(BaseException):
    pass


class Mismatch(Exception):
    pass


def sym_inputs(inputs):
    d, asm = {}, []
    for n, s in inputs.items():
        if s[0] == 'c':
            d[n] = jxi.csym(n, s[1])
        elif s[0] == 'psi':
            d[n] = jxi.csym(n, (2,) * s[1])
        elif s[0] == 'rho':
            d[n] = jxi.csym(n, (2,) * (2 * s[1]))
        elif s[0] == 'r':
            d[n] = jxi.rsym(n)
        elif s[0] == 'p':
            d[n] = jxi.rsym(n)
            t = scalar.to_z3(d[n].arr.item(), jxi.ZCTX)
            asm += [t >= 0, t <= 1]
        elif s[0] == 'rv':
            arr = np.empty(s[1], dtype=object)
            for i in np.ndindex(tuple(s[1])):
                arr[i] = real_atom(n + '_' + '_'.join(map(str, i)))
            d[n] = SymArray(arr, 'float64')
        elif s[0] == 'herm':
            k = s[1]
            arr = np.empty((k, k), dtype=object)
            for i in range(k):
                arr[i, i] = real_atom(f'{n}_{i}{i}')
                for j in range(i):
                    arr[i, j] = cplx_atom(f'{n}_{i}{j}')
                    arr[j, i] = arr[i, j].conjugate()
            d[n] = SymArray(arr, 'complex128')
        elif s[0] == 'const':
            d[n] = s[1]
        else:
            raise KeyError(s)
    return d, asm


def rand_psi(rng, n, special=False):
    x = rng.normal(size=(2,) * n) + 1j * rng.normal(size=(2,) * n)
    if special:
        x = x * (rng.random(size=x.shape) < 0.4)
        if not np.abs(x).any():
            x[(0,) * n] = 1
    return x / np.linalg.norm(x)


def num_inputs(inputs, rng, special=False):
    d = {}
    for n, s in inputs.items():
        if s[0] == 'c':
            x = rng.normal(size=s[1]) + 1j * rng.normal(size=s[1])
            if special:
                x = x * (rng.random(size=s[1]) < 0.5)
            x = x / max(1e-9, np.linalg.norm(x)) if rng.random() < 0.5 and np.linalg.norm(x) > 0 else x
            d[n] = x
        elif s[0] == 'psi':
            d[n] = rand_psi(rng, s[1], special)
        elif s[0] == 'rho':
            ps = [rand_psi(rng, s[1], special).reshape(-1) for _ in range(3)]
            w = rng.dirichlet([1, 1, 1])
            d[n] = sum(x * np.outer(v, v.conj()) for x, v in zip(w, ps)).reshape((2,) * (2 * s[1]))
        elif s[0] == 'r':
            d[n] = float(rng.choice([rng.uniform(-np.pi, np.pi), rng.uniform(-20, 20), 0.0, np.pi, -np.pi / 2, 2 * np.pi])) if special \
                else float(rng.uniform(-np.pi, np.pi))
        elif s[0] == 'p':
            d[n] = float(rng.choice([0.0, 1.0, rng.random()])) if special else float(rng.random())
        elif s[0] == 'rv':
            d[n] = rng.normal(size=s[1])
        elif s[0] == 'herm':
            x = rng.normal(size=(s[1], s[1])) + 1j * rng.normal(size=(s[1], s[1]))
            d[n] = (x + x.conj().T) / 2
        elif s[0] == 'const':
            d[n] = s[1]
    return d


def flat_out(x):
    """list of (path, array) in a structure of arrays / scalars"""
    if isinstance(x, dict):
        return [(f'[{k!r}]' + p, v) for k in sorted(x) for p, v in flat_out(x[k])]
    if isinstance(x, (list, tuple)):
        return [(f'[{i}]' + p, v) for i, y in enumerate(x) for p, v in flat_out(y)]
    return [('', x)]


def to_obj(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            out[i] = const(x[i]) if not isinstance(x[i], (jxi.SB, jxi.Poison)) else x[i]
        return out
    if isinstance(x, P):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return jxi.objarr(np.asarray(x))


def compare_sym(got, want, expectation):
    g, w = flat_out(got), flat_out(want)
    if len(g) != len(w):
        raise Mismatch(f'structure: {len(g)} outputs, {len(w)} specified')
    for (p, a), (q, b) in zip(g, w):
        a, b = to_obj(a), to_obj(b)
        if a.shape != b.shape:
            raise Mismatch(f'shape at {p}: {a.shape}, specified {b.shape}')
        for i in np.ndindex(a.shape):
            x = a[i]
            if isinstance(x, jxi.Poison):
                raise Mismatch(f'NaN/undefined element at {p}{list(i)}')
            if expectation:
                x = expect(x)
            d = x - b[i]
            if not d.is_zero():
                raise Mismatch(f'element {p}{list(i)}: computed {x!r}; specified {b[i]!r}; difference {d!r}')


def compare_num(got, want, tol):
    if tol == 'stat':
        # Monte-Carlo means against exact means: only a deviation of many standard errors counts
        m, se, reps = np.asarray(got['m']), np.asarray(got['se']), int(got['reps'])
        w = np.asarray(want).astype(complex).real
        if m.shape != w.shape:
            return f'shape {m.shape}, specified {w.shape}'
        bad = np.abs(m - w) > 8 * se + 0.02 / np.sqrt(reps) + 1e-5
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            return f'element {list(map(int, i))}: mean {m[i]} of {reps} estimates (standard error {se[i]}), exact {w[i]}'
        return None
    g, w = flat_out(got), flat_out(want)
    if len(g) != len(w):
        return f'structure: {len(g)} outputs, {len(w)} specified'
    for (p, a), (q, b) in zip(g, w):
        a = np.asarray(a)
        b = np.asarray(b)
        if b.dtype == object:
            b = b.astype(complex)
        if a.shape != b.shape:
            return f'shape at {p}: {a.shape}, specified {b.shape}'
        if a.size == 0:
            continue
        a = a.astype(complex)
        with np.errstate(all='ignore'):
            bad = ~(np.abs(a - b) <= tol * np.maximum(1.0, np.abs(b)))
        if bad.any():
            i = tuple(np.argwhere(bad)[0]) if a.shape else ()
            return f'element {p}{[int(x) for x in i]}: computed {a[i]}, specified {b[i]}'
    return None


def run_sym(s: Scn):
    """('discharged', note) | ('refuted', text) | ('undecided', text)"""
    try:
        d, asm = sym_inputs(s.inputs)
        if s.assume is not None:
            asm = asm + s.assume({k: (v.arr if isinstance(v, SymArray) else v) for k, v in d.items()})
        r, _ = jxi.solve(*asm) if asm else (z3.sat, None)
        if r == z3.unsat:
            return 'undecided', 'vacuous precondition'
        ndom = len(scalar.DOMAIN)
        try:
            paths = extract(lambda a: s.real(a), (d,), assume=asm)
        except Mismatch as e:
            return 'refuted', str(e)
        if s.raises is not None:
            for p in paths:
                if p.exc is None:
                    return 'refuted', f'returns a value on the path {p.cond}'
                if not isinstance(p.exc, s.raises):
                    return 'refuted', f'raises {type(p.exc).__name__} on the path {p.cond}'
            return 'discharged', f'{len(paths)} paths raise'
        dd = {}
        for k, v in d.items():
            if isinstance(v, SymArray):
                dd[k] = v.arr if v.arr.shape else v.arr.item()
            else:
                dd[k] = v
        want = s.spec(dd, O.K(True))
        for p in paths:
            if p.exc is not None:
                return 'refuted', f'raises {type(p.exc).__name__}: {str(p.exc)[:200]} on the path {p.cond}'
            compare_sym(p.result, want, s.expectation)
            # domain of every square root taken on this path
            for rad in scalar.DOMAIN[ndom:]:
                try:
                    t = scalar.to_z3(rad, jxi.ZCTX)
                except Unsupported:
                    continue
                rr, _ = jxi.solve(*asm, *p.cond, t < 0, timeout=3000)
                if rr == z3.sat:
                    return 'refuted', f'square root of a negative number {rad!r} under {p.cond}'
        return 'discharged', f'{len(paths)} path(s)'
    except Mismatch as e:
        return 'refuted', str(e)
    except Unsupported as e:
        return 'undecided', f'unsupported: {e}'
    except RecursionError as e:
        return 'undecided', 'recursion'
    except Timeout:
        return 'undecided', 'time limit'
    except AssertionError as e:
        raise
    except Exception as e:
        return 'undecided', f'{type(e).__name__}: {str(e)[:300]}'


def run_num(s: Scn, vals):
    """None if the property holds on this concrete input, else a description"""
    try:
        a = {k: (jnp.asarray(v) if isinstance(v, np.ndarray) else v) for k, v in vals.items()}
        got = s.real(a)
        got = jax.tree_util.tree_map(np.asarray, got)
        exc = None
    except Exception as e:
        if isinstance(e, (Unsupported, Skip)):
            return None
        got, exc = None, e
    if s.raises is not None:
        if exc is None:
            return f'no error raised; returned {str(got)[:200]}'
        if not isinstance(exc, s.raises):
            return f'raised {type(exc).__name__}: {str(exc)[:200]} instead of one of {[x.__name__ for x in s.raises]}'
        return None
    if exc is not None:
        return f'raised {type(exc).__name__}: {str(exc)[:300]}'
    vv = {k: (v.astype(complex) if isinstance(v, np.ndarray) else v) for k, v in vals.items()}
    want = s.spec(vv, O.K(False))
    return compare_num(got, want, s.tol)


SYM_LIMIT = 40 if TIER == 'quick' else 150


class limit:
    def __init__(self, secs):
        self.secs = secs

    def __enter__(self):
        import signal
        def hd(*a):
            raise Timeout()
        self.old = signal.signal(signal.SIGALRM, hd)
        signal.setitimer(signal.ITIMER_REAL, self.secs)

    def __exit__(self, et, ev, tb):
        import signal
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def seeded(key, extra=0):
    hsh = int(hashlib.sha256(key.encode()).hexdigest()[:12], 16)
    return np.random.default_rng([SEED, hsh, extra])


def jsonable(v):
    if isinstance(v, np.ndarray):
        if v.dtype.kind == 'c':
            return dict(shape=list(v.shape), re=v.real.reshape(-1).tolist(), im=v.imag.reshape(-1).tolist())
        return dict(shape=list(v.shape), re=v.reshape(-1).tolist())
    if isinstance(v, complex):
        return dict(c=[v.real, v.imag])
    if isinstance(v, (np.floating, np.integer)):
        return v.item()
    if isinstance(v, (str, int, float, bool, type(None), list, dict)):
        return v
    return repr(v)


def unjson(v):
    if isinstance(v, dict) and 'shape' in v:
        x = np.array(v['re'], dtype=float)
        if 'im' in v:
            x = x + 1j * np.array(v['im'], dtype=float)
        return x.reshape(v['shape'])
    if isinstance(v, dict) and 'c' in v:
        return complex(*v['c'])
    return v


class Check:
    def __init__(self, pid, level, contracts, assumptions, checker_cmd=None, budget=None):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.budget = budget or (240 if TIER == 'quick' else 780)
        self.contracts = contracts
        self.assumptions = list(assumptions)
        self.obl = []              # dicts
        self.viol = []
        self.known_hit = []
        self.samples = []
        self.numeric = 0
        self.known = [k for k in load_known() if k['property'] == pid]

    # -- bookkeeping
    def left(self):
        return self.budget - (time.time() - self.t0)

    def record(self, name, status, backend, bound=None, note='', fn=(), secs=0.0):
        self.obl.append(dict(name=name, status=status, backend=backend, bound=bound, note=note[:600], fn=list(fn), secs=round(secs, 3)))

    def violation(self, name, detail, replay=None, confirmed=True):
        for k in self.known:
            if k.get('status') == 'known' and k['key'] and any(name == x or (x.endswith('*') and name.startswith(x[:-1])) for x in k['key']):
                if (k['id'], name) not in self.known_hit:
                    self.known_hit.append((k['id'], name))
                return
        d = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        fn = f'{self.pid}_{hashlib.sha256(name.encode()).hexdigest()[:10]}.json'
        path = os.path.join(d, fn)
        with open(path, 'w') as f:
            json.dump(dict(property=self.pid, obligation=name, detail=detail, seed=SEED, tier=TIER, confirmed=confirmed,
                           how='/opt/venv/bin/python /verif/replay.py ' + os.path.join('evidence/replays', fn), **(replay or {})), f, indent=1)
        self.viol.append((name, detail, path, confirmed))

    # -- running scenarios
    def custom(self, s):
        t = time.time()
        r = None
        try:
            for k in range(s.runs):
                self.numeric += s.backend != 'effect analysis'
                r = s.run(seeded(s.key, k))
                if r is not None:
                    break
        except Skip as e:
            self.record(s.key, 'undecided', s.backend, s.bound, f'skipped: {e}', s.fn, time.time() - t)
            return True
        except Timeout:
            self.record(s.key, 'undecided', s.backend, s.bound, 'time limit', s.fn, time.time() - t)
            return True
        except jxi.Unsupported as e:
            self.record(s.key, 'undecided', s.backend, s.bound, f'unsupported: {e}', s.fn, time.time() - t)
            return True
        except Exception as e:
            r = f'raised {type(e).__name__}: {str(e)[:300]}'
            if not of_code(e):
                self.record(s.key, 'undecided', s.backend, s.bound, 'machinery: ' + traceback.format_exc()[-500:], s.fn, time.time() - t)
                return True
        if r is not None:
            self.violation(s.key, r, dict(kind='custom'))
            self.record(s.key, 'refuted', s.backend, s.bound, r, s.fn, time.time() - t)
            return False
        self.record(s.key, 'discharged' if s.bound is None or s.decides else 'bounded', s.backend, s.bound, '', s.fn, time.time() - t)
        return True

    def una(self, s):
        """obligation over registers of any size (hv/una) or lists of any length (hv/lst)"""
        t = time.time()
        o = s.setup_una()
        from .una import sym
        if s.engine == 'una':
            from .una import obl
        else:
            from .lst import obl
        q0, s0, p0 = sym.STAT['queries'], sym.STAT['seconds'], sym.STAT['paths']
        try:
            with limit(UNA_LIMIT + 60):
                st, note, env = obl.run(o, lambda k: seeded(s.key, k), t + UNA_LIMIT)
        except Timeout:
            st, note, env = 'undecided', 'time limit', None
        except Exception as e:
            st, note, env = 'undecided', f'machinery: {traceback.format_exc()[-400:]}', None
        jxi.STAT['z3_queries'] += sym.STAT['queries'] - q0
        jxi.STAT['z3_time'] += sym.STAT['seconds'] - s0
        jxi.STAT['paths'] += sym.STAT['paths'] - p0
        if st == 'undecided' and s.engine == 'lst' and o.replay is not None:
            # no proof: the contract is read on lists of chosen lengths instead
            for k in range(2):
                try:
                    with limit(40):
                        r = o.replay({}, seeded(s.key, 10 + k))
                except Timeout:
                    break
                except Exception as e:
                    r = f'raised {type(e).__name__}: {str(e)[:200]}' if of_code(e) else None
                if r is not None:
                    st, note, env = 'refuted', f'{r} [{note[:200]}]', {}
                    break
        be = 'symbolic execution of any register + z3' if s.engine == 'una' else 'symbolic execution on lists of any length + z3'
        if st == 'refuted':
            self.numeric += 1
            self.violation(s.key, note, dict(kind='una', env=env))
        self.record(s.key, st, be, None, note, s.fn, time.time() - t)
        if st == 'discharged' and len(self.samples) < 4:
            self.samples.append(dict(obligation=s.key, note=note, bound=None))
        return st != 'refuted'

    def scenario(self, s: Scn):
        if isinstance(s, Custom):
            return self.custom(s)
        if hasattr(s, 'setup_una'):
            return self.una(s)
        t = time.time()
        if s.sym:
            with limit(SYM_LIMIT):
                st, note = run_sym(s)
        else:
            st, note = 'undecided', 'concrete only'
        need_num = s.num
        if st == 'undecided':
            need_num = max(s.num, 3)
        if st == 'refuted':
            need_num = max(s.num, 8)
        bad = None
        for k in range(need_num):
            vals = s.fixed[k] if k < len(s.fixed) else num_inputs(s.inputs, seeded(s.key, k), special=(k % 2 == 1))
            self.numeric += 1
            r = run_num(s, vals)
            if r is not None:
                bad = (vals, r)
                break
        if bad:
            self.violation(s.key, f'{note if st == "refuted" else ""} | concrete: {bad[1]}',
                           dict(kind='scenario', inputs={k: jsonable(v) for k, v in bad[0].items()}))
            self.record(s.key, 'refuted', 'symbolic+replay' if st == 'refuted' else 'concrete', s.bound, bad[1], s.fn, time.time() - t)
            return False
        if st == 'refuted':
            # the algebraic difference does not show on any concrete execution: engine artefact, not a verdict
            self.record(s.key, 'undecided', 'normal form', s.bound, 'refuted symbolically, holds on replay: ' + note, s.fn, time.time() - t)
        elif st == 'undecided':
            self.record(s.key, 'bounded', 'concrete execution', (s.bound or '') + f'; {need_num} concrete inputs', note, s.fn, time.time() - t)
        else:
            self.record(s.key, 'discharged', 'normal form + z3', s.bound, note, s.fn, time.time() - t)
            if len(self.samples) < 4:
                self.samples.append(dict(obligation=s.key, note=note, bound=s.bound))
        return True

    def scenarios(self, gen):
        for s in gen:
            if self.left() < 0:
                self.record('time budget', 'undecided', '-', None, 'budget exhausted before ' + s.key)
                break
            self.scenario(s)

    # -- final
    def finish(self, extra=None):
        proved = [o for o in self.obl if o['bound'] is None]
        bounded = [o for o in self.obl if o['bound'] is not None]
        disch = [o for o in proved if o['status'] == 'discharged']
        bd = [o for o in bounded if o['status'] == 'discharged']
        back = {}
        for o in self.obl:
            k = o['backend'] + '/' + o['status']
            back[k] = back.get(k, 0) + 1
        funcs = {}
        for o in self.obl:
            for f in o['fn']:
                d = funcs.setdefault(f, dict(unbounded=0, bounded=0, undecided=0))
                d['undecided' if o['status'] in ('undecided',) else ('unbounded' if o['bound'] is None else 'bounded')] += 1
        cov = dict(obligations=len(proved), discharged=len(disch),
                   bounded_obligations=len(bounded), bounded_discharged_symbolically=len(bd),
                   concrete_executions=self.numeric,
                   evaluations=len(self.obl) + self.numeric,
                   distinct_nontrivial=len({o['name'] for o in self.obl}),
                   rule='one obligation per contract instance; distinct by name; non-trivial: the specification differs from the identity on its inputs or an error is required',
                   functions_under_contract=funcs, contracts=self.contracts,
                   by_back_end=back, z3_queries=jxi.STAT['z3_queries'], z3_seconds=round(jxi.STAT['z3_time'], 3),
                   jaxprs_extracted=jxi.STAT['jaxprs'], equations_evaluated=jxi.STAT['eqns'], paths=jxi.STAT['paths'],
                   undecided=[(o['name'], o['note']) for o in self.obl if o['status'] == 'undecided'][:40],
                   bounded_by_concrete=[(o['name'], o['note'][:120]) for o in self.obl if o['status'] == 'bounded'][:60],
                   bounds=sorted({o['bound'] for o in bounded if o['bound']})[:40],
                   checker_cmd=f'/opt/venv/bin/python /verif/check.py {self.pid}',
                   trusted_base=TRUSTED, samples=self.samples or [dict(obligation=o['name']) for o in self.obl[:3]],
                   explanation='contract instances discharged by exact normal form over jaxprs extracted from /repo on this run, '
                               'and by SMT for the contracts over unbounded registers; bounded ones are labelled and not counted in obligations')
        if extra:
            cov.update(extra)
        n_ob = len(self.obl)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        if n_ob == 0:
            print('no obligations were generated')
            return 2
        kn = {}
        for kid, name in self.known_hit:
            kn.setdefault(kid, []).append(name)
        for k in self.known:
            if k.get('status') == 'known' and k['id'] in kn:
                print(f'KNOWN-FINDING: property={self.pid} {k["what"]}')
        print(f'{self.pid}: {len(disch)}/{len(proved)} unbounded obligations discharged, {len(bd)}/{len(bounded)} bounded ones symbolically, '
              f'{self.numeric} concrete executions, {ev["wall_s"]}s')
        if self.viol:
            self.viol.sort(key=lambda v: not v[3])
            for name, detail, path, conf in self.viol[:5]:
                print(f'  failed: {name}: {detail[:500]}')
            name, detail, path, conf = self.viol[0]
            print(f'VIOLATION property={self.pid} replay={path}' + ('' if conf else ' no-failing-input-found'))
            return 1
        return 0


TRUSTED = [
    'CPython 3.12, the JAX tracing machinery (jaxpr = what the code computes) and JAX automatic differentiation',
    'meaning of the jaxpr primitives as interpreted in hv/jxi.py (real arithmetic, no rounding)',
    'meaning of the array operations as represented in hv/una/ten.py (tensordot, moveaxis, reshape into qubit axes, ...)',
    'the source rewriting of hv/una/load.py and hv/lst/load.py (loops, comprehensions, built-ins replaced by calls which behave the same)',
    'meta-rules of the list engine: induction for loop cuts and folds, stability of sorting, an arbitrary key standing for all keys of a dictionary, structural induction on nesting, the fold of Kronecker products, products of operator words',
    'degree-one trigonometric form of an expectation in the angle of one gate with spectral gap 2 (its own obligation: shift rule)',
    'machine floating point treated as real arithmetic; recognised constants (rationals, surds, multiples of pi) taken as exact',
    'jax.lax.scan applies its step to every row of the arrays handed to it, in order; dictionaries keep their order; row k of jnp.eye is the unit vector of entry k',
    'contracts assumed for jax.random.choice (i.i.d. draws from p), jax.scipy.linalg.expm, jnp.linalg.eigh, BCOO.fromdense',
    'z3', 'the normal form in hv/scalar.py',
]


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []
