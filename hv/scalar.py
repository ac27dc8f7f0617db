"""Exact scalar normal form: the term language of the obligations.

A scalar is a polynomial with Gaussian-rational coefficients over atoms:
  * real atoms            (conj x = x)
  * complex atoms         (z and conj z are two independent atoms)
  * unit exponentials     E(m)^q = exp(i q m), q rational, m a real monomial (or the constant 1)
  * real exponentials     R(m)^q = exp(q m)
  * square roots          s^2 = radicand (radicand a nonnegative constant prime or a real polynomial)
  * opaque functions      f(args)
Angles that are rational multiples of pi are evaluated exactly (multiples of pi/12 by surds).
Floating-point constants of the code are recognised as rationals / surds / multiples of pi; a
constant that is not recognised keeps its exact binary value and marks the result as inexact,
which makes the final comparison use a tolerance instead of exact zero.
"""
from __future__ import annotations
import cmath, math
from fractions import Fraction as F
from functools import lru_cache

TOL = 1e-9


class Unsupported(Exception):
    """The engine cannot represent this; the obligation becomes undecided (never a violation)."""


class _Atoms:
    def __init__(self):
        self.info = []          # id -> dict
        self.key = {}           # key -> id

    def get(self, key, **info):
        i = self.key.get(key)
        if i is None:
            i = len(self.info)
            self.key[key] = i
            info['key'] = key
            self.info.append(info)
        return i


A = _Atoms()
DOMAIN = []   # radicands whose nonnegativity is assumed: collected as side obligations


def real_atom(name):
    return P({((A.get(('real', name), kind='real', name=name), 1),): ONE})


def cplx_atom(name):
    z = A.get(('cplx', name), kind='cplx', name=name, conj=None)
    zc = A.get(('cconj', name), kind='cconj', name=name, conj=z)
    A.info[z]['conj'] = zc
    return P({((z, 1),): ONE})


def opaque(name, args=(), real=False):
    args = tuple(P.of(a) for a in args)
    key = tuple(a.key() for a in args)
    if real:
        return P({((A.get(('fn', name, key), kind='real', name=f'{name}', args=args), 1),): ONE})
    z = A.get(('fn', name, key), kind='cplx', name=name, args=args, conj=None)
    zc = A.get(('fnc', name, key), kind='cconj', name=name, args=args, conj=z)
    A.info[z]['conj'] = zc
    return P({((z, 1),): ONE})


ONE = (1, 0)


def cmul(a, b):
    ar, ai = a
    br, bi = b
    if not ai and not bi:
        return (ar * br, 0)
    return (ar * br - ai * bi, ar * bi + ai * br)


def cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def cinv(a):
    r, i = a
    if not i:
        return (F(1) / r, 0)
    d = F(r * r + i * i)
    return (r / d, -i / d)


def _int(x):
    if isinstance(x, F) and x.denominator == 1:
        return x.numerator
    return x


def _kind(i):
    return A.info[i]['kind']


_MM = {}


def mono_mul(m1, m2):
    """product of two monomials as a list of (mono, coef) (reductions may give several terms)"""
    if not m1:
        return ((m2, ONE),)
    if not m2:
        return ((m1, ONE),)
    k = (m1, m2)
    r = _MM.get(k)
    if r is None:
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        r = _norm_mono(d)
        if len(_MM) > 2_000_000:
            _MM.clear()
        _MM[k] = r
    return r


def _norm_mono(d):
    red = []
    out = []
    for a in sorted(d):
        e = d[a]
        if not e:
            continue
        if _kind(a) == 'sqrt' and (e >= 2 or e < 0):
            # s^e = radicand^(e//2) * s^(e%2)
            q, r = divmod(e, 2)
            red.append((A.info[a]['rad'], q))
            if r:
                out.append((a, r))
        elif _kind(a) == 'inv' and False:
            pass
        else:
            out.append((a, _int(e)))
    base = tuple(out)
    if not red:
        return ((base, ONE),)
    p = P({base: ONE})
    for rad, q in red:
        p = p * (rad ** q)
    return tuple(p.t.items())


class P:
    __slots__ = ('t', 'ix')
    __array_priority__ = 1000

    def __init__(self, t, ix=False):
        self.t = t
        self.ix = ix          # an unrecognised float constant went in

    # ---- construction -------------------------------------------------
    @staticmethod
    def of(x):
        if isinstance(x, P):
            return x
        return const(x)

    def key(self):
        return tuple(sorted(self.t.items(), key=lambda kv: repr(kv)))

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), (0, 0))

    def is_monomial(self):
        return len(self.t) == 1

    # ---- arithmetic ---------------------------------------------------
    def __add__(self, o):
        o = P.of(o)
        if not self.t:
            return o
        if not o.t:
            return self
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        t = dict(a)
        for m, c in b.items():
            x = t.get(m)
            if x is None:
                t[m] = c
            else:
                r, i = x[0] + c[0], x[1] + c[1]
                if r or i:
                    t[m] = (r, i)
                else:
                    del t[m]
        return P(t, self.ix or o.ix)

    __radd__ = __add__

    def __neg__(self):
        return P({m: (-c[0], -c[1]) for m, c in self.t.items()}, self.ix)

    def __pos__(self):
        return self

    def __sub__(self, o):
        return self + (-P.of(o))

    def __rsub__(self, o):
        return P.of(o) + (-self)

    def __mul__(self, o):
        o = P.of(o)
        if not self.t or not o.t:
            return ZERO
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                c = cmul(c1, c2)
                for m, k in mono_mul(m1, m2):
                    v = c if k == ONE else cmul(c, k)
                    x = t.get(m)
                    t[m] = v if x is None else (x[0] + v[0], x[1] + v[1])
        t = {m: c for m, c in t.items() if c[0] or c[1]}
        return P(t, self.ix or o.ix)

    __rmul__ = __mul__

    def inv(self):
        if not self.t:
            raise Unsupported('division by zero')
        if len(self.t) == 1:
            (m, c), = self.t.items()
            d, extra = {}, P({(): cinv(c)}, self.ix)
            for a, e in m:
                k = _kind(a)
                if k == 'sqrt':
                    extra = extra * P({((a, 1),): ONE}) * (A.info[a]['rad'].inv() if True else 1)
                    if e != 1:
                        raise Unsupported('sqrt power')
                else:
                    d[a] = -e
            return extra * P(dict(_norm_mono(d)))
        if all(all(_kind(a) == 'sqrt' and A.info[a]['rad'].is_const() for a, _ in m) for m in self.t):
            # constant of a multiquadratic field: rationalise
            s = sorted({a for m in self.t for a, _ in m})[0]
            conj = P({m: ((-c[0], -c[1]) if any(a == s for a, _ in m) else c) for m, c in self.t.items()}, self.ix)
            return conj * (self * conj).inv()
        if len(self.t) == 1 or self.is_const():
            return P({(): cinv(self.const_value())}, self.ix)
        k = self.key()
        i = A.get(('inv', k), kind='inv', name='inv', arg=self)
        return P({((i, 1),): ONE}, self.ix)

    def __truediv__(self, o):
        o = P.of(o)
        if len(o.t) == 1 and () in o.t:
            c = cinv(o.t[()])
            return P({m: tuple(map(_int, cmul(x, c))) for m, x in self.t.items()}, self.ix or o.ix)
        return self * o.inv()

    def __rtruediv__(self, o):
        return P.of(o) / self

    def __pow__(self, n):
        if isinstance(n, P):
            if not n.is_const():
                raise Unsupported('symbolic exponent')
            r, i = n.const_value()
            if i:
                raise Unsupported('complex exponent')
            n = r
        if n == F(1, 2):
            return self.sqrt()
        if n == F(-1, 2):
            return self.sqrt().inv()
        if int(n) != n:
            raise Unsupported(f'power {n}')
        n = int(n)
        if n < 0:
            return (self ** (-n)).inv()
        r = ONE_P
        for _ in range(n):
            r = r * self
        if n == 2:
            _SQUARE[r.key()] = self
        return r

    # ---- structure ----------------------------------------------------
    def conjugate(self):
        t = {}
        for m, c in self.t.items():
            mm = tuple(sorted((_conj_atom(a, e)) for a, e in m))
            t[mm] = (c[0], -c[1])
        return P(t, self.ix)

    conj = conjugate

    @property
    def real(self):
        return (self + self.conjugate()) * P({(): (F(1, 2), 0)})

    @property
    def imag(self):
        return (self - self.conjugate()) * P({(): (0, F(-1, 2))})

    def is_real(self):
        return (self - self.conjugate()).is_zero()

    def is_zero(self):
        if not self.t:
            return True
        s = self
        if any(_kind(a) == 'inv' for m in s.t for a, _ in m):
            s = s.clear_inv()
            if not s.t:
                return True
        if s.ix:
            # an unrecognised float went in: constant atoms are evaluated, the rest stays symbolic
            grp = {}
            for m, c in s.t.items():
                v = complex(float(c[0]), float(c[1]))
                rest = []
                for a, e in m:
                    w = _const_atom(a)
                    if w is None:
                        rest.append((a, e))
                    else:
                        v *= w ** float(e)
                g = grp.setdefault(tuple(rest), [0j, 0.0])
                g[0] += v
                g[1] += abs(v)
            return all(abs(v) <= TOL * max(1.0, w) for v, w in grp.values())
        return False

    def clear_inv(self):
        """multiply out inverse atoms (nonzero factors)"""
        s = self
        for _ in range(20):
            ids = sorted({a for m in s.t for a, _ in m if _kind(a) == 'inv'})
            if not ids:
                return s
            a = ids[-1]
            d = max(dict(m).get(a, 0) for m in s.t)
            q = A.info[a]['arg']
            out = ZERO
            for m, c in s.t.items():
                e = dict(m).get(a, 0)
                rest = tuple(x for x in m if x[0] != a)
                out = out + P({rest: c}) * (q ** (d - e))
            s = P(out.t, s.ix)
        raise Unsupported('inverse elimination')

    def __eq__(self, o):
        try:
            return (self - P.of(o)).is_zero()
        except Unsupported:
            return NotImplemented

    def __hash__(self):
        return hash(self.key())

    # ---- functions ----------------------------------------------------
    def sqrt(self):
        if not self.t:
            return ZERO
        c = _content(self)
        if c is not None and c != 1:
            return _sqrt_rat(c) * (self / P({(): (c, 0)})).sqrt()
        if self.is_const():
            r, i = self.const_value()
            if i or r < 0:
                raise Unsupported(f'sqrt of {r}+{i}i')
            return _sqrt_rat(r)
        sq = _SQUARE.get(self.key())
        if sq is not None and sq.is_real():
            return sq.abs()
        if self.is_monomial():
            (m, cf), = self.t.items()
            d = dict(m)
            if cf == ONE and all(_kind(a) in ('cplx', 'cconj') and e % 2 == 0
                                 and d.get(A.info[a]['conj']) == e for a, e in m):
                return P({tuple((a, e // 2) for a, e in m): ONE}, self.ix)
        if not self.is_real():
            raise Unsupported('sqrt of non-real')
        k = self.key()
        i = A.get(('sqrt', k), kind='sqrt', name='sqrt', rad=self)
        DOMAIN.append(self)
        return P({((i, 1),): ONE}, self.ix)

    def abs(self):
        sq = _SQUARE.get(self.key())
        if sq is not None:
            return sq * sq.conjugate()
        if self.is_const():
            r, i = self.const_value()
            if not i:
                return P({(): (abs(r), 0)}, self.ix)
        if self.is_monomial():
            (m, c), = self.t.items()
            if all(_kind(a) in ('E', 'R', 'sqrt') for a, _ in m):
                cc = P({(): c}, self.ix).abs() if c[1] == 0 else P({(): (_int(F(c[0]) ** 2 + F(c[1]) ** 2), 0)}).sqrt()
                return cc * P({tuple((a, e) for a, e in m if _kind(a) != 'E'): ONE})
        v = self * self.conjugate()
        if v.is_const() or not any(True for m in v.t for a, e in m if _kind(a) not in ('sqrt',)):
            return v.sqrt()
        nd = len(DOMAIN)
        s = v.sqrt()
        del DOMAIN[nd:]          # a squared modulus is non-negative
        return s

    def exp(self):
        """exp of a general linear combination"""
        out = ONE_P
        for m, (re, im) in self.t.items():
            if re:
                out = out * _expfac(m, re, 'R', self.ix)
            if im:
                out = out * _expfac(m, im, 'E', self.ix)
        return P(out.t, out.ix or self.ix)

    def cos(self):
        e = (self * I_P).exp()
        return (e + e.inv()) * HALF

    def sin(self):
        e = (self * I_P).exp()
        return (e - e.inv()) * P({(): (0, F(-1, 2))})

    def diff(self, atom_name):
        """derivative with respect to the real atom of that name"""
        aid = A.key[('real', atom_name)]
        out = ZERO
        for m, c in self.t.items():
            for idx, (a, e) in enumerate(m):
                k = _kind(a)
                if a == aid:
                    d = dict(m)
                    d[a] = e - 1
                    out = out + P({tuple(sorted((x, y) for x, y in d.items() if y)): cmul(c, (e, 0))})
                elif k in ('E', 'R'):
                    mm = A.info[a]['mono']
                    dm = P({mm: ONE}).diff(atom_name) if mm else ZERO
                    if dm.t:
                        f = (0, e) if k == 'E' else (e, 0)
                        out = out + P({m: cmul(c, f)}) * dm
                elif k == 'sqrt':
                    dr = A.info[a]['rad'].diff(atom_name)
                    if dr.t:
                        raise Unsupported('derivative of sqrt')
                elif k == 'inv':
                    da = A.info[a]['arg'].diff(atom_name)
                    if da.t:
                        raise Unsupported('derivative of inverse')
                elif A.info[a].get('args'):
                    if any(x.diff(atom_name).t for x in A.info[a]['args']):
                        raise Unsupported('derivative of opaque function')
        return P(out.t, self.ix)

    def eval(self, env):
        """numeric value; env maps atom names to numbers"""
        s = 0j
        for m, c in self.t.items():
            v = complex(float(c[0]), float(c[1]))
            for a, e in m:
                v *= _eval_atom(a, env) ** (float(e) if not isinstance(e, int) else e) \
                    if _kind(a) not in ('E', 'R') else _eval_exp(a, e, env)
            s += v
        return s

    def atoms(self):
        out = set()
        for m in self.t:
            for a, _ in m:
                _collect(a, out)
        return out

    def __repr__(self):
        if not self.t:
            return '0'
        parts = []
        for m, (r, i) in sorted(self.t.items(), key=lambda kv: repr(kv[0]))[:12]:
            c = f'{r}' if not i else (f'{i}i' if not r else f'({r}+{i}i)')
            ms = '*'.join(_atom_repr(a) + (f'^{e}' if e != 1 else '') for a, e in m)
            parts.append(c if not ms else (ms if c == '1' else c + '*' + ms))
        if len(self.t) > 12:
            parts.append(f'... {len(self.t)} terms')
        return ' + '.join(parts)

    def __bool__(self):
        if self.is_const():
            return not self.is_zero()
        raise Unsupported('truth value of a symbolic scalar')

    def __float__(self):
        if self.is_const() and not self.const_value()[1]:
            return float(self.const_value()[0])
        raise Unsupported('float() of a symbolic scalar')


def _collect(a, out):
    inf = A.info[a]
    if a in out:
        return
    out.add(a)
    for q in [inf.get('rad'), inf.get('arg'), *(inf.get('args') or ())]:
        if q is not None:
            for m in q.t:
                for b, _ in m:
                    _collect(b, out)
    for b, _ in (inf.get('mono') or ()):
        _collect(b, out)


def _eval_atom(a, env):
    inf = A.info[a]
    k = inf['kind']
    if inf.get('args') is not None and ('@' + str(inf['key'])) not in env:
        raise Unsupported('numeric value of opaque function')
    if k == 'real':
        return env[inf['name']]
    if k == 'cplx':
        return env[inf['name']]
    if k == 'cconj':
        return complex(env[inf['name']]).conjugate()
    if k == 'sqrt':
        return cmath.sqrt(inf['rad'].eval(env))
    if k == 'inv':
        return 1 / inf['arg'].eval(env)
    raise Unsupported(k)


@lru_cache(None)
def _const_atom(a):
    inf = A.info[a]
    if inf['kind'] == 'sqrt' and inf['rad'].is_const():
        return cmath.sqrt(complex(*map(float, inf['rad'].const_value())))
    if inf['kind'] == 'real' and inf.get('name') == '__pi__':
        return math.pi
    return None


def _eval_exp(a, e, env):
    inf = A.info[a]
    v = 1.0
    for b, x in inf['mono']:
        v *= _eval_atom(b, env) ** x
    return cmath.exp((1j if inf['kind'] == 'E' else 1) * float(e) * v)


def _atom_repr(a):
    inf = A.info[a]
    k = inf['kind']
    if k in ('E', 'R'):
        m = '*'.join(_atom_repr(b) for b, _ in inf['mono']) or '1'
        return f'exp({"i" if k == "E" else ""}{m})'
    if k == 'sqrt':
        return f'sqrt({inf["rad"]!r})'
    if k == 'inv':
        return f'1/({inf["arg"]!r})'
    if inf.get('args'):
        return f'{inf["name"]}({", ".join(map(repr, inf["args"]))})'
    return inf['name'] + ("'" if k == 'cconj' else '')


def _conj_atom(a, e):
    inf = A.info[a]
    k = inf['kind']
    if k in ('cplx', 'cconj'):
        return (inf['conj'], e)
    if k == 'E':
        return (a, -e)
    if k == 'inv':
        q = inf['arg'].conjugate()
        if q.key() == inf['arg'].key():
            return (a, e)
        return (A.get(('inv', q.key()), kind='inv', name='inv', arg=q), e)
    return (a, e)


def _expfac(m, q, kind, ix):
    """exp(i q m) or exp(q m) for one real monomial m"""
    for a, e in m:
        if _kind(a) not in ('real', 'sqrt', 'R'):
            raise Unsupported('exp of a non-linear complex argument')
    if kind == 'E' and len(m) == 1 and A.info[m[0][0]].get('name') == '__pi__' and m[0][1] == 1:
        return _exp_pi(F(q))
    if kind == 'E' and len(m) == 1 and m[0][0] == _PI_ID:
        return _exp_pi(F(q))
    if not m:
        v = cmath.exp((1j if kind == 'E' else 1) * float(q))
        return P({(): (F(v.real), F(v.imag))}, True)
    a = A.get((kind, m), kind=kind, name=kind, mono=m)
    return P({((a, _int(F(q))),): ONE}, ix)


def _exp_pi(k):
    k = k % 2
    if k < 0:
        k += 2
    c = _cos_pi(k)
    s = _cos_pi(k - F(1, 2))
    if c is None or s is None:
        v = cmath.exp(1j * math.pi * float(k))
        return P({(): (F(v.real), F(v.imag))}, True)
    return c + s * I_P


def _cos_pi(k):
    k = k % 2
    if k > 1:
        k = 2 - k
    if k > F(1, 2):
        r = _cos_pi(1 - k)
        return None if r is None else -r
    if k == 0:
        return ONE_P
    if k == F(1, 2):
        return ZERO
    if k == F(1, 3):
        return HALF
    if k == F(1, 4):
        return _sqrt_rat(2) * HALF
    if k == F(1, 6):
        return _sqrt_rat(3) * HALF
    if k == F(1, 12):
        return (_sqrt_rat(6) + _sqrt_rat(2)) * P({(): (F(1, 4), 0)})
    if k == F(5, 12):
        return (_sqrt_rat(6) - _sqrt_rat(2)) * P({(): (F(1, 4), 0)})
    return None


@lru_cache(None)
def _sqrt_rat(r):
    r = F(r)
    n = r.numerator * r.denominator
    out = P({(): (F(1, r.denominator), 0)})
    if n > 10 ** 14:
        v = math.sqrt(r)
        return P({(): (F(v), 0)}, True)
    p = 2
    k = 1
    primes = []
    while p * p <= n:
        c = 0
        while n % p == 0:
            n //= p
            c += 1
        if c:
            k *= p ** (c // 2)
            if c % 2:
                primes.append(p)
        p += 1
    if n > 1:
        primes.append(n)
    out = out * P({(): (k, 0)})
    for q in primes:
        i = A.get(('sqrt', 'prime', q), kind='sqrt', name='sqrt', rad=P({(): (q, 0)}))
        out = out * P({((i, 1),): ONE})
    return P({m: tuple(map(_int, c)) for m, c in out.t.items()})


def _content(p):
    """positive rational content making the coefficients coprime integers (None if not rational-real)"""
    if not p.t:
        return None
    num = den = None
    for r, i in p.t.values():
        if i:
            return None
        f = F(r)
        num = abs(f.numerator) if num is None else math.gcd(num, abs(f.numerator))
        den = f.denominator if den is None else den * f.denominator // math.gcd(den, f.denominator)
    if p.is_const():
        return None
    return F(num, den)


_SQUARE = {}
ZERO = P({})
ONE_P = P({(): ONE})
I_P = P({(): (0, 1)})
HALF = P({(): (F(1, 2), 0)})
PI = real_atom('__pi__')
_PI_ID = next(iter(PI.t))[0][0]


@lru_cache(None)
def _recognise(x):
    """float -> (exact P)"""
    if x == 0:
        return ZERO
    if x == int(x) and abs(x) < 2 ** 52:
        return P({(): (int(x), 0)})
    f = F(x)
    if f.denominator <= 2 ** 20:
        return P({(): (f, 0)})
    g = f.limit_denominator(2000)
    if abs(float(g) - x) <= 4e-16 * max(1e-3, abs(x)):
        return P({(): (g, 0)})
    for base, mk in ((math.pi, PI), (math.sqrt(2), _sqrt_rat(2)), (math.sqrt(3), _sqrt_rat(3)),
                     (math.sqrt(6), _sqrt_rat(6)), (math.sqrt(5), _sqrt_rat(5))):
        g = F(x / base).limit_denominator(720)
        if g and abs(float(g) * base - x) <= 1e-14 * abs(x):
            return P({(): (_int(g), 0)}) * mk
    return P({(): (f, 0)}, True)


def const(x):
    if isinstance(x, P):
        return x
    if isinstance(x, (bool, int)):
        return P({(): (int(x), 0)}) if x else ZERO
    if isinstance(x, F):
        return P({(): (_int(x), 0)}) if x else ZERO
    if isinstance(x, complex) or getattr(getattr(x, 'dtype', None), 'kind', '') == 'c':
        x = complex(x)
        if math.isnan(x.real) or math.isnan(x.imag) or math.isinf(x.real) or math.isinf(x.imag):
            raise Unsupported('nan/inf constant')
        return _recognise(x.real) + _recognise(x.imag) * I_P
    if getattr(getattr(x, 'dtype', None), 'kind', '') in 'iub' and hasattr(x, 'dtype'):
        return const(int(x))
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        raise Unsupported('nan/inf constant')
    return _recognise(x)


# ---------------------------------------------------------------- z3 side
def to_z3(p, ctx):
    """real scalar -> z3 real term.  ctx: dict caching atoms -> z3 terms; ctx['side'] collects axioms"""
    import z3
    side = ctx.setdefault('side', [])

    def at(a):
        inf = A.info[a]
        k = inf['kind']
        key = ('a', a)
        if key in ctx:
            return ctx[key]
        if k == 'real':
            v = (z3.Real(f'{inf["name"]}#{a}'), z3.RealVal(0))
            if inf['name'] == '__pi__':
                side.append(v[0] > z3.RealVal('3.14159265358979'))
                side.append(v[0] < z3.RealVal('3.14159265358980'))
        elif k in ('cplx', 'cconj'):
            z = a if k == 'cplx' else inf['conj']
            re, im = z3.Real(f'{inf["name"]}.re#{z}'), z3.Real(f'{inf["name"]}.im#{z}')
            v = (re, im if k == 'cplx' else -im)
        elif k == 'sqrt':
            s = z3.Real(f'sqrt#{a}')
            side.append(s >= 0)
            ctx[key] = (s, z3.RealVal(0))
            side.append(s * s == to_z3(inf['rad'], ctx))
            v = (s, z3.RealVal(0))
        elif k == 'inv':
            s = z3.Real(f'inv#{a}')
            ctx[key] = (s, z3.RealVal(0))
            side.append(s * to_z3(inf['arg'], ctx) == 1)
            v = (s, z3.RealVal(0))
        else:
            raise Unsupported('z3 term of ' + k)
        ctx[key] = v
        return v

    def epow(a, e):
        inf = A.info[a]
        den = F(e).denominator
        base = ctx.setdefault(('eden', a), 1)
        key = ('exp', a, den)
        if key not in ctx:
            c, s = z3.Real(f'c{den}#{a}'), z3.Real(f's{den}#{a}')
            side.append(c * c + s * s == 1)
            ctx[key] = (c, s)
        c, s = ctx[key]
        n = int(F(e) * den)
        r = (z3.RealVal(1), z3.RealVal(0))
        for _ in range(abs(n)):
            r = (r[0] * c - r[1] * s, r[0] * s + r[1] * c)
        return r if n >= 0 else (r[0], -r[1])

    tot = z3.RealVal(0)
    for m, (re, im) in p.t.items():
        v = (z3.RealVal(str(F(re))), z3.RealVal(str(F(im))))
        for a, e in m:
            if _kind(a) == 'E':
                w = epow(a, e)
                v = (v[0] * w[0] - v[1] * w[1], v[0] * w[1] + v[1] * w[0])
                continue
            if _kind(a) == 'R':
                raise Unsupported('z3 term of real exponential')
            w = at(a)
            n = e
            if n < 0:
                inv = z3.Real(f'rec#{a}')
                if ('rec', a) not in ctx:
                    ctx[('rec', a)] = True
                    side.append(inv * w[0] == 1)
                w = (inv, z3.RealVal(0))
                n = -n
            for _ in range(int(n)):
                if k_is_zero(w[1]):
                    v = (v[0] * w[0], v[1] * w[0])
                else:
                    v = (v[0] * w[0] - v[1] * w[1], v[0] * w[1] + v[1] * w[0])
        tot = tot + v[0]
    return tot


def k_is_zero(t):
    import z3
    return z3.is_rational_value(t) and t.numerator_as_long() == 0
