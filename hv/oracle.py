"""Mathematical specification functions (independent of /repo).

Every function works on object arrays whose entries are either exact symbolic scalars
(scalar.P) or Python complex numbers, so the same text is the postcondition of the symbolic
obligations and the oracle of the concrete replays.  Qubit 0 is the most significant index.
Written from the textbook definitions by explicit index arithmetic: no tensordot, no kron.
"""
from __future__ import annotations
import cmath, itertools, math
from fractions import Fraction as F
import numpy as np
from .scalar import P, const, ZERO, ONE_P, I_P, PI, _sqrt_rat


def is_p(x):
    return isinstance(x, P)


def cos(x):
    return x.cos() if is_p(x) else cmath.cos(x)


def sin(x):
    return x.sin() if is_p(x) else cmath.sin(x)


def exp(x):
    return x.exp() if is_p(x) else cmath.exp(x)


def sqrt(x):
    return x.sqrt() if is_p(x) else cmath.sqrt(x)


def conj(x):
    return x.conjugate()


def obj(x):
    """object array of plain numbers"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    x = np.asarray(x)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
        out[i] = complex(x[i])
    return out


def num(a):
    """plain complex array: the vectorised text below is then used"""
    return isinstance(a, np.ndarray) and a.dtype != object


def arr(rows):
    rows = [list(r) for r in rows]
    out = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            out[i, j] = v
    return out


def eye(d):
    return arr([[1 if i == j else 0 for j in range(d)] for i in range(d)])


def matmul(a, b):
    if num(a) or num(b):
        return a.astype(complex) @ b.astype(complex)
    n, m, k = a.shape[0], a.shape[1], b.shape[1]
    out = np.empty((n, k), dtype=object)
    for i in range(n):
        for j in range(k):
            out[i, j] = 0
    for i in range(n):
        for l in range(m):
            v = a[i, l]
            if _zero(v):
                continue
            for j in range(k):
                w = b[l, j]
                if not _zero(w):
                    out[i, j] = out[i, j] + v * w
    return out


def _zero(v):
    return (not v.t) if is_p(v) else v == 0


def dag(a):
    if num(a):
        return a.conj().T
    out = np.empty((a.shape[1], a.shape[0]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            v = a[i, j]
            out[j, i] = v.conjugate() if not isinstance(v, (int, F)) else v
    return out


def scal(c, a):
    if num(a):
        return c * a
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = c * a[i]
    return out


def addm(a, b):
    if num(a) or num(b):
        return a + b
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = a[i] + b[i]
    return out


SYM = True
S2 = _sqrt_rat(2)            # exact surd, converted when mixed with floats


def _c(x):
    """exact constant usable with both kinds of scalars"""
    return x


class K:
    """exact constants in both worlds"""
    def __init__(self, sym):
        self.sym = sym
        self.i = I_P if sym else 1j
        self.h = const(F(1, 2)) if sym else 0.5
        self.s2 = S2 if sym else math.sqrt(2)
        self.pi = PI if sym else math.pi

    def q(self, a, b=1):
        return const(F(a, b)) if self.sym else a / b


def gate_matrix(name, k: K):
    i, h, s2 = k.i, k.h, k.s2
    r = s2 * h                                # 1/sqrt 2
    two = {
        'I': [[1, 0], [0, 1]], 'X': [[0, 1], [1, 0]], 'Y': [[0, -i], [i, 0]], 'Z': [[1, 0], [0, -1]],
        'H': [[r, r], [r, -r]], 'S': [[1, 0], [0, i]], 'T': [[1, 0], [0, r + i * r]],
        'NOT': [[0, 1], [1, 0]],
        'SWAP': [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]],
        'SQRTSWAP': [[1, 0, 0, 0], [0, h + h * i, h - h * i, 0], [0, h - h * i, h + h * i, 0], [0, 0, 0, 1]],
        'ISWAP': [[1, 0, 0, 0], [0, 0, i, 0], [0, i, 0, 0], [0, 0, 0, 1]],
        'ISQRTSWAP': [[1, 0, 0, 0], [0, r, i * r, 0], [0, i * r, r, 0], [0, 0, 0, 1]],
    }
    return arr(two[name])


def rotation(name, th, k: K):
    """exp(-i th G / 2) and diag(1, e^{i th})"""
    c, s, i = cos(th * k.h), sin(th * k.h), k.i
    if name == 'RX':
        return arr([[c, -i * s], [-i * s, c]])
    if name == 'RY':
        return arr([[c, -s], [s, c]])
    if name == 'RZ':
        return arr([[c - i * s, 0], [0, c + i * s]])
    if name == 'PHASE':
        return arr([[1, 0], [0, exp(i * th)]])
    raise KeyError(name)


def d_rotation(name, th, k: K):
    """derivative with respect to the angle"""
    c, s, i, h = cos(th * k.h), sin(th * k.h), k.i, k.h
    if name == 'RX':
        return arr([[-h * s, -i * h * c], [-i * h * c, -h * s]])
    if name == 'RY':
        return arr([[-h * s, -h * c], [h * c, -h * s]])
    if name == 'RZ':
        return arr([[-h * s - i * h * c, 0], [0, -h * s + i * h * c]])
    if name == 'PHASE':
        return arr([[0, 0], [0, i * exp(i * th)]])
    raise KeyError(name)


NQ = {'SWAP': 2, 'SQRTSWAP': 2, 'ISWAP': 2, 'ISQRTSWAP': 2}


def apply_mat(U, psi, targets, controls=()):
    """(U on targets, controlled) psi, psi of shape (2,)*n"""
    n, m = psi.ndim, len(targets)
    if num(psi):
        U, out = np.asarray(U).astype(complex), np.array(psi, dtype=complex)

        def sel(bits):
            ix = [slice(None)] * n
            for c in controls:
                ix[c] = 1
            for t, x in zip(targets, bits):
                ix[t] = x
            return tuple(ix)
        for row, rb in enumerate(itertools.product((0, 1), repeat=m)):
            acc = 0
            for col, cb in enumerate(itertools.product((0, 1), repeat=m)):
                if U[row, col] != 0:
                    acc = acc + U[row, col] * psi[sel(cb)]
            out[sel(rb)] = acc
        return out
    out = np.empty(psi.shape, dtype=object)
    for b in itertools.product((0, 1), repeat=n):
        if any(b[c] == 0 for c in controls):
            out[b] = psi[b]
            continue
        row = sum(b[t] << (m - 1 - j) for j, t in enumerate(targets))
        acc = 0
        for col in range(2 ** m):
            u = U[row, col]
            if _zero(u):
                continue
            b2 = list(b)
            for j, t in enumerate(targets):
                b2[t] = (col >> (m - 1 - j)) & 1
            acc = acc + u * psi[tuple(b2)]
        out[b] = acc
    return out


def full_op(U, targets, controls, qubits, fast=False):
    """matrix on the ordered list of qubit labels `qubits`"""
    n, m = len(qubits), len(targets)
    pos = {q: i for i, q in enumerate(qubits)}
    if fast:
        e = np.eye(2 ** n, dtype=complex).reshape((2,) * (2 * n))
        return apply_mat(U, e, [pos[t] for t in targets], [pos[c] for c in controls]).reshape(2 ** n, 2 ** n)
    M = np.empty((2 ** n, 2 ** n), dtype=object)
    for i in range(2 ** n):
        for j in range(2 ** n):
            M[i, j] = 0
    tp, cp = [pos[t] for t in targets], [pos[c] for c in controls]
    for i in range(2 ** n):
        b = [(i >> (n - 1 - q)) & 1 for q in range(n)]
        if any(b[c] == 0 for c in cp):
            M[i, i] = 1
            continue
        row = sum(b[t] << (m - 1 - j) for j, t in enumerate(tp))
        for col in range(2 ** m):
            b2 = list(b)
            for j, t in enumerate(tp):
                b2[t] = (col >> (m - 1 - j)) & 1
            k = sum(x << (n - 1 - q) for q, x in enumerate(b2))
            M[i, k] = U[row, col]
    return M


def apply_rho(U, rho, targets, controls=()):
    """U rho U^dagger; rho of shape (2,)*2n; row indices first"""
    n = rho.ndim // 2
    r = apply_mat(U, rho, targets, controls)
    if num(rho):
        return apply_mat(np.asarray(U).astype(complex).conj(), r, [t + n for t in targets], [c + n for c in controls])
    Uc = np.empty(U.shape, dtype=object)
    for i in np.ndindex(U.shape):
        v = U[i]
        Uc[i] = v if isinstance(v, (int, F)) else v.conjugate()
    return apply_mat(Uc, r, [t + n for t in targets], [c + n for c in controls])


def outer(psi):
    n = psi.ndim
    if num(psi):
        v = psi.reshape(-1).astype(complex)
        return np.outer(v, v.conj()).reshape((2,) * (2 * n))
    out = np.empty(psi.shape * 2, dtype=object)
    for a in itertools.product((0, 1), repeat=n):
        for b in itertools.product((0, 1), repeat=n):
            out[a + b] = psi[a] * psi[b].conjugate()
    return out


def channel(kind, p, rho, target, k: K):
    """documented action of a noise channel on one qubit of rho"""
    def conjby(name):
        return apply_rho(gate_matrix(name, k), rho, [target])
    if kind == 'BitFlip':
        return addm(scal(1 - p, rho), scal(p, conjby('X')))
    if kind == 'PhaseFlip':
        return addm(scal(1 - p, rho), scal(p, conjby('Z')))
    if kind == 'Depolarizing':
        o = scal(1 - p, rho)
        for g in 'XYZ':
            o = addm(o, scal(p * k.q(1, 3), conjby(g)))
        return o
    if kind == 'PauliChannel':
        o = scal(1 - (p[0] + p[1] + p[2]), rho)
        for g, q in zip('XYZ', p):
            o = addm(o, scal(q, conjby(g)))
        return o
    n = rho.ndim // 2
    if num(rho):
        out = np.array(rho, dtype=complex)

        def blk(x, y):
            ix = [slice(None)] * (2 * n)
            ix[target], ix[target + n] = x, y
            return tuple(ix)
        if kind == 'GeneralizedAmplitudeDamping':
            pr, ra = p
        else:
            pr, ra = 1.0, p
        r00, r11 = rho[blk(0, 0)], rho[blk(1, 1)]
        if kind in ('AmplitudeDamping', 'GeneralizedAmplitudeDamping'):
            out[blk(0, 0)] = (pr + (1 - pr) * (1 - ra)) * r00 + pr * ra * r11
            out[blk(1, 1)] = (pr * (1 - ra) + (1 - pr)) * r11 + (1 - pr) * ra * r00
        elif kind != 'PhaseDamping':
            raise KeyError(kind)
        for x, y in ((0, 1), (1, 0)):
            out[blk(x, y)] = sqrt(1 - ra) * rho[blk(x, y)]
        return out
    out = np.empty(rho.shape, dtype=object)
    for b in itertools.product((0, 1), repeat=2 * n):
        r, c = b[target], b[target + n]

        def at(x, y):
            l = list(b)
            l[target], l[target + n] = x, y
            return rho[tuple(l)]
        if kind == 'AmplitudeDamping':
            # rho00 + p rho11, sqrt(1-p) rho01, (1-p) rho11
            v = {(0, 0): lambda: at(0, 0) + p * at(1, 1), (1, 1): lambda: (1 - p) * at(1, 1)}.get(
                (r, c), lambda: sqrt(1 - p) * at(r, c))()
        elif kind == 'PhaseDamping':
            v = at(r, c) if r == c else sqrt(1 - p) * at(r, c)
        elif kind == 'GeneralizedAmplitudeDamping':
            pr, ra = p
            if (r, c) == (0, 0):
                v = (pr + (1 - pr) * (1 - ra)) * at(0, 0) + pr * ra * at(1, 1)
            elif (r, c) == (1, 1):
                v = (pr * (1 - ra) + (1 - pr)) * at(1, 1) + (1 - pr) * ra * at(0, 0)
            else:
                v = sqrt(1 - ra) * at(r, c)
        else:
            raise KeyError(kind)
        out[b] = v
    return out


CHANNELS = {'BitFlip': 1, 'PhaseFlip': 1, 'Depolarizing': 1, 'PauliChannel': 3, 'AmplitudeDamping': 1,
            'PhaseDamping': 1, 'GeneralizedAmplitudeDamping': 2}


def inner(a, b):
    if num(a) and num(b):
        return complex(np.vdot(a, b))
    acc = 0
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        acc = acc + (x.conjugate() if not isinstance(x, (int, F)) else x) * y
    return acc


def re(x):
    if is_p(x):
        return x.real
    return complex(x).real


# ------------------------------------------------------------------ operation trees
# ('g', name, targets, controls[, noise])           fixed gate;   noise = ((kind, rate), ...)
# ('r', name, param, targets, controls[, noise[, shift]])    rotation; param str or number; the angle is param + shift
# ('scale', param, op) ('add', [ops]) ('seq', [ops])

def val(param, env, k: K):
    if isinstance(param, str):
        return env[param]
    return const(param) if k.sym else param


def local(op, env, k):
    """(matrix, targets, controls)"""
    if op[0] == 'g':
        return gate_matrix(op[1], k), op[2], op[3]
    th = val(op[2], env, k)
    if len(op) > 6:
        th = th + (const(op[6]) if k.sym else op[6])
    return rotation(op[1], th, k), op[3], op[4]


def noise_of(op):
    if op[0] == 'g':
        return op[4] if len(op) > 4 else ()
    if op[0] == 'r':
        return op[5] if len(op) > 5 else ()
    return ()


def act(op, psi, env, k):
    """action of an operation tree on a state vector"""
    t = op[0]
    if t in 'gr':
        U, tg, ct = local(op, env, k)
        return apply_mat(U, psi, tg, ct)
    if t == 'scale':
        return scal(val(op[1], env, k), act(op[2], psi, env, k))
    if t == 'add':
        outs = [act(o, psi, env, k) for o in op[1]]
        r = outs[0]
        for o in outs[1:]:
            r = addm(r, o)
        return r
    if t == 'seq':
        for o in op[1]:
            psi = act(o, psi, env, k)
        return psi
    raise KeyError(t)


def act_rho(op, rho, env, k):
    t = op[0]
    if t in 'gr':
        U, tg, ct = local(op, env, k)
        rho = apply_rho(U, rho, tg, ct)
        for kind, p in noise_of(op):
            p = tuple(val(x, env, k) for x in p) if isinstance(p, (tuple, list)) else val(p, env, k)
            rho = channel(kind, p, rho, tg[0], k)
        return rho
    if t == 'seq':
        for o in op[1]:
            rho = act_rho(o, rho, env, k)
        return rho
    raise KeyError(t)


def mat(op, qubits, env, k):
    """matrix of an operation tree on the ordered qubit list"""
    t = op[0]
    if t in 'gr':
        U, tg, ct = local(op, env, k)
        return full_op(U, tg, ct, qubits, not k.sym)
    if t == 'scale':
        return scal(val(op[1], env, k), mat(op[2], qubits, env, k))
    if t == 'add':
        ms = [mat(o, qubits, env, k) for o in op[1]]
        r = ms[0]
        for m in ms[1:]:
            r = addm(r, m)
        return r
    if t == 'seq':
        r = eye(2 ** len(qubits))
        for o in op[1]:
            r = matmul(mat(o, qubits, env, k), r)
        return r
    raise KeyError(t)


def support(op):
    t = op[0]
    if t == 'g':
        return sorted(set(op[2]) | set(op[3]))
    if t == 'r':
        return sorted(set(op[3]) | set(op[4]))
    if t == 'scale':
        return support(op[2])
    return sorted(set().union(*[set(support(o)) for o in op[1]])) if op[1] else []


def params(op):
    t = op[0]
    if t == 'r':
        return {op[2]} if isinstance(op[2], str) else set()
    if t == 'g':
        return set()
    if t == 'scale':
        return params(op[2]) | ({op[1]} if isinstance(op[1], str) else set())
    return set().union(*[params(o) for o in op[1]]) if op[1] else set()


def gate_params(op):
    """names used as gate angles"""
    t = op[0]
    if t == 'r':
        return {op[2]} if isinstance(op[2], str) else set()
    if t == 'g':
        return set()
    if t == 'scale':
        return gate_params(op[2])
    return set().union(*[gate_params(o) for o in op[1]]) if op[1] else set()


def has_noise(op):
    t = op[0]
    if t in 'gr':
        return bool(noise_of(op))
    if t == 'scale':
        return has_noise(op[2])
    return any(has_noise(o) for o in op[1])


def flat(op):
    if op[0] == 'seq':
        return [x for o in op[1] for x in flat(o)]
    return [op]


def expval(op, psi, env, k):
    return re(inner(psi, act(op, psi, env, k)))


def expval_rho(op, rho, env, k):
    """Re tr(rho O) = Re tr(O rho)"""
    n = rho.ndim // 2
    # O acts on the row index
    r = act(op, rho, env, k)
    if num(r):
        return float(np.trace(r.reshape(2 ** n, 2 ** n)).real)
    acc = 0
    for a in itertools.product((0, 1), repeat=n):
        acc = acc + r[a + a]
    return re(acc)


def deriv(f, name, env, k, h=1e-5):
    """d f(env) / d env[name], exact on symbolic scalars, 4th-order differences on numbers"""
    if k.sym:
        return f(env).diff(name)
    def g(d):
        e = dict(env)
        e[name] = e[name] + d
        return f(e)
    h = 1e-3
    return (8 * (g(h) - g(-h)) - (g(2 * h) - g(-2 * h))) / (12 * h)
