"""Mechanical extraction and exact symbolic evaluation of the real code.

`extract(f, inputs)` runs the *real* Python code of /repo on JAX tracers (so the Python
control flow, dispatch, containers and indices are the ones that run), obtaining the jaxpr it
produces, and evaluates the jaxpr exactly over `scalar.P`.  Python branches on traced values are
explored exhaustively: every truth value asked of a tracer forks the run, the conjunction of
answers is the path condition, and infeasible paths are removed with z3.

Library functions kept opaque behind contracts (never entered): jax.random.choice and
jax.scipy.linalg.expm.
"""
from __future__ import annotations
import os, sys, threading
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy as np
import jax, jax.numpy as jnp
import jax.random, jax.scipy.linalg
jax.config.update('jax_enable_x64', True)
from jax._src import core as jcore
from jax.extend import core as jexcore
from jax.interpreters import batching, mlir
from .scalar import P, const, Unsupported, ZERO, ONE_P, I_P, opaque, to_z3, real_atom, cplx_atom, DOMAIN
from . import scalar
import z3

STAT = dict(jaxprs=0, eqns=0, z3_queries=0, z3_time=0.0, paths=0)


# ------------------------------------------------------------------ opaque library functions
_mode = threading.local()


def sym_mode():
    return getattr(_mode, 'on', False)


choice_p = jexcore.Primitive('hv_choice')
expm_p = jexcore.Primitive('hv_expm')


@choice_p.def_abstract_eval
def _(key, a, p, *, shape, batched):
    lead = ()
    for x, b in zip((key, a, p), batched):
        if b:
            lead = (x.shape[0],)
    ash = a.shape[1:] if batched[1] else a.shape
    return jcore.ShapedArray(lead + tuple(shape) + tuple(ash[1:]), a.dtype)


def _choice_batch(args, dims, *, shape, batched):
    if any(batched):
        raise Unsupported('nested vmap of choice')
    new = []
    for x, d in zip(args, dims):
        new.append(x if d is batching.not_mapped else batching.moveaxis(x, d, 0))
    return choice_p.bind(*new, shape=shape, batched=tuple(d is not batching.not_mapped for d in dims)), 0


batching.primitive_batchers[choice_p] = _choice_batch


@expm_p.def_abstract_eval
def _(a):
    return jcore.ShapedArray(a.shape, np.dtype('complex128'))


fromdense_p = jexcore.Primitive('hv_fromdense')
fromdense_p.multiple_results = True


@fromdense_p.def_abstract_eval
def _(m, *, nse):
    return [jcore.ShapedArray((nse,), m.dtype), jcore.ShapedArray((nse, m.ndim), np.dtype('int32'))]


def fromdense(mat, nse):
    """contract of BCOO.fromdense: the first nse non-zero elements in row-major order (all of them when nse is None)"""
    from jax.experimental.sparse import BCOO
    size = int(np.prod(mat.shape)) if mat.ndim else 1
    data, idx = fromdense_p.bind(mat, nse=int(size if nse is None else nse))
    return BCOO((data, idx), shape=mat.shape, indices_sorted=True, unique_indices=False)


_real_choice = jax.random.choice
_real_expm = jax.scipy.linalg.expm
CHOICE_SPY = []      # callables(key, a, p, shape) consulted in concrete mode


class Captured(Exception):
    """raised at a draw while CAPTURE is set: carries its arguments out"""
    def __init__(self, key, a, p, shape):
        self.key, self.a, self.p, self.shape = key, a, p, shape


CAPTURE = []


def _choice(key, a, shape=(), replace=True, p=None, axis=0, mode=None):
    if CAPTURE:
        raise Captured(key, a, p, shape)
    if sym_mode() and replace and p is not None and axis == 0:
        a = jnp.asarray(a)
        if a.ndim == 0:
            a = jnp.arange(a)
        return choice_p.bind(key, a, jnp.asarray(p), shape=tuple(shape), batched=(False, False, False))
    for spy in CHOICE_SPY:
        r = spy(key, a, p, shape)
        if r is not None:
            return r
    return _real_choice(key, a, shape, replace, p, axis, mode)


def _expm(A, **kw):
    if sym_mode() and not kw:
        A = jnp.asarray(A)
        if A.ndim == 2:
            return expm_p.bind(A)
    return _real_expm(A, **kw)


jax.random.choice = _choice
jax.scipy.linalg.expm = _expm


# ------------------------------------------------------------------ forking on traced booleans
class _Fork:
    active = None


class Infeasible(Exception):
    pass


_orig_bool = jcore.Tracer.__bool__


def _tracer_bool(self):
    f = _Fork.active
    if f is None:
        return _orig_bool(self)
    if self.aval.shape != ():
        return _orig_bool(self)
    if self._trace is not f['trace']:
        return _orig_bool(self)
    i = len(f['conds'])
    d = f['prefix'][i] if i < len(f['prefix']) else True
    f['conds'].append(self if self.aval.dtype == np.dtype(bool) else (self != 0))
    f['taken'].append(d)
    if len(f['conds']) > 64:
        raise Unsupported('too many traced branches')
    return d


jcore.Tracer.__bool__ = _tracer_bool


# ------------------------------------------------------------------ symbolic booleans
class SB:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __and__(self, o):
        return SB(z3.And(self.e, sb(o).e))
    __rand__ = __and__

    def __or__(self, o):
        return SB(z3.Or(self.e, sb(o).e))
    __ror__ = __or__

    def __invert__(self):
        return SB(z3.Not(self.e))

    def __bool__(self):
        s = z3.simplify(self.e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        raise Unsupported('truth of symbolic condition')


def sb(x):
    return x if isinstance(x, SB) else SB(z3.BoolVal(bool(x)))


ZCTX = {}


def cmp(op, a, b):
    d = P.of(a) - P.of(b)
    if d.is_const():
        r, i = d.const_value()
        r = float(r) if not isinstance(r, int) else r
        if op == 'eq':
            return bool(d.is_zero())
        if op == 'ne':
            return not d.is_zero()
        return {'lt': r < 0, 'le': r <= 0, 'gt': r > 0, 'ge': r >= 0}[op]
    if op in ('eq', 'ne'):
        re, im = d.real, d.imag
        e = z3.And(to_z3(re, ZCTX) == 0, to_z3(im, ZCTX) == 0)
        return SB(e if op == 'eq' else z3.Not(e))
    if not d.is_real():
        raise Unsupported('ordering of complex')
    t = to_z3(d, ZCTX)
    return SB({'lt': t < 0, 'le': t <= 0, 'gt': t > 0, 'ge': t >= 0}[op])


def solve(*cs, timeout=5000):
    import time
    s = z3.Solver()
    s.set('timeout', timeout)
    for c in cs:
        s.add(c)
    for c in ZCTX.get('side', []):
        s.add(c)
    STAT['z3_queries'] += 1
    t = time.time()
    r = s.check()
    STAT['z3_time'] += time.time() - t
    return r, s


# ------------------------------------------------------------------ interpreter
def is_sym(x):
    return isinstance(x, np.ndarray) and x.dtype == object


def objarr(x):
    """concrete -> object array of P (or bools)"""
    if is_sym(x):
        return x
    x = np.asarray(x)
    out = np.empty(x.shape, dtype=object)
    if x.dtype == bool:
        for i in np.ndindex(x.shape):
            out[i] = bool(x[i])
        return out
    flat = x.reshape(-1)
    o = [const(v) for v in flat.tolist()]
    out = out.reshape(-1)
    for i, v in enumerate(o):
        out[i] = v
    return out.reshape(x.shape)


def emap(f, *arrs):
    arrs = np.broadcast_arrays(*[objarr(a) for a in arrs])
    out = np.empty(arrs[0].shape, dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = f(*[a[i] for a in arrs])
    return out


def _lower(out):
    """object array of Python bools -> bool array"""
    if out.dtype == object and out.size and all(isinstance(v, bool) for v in out.flat):
        return out.astype(bool)
    return out


class Poison:
    """value of an out-of-bounds / NaN element: using it is an error of the code under test"""
    def _bad(self, *a):
        raise Unsupported('NaN value used')
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __neg__ = conjugate = _bad


H = {}


def h(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


def _bin(name, np_f, p_f):
    @h(name)
    def _(x, y, **kw):
        if is_sym(x) or is_sym(y):
            return emap(p_f, x, y)
        return np_f(np.asarray(x), np.asarray(y))


_bin('add', np.add, lambda a, b: a + b)
_bin('add_any', np.add, lambda a, b: a + b)
_bin('sub', np.subtract, lambda a, b: a - b)
_bin('mul', np.multiply, lambda a, b: _mul(a, b))


def _mul(a, b):
    r = a * b
    if a is b or (len(a.t) <= 8 and a.t == b.t):
        scalar._SQUARE.setdefault(r.key(), a)
    return r


@h('div')
def _(x, y, **kw):
    if is_sym(x) or is_sym(y):
        return emap(lambda a, b: a / b, x, y)
    x, y = np.asarray(x), np.asarray(y)
    if x.dtype.kind in 'iu':
        with np.errstate(all='ignore'):
            return np.trunc(x / np.where(y == 0, 1, y)).astype(x.dtype)
    with np.errstate(all='ignore'):
        return x / y


@h('square')
def _(x, **kw):
    if is_sym(x):
        return emap(lambda a: a ** 2, x)
    return np.asarray(x) ** 2


def _un(name, np_f, p_f):
    @h(name)
    def _(x, **kw):
        if is_sym(x):
            return emap(p_f, x)
        with np.errstate(all='ignore'):
            return np_f(np.asarray(x))


_un('neg', np.negative, lambda a: -a)
_un('sin', np.sin, lambda a: a.sin())
_un('cos', np.cos, lambda a: a.cos())
_un('exp', np.exp, lambda a: a.exp())
_un('sqrt', np.sqrt, lambda a: a.sqrt())
_un('rsqrt', lambda a: 1 / np.sqrt(a), lambda a: a.sqrt().inv())
_un('abs', np.abs, lambda a: a.abs())
_un('real', np.real, lambda a: a.real)
_un('imag', np.imag, lambda a: a.imag)
_un('copy', lambda a: a, lambda a: a)
_un('copy_p', lambda a: a, lambda a: a)
_un('stop_gradient', lambda a: a, lambda a: a)
_un('optimization_barrier', lambda a: a, lambda a: a)


@h('conj')
def _(x, **kw):
    if is_sym(x):
        return emap(lambda a: a.conjugate(), x)
    return np.conj(np.asarray(x)).astype(np.result_type(np.asarray(x).dtype, np.complex64))


@h('complex')
def _(x, y, **kw):
    if is_sym(x) or is_sym(y):
        return emap(lambda a, b: a + b * I_P, x, y)
    return np.asarray(x) + 1j * np.asarray(y)


@h('integer_pow')
def _(x, *, y, **kw):
    if is_sym(x):
        return emap(lambda a: a ** y, x)
    x = np.asarray(x)
    return (x ** y if y >= 0 else 1.0 / x ** (-y)).astype(x.dtype)


@h('pow')
def _(x, y, **kw):
    if is_sym(x) or is_sym(y):
        return emap(lambda a, b: a ** b, x, y)
    return np.asarray(x) ** np.asarray(y)


@h('sign')
def _(x, **kw):
    if is_sym(x):
        raise Unsupported('sign')
    return np.sign(np.asarray(x))


for _op, _np in (('eq', np.equal), ('ne', np.not_equal), ('lt', np.less), ('le', np.less_equal),
                 ('gt', np.greater), ('ge', np.greater_equal)):
    def _mk(op, npf):
        @h(op)
        def _(x, y, **kw):
            if is_sym(x) or is_sym(y):
                return _lower(emap(lambda a, b: cmp(op, a, b), x, y))
            return npf(np.asarray(x), np.asarray(y))
    _mk(_op, _np)


def _logic(name, np_f, p_f):
    @h(name)
    def _(*xs, **kw):
        if any(is_sym(x) for x in xs):
            return _lower(emap(p_f, *xs))
        return np_f(*[np.asarray(x) for x in xs])


_logic('and', np.bitwise_and, lambda a, b: (a and b) if isinstance(a, bool) and isinstance(b, bool) else sb(a) & sb(b))
_logic('or', np.bitwise_or, lambda a, b: (a or b) if isinstance(a, bool) and isinstance(b, bool) else sb(a) | sb(b))
_logic('not', np.invert, lambda a: (not a) if isinstance(a, bool) else ~a)


@h('convert_element_type')
def _(x, *, new_dtype, **kw):
    if is_sym(x):
        nd = np.dtype(new_dtype)
        if nd.kind == 'b':
            return _lower(emap(lambda a: a if isinstance(a, (bool, SB)) else cmp('ne', a, ZERO), x))
        if nd.kind in 'fc':
            if nd.itemsize < (8 if nd.kind == 'f' else 16):
                raise Unsupported(f'narrowing to {nd}')
            y = emap(lambda a: const(int(a)) if isinstance(a, bool) else a, x)
            if nd.kind == 'f':             # a complex operand loses its imaginary part
                y = emap(lambda a: a.real if isinstance(a, P) else a, y)
            return y
        raise Unsupported(f'conversion to {nd}')
    x = np.asarray(x)
    nd = np.dtype(new_dtype)
    if x.dtype.kind == 'c' and nd.kind != 'c':
        x = x.real
    return x.astype(nd)


@h('broadcast_in_dim')
def _(x, *, shape, broadcast_dimensions, **kw):
    x = np.asarray(x)
    new = [1] * len(shape)
    for i, d in enumerate(broadcast_dimensions):
        new[d] = x.shape[i]
    return np.broadcast_to(x.reshape(new), shape)


@h('reshape')
def _(x, *, new_sizes, dimensions=None, **kw):
    x = np.asarray(x)
    if dimensions is not None:
        x = np.transpose(x, dimensions)
    return x.reshape(new_sizes)


@h('transpose')
def _(x, *, permutation, **kw):
    return np.transpose(np.asarray(x), permutation)


@h('squeeze')
def _(x, *, dimensions, **kw):
    return np.squeeze(np.asarray(x), axis=tuple(dimensions))


@h('expand_dims')
def _(x, *, dimensions, **kw):
    return np.expand_dims(np.asarray(x), tuple(dimensions))


@h('split')
def _(x, *, sizes, axis, **kw):
    x = np.asarray(x)
    out, o = [], 0
    for k in sizes:
        sl = [slice(None)] * x.ndim
        sl[axis] = slice(o, o + k)
        out.append(x[tuple(sl)])
        o += k
    return out


@h('concatenate')
def _(*xs, dimension, **kw):
    if any(is_sym(x) for x in xs):
        xs = [objarr(x) for x in xs]
    return np.concatenate([np.asarray(x) for x in xs], axis=dimension)


@h('slice')
def _(x, *, start_indices, limit_indices, strides, **kw):
    st = strides or [1] * len(start_indices)
    return np.asarray(x)[tuple(slice(a, b, c) for a, b, c in zip(start_indices, limit_indices, st))]


@h('rev')
def _(x, *, dimensions, **kw):
    return np.flip(np.asarray(x), tuple(dimensions))


@h('iota')
def _(*, dtype, shape, dimension, **kw):
    r = np.arange(shape[dimension]).astype(dtype)
    return np.broadcast_to(r.reshape([-1 if i == dimension else 1 for i in range(len(shape))]), shape)


@h('select_n')
def _(w, *cases, **kw):
    if is_sym(w):
        if all(isinstance(v, bool) for v in w.flat):
            w = w.astype(bool)
        else:
            # decided by the path condition, else a piecewise value would be needed
            w = np.array([_decide(v) for v in w.flat]).reshape(w.shape)
    w = np.asarray(w).astype(int)
    if any(is_sym(c) for c in cases):
        cases = [objarr(c) for c in cases]
    out = np.empty(cases[0].shape, dtype=cases[0].dtype)
    w = np.broadcast_to(w, out.shape)
    for i in np.ndindex(out.shape):
        out[i] = cases[int(w[i])][i]
    return out


def _decide(v):
    if isinstance(v, bool):
        return v
    f = _Decider.active
    if f is None:
        raise Unsupported('symbolic select')
    return f(v)


class _Decider:
    active = None


@h('reduce_sum')
def _(x, *, axes, **kw):
    x = np.asarray(x)
    if is_sym(x):
        return _objsum(x, axes)
    return np.sum(x, axis=tuple(axes), dtype=x.dtype)


def _objsum(x, axes):
    axes = tuple(axes)
    keep = [i for i in range(x.ndim) if i not in axes]
    y = np.transpose(x, keep + list(axes)).reshape([x.shape[i] for i in keep] + [-1])
    out = np.empty(y.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = psum(y[i])
    return out


def psum(it):
    t = {}
    ix = False
    for p in it:
        ix |= p.ix
        for m, c in p.t.items():
            x = t.get(m)
            t[m] = c if x is None else (x[0] + c[0], x[1] + c[1])
    return P({m: c for m, c in t.items() if c[0] or c[1]}, ix)


def _red(name, npf, f):
    @h(name)
    def _(x, *, axes, **kw):
        x = np.asarray(x)
        if is_sym(x):
            axes_ = tuple(axes)
            keep = [i for i in range(x.ndim) if i not in axes_]
            y = np.transpose(x, keep + list(axes_)).reshape([x.shape[i] for i in keep] + [-1])
            out = np.empty(y.shape[:-1], dtype=object)
            for i in np.ndindex(out.shape):
                out[i] = f(list(y[i]))
            return _lower(out)
        return npf(x, axis=tuple(axes))


def _all(vs):
    if all(isinstance(v, bool) for v in vs):
        return all(vs)
    r = sb(True)
    for v in vs:
        r = r & v
    return r


def _any(vs):
    if all(isinstance(v, bool) for v in vs):
        return any(vs)
    r = sb(False)
    for v in vs:
        r = r | v
    return r


def _prod(vs):
    r = ONE_P
    for v in vs:
        r = r * v
    return r


_red('reduce_and', np.all, _all)
_red('reduce_or', np.any, _any)
_red('reduce_prod', np.prod, _prod)
_red('reduce_max', np.max, lambda v: _ext(v, 'gt'))
_red('reduce_min', np.min, lambda v: _ext(v, 'lt'))


def _ext(vs, op):
    r = vs[0]
    for v in vs[1:]:
        c = cmp(op, v, r)
        r = v if _decide(c) else r
    return r


@h('max')
def _(x, y, **kw):
    if is_sym(x) or is_sym(y):
        return emap(lambda a, b: a if _decide(cmp('gt', a, b)) else b, x, y)
    return np.maximum(np.asarray(x), np.asarray(y))


@h('min')
def _(x, y, **kw):
    if is_sym(x) or is_sym(y):
        return emap(lambda a, b: a if _decide(cmp('lt', a, b)) else b, x, y)
    return np.minimum(np.asarray(x), np.asarray(y))


@h('cumsum')
def _(x, *, axis, reverse=False, **kw):
    x = np.asarray(x)
    if reverse:
        x = np.flip(x, axis)
    r = np.cumsum(x, axis=axis) if not is_sym(x) else np.add.accumulate(x, axis=axis)
    return np.flip(r, axis) if reverse else r


@h('dot_general')
def _(x, y, *, dimension_numbers, **kw):
    (lc, rc), (lb, rb) = dimension_numbers
    x, y = np.asarray(x), np.asarray(y)
    lf = [i for i in range(x.ndim) if i not in lc and i not in lb]
    rf = [i for i in range(y.ndim) if i not in rc and i not in rb]
    bs = [x.shape[i] for i in lb]
    cs = int(np.prod([x.shape[i] for i in lc], dtype=int))
    nb = int(np.prod(bs, dtype=int))
    xx = np.transpose(x, list(lb) + lf + list(lc)).reshape(nb, -1, cs) if x.size else np.zeros((nb, int(np.prod([x.shape[i] for i in lf], dtype=int)), cs), x.dtype)
    yy = np.transpose(y, list(rb) + list(rc) + rf).reshape(nb, cs, -1) if y.size else np.zeros((nb, cs, int(np.prod([y.shape[i] for i in rf], dtype=int))), y.dtype)
    oshape = bs + [x.shape[i] for i in lf] + [y.shape[i] for i in rf]
    if not (is_sym(x) or is_sym(y)):
        return np.matmul(xx, yy).reshape(oshape)
    out = np.empty((nb, xx.shape[1], yy.shape[2]), dtype=object)
    for b in range(nb):
        out[b] = matmul(xx[b], yy[b])
    return out.reshape(oshape)


def matmul(a, b):
    a, b = objarr(a), objarr(b)
    n, m, k = a.shape[0], a.shape[1], b.shape[1]
    out = np.empty((n, k), dtype=object)
    nzb = [[(j, b[l, j]) for j in range(k) if b[l, j].t] for l in range(m)]
    for i in range(n):
        acc = [None] * k
        for l in range(m):
            v = a[i, l]
            if not v.t:
                continue
            one = v is ONE_P or (len(v.t) == 1 and v.t.get(()) == (1, 0))
            for j, w in nzb[l]:
                (acc[j] if acc[j] is not None else acc.__setitem__(j, []) or acc[j]).append(w if one else v * w)
        for j in range(k):
            out[i, j] = psum(acc[j]) if acc[j] else ZERO
    return out


@h('pad')
def _(x, pv, *, padding_config, **kw):
    x, pv = np.asarray(x), np.asarray(pv)
    if is_sym(x) or is_sym(pv):
        return _idtrick(lambda xi, pi: jax.lax.pad(xi, pi, padding_config), x, pv)
    return np.asarray(jax.lax.pad(jnp.asarray(x), jnp.asarray(pv), padding_config))


def _idtrick(f, *arrs, conc=()):
    """run a pure data-movement operation on element ids"""
    table = []
    ids = []
    for a in arrs:
        a = objarr(a)
        ids.append(jnp.asarray(np.arange(len(table), len(table) + a.size).reshape(a.shape)))
        table.extend(a.reshape(-1).tolist())
    r = np.asarray(f(*ids, *conc))
    out = np.empty(r.shape, dtype=object)
    for i in np.ndindex(r.shape):
        j = int(r[i])
        out[i] = table[j] if 0 <= j < len(table) else Poison()
    return out


@h('gather')
def _(x, idx, *, dimension_numbers, slice_sizes, indices_are_sorted=False, unique_indices=False, mode=None, fill_value=None, **kw):
    if is_sym(idx):
        raise Unsupported('symbolic gather index')
    f = lambda a, i, fv=None: jax.lax.gather(a, jnp.asarray(np.asarray(i)), dimension_numbers, slice_sizes, mode=mode, fill_value=fv)
    if is_sym(x):
        return _idtrick(lambda a: f(a, idx, -1), x)
    return np.asarray(f(jnp.asarray(np.asarray(x)), idx, fill_value))


def _scatter(kind):
    def run(x, idx, upd, *, dimension_numbers, mode=None, **kw):
        if is_sym(idx):
            raise Unsupported('symbolic scatter index')
        dn = dimension_numbers
        if getattr(dn, 'operand_batching_dims', ()):
            raise Unsupported('batched scatter')
        sym = is_sym(x) or is_sym(upd)
        x, upd = np.asarray(x), np.asarray(upd)
        if sym:
            x, upd = objarr(x), objarr(upd)
        wd = list(dn.update_window_dims)
        ss, j = [], 0
        for d in range(x.ndim):
            if d in dn.inserted_window_dims:
                ss.append(1)
            else:
                ss.append(upd.shape[wd[j]])
                j += 1
        gdn = jax.lax.GatherDimensionNumbers(offset_dims=tuple(wd), collapsed_slice_dims=tuple(dn.inserted_window_dims),
                                             start_index_map=tuple(dn.scatter_dims_to_operand_dims))
        ids = jnp.asarray(np.arange(x.size).reshape(x.shape))
        gm = mode
        m = str(mode)
        if 'FILL' in m or 'DROP' in m or mode is None or 'CLIP' not in m and 'PROMISE' not in m:
            gm = jax.lax.GatherScatterMode.FILL_OR_DROP
        dest = np.asarray(jax.lax.gather(ids, jnp.asarray(np.asarray(idx)), gdn, tuple(ss), mode=gm, fill_value=-1))
        out = x.copy().reshape(-1)
        df, uf = dest.reshape(-1), upd.reshape(-1)
        for k in range(df.size):
            t = int(df[k])
            if t < 0:
                continue
            out[t] = uf[k] if kind == 'set' else (out[t] + uf[k] if kind == 'add' else out[t] * uf[k])
        return out.reshape(x.shape)
    return run


H['scatter'] = _scatter('set')
H['scatter-add'] = _scatter('add')
H['scatter_add'] = _scatter('add')
H['scatter-mul'] = _scatter('mul')
H['scatter_mul'] = _scatter('mul')


@h('dynamic_slice')
def _(x, *idx, slice_sizes, **kw):
    if any(is_sym(i) for i in idx):
        raise Unsupported('symbolic slice index')
    x = np.asarray(x)
    st = [min(max(int(i), 0), n - s) for i, n, s in zip(idx, x.shape, slice_sizes)]
    return x[tuple(slice(a, a + s) for a, s in zip(st, slice_sizes))]


@h('dynamic_update_slice')
def _(x, u, *idx, **kw):
    if any(is_sym(i) for i in idx):
        raise Unsupported('symbolic slice index')
    x, u = np.asarray(x), np.asarray(u)
    if is_sym(x) or is_sym(u):
        x, u = objarr(x), objarr(u)
    st = [min(max(int(i), 0), n - s) for i, n, s in zip(idx, x.shape, u.shape)]
    x = x.copy()
    x[tuple(slice(a, a + s) for a, s in zip(st, u.shape))] = u
    return x


class Ctx:
    """results of one symbolic evaluation: samples drawn, expm arguments"""
    def __init__(self):
        self.choices = []
        self.expms = []


_ctx = [None]


@h('hv_choice')
def _(key, a, p, *, shape, batched):
    c = _ctx[0]
    lead = next((np.asarray(x).shape[0] for x, b in zip((key, a, p), batched) if b), None)
    outs = []
    for b in range(lead if lead is not None else 1):
        kk = np.asarray(key)[b] if batched[0] else key
        aa = objarr(np.asarray(a)[b] if batched[1] else a)
        pp = objarr(np.asarray(p)[b] if batched[2] else p)
        n = len(c.choices)
        c.choices.append(dict(key=kk, a=aa, p=pp, shape=tuple(shape)))
        o = np.empty(tuple(shape) + aa.shape[1:], dtype=object)
        for i in np.ndindex(o.shape):
            col = i[len(shape):]
            mean = psum([pp[k] * aa[(k,) + col] for k in range(len(pp))])
            o[i] = opaque(f'sample{n}_{"_".join(map(str, i))}_{len(_ALLSAMPLES)}', (), real=True)
            _ALLSAMPLES.append(mean)
            _SAMPLE_MEAN[next(iter(o[i].t))[0][0]] = mean
        outs.append(o)
    return np.stack(outs) if lead is not None else outs[0]


_ALLSAMPLES = []
_SAMPLE_MEAN = {}


def expect(p):
    """expected value of a term that must be affine in the drawn samples"""
    out = []
    for m, c in p.t.items():
        ss = [(a, e) for a, e in m if a in _SAMPLE_MEAN]
        if not ss:
            out.append(P({m: c}, p.ix))
            continue
        if len(ss) > 1 or ss[0][1] != 1:
            raise Unsupported('result is not affine in the drawn samples')
        rest = tuple(x for x in m if x[0] not in _SAMPLE_MEAN)
        out.append(P({rest: c}, p.ix) * _SAMPLE_MEAN[ss[0][0]])
    return psum(out)


@h('hv_expm')
def _(a):
    a = objarr(a)
    d = a.shape[0]
    # the zero matrix
    flat = list(a.reshape(-1))
    if all(x.is_zero() for x in flat):
        return objarr(np.eye(d, dtype=complex))
    if all(a[i, j].is_zero() for i in range(d) for j in range(d) if i != j):      # exponential of a diagonal matrix
        out = objarr(np.zeros((d, d), dtype=complex))
        for i in range(d):
            out[i, i] = a[i, i].exp()
        return out
    _ctx[0].expms.append(a)
    out = np.empty((d, d), dtype=object)
    for i in range(d):
        for j in range(d):
            out[i, j] = opaque(f'expm[{d},{i},{j}]', flat)
    return out


@h('hv_fromdense')
def _(m, *, nse):
    m = objarr(m)
    keep = [i for i in np.ndindex(m.shape) if not (isinstance(m[i], P) and m[i].is_zero())]
    keep = keep[:nse]
    data = np.empty((nse,), dtype=object)
    idx = np.zeros((nse, m.ndim), dtype=np.int32)
    for j in range(nse):
        if j < len(keep):
            data[j], idx[j] = m[keep[j]], keep[j]
        else:
            data[j], idx[j] = ZERO, m.shape        # out of range padding, as JAX does
    return _lower(data), idx


def eval_jaxpr(jaxpr, consts, args):
    env = {}

    def read(v):
        if type(v) is jexcore.Literal or hasattr(v, 'val'):
            return np.asarray(v.val) if not isinstance(v.val, np.ndarray) else v.val
        return env[v]
    for v, x in zip(jaxpr.constvars, consts):
        env[v] = x
    for v, x in zip(jaxpr.invars, args):
        env[v] = x
    last = {}
    for eqn in jaxpr.eqns:
        STAT['eqns'] += 1
        ins = [read(v) for v in eqn.invars]
        outs = eval_eqn(eqn, ins)
        for v, o in zip(eqn.outvars, outs):
            if is_sym(o) and hasattr(v.aval, 'shape') and tuple(o.shape) != tuple(v.aval.shape):
                raise Unsupported(f'shape mismatch in {eqn.primitive}: {o.shape} {v.aval.shape}')
            if isinstance(o, (np.ndarray, np.generic)) and not is_sym(o) and hasattr(v.aval, 'dtype') and o.dtype != v.aval.dtype \
                    and o.dtype.kind in 'iub' and np.dtype(v.aval.dtype).kind in 'iu':
                o = np.asarray(o).astype(v.aval.dtype)
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


def _sub(j, args):
    if hasattr(j, 'jaxpr'):
        return eval_jaxpr(j.jaxpr, [_conv(c) for c in j.consts], args)
    return eval_jaxpr(j, [], args)


def _conv(c):
    try:
        if hasattr(c, 'dtype') and jnp.issubdtype(c.dtype, jax.dtypes.extended):
            return c
        return np.asarray(c)
    except Exception:
        return c


def eval_eqn(eqn, ins):
    name = eqn.primitive.name
    p = eqn.params
    if name in ('jit', 'pjit', 'closed_call', 'core_call', 'remat', 'checkpoint', 'remat2', 'custom_lin'):
        j = p.get('jaxpr') or p.get('call_jaxpr')
        return _sub(j, ins)
    if name in ('custom_jvp_call', 'custom_vjp_call', 'custom_vjp_call_jaxpr'):
        j = p.get('call_jaxpr') or p.get('fun_jaxpr') or p.get('jaxpr')
        return _sub(j, ins)
    if name == 'scan':
        return _scan(p, ins)
    if name == 'while':
        return _while(p, ins)
    if name == 'cond':
        idx = ins[0]
        if is_sym(idx):
            idx = np.asarray(int(_decide(idx.reshape(-1)[0])))
        br = p['branches']
        i = int(np.clip(int(idx), 0, len(br) - 1))
        return _sub(br[i], ins[1:])
    if name in H and not any(_ext_key(x) for x in ins):
        r = H[name](*ins, **p)
        return [r] if not eqn.primitive.multiple_results else list(r)
    if any(is_sym(x) for x in ins):
        # sparse primitives etc: re-trace the primitive's own implementation
        impl = getattr(eqn.primitive, 'impl', None)
        if name.startswith('bcoo') or name.startswith('bcsr') or name.startswith('coo'):
            return _retrace(eqn, ins)
        raise Unsupported(f'primitive {name}')
    r = eqn.primitive.bind(*[x if _ext_key(x) else jnp.asarray(x) for x in ins], **p)
    rs = list(r) if eqn.primitive.multiple_results else [r]
    return [_conv(x) for x in rs]


def _ext_key(x):
    return hasattr(x, 'dtype') and not isinstance(x, np.ndarray) and jnp.issubdtype(x.dtype, jax.dtypes.extended)


def _retrace(eqn, ins):
    """bcoo_* primitives: evaluate through their Python implementation, with symbolic data"""
    prim, params = eqn.primitive, eqn.params
    avals = [v.aval for v in eqn.invars]
    symidx = [i for i, x in enumerate(ins) if is_sym(x)]
    conc = {i: jnp.asarray(x) for i, x in enumerate(ins) if not is_sym(x)}

    def f(*sym):
        args = [None] * len(ins)
        for i, s in zip(symidx, sym):
            args[i] = s
        for i, c in conc.items():
            args[i] = c
        return prim.impl(*args, **params)
    old = _mode.on if hasattr(_mode, 'on') else False
    cj = jax.make_jaxpr(f)(*[jax.ShapeDtypeStruct(avals[i].shape, avals[i].dtype) for i in symidx])
    if any(e.primitive is prim for e in cj.jaxpr.eqns):
        raise Unsupported(f'primitive {prim.name}')
    return eval_jaxpr(cj.jaxpr, [_conv(c) for c in cj.consts], [ins[i] for i in symidx])


def _scan(p, ins):
    nc, nk, L = p['num_consts'], p['num_carry'], p['length']
    consts, carry, xs = ins[:nc], list(ins[nc:nc + nk]), ins[nc + nk:]
    j = p['jaxpr']
    n_out = len(j.jaxpr.outvars) - nk
    ys = [[None] * L for _ in range(n_out)]
    order = range(L - 1, -1, -1) if p['reverse'] else range(L)
    if L > 512:
        raise Unsupported('long scan')
    for i in order:
        out = _sub(j, list(consts) + carry + [np.asarray(x)[i] if not _ext_key(x) else x[i] for x in xs])
        carry = list(out[:nk])
        for k in range(n_out):
            ys[k][i] = out[nk + k]
    res = []
    for k in range(n_out):
        y = ys[k]
        if any(is_sym(v) for v in y):
            y = [objarr(v) for v in y]
        res.append(np.stack([np.asarray(v) for v in y]) if L else np.zeros((0,)))
    return carry + res


def _while(p, ins):
    cn, bn = p['cond_nconsts'], p['body_nconsts']
    cc, bc, st = ins[:cn], ins[cn:cn + bn], list(ins[cn + bn:])
    if not any(is_sym(x) for x in ins):
        pass
    for _ in range(100000):
        c = _sub(p['cond_jaxpr'], list(cc) + st)[0]
        if is_sym(c):
            c = _decide(c.reshape(-1)[0])
        if not bool(c):
            return st
        st = _sub(p['body_jaxpr'], list(bc) + st)
    raise Unsupported('while bound')


# ------------------------------------------------------------------ driver
class SymArray:
    """description of a symbolic input: object ndarray of P and the dtype it is traced at"""
    def __init__(self, arr, dtype):
        self.arr = arr
        self.dtype = np.dtype(dtype)


def csym(name, shape):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(tuple(shape)):
        out[i] = cplx_atom(name + '_' + ''.join(map(str, i)) if len(i) and max(shape) <= 10 else name + '_' + '_'.join(map(str, i)))
    return SymArray(out, 'complex128')


def rsym(name):
    return SymArray(np.array(real_atom(name), dtype=object), 'float64')


def sarr(objs, dtype='complex128'):
    return SymArray(np.asarray(objs, dtype=object), dtype)


class Path:
    def __init__(self, cond, result, exc, ctx):
        self.cond, self.result, self.exc, self.ctx = cond, result, exc, ctx


def extract(f, inputs, assume=(), max_paths=64, catch=(Exception,)):
    """all feasible paths of f(*inputs).  inputs: pytree whose SymArray leaves are symbolic.
    Returns list[Path]; result leaves are object/numeric arrays; exc is the exception type or None.
    `assume`: list of z3 conditions (preconditions)."""
    leaves, tree = jax.tree_util.tree_flatten(inputs, is_leaf=lambda x: isinstance(x, SymArray))
    symi = [i for i, l in enumerate(leaves) if isinstance(l, SymArray)]
    avals = [jax.ShapeDtypeStruct(leaves[i].arr.shape, leaves[i].dtype) for i in symi]
    paths, work = [], [[]]
    while work:
        prefix = work.pop()
        box = {}
        fork = dict(prefix=prefix, conds=[], taken=[], trace=None)

        def g(*tr):
            ls = list(leaves)
            for i, t in zip(symi, tr):
                ls[i] = t
            if tr:
                fork['trace'] = getattr(tr[0], '_trace', None)
            args = jax.tree_util.tree_unflatten(tree, ls)
            _Fork.active = fork
            _mode.on = True
            try:
                r = f(*args)
                fl, box['tree'] = jax.tree_util.tree_flatten(r)
                box['exc'] = None
                outs = fl
            except (Unsupported, jax.errors.ConcretizationTypeError, jax.errors.NonConcreteBooleanIndexError, jax.errors.TracerArrayConversionError,
                    jax.errors.TracerIntegerConversionError, jax.errors.UnexpectedTracerError) as e:
                raise Unsupported(f'{type(e).__name__}: {str(e)[:200]}')
            except catch as e:
                box['exc'] = e
                outs = []
            finally:
                _Fork.active = None
                _mode.on = False
            return outs, list(fork['conds'])
        try:
            cj, shp = jax.make_jaxpr(g, return_shape=True)(*avals)
        except (jax.errors.UnexpectedTracerError, NotImplementedError) as e:
            raise Unsupported(f'{type(e).__name__}: {str(e)[:200]}')
        STAT['jaxprs'] += 1
        ctx = Ctx()
        _ctx[0] = ctx
        decided = []

        def decider(v, prefix_len=len(fork['taken'])):
            # selects inside the jaxpr: resolve by the path condition or fork
            pc = list(assume) + decided
            r1, _ = solve(*pc, v.e)
            r0, _ = solve(*pc, z3.Not(v.e))
            if r1 == z3.unsat:
                return False
            if r0 == z3.unsat:
                return True
            k = len(sel)
            sp = selprefix[k] if k < len(selprefix) else True
            sel.append(sp)
            if len(sel) > 12:
                raise Unsupported('too many symbolic selects')
            decided.append(v.e if sp else z3.Not(v.e))
            return sp
        selwork = [[]]
        while selwork:
            selprefix = selwork.pop()
            sel = []
            ctx = Ctx()
            _ctx[0] = ctx
            decided = []
            # the path condition must be known before selects are resolved: evaluate twice if needed
            _Decider.active = decider
            try:
                outs = eval_jaxpr(cj.jaxpr, [_conv(c) for c in cj.consts], [leaves[i].arr for i in symi])
            finally:
                _Decider.active = None
            for i in range(len(selprefix), len(sel)):
                selwork.append(sel[:i] + [not sel[i]])
            nc = len(fork['conds'])
            res, conds = outs[:len(outs) - nc], outs[len(outs) - nc:]
            pc = []
            for c, d in zip(conds, fork['taken']):
                c = c.reshape(-1)[0] if isinstance(c, np.ndarray) else c
                e = sb(c if isinstance(c, SB) else bool(c)).e
                pc.append(e if d else z3.Not(e))
            pc += decided
            feas = z3.sat if not pc else solve(*assume, *pc)[0]
            if feas == z3.unsat:
                continue
            STAT['paths'] += 1
            paths.append(Path(pc, None if box['exc'] is not None else jax.tree_util.tree_unflatten(box['tree'], res) if not _bad_tree(box) else res,
                              box['exc'], ctx))
        for i in range(len(prefix), len(fork['taken'])):
            work.append(fork['taken'][:i] + [not fork['taken'][i]])
        if len(paths) + len(work) > max_paths:
            raise Unsupported('path explosion')
    if not paths:
        raise Unsupported('no feasible path')
    return paths


def _bad_tree(box):
    return False


def extract1(f, inputs, **kw):
    """single-path convenience: the result, or raises Unsupported if the code forks or raises"""
    ps = extract(f, inputs, **kw)
    if len(ps) != 1:
        raise Unsupported(f'{len(ps)} paths')
    if ps[0].exc is not None:
        raise ps[0].exc
    return ps[0]
