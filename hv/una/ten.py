"""Symbolic tensors over registers of any size: a tensor is  lambda dims. sum_{summed} prod factors  with index labels
standing for blocks of consecutive qubits (block length = linear integer expression)."""
from __future__ import annotations
import builtins as _b
import hashlib, itertools
import z3
from . import sym
from .sym import (CTX, Lin, Pow2, Seq, Set, SymInt, SymBool, Unsupported, ent0, entge, eq0, items_of, lin, log2, mk, order_runs, simplify, to_set)

_ids = itertools.count()
splits = {}          # label id -> the two labels it was cut into


def resync(labels):
    out = []
    for l in labels:
        out += resync(splits[l.id]) if l.id in splits else [l]
    return out


class Label:
    __slots__ = ('id', 'len', 'kind')

    def __init__(self, length, kind='bit'):
        self.id, self.len, self.kind = next(_ids), length, kind

    def __repr__(self):
        return f'L{self.id}({self.len!r})'


class F:
    """factor: a named array indexed by labels"""
    __slots__ = ('name', 'conj', 'idx')

    def __init__(self, name, conj, idx):
        self.name, self.conj, self.idx = name, conj, list(idx)

    def __repr__(self):
        return f'{self.name}{"*" if self.conj else ""}{self.idx}'


# dims entries: ['ax', [labels]] one axis | ['blk', label] label.len axes of size 2 | ['one', Lin] axes of size 1
#               ['shuf', key, [[labels] per run], runs] axes of the runs in the unknown order key | ['batch', label]
class T:
    bcoo = False
    __array_priority__ = 1000

    def __init__(self, dims, factors, deltas=(), summed=(), re=False, coef=1, tag=None):
        self.dims, self.factors, self.deltas, self.summed, self.re, self.coef, self.tag = list(dims), list(factors), list(deltas), list(summed), re, coef, tag

    # ------------------------------------------------------------ helpers
    def copy(self):
        """fresh names for every bound label"""
        m = {}

        def f(l):
            return m.get(l, l)
        for l in self.bound():
            m[l] = Label(l.len, l.kind)
        dims = []
        for d in self.dims:
            if d[0] == 'ax':
                dims.append(['ax', [f(l) for l in d[1]]])
            elif d[0] in ('blk', 'batch'):
                dims.append([d[0], f(d[1])])
            elif d[0] == 'shuf':
                dims.append(['shuf', d[1], [[f(l) for l in r] for r in d[2]], d[3]])
            else:
                dims.append(list(d))
        t = type(self)(dims, [F(x.name, x.conj, [f(l) for l in x.idx]) for x in self.factors], [(f(a), f(b)) for a, b in self.deltas],
                       [f(l) for l in self.summed], self.re, self.coef)
        return t

    def bound(self):
        out = list(self.summed)
        for d in self.dims:
            out += dim_labels(d)
        return out

    def split(self, l, at):
        """label l becomes two labels, lengths at and l.len - at, everywhere"""
        a, b = Label(at), Label(l.len - at)
        splits[l.id] = [a, b]

        def f(ls):
            out = []
            for x in ls:
                out += [a, b] if x is l else [x]
            return out
        dims = []
        for d in self.dims:
            if d[0] == 'ax':
                dims.append(['ax', f(d[1])])
            elif d[0] == 'blk' and d[1] is l:
                dims += [['blk', a], ['blk', b]]
            elif d[0] == 'shuf':
                dims.append(['shuf', d[1], [f(r) for r in d[2]], d[3]])
            else:
                dims.append(d)
        self.dims = dims
        for x in self.factors:
            x.idx = f(x.idx)
        self.summed = f(self.summed)
        nd = []
        for p, q in self.deltas:
            if p is l and q is l:
                continue
            if p is l or q is l:
                o = q if p is l else p
                # split the other end as well
                o1, o2 = Label(at), Label(o.len - at)
                nd += [(a, o1), (b, o2)]
                self._replace(o, [o1, o2])
                splits[o.id] = [o1, o2]
            else:
                nd.append((p, q))
        self.deltas = nd
        return a, b

    def _replace(self, l, by):
        def f(ls):
            out = []
            for x in ls:
                out += by if x is l else [x]
            return out
        dims = []
        for d in self.dims:
            if d[0] == 'ax':
                dims.append(['ax', f(d[1])])
            elif d[0] == 'blk' and d[1] is l:
                dims += [['blk', x] for x in by]
            elif d[0] == 'batch' and d[1] is l:
                dims += [['batch', x] for x in by]
            elif d[0] == 'shuf':
                dims.append(['shuf', d[1], [f(r) for r in d[2]], d[3]])
            else:
                dims.append(d)
        self.dims = dims
        for x in self.factors:
            x.idx = f(x.idx)
        self.summed = f(self.summed)
        if len(by) == 1:
            self.deltas = [(by[0] if p is l else p, by[0] if q is l else q) for p, q in self.deltas]

    def clean(self):
        """eliminate deltas over summed labels; drop labels known to be empty"""
        ch = True
        while ch:
            ch = False
            for i, (p, q) in enumerate(self.deltas):
                if p is q:
                    continue
                for x, y in ((p, q), (q, p)):
                    if any(x is s for s in self.summed):
                        del self.deltas[i]
                        self.summed = [s for s in self.summed if s is not x]
                        self._replace(x, [y])
                        ch = True
                        break
                if ch:
                    break
        for l in _b.list(self.bound()):
            if l.kind == 'bit' and l.len.const() == 0:
                self._drop(l)
        return self

    def _drop(self, l):
        for p, q_ in self.deltas:
            if p is l or q_ is l:
                o = q_ if p is l else p
                self.deltas = [(x, y) for x, y in self.deltas if not (x is p and y is q_)]
                if o is not l:
                    self._drop(o)
                break
        dims = []
        for d in self.dims:
            if d[0] == 'ax':
                dims.append(['ax', [x for x in d[1] if x is not l]])
            elif d[0] == 'blk' and d[1] is l:
                continue
            elif d[0] == 'shuf':
                dims.append(['shuf', d[1], [[x for x in r if x is not l] for r in d[2]], d[3]])
            else:
                dims.append(d)
        self.dims = dims
        for x in self.factors:
            x.idx = [y for y in x.idx if y is not l]
        self.summed = [x for x in self.summed if x is not l]
        self.deltas = [(p, q) for p, q in self.deltas if p is not l and q is not l]

    # ------------------------------------------------------------ shape
    @property
    def shape(self):
        out = []
        for d in self.dims:
            if d[0] == 'ax':
                n = sum((l.len for l in d[1]), Lin())
                out.append(('v', 2 ** n.const() if n.const() is not None else Pow2(n)))
            elif d[0] == 'blk':
                n = d[1].len
                if n.const() is not None:
                    out += [('v', 2)] * n.const()
                else:
                    out.append(('rep', 2, n))
            elif d[0] == 'one':
                out.append(('rep', 1, d[1])) if d[1].const() is None else out.extend([('v', 1)] * d[1].const())
            elif d[0] == 'shuf':
                out.append(('rep', 2, dim_axes(d)))
            else:
                out.append(('v', Opaque(('size', d[1].id))))
        return simplify(Seq(out))

    @property
    def ndim(self):
        return mk(sum((dim_axes(d) for d in self.dims), Lin()))

    @property
    def size(self):
        n = sum((l.len for d in self.dims for l in dim_labels(d) if l.kind == 'bit'), Lin())
        if any(d[0] == 'batch' for d in self.dims):
            raise Unsupported('size of a batched array')
        return 2 ** n.const() if n.const() is not None else Pow2(n)

    def symlen(self):
        return self.shape[0]

    @property
    def dtype(self):
        import numpy as np
        return np.dtype('complex128')

    def astype(self, dt, *a, **k):
        import numpy as np
        if np.dtype(dt).kind != 'c' and not self.re:
            raise Unsupported('astype')
        return self

    # ------------------------------------------------------------ elementwise
    def conj(self):
        t = self.copy()
        for f in t.factors:
            f.conj = not f.conj
        t.coef = complex(t.coef).conjugate() if isinstance(t.coef, complex) else t.coef
        return t
    conjugate = conj

    @property
    def real(self):
        t = self.copy()
        t.re = True
        return t

    def __mul__(self, o):
        if isinstance(o, T):
            return multiply(self, o)
        if isinstance(o, (int, float, complex)):
            t = self.copy()
            t.coef = t.coef * o
            return t
        return NotImplemented
    __rmul__ = __mul__

    def __matmul__(self, o):
        return matmul(self, o)

    def __neg__(self):
        return self * -1

    def _no(self, *a, **k):
        raise Unsupported('operation on a symbolic array')
    __add__ = __radd__ = __sub__ = __rsub__ = __truediv__ = __pow__ = __iter__ = __getitem__ = __bool__ = __float__ = __int__ = __lt__ = __gt__ = __len__ = _no
    __hash__ = object.__hash__

    def __eq__(self, o):
        raise Unsupported('comparison of symbolic arrays')

    @property
    def T(self):
        return transpose(self)

    def transpose(self, *a):
        return transpose(self, a[0] if len(a) == 1 and not isinstance(a[0], int) else (a or None))

    def reshape(self, *a, **k):
        return reshape(self, a[0] if len(a) == 1 and not isinstance(a[0], (int, SymInt, Pow2)) else a)

    def ravel(self):
        return flatten(self)

    def flatten(self):
        return flatten(self)

    def diagonal(self, *a, **k):
        return diagonal(self, *a, **k)

    def trace(self, *a, **k):
        return trace(self, *a, **k)

    def swapaxes(self, a, b):
        return swapaxes(self, a, b)

    def todense(self):
        return dense(self)

    def __repr__(self):
        return f'T(dims={self.dims}, factors={self.factors}, deltas={self.deltas}, summed={self.summed}{", Re" if self.re else ""})'


class Part:
    """data / indices of a sparse operator, possibly shifted"""
    def __init__(self, kind, op, off=0, left=None):
        self.kind, self.op, self.off, self.left = kind, op, off, left

    def __add__(self, k):
        if self.kind != 'indices' or isinstance(k, T):
            raise Unsupported('sparse internals')
        return Part(self.kind, self.op, self.off + k, self.left)
    __radd__ = __add__


class Opaque:
    def __init__(self, key):
        self.key = key

    def _no(self, *a, **k):
        raise Unsupported(f'use of an opaque value {self.key}')
    __add__ = __radd__ = __sub__ = __mul__ = __rmul__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __bool__ = __iter__ = __len__ = __index__ = __int__ = __float__ = _no
    __hash__ = object.__hash__


def dense(t):
    u = t.copy()
    return T(u.dims, u.factors, u.deltas, u.summed, u.re, u.coef)


def sparse(t):
    u = t.copy()
    return TS(u.dims, u.factors, u.deltas, u.summed, u.re, u.coef)


def like(a, dims, factors, deltas, summed, re=False, coef=1):
    return (TS if a.bcoo else T)(dims, factors, deltas, summed, re, coef).clean()


def dim_labels(d):
    if d[0] == 'ax':
        return _b.list(d[1])
    if d[0] in ('blk', 'batch'):
        return [d[1]]
    if d[0] == 'shuf':
        return [l for r in d[2] for l in r]
    return []


def dim_axes(d):
    if d[0] in ('ax', 'batch'):
        return Lin(None, 1)
    if d[0] == 'blk':
        return d[1].len
    if d[0] == 'one':
        return d[1]
    return sum((l.len for r in d[2] for l in r), Lin())


def named(name, *blocks, sp=False):
    """array whose axes are blocks of qubits: ints / symbolic lengths; ('m', k) one axis of size 2**k; ('b',) batch axis"""
    dims, idx = [], []
    for b in blocks:
        if isinstance(b, _b.tuple) and b[0] == 'm':
            l = Label(lin(b[1]))
            dims.append(['ax', [l]])
        elif isinstance(b, _b.tuple):
            l = Label(Lin(None, 1), 'batch')
            dims.append(['batch', l])
        else:
            l = Label(lin(b))
            dims.append(['blk', l])
        idx.append(l)
    return (TS if sp else T)(dims, [F(name, False, idx)])


def identity(k, sp=False):
    """2**k by 2**k identity"""
    a, b = Label(lin(k)), Label(lin(k))
    return (TS if sp else T)([['ax', [a]], ['ax', [b]]], [], [(a, b)])


def conv(x):
    """symbolic form of a concrete array"""
    if isinstance(x, T):
        return x
    import numpy as np
    a = np.asarray(x.todense() if hasattr(x, 'todense') else x)
    if any(s & (s - 1) for s in a.shape) or a.ndim == 0:
        raise Unsupported('concrete array of an odd shape')
    if a.ndim == 2 and a.shape[0] == a.shape[1] and np.array_equal(a, np.eye(len(a))):
        return identity(_b.int(a.shape[0]).bit_length() - 1)
    return named('const' + hashlib.sha1(a.astype(complex).tobytes()).hexdigest()[:12], *[('m', s.bit_length() - 1) for s in a.shape])


# ---------------------------------------------------------------- axes
class AxisError(ValueError):
    pass


def single(d):
    return d[0] in ('ax', 'batch') or (d[0] == 'blk' and d[1].len.const() == 1) or (d[0] == 'one' and d[1].const() == 1)


def norm_axis(t, p):
    p = lin(p)
    c = p.const()
    if c is not None:
        if c >= 0:
            return p
        return p + lin(t.ndim)
    if entge(p):
        return p
    if CTX.decide(p.z3() < 0):
        return p + lin(t.ndim)
    return p


def cut(t, p):
    """split dims at axis position p (0 <= p <= ndim) ; index of the entry starting there"""
    pre = Lin()
    i = 0
    while True:
        if ent0(p - pre):
            return i
        if i == len(t.dims):
            if eq0(p - pre):
                return i
            raise AxisError('axis out of bounds')
        n = dim_axes(t.dims[i])
        end = pre + n
        inside = (end - p)
        c = inside.const()
        if c is not None:
            ins = c > 0
        else:
            ins = sym.ge(inside, 1)
        if not ins:
            pre = end
            i += 1
            continue
        d = t.dims[i]
        if d[0] == 'blk' and dim_axes(d).const() is None:
            t.split(d[1], p - pre)          # the first part may be empty
            return i + 1
        if eq0(p - pre):
            return i
        if d[0] == 'blk':
            t.split(d[1], p - pre)
            return i + 1
        if d[0] == 'one':
            t.dims[i:i + 1] = [['one', p - pre], ['one', end - p]]
            return i + 1
        raise Unsupported('split of an axis group')


def at(t, p):
    """index of the entry which is exactly axis p"""
    i = cut(t, p)
    while i < len(t.dims) and not single(t.dims[i]) and ent0(dim_axes(t.dims[i])):
        i += 1
    if i == len(t.dims):
        raise AxisError('axis out of bounds')
    n = dim_axes(t.dims[i])
    if single(t.dims[i]):
        return i
    if ent0(n - 1):
        if t.dims[i][0] == 'blk':
            l = t.dims[i][1]
            t._replace(l, [Label(Lin(None, 1))]) if l.len.const() != 1 else None
        return i
    if t.dims[i][0] == 'blk':
        # may be empty: then the next entry is the axis
        if not entge(n, 1):
            if not sym.ge(n, 1):
                t._drop(t.dims[i][1])
                return at(t, p)
        t.split(t.dims[i][1], Lin(None, 1))
        return i
    if t.dims[i][0] == 'one':
        t.dims[i:i + 1] = [['one', Lin(None, 1)], ['one', n - 1]]
        return i
    raise Unsupported('axis of a shuffled block')


def span(t, p, n):
    """(i, j): entries i..j-1 are exactly the axes p .. p+n-1"""
    if n.const() == 1:
        i = at(t, p)
        return i, i + 1
    end = p + n
    if not entge(lin(t.ndim) - end):
        if CTX.decide((lin(t.ndim) - end).z3() < 0):
            raise AxisError('axis out of bounds')
    cut(t, end)
    i = cut(t, p)
    j = cut(t, end)
    return i, j


def axes_runs(t, ax):
    """list of (start, length) of an axes argument, negative axes resolved"""
    if isinstance(ax, (_b.int, SymInt)):
        ax = (ax,)
    out = []
    for it in items_of(ax):
        if it[0] == 'v':
            out.append((norm_axis(t, it[1]), Lin(None, 1)))
        elif it[0] == 'run':
            if not entge(it[1]):
                raise Unsupported('negative axis run')
            out.append((it[1], it[2]))
        else:
            raise Unsupported('axes in an unknown order')
    return out


def total(runs):
    return sum((n for _, n in runs), Lin())


def align_runs(r1, r2):
    """refine two lists of runs to equal lengths"""
    if not ent0(total(r1) - total(r2)):
        if eq0(total(r1) - total(r2)):
            pass
        else:
            raise ValueError('lists of axes differ in length')
    a, b, out = _b.list(r1), _b.list(r2), []
    while a and b:
        (p, n), (q_, m) = a[0], b[0]
        if ent0(n - m):
            out.append((p, q_, n))
            a.pop(0)
            b.pop(0)
        elif entge(m - n):
            out.append((p, q_, n))
            a.pop(0)
            b[0] = (q_ + n, m - n)
        elif entge(n - m):
            out.append((p, q_, m))
            b.pop(0)
            a[0] = (p + m, n - m)
        else:
            sym.ge(n - m)
    for x in a + b:
        if not ent0(x[1]):
            raise Unsupported('alignment')
    return out


def overlap_free(runs):
    """distinctness of the axes (jax requires it)"""
    for (p, n), (q_, m) in itertools.combinations(runs, 2):
        if not (entge(q_ - (p + n)) or entge(p - (q_ + m))):
            if n.const() == 1 and m.const() == 1:
                if CTX.decide((p - q_).z3() == 0):
                    raise ValueError('repeated axis')
            elif CTX.decide(z3.And((q_ - (p + n)).z3() < 0, (p - (q_ + m)).z3() < 0, n.z3() > 0, m.z3() > 0)):
                raise ValueError('repeated axis')


# ---------------------------------------------------------------- contracts of the array operations
def stale(pairs):
    if any(x.id in splits or y.id in splits for x, y in pairs):
        raise Unsupported('alignment')


def unify(A, la, B, lb, pairs):
    """align two lists of labels of equal total length; collects (label of A, label of B)"""
    la, lb = _b.list(la), _b.list(lb)
    if len(la) == 1 and len(lb) == 1 and (la[0].kind != 'bit' or lb[0].kind != 'bit'):
        if la[0].kind != lb[0].kind:
            raise Unsupported('batch axis')
        pairs.append((la[0], lb[0]))
        return
    na, nb = sum((l.len for l in la), Lin()), sum((l.len for l in lb), Lin())
    if not ent0(na - nb):
        if not eq0(na - nb):
            raise TypeError('contracted axes differ in size')
    while la and lb:
        x, y = la[0], lb[0]
        if ent0(x.len - y.len):
            pairs.append((x, y))
            la.pop(0)
            lb.pop(0)
            continue
        if ent0(x.len):
            la.pop(0)
            continue
        if ent0(y.len):
            lb.pop(0)
            continue
        if not (entge(y.len - x.len) or entge(x.len - y.len)):
            sym.ge(y.len - x.len)
            continue
        if entge(y.len - x.len):
            B.split(y, x.len)
            lb = resync(lb)
        else:
            A.split(x, y.len)
            la = resync(la)
        if any(p.id in splits or q_.id in splits for p, q_ in pairs):
            raise Unsupported('alignment')


def tensordot(a, b, axes=2, **kw):
    a, b = conv(a), conv(b)
    if a.re or b.re:
        raise Unsupported('real part in a product')
    A, B = a.copy(), b.copy()
    if isinstance(axes, (_b.int, SymInt)):
        k = lin(axes)
        r1 = [(lin(A.ndim) - k, k)]
        r2 = [(Lin(), k)]
    else:
        r1, r2 = axes_runs(A, axes[0]), axes_runs(B, axes[1])
    trip = align_runs(r1, r2)
    overlap_free([(p, n) for p, _, n in trip])
    overlap_free([(q_, n) for _, q_, n in trip])
    marks_a, marks_b, pairs = [], [], []
    # cut first, then collect (cutting moves entries)
    for p, q_, n in trip:
        span(A, p, n)
        span(B, q_, n)
    for p, q_, n in trip:
        i, j = span(A, p, n)
        k, l = span(B, q_, n)
        da, db = A.dims[i:j], B.dims[k:l]
        if any(d[0] in ('shuf', 'one') for d in da + db):
            raise Unsupported('contraction of a shuffled block')
        if any(d[0] == 'ax' and len(d[1]) != 1 for d in da + db):
            if len(da) != 1 or len(db) != 1:
                raise Unsupported('contraction of merged axes')
        ps = []
        unify(A, [x for d in da for x in dim_labels(d)], B, [x for d in db for x in dim_labels(d)], ps)
        pairs += ps
    stale(pairs)
    for x, y in pairs:
        marks_a.append(x)
        marks_b.append(y)
    ida, idb = {x.id for x in marks_a}, {y.id for y in marks_b}
    da = [d for d in A.dims if not (dim_labels(d) and all(l.id in ida for l in dim_labels(d)))]
    db = [d for d in B.dims if not (dim_labels(d) and all(l.id in idb for l in dim_labels(d)))]
    for d in da:
        if any(l.id in ida for l in dim_labels(d)):
            raise Unsupported('partial contraction')
    B.dims = db
    for x, y in pairs:
        B._replace(y, [x])
    out = like(a, da + B.dims, A.factors + B.factors, A.deltas + B.deltas, A.summed + B.summed + marks_a, coef=A.coef * B.coef)
    if a.bcoo != b.bcoo:
        raise Unsupported('mixed sparse and dense product')
    return out


def moveaxis(a, source, destination):
    t = conv(a).copy()
    r1, r2 = axes_runs(t, source), axes_runs(t, destination)
    trip = align_runs(r1, r2)
    overlap_free([(p, n) for p, _, n in trip])
    overlap_free([(q_, n) for _, q_, n in trip])
    for p, q_, n in trip:
        span(t, p, n)
        if not entge(lin(t.ndim) - q_ - n):
            if CTX.decide((lin(t.ndim) - q_ - n).z3() < 0):
                raise AxisError('destination out of bounds')
    ent = []
    for p, q_, n in trip:
        i, j = span(t, p, n)
        ent.append((q_, n, _b.list(range(i, j))))
    # positions are stable now: take entries by index
    ent = [(q_, n, [t.dims[i] for i in ix]) for q_, n, ix in ent]
    taken = [id(d) for _, _, ds in ent for d in ds]
    rest = T([d for d in t.dims if id(d) not in taken], t.factors, t.deltas, t.summed)
    todo = _b.list(ent)
    order = []
    for e in todo:
        i = 0
        while i < len(order) and before(order[i][0], e[0]):
            i += 1
        order.insert(i, e)
    cur = rest
    hold = {}
    for q_, n, ds in order:
        i = cut(cur, q_)
        cur.dims[i:i] = ds
    return like(conv(a), cur.dims, cur.factors, cur.deltas, cur.summed, t.re, t.coef)


def before(p, q_):
    d = q_ - p
    c = d.const()
    if c is not None:
        return c > 0
    return sym.ge(d, 1)


class InvPerm:
    """inverse of a permutation sequence"""
    def __init__(self, seq):
        self.seq = seq

    def symlen(self):
        return self.seq.symlen()

    @property
    def size(self):
        return self.symlen()

    def __iter__(self):
        raise Unsupported('iteration over an inverse permutation')

    def __getitem__(self, i):
        raise Unsupported('element of an inverse permutation')

    def __eq__(self, o):
        raise Unsupported('comparison')
    __hash__ = object.__hash__


def perm_runs(seq):
    out = []
    for it in seq.items:
        if it[0] == 'v':
            out.append((lin(it[1]), Lin(None, 1)))
        elif it[0] == 'run':
            out.append((it[1], it[2]))
        elif it[0] == 'perm':
            out += [(p + it[3], n) for p, n in it[2]]
        else:
            raise Unsupported('repeated values')
    return out


def is_perm(seq):
    """do the values cover 0 .. len-1 exactly once?"""
    pos = Lin()
    for p, n in order_runs(perm_runs(seq)):
        if not ent0(p - pos):
            return False
        pos = pos + n
    return ent0(pos - seq.length())


def argsort(x):
    import numpy as np
    if isinstance(x, InvPerm):
        return Seq(x.seq.items, array=True)
    s = Seq(items_of(x))
    if is_perm(s):
        vals = simplify(s)
        if isinstance(vals, _b.tuple) and all(isinstance(v, _b.int) for v in vals):
            return np.argsort(vals)
        return InvPerm(s)
    if all(it[0] == 'v' for it in s.items):
        vs = [it[1] for it in s.items]
        idx = []
        for i in range(len(vs)):
            k = 0
            while k < len(idx) and before_eq(vs[idx[k]], vs[i]):
                k += 1
            idx.insert(k, i)
        return np.array(idx, dtype=_b.int)
    raise Unsupported('argsort of a sequence which is not a permutation')


def before_eq(a, b):
    d = lin(b) - lin(a)
    c = d.const()
    return c >= 0 if c is not None else sym.ge(d)


def transpose(a, axes=None, permutation=None):
    t0 = conv(a)
    t = t0.copy()
    perm = axes if axes is not None else permutation
    if perm is None:
        ds = []
        for d in t.dims[::-1]:
            if d[0] in ('blk', 'shuf') and ent0(dim_axes(d)):
                continue
            if d[0] == 'blk' and not ent0(d[1].len - 1):
                if d[1].len.const() is None:
                    raise Unsupported('full reversal')
                raise Unsupported('full reversal')
            ds.append(d)
        for d in t.dims:
            if d[0] == 'blk' and ent0(d[1].len):
                t._drop(d[1])
        return like(t0, ds, t.factors, t.deltas, t.summed, t.re, t.coef)
    if isinstance(perm, InvPerm):
        its = perm.seq.items
        if not ent0(perm.seq.length() - lin(t.ndim)):
            raise ValueError('permutation of the wrong length')
        pos = Lin()
        got = []
        for it in its:
            n = sym.ilen(it)
            if it[0] == 'perm':
                i = cut(t, pos)
                d = t.dims[i]
                if d[0] != 'shuf' or d[1] != it[1] or len(d[2]) != len(it[2]) or any(not ent0(sum((l.len for l in ls), Lin()) - r[1]) for ls, r in zip(d[2], it[2])):
                    raise Unsupported('inverse of an unknown order')
                for (p, m), ls in zip(it[2], d[2]):
                    got.append((p + it[3], m, [['blk', l] for l in ls]))
            else:
                i, j = span(t, pos, n)
                ds = t.dims[i:j]
                if any(d[0] == 'shuf' for d in ds):
                    raise Unsupported('shuffled block')
                got.append((lin(it[1]) if it[0] == 'v' else it[1], n, ds))
            pos = pos + n
        # later cuts may have split entries collected earlier: collect again by position
        order = []
        for e in got:
            i = 0
            while i < len(order) and before(order[i][0], e[0]):
                i += 1
            order.insert(i, e)
        ids = {id(d) for d in t.dims}
        return like(t0, [d for e in order for d in e[2]], t.factors, t.deltas, t.summed, t.re, t.coef)
    seq = Seq(items_of(perm))
    if not ent0(seq.length() - lin(t.ndim)):
        if not eq0(seq.length() - lin(t.ndim)):
            raise ValueError('permutation of the wrong length')
    if not is_perm(seq):
        raise Unsupported('transpose by a sequence not known to be a permutation')
    for p, n in perm_runs(seq):
        span(t, p, n)
    dims = []
    for it in seq.items:
        if it[0] == 'perm':
            runs = []
            for p, n in it[2]:
                i, j = span(t, p + it[3], n)
                ls = []
                for d in t.dims[i:j]:
                    if d[0] == 'blk' or (d[0] == 'ax' and len(d[1]) == 1 and d[1][0].len.const() == 1):
                        ls += dim_labels(d)
                    else:
                        raise Unsupported('shuffle of merged axes')
                runs.append(ls)
            dims.append(['shuf', it[1], runs, it[2]])
        else:
            i, j = span(t, lin(it[1]) if it[0] == 'v' else it[1], sym.ilen(it))
            dims += t.dims[i:j]
    return like(t0, dims, t.factors, t.deltas, t.summed, t.re, t.coef)


def swapaxes(a, p, q_):
    t0 = conv(a)
    t = t0.copy()
    p, q_ = norm_axis(t, p), norm_axis(t, q_)
    at(t, p)
    at(t, q_)
    i, j = at(t, p), at(t, q_)
    t.dims[i], t.dims[j] = t.dims[j], t.dims[i]
    return like(t0, t.dims, t.factors, t.deltas, t.summed, t.re, t.coef)


def flat_labels(t):
    out = []
    for d in t.dims:
        if d[0] in ('shuf', 'batch'):
            raise Unsupported('reshape of a shuffled block')
        out += dim_labels(d)
    return out


def flatten(a):
    t0 = conv(a)
    t = t0.copy()
    return like(t0, [['ax', flat_labels(t)]], t.factors, t.deltas, t.summed, t.re, t.coef)


def take(t, labels, n):
    """first labels of total length n; splits when needed"""
    got = []
    while not ent0(n):
        if not labels:
            if eq0(n):
                break
            raise TypeError('cannot reshape: sizes differ')
        l = labels[0]
        if ent0(l.len - n) or entge(n - l.len):
            got.append(labels.pop(0))
            n = n - l.len
        elif entge(l.len - n):
            p, r = t.split(l, n)
            labels[0:1] = [r]
            labels[:] = resync(labels)
            got = resync(got) + [p]
            n = Lin()
        else:
            sym.ge(l.len - n)
    return got


def reshape(a, shape, *rest, **kw):
    t0 = conv(a)
    t = t0.copy()
    if isinstance(shape, (_b.int, SymInt, Pow2)):
        shape = (shape,) + rest
    labels = flat_labels(t)
    its = items_of(shape)
    minus = [i for i, it in enumerate(its) if it[0] == 'v' and isinstance(it[1], _b.int) and it[1] == -1]
    tot = sum((l.len for l in labels), Lin())
    if minus:
        known = Lin()
        for i, it in enumerate(its):
            if i not in minus:
                known = known + (log2(it[1]) if it[0] == 'v' else it[2].scale(log2(it[1]).const()))
        its[minus[0]] = ('v', Pow2(tot - known) if (tot - known).const() is None else 2 ** (tot - known).const())
    dims = []
    for it in its:
        if it[0] == 'v':
            if it[1] == 1 and isinstance(it[1], _b.int):
                dims.append(['one', Lin(None, 1)])
                continue
            dims.append(['ax', take(t, labels, log2(it[1]))])
        elif it[0] == 'rep' and it[1] == 2:
            dims += [['blk', l] for l in take(t, labels, it[2])]
        elif it[0] == 'rep' and it[1] == 1:
            dims.append(['one', it[2]])
        else:
            raise Unsupported('reshape')
    for l in labels:
        if not ent0(l.len):
            if not eq0(l.len):
                raise TypeError('cannot reshape: sizes differ')
    dims = [[d[0], resync(d[1])] if d[0] == 'ax' else d for d in dims]
    if any(d[0] == 'blk' and d[1].id in splits for d in dims):
        dims = [e for d in dims for e in ([['blk', l] for l in resync([d[1]])] if d[0] == 'blk' else [d])]
    return like(t0, dims, t.factors, t.deltas, t.summed, t.re, t.coef)


def expand_dims(a, axis):
    t0 = conv(a)
    t = t0.copy()
    if isinstance(axis, (_b.int, SymInt)):
        axis = (axis,)
    its = items_of(axis)
    final = lin(t.ndim) + Seq(its).length()
    runs = []
    for it in its:
        if it[0] == 'v':
            p = lin(it[1])
            if p.const() is not None and p.const() < 0:
                p = p + final
            runs.append((p, Lin(None, 1)))
        elif it[0] == 'run':
            runs.append((it[1], it[2]))
        else:
            raise Unsupported('expand_dims')
    for p, n in order_runs(runs):
        i = cut(t, p)
        t.dims.insert(i, ['one', n])
    return like(t0, t.dims, t.factors, t.deltas, t.summed, t.re, t.coef)


def multiply(a, b):
    a, b = conv(a), conv(b)
    if a.re or b.re:
        raise Unsupported('real part in a product')
    A, B = a.copy(), b.copy()
    na, nb = lin(A.ndim), lin(B.ndim)
    if not ent0(na - nb):
        if entge(na - nb):
            B.dims.insert(0, ['one', na - nb])
        elif entge(nb - na):
            A.dims.insert(0, ['one', nb - na])
        else:
            raise Unsupported('broadcasting')
    i = 0
    dims, pairs = [], []
    while i < len(A.dims) or i < len(B.dims):
        if i >= len(A.dims) or i >= len(B.dims):
            raise Unsupported('broadcasting')
        n, m = dim_axes(A.dims[i]), dim_axes(B.dims[i])
        if not ent0(n - m):
            pos = sum((dim_axes(d) for d in A.dims[:i]), Lin())
            if entge(m - n):
                cut(B, pos + n)
            elif entge(n - m):
                cut(A, pos + m)
            else:
                sym.ge(n - m)
            continue
        i += 1
    for k in range(len(A.dims)):
        da, db = A.dims[k], B.dims[k]
        if da[0] == 'one':
            continue
        if db[0] == 'one':
            continue
        if da[0] == 'shuf' or db[0] == 'shuf':
            raise Unsupported('product of shuffled blocks')
        unify(A, dim_labels(da), B, dim_labels(db), pairs)
        if len(dim_labels(A.dims[k])) != len(dim_labels(da)):
            raise Unsupported('broadcasting')
    stale(pairs)
    for k in range(len(A.dims)):
        dims.append((A, k) if A.dims[k][0] != 'one' else (B, k))
    for x, y in pairs:
        B._replace(y, [x])
    return like(a, [o.dims[k] for o, k in dims], A.factors + B.factors, A.deltas + B.deltas, A.summed + B.summed, coef=A.coef * B.coef)


def kron(a, b):
    A, B = conv(a).copy(), conv(b).copy()
    CTX.kronlog.append((a, b))
    if len(A.dims) != len(B.dims) or not all(d[0] == 'ax' for d in A.dims + B.dims):
        raise Unsupported('kron of arrays which are not matrices')
    return like(conv(a), [['ax', x[1] + y[1]] for x, y in zip(A.dims, B.dims)], A.factors + B.factors, A.deltas + B.deltas, A.summed + B.summed, coef=A.coef * B.coef)


def contract_last(a, b):
    """sum over the last axis of a and the first of b"""
    A, B = conv(a).copy(), conv(b).copy()
    if A.re or B.re:
        raise Unsupported('real part in a product')
    da, db = A.dims[-1], B.dims[0]
    if not (da[0] == 'ax' and db[0] == 'ax'):
        raise Unsupported('dot of arrays which are not matrices')
    pairs = []
    unify(A, da[1], B, db[1], pairs)
    stale(pairs)
    da, db = A.dims[:-1], B.dims[1:]
    B.dims = db
    for x, y in pairs:
        B._replace(y, [x])
    return like(conv(a), da + B.dims, A.factors + B.factors, A.deltas + B.deltas, A.summed + B.summed + [x for x, _ in pairs], coef=A.coef * B.coef)


def dot(a, b, **k):
    a, b = conv(a), conv(b)
    if len(a.dims) > 2 or len(b.dims) > 2 or not all(d[0] == 'ax' for d in a.dims + b.dims) or (len(b.dims) == 2 and len(a.dims) > 2):
        raise Unsupported('dot')
    return contract_last(a, b)


def matmul(a, b, **k):
    return dot(a, b)


def vdot(a, b, **k):
    return dot(conv(a).conj().flatten(), conv(b).flatten())


def pair_axes(a, axis1, axis2):
    t0 = conv(a)
    t = t0.copy()
    p, q_ = norm_axis(t, axis1), norm_axis(t, axis2)
    at(t, p)
    at(t, q_)
    i, j = at(t, p), at(t, q_)
    pairs = []
    li, lj = dim_labels(t.dims[i]), dim_labels(t.dims[j])
    u = T([], [], [], [])
    # align inside the same tensor
    pairs = []
    la, lb = _b.list(li), _b.list(lj)
    while la and lb:
        x, y = la[0], lb[0]
        if ent0(x.len - y.len):
            pairs.append((x, y))
            la.pop(0)
            lb.pop(0)
        elif entge(y.len - x.len):
            t.split(y, x.len)
        elif entge(x.len - y.len):
            t.split(x, y.len)
        else:
            sym.ge(x.len - y.len)
        la, lb = resync(la), resync(lb)
        if any(p.id in splits or q_.id in splits for p, q_ in pairs):
            raise Unsupported('alignment')
    if any(not ent0(l.len) for l in la + lb):
        raise Unsupported('diagonal of a rectangular array')
    return t0, t, i, j, pairs


def diagonal(a, offset=0, axis1=0, axis2=1):
    if offset != 0:
        raise Unsupported('diagonal offset')
    t0, t, i, j, pairs = pair_axes(a, axis1, axis2)
    d = t.dims[i]
    t.dims = [x for k, x in enumerate(t.dims) if k not in (i, j)] + [['ax', [x for x, _ in pairs]]]
    for x, y in pairs:
        t._replace(y, [x])
        t.deltas = [(p, q_) for p, q_ in t.deltas if not (p is x and q_ is x)]
    return like(t0, t.dims, t.factors, t.deltas, t.summed, t.re, t.coef)


def trace(a, offset=0, axis1=0, axis2=1, **k):
    if offset != 0:
        raise Unsupported('trace offset')
    t0, t, i, j, pairs = pair_axes(a, axis1, axis2)
    t.dims = [x for k, x in enumerate(t.dims) if k not in (i, j)]
    for x, y in pairs:
        t._replace(y, [x])
        if any(p is x and q_ is x for p, q_ in t.deltas):
            raise Unsupported('trace of an identity')
        t.summed.append(x)
    return like(t0, t.dims, t.factors, t.deltas, t.summed, t.re, t.coef)


def tsum(a, axis=None, **k):
    t0 = conv(a)
    t = t0.copy()
    if axis is None:
        for d in t.dims:
            if d[0] == 'one':
                continue
            t.summed += dim_labels(d)
        t.dims = []
        return like(t0, t.dims, t.factors, t.deltas, t.summed, t.re, t.coef)
    if not isinstance(axis, (_b.int, SymInt)):
        raise Unsupported('sum over several axes')
    i = at(t, norm_axis(t, axis))
    d = t.dims.pop(i)
    t.summed += dim_labels(d)
    return like(t0, t.dims, t.factors, t.deltas, t.summed, t.re, t.coef)


class GenList:
    """list with one generic element (for every value of an open label)"""
    def __init__(self, elem, label):
        self.elem, self.label = elem, label

    def __iter__(self):
        if CTX.consumer <= 0:
            raise Unsupported('loop over a family')
        CTX.mult = ('fam', self.label)
        yield self.elem

    def symlen(self):
        return Opaque(('size', self.label.id))


class Family(GenList):
    pass


def stack(xs, axis=0, **k):
    if isinstance(xs, GenList) and axis == 0:
        t = xs.elem.copy()
        return like(xs.elem, [['batch', xs.label]] + t.dims, t.factors, t.deltas, t.summed, t.re, t.coef)
    raise Unsupported('stack')


def vmap(f, in_axes=0, out_axes=0, **k):
    if in_axes != 0 or out_axes != 0:
        raise Unsupported('vmap axes')

    def g(*args, **kw):
        lab = None
        new = []
        for x in args:
            if not isinstance(x, T) or not x.dims or x.dims[0][0] != 'batch':
                raise Unsupported('vmap over an array without batch axis')
            t = x.copy()
            l = t.dims.pop(0)[1]
            if lab is None:
                lab = Label(Lin(None, 1), 'batch')
            t._replace(l, [lab])
            new.append(t)
        if kw and any(isinstance(v, T) for v in kw.values()):
            raise Unsupported('vmap keyword arrays')
        r = f(*new)
        if not isinstance(r, T):
            raise Unsupported('vmap result')
        t = r.copy()
        return like(r, [['batch', lab]] + t.dims, t.factors, t.deltas, t.summed, t.re, t.coef)
    return g


def tabs(a):
    t0 = conv(a)
    if t0.tag is not None and t0.tag[0] == 'square':
        x = t0.tag[1]
        return multiply(x, x.conj())
    t = t0.copy()
    out = like(t0, t.dims, t.factors, t.deltas, t.summed, t.re, t.coef)
    out.tag = ('abs', t0)
    return out


def power(a, p, **k):
    t0 = conv(a)
    if p != 2 or t0.re:
        raise Unsupported('power')
    if t0.tag is not None and t0.tag[0] == 'abs':
        x = t0.tag[1]
        return multiply(x, x.conj())
    t = multiply(t0, t0)
    t.tag = ('square', t0)
    return t


def square(a):
    return power(a, 2)


# controlled embedding: identity with the last 2**m rows/columns replaced
class AtIdx:
    def __init__(self, base, idx):
        self.base, self.idx = base, idx

    def set(self, op, **k):
        op = conv(op)
        ok = isinstance(self.idx, _b.tuple) and len(self.idx) == 2 and all(isinstance(s, slice) and s.stop is None and s.step is None for s in self.idx)
        if not ok or len(op.dims) != 2 or self.base.tag is None or self.base.tag[0] != 'eye':
            raise Unsupported('indexed update')
        n = self.base.tag[1]
        ms = [sum((l.len for l in d[1]), Lin()) for d in op.dims]
        for s, m in zip(self.idx, ms):
            if not ent0(neg_log2(s.start) - m):
                raise Unsupported('indexed update of another block')
        return ctrl(n - ms[0], op)


def neg_log2(x):
    if isinstance(x, _b.int) and x < 0:
        return log2(-x)
    if isinstance(x, NegPow2):
        return x.l
    raise Unsupported('slice start')


class NegPow2:
    def __init__(self, l):
        self.l = l


Pow2.__neg__ = lambda self: NegPow2(self.l)


class At:
    def __init__(self, base):
        self.base = base

    def __getitem__(self, idx):
        return AtIdx(self.base, idx)


T.at = property(lambda self: At(self))


def eye(n, m=None, dtype=None, **k):
    if m is not None and m is not n and m != n:
        raise Unsupported('rectangular identity')
    l = log2(n)
    t = identity(mk(l))
    t.tag = ('eye', l)
    return t


def ctrl(c, op):
    """direct sum of the identity and op on c more (leading) qubits; c = 0 is op itself"""
    if len(op.factors) != 1 or op.summed or op.deltas or op.coef != 1 or op.re:
        raise Unsupported('controlled form of a compound operator')
    t = op.copy()
    f = t.factors[0]
    bits = [l.id for l in f.idx if l.kind == 'bit']
    turned = len(t.dims) == 2 and bits == [l.id for d in t.dims[::-1] for l in dim_labels(d)]      # the controlled form of a transpose is the transpose of the controlled form
    if not turned and bits != [l.id for d in t.dims for l in dim_labels(d)] or not all(d[0] == 'ax' for d in t.dims):
        raise Unsupported('controlled form of a rearranged operator')
    if ent0(c):
        return t
    a, b = Label(c), Label(c)
    rows, cols = t.dims[0][1], t.dims[1][1]
    name = f'ctrl[{len([l for l in f.idx if l.kind != "bit"])}]({f.name})'
    return like(op, [['ax', [a] + rows], ['ax', [b] + cols]], [F(name, f.conj, [l for l in f.idx if l.kind != 'bit'] + ([b] + cols + [a] + rows if turned else [a] + rows + [b] + cols))], [], [])


# ---------------------------------------------------------------- equality
class Differ(Exception):
    pass


def equal(x, y):
    """are two tensors the same function of the arrays they are built from? raises Differ with a reason"""
    if not isinstance(x, T) or not isinstance(y, T):
        raise Differ(f'result is {type(x).__name__}')
    if x.bcoo != y.bcoo:
        raise Differ('sparse/dense class of the result')
    if x.re != y.re:
        raise Differ('real part')
    A, B = x.copy().clean(), y.copy().clean()
    for X in (A, B):
        seen = {l.id: l for l in X.bound() + [l for f in X.factors for l in f.idx]}
        for l in seen.values():
            if l.kind == 'bit' and l.len.const() is None and ent0(l.len):
                X._drop(l)
    if abs(complex(A.coef) - complex(B.coef)) > 1e-12:
        raise Differ(f'factor {A.coef} instead of {B.coef}')
    na, nb = lin(A.ndim), lin(B.ndim)
    if not ent0(na - nb):
        raise Differ(f'{na!r} axes instead of {nb!r}')
    # same axis structure
    i = 0
    pairs = []
    steps = 0
    while i < len(A.dims) or i < len(B.dims):
        steps += 1
        if steps > 400:
            raise Unsupported('alignment of axes')
        for X in (A, B):
            for d in X.dims[i:i + 1]:
                for l in dim_labels(d):
                    if l.kind == 'bit' and l.len.const() != 1 and ent0(l.len):
                        X._drop(l)
        if i >= len(A.dims) or i >= len(B.dims):
            continue
        if i >= len(A.dims) or i >= len(B.dims):
            rest = A.dims[i:] + B.dims[i:]
            if all(ent0(dim_axes(d)) for d in rest):
                break
            raise Differ('number of axes')
        da, db = A.dims[i], B.dims[i]
        n, m = dim_axes(da), dim_axes(db)
        if ent0(n) and not ent0(m) and da[0] == 'blk':
            A._drop(da[1])
            continue
        if ent0(m) and not ent0(n) and db[0] == 'blk':
            B._drop(db[1])
            continue
        if da[0] == 'shuf' or db[0] == 'shuf':
            if da[0] != db[0] or da[1] != db[1]:
                raise Differ('an axis order left unknown')
            for p, q_ in zip(da[2], db[2]):
                unify(A, p, B, q_, [])
            i += 1
            continue
        if not ent0(n - m):
            pos = sum((dim_axes(d) for d in A.dims[:i]), Lin())
            if entge(m - n):
                cut(B, pos + n)
            elif entge(n - m):
                cut(A, pos + m)
            else:
                sym.ge(n - m)
            continue
        if da[0] == 'one' or db[0] == 'one':
            if da[0] != db[0]:
                raise Differ('axis of size one')
        else:
            try:
                unify(A, dim_labels(da), B, dim_labels(db), [])
            except TypeError:
                raise Differ('axis sizes')
            if len(dim_labels(A.dims[i])) != len(dim_labels(B.dims[i])):
                continue
        i += 1
    pairs = []
    for da, db in zip(A.dims, B.dims):
        la, lb = dim_labels(da), dim_labels(db)
        if len(la) != len(lb):
            raise Unsupported('alignment of axes')
        pairs += _b.list(zip(la, lb))
    for p, q_ in pairs:
        B._replace(q_, [p])
    if match(A, B, 0):
        return True
    if x.re:
        C = y.conj()
        C.re = True
        return equal_noconj(x, C)
    raise Differ(f'{A!r} is not {B!r}')


def equal_noconj(x, y):
    x2, y2 = x.copy(), y.copy()
    x2.re = y2.re = False
    return equal(x2, y2)


def match(A, B, depth):
    """bijection between the factors of A and B (labels of dims already identified)"""
    fa, fb = A.factors, B.factors
    if len(fa) != len(fb):
        return False
    bound_b = {}
    fixed = {l.id for d in A.dims for l in dim_labels(d)}
    open_ok = lambda l, S: l.id not in {s.id for s in S.summed} and l.id not in fixed

    def rec(i, A, B, used, env):
        # env: label id of B -> label of A
        if i == len(A.factors):
            def tr(l):
                return env.get(l.id, l)
            da = sorted(tuple(sorted((p.id, q_.id))) for p, q_ in A.deltas)
            db = sorted(tuple(sorted((tr(p).id, tr(q_).id))) for p, q_ in B.deltas)
            if da != db:
                return False
            sa = {s.id for s in A.summed}
            sb = {tr(s).id for s in B.summed}
            return sa == sb and len(env.values()) == len({v.id for v in env.values()})
        f = A.factors[i]
        for j, g in enumerate(B.factors):
            if j in used or f.name != g.name or f.conj != g.conj:
                continue
            r = bind(i, j, A, B, env)
            if r is None:
                continue
            A2, B2, env2 = r
            if rec(i + 1, A2, B2, used | {j}, env2):
                return True
        return False

    def clone(X):
        """copy keeping the labels"""
        Y = type(X)(X.dims, [F(f.name, f.conj, f.idx) for f in X.factors], X.deltas, X.summed, X.re, X.coef)
        return Y

    def bind(i, j, A, B, env):
        A, B, env = clone(A), clone(B), dict(env)
        k = 0
        while True:
            la, lb = A.factors[i].idx, B.factors[j].idx
            if k >= len(la) and k >= len(lb):
                return A, B, env
            if k >= len(la) or k >= len(lb):
                rest = la[k:] + lb[k:]
                return (A, B, env) if all(l.kind == 'bit' and ent0(l.len) for l in rest) else None
            x, y = la[k], lb[k]
            if y.id in env or x is y:
                if env.get(y.id, y) is not x:
                    return None
                k += 1
                continue
            xs = any(s is x for s in A.summed)
            ys = any(s is y for s in B.summed)
            if x.kind != y.kind:
                return None
            if not xs or not ys:
                # one of them is fixed: a length mismatch may come from different splitting of a fixed block
                if not xs and not ys and x.kind == 'batch':
                    return None
                if not ent0(x.len - y.len) and (xs or ys):
                    if ys and not xs and entge(y.len - x.len):
                        B.split(y, x.len)
                        continue
                    if xs and not ys and entge(x.len - y.len):
                        A.split(x, y.len)
                        continue
                return None
            if x.kind == 'batch' or ent0(x.len - y.len):
                env[y.id] = x
                k += 1
                continue
            if any(v is x for v in env.values()):
                return None
            if entge(y.len - x.len):
                B.split(y, x.len)
            elif entge(x.len - y.len):
                A.split(x, y.len)
            else:
                sym.ge(x.len - y.len)
    return rec(0, A, B, frozenset(), {})


# ---------------------------------------------------------------- sparse construction, einsum, outer
class PartCat:
    def __init__(self, parts):
        self.parts = parts


class SpEye:
    """identity of any concrete size, used as a block"""
    def __init__(self, m):
        self.m = m

    @property
    def data(self):
        return Part('data', self)

    @property
    def indices(self):
        return Part('indices', self)


def speye(n, m=None, dtype=None, **k):
    if m is not None and m != n:
        raise Unsupported('rectangular identity')
    if isinstance(n, _b.int) and n & (n - 1):
        return SpEye(n)
    t = sparse(identity(mk(log2(n))))
    t.tag = ('eye', log2(n))
    return t


def bcoo(args, shape):
    """BCOO((data, indices), shape): recognised when it is the direct sum of an identity and an operator"""
    data, ind = args
    if not isinstance(data, PartCat) or not isinstance(ind, PartCat) or len(data.parts) != len(ind.parts):
        raise Unsupported('sparse array of this form')
    off, blocks = 0, []
    for d, i in zip(data.parts, ind.parts):
        if not isinstance(d, Part) or not isinstance(i, Part) or d.kind != 'data' or i.kind != 'indices' or d.op is not i.op:
            raise Unsupported('sparse array of this form')
        if not isinstance(i.off, _b.int) or i.off != off:
            raise Unsupported('sparse array of this form')
        if isinstance(d.op, SpEye):
            m = d.op.m
        else:
            m = d.op.shape[0]
            if not isinstance(m, _b.int) or d.op.shape[1] != m:
                raise Unsupported('sparse array of this form')
        blocks.append((d.op, m))
        off += m
    if _b.tuple(shape) != (off, off) or off & (off - 1):
        raise Unsupported('sparse array of this form')
    if len(blocks) != 2 or not (isinstance(blocks[0][0], SpEye) or blocks[0][0].tag and blocks[0][0].tag[0] == 'eye'):
        raise Unsupported('sparse array of this form')
    op, m = blocks[1]
    if isinstance(op, SpEye):
        raise Unsupported('sparse array of this form')
    return sparse(ctrl(Lin(None, (off // m).bit_length() - 1), op))


def outer(a, b):
    a, b = flatten(a), flatten(b)
    return multiply(expand_dims(a, 1), expand_dims(b, 0))


def einsum(*a, **k):
    raise Unsupported('einsum')


class _TSMeta(type):
    def __call__(cls, *a, **k):
        if 'shape' in k:
            return bcoo(a[0], k['shape'])
        return super().__call__(*a, **k)


class TS(T, metaclass=_TSMeta):
    """sparse (BCOO) array: same meaning, other class"""
    bcoo = True

    @property
    def data(self):
        return Part('data', self)

    @property
    def indices(self):
        return Part('indices', self)

    @property
    def nse(self):
        return Opaque(('nse',))

    @staticmethod
    def fromdense(x, **k):
        return sparse(conv(x))
