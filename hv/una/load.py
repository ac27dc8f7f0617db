"""Executes the modules of /repo/horqrux as they are, with the names they import and the builtins they use replaced by the
contracts of sym.py and ten.py. Nothing of the source is dropped; the rewriting of the syntax tree is limited to
comprehensions (list/set comprehension = list/set of the generator) and starred tuples (= concatenation)."""
from __future__ import annotations
import ast, builtins as _b, functools, importlib, math, os, types
import numpy as _np
import z3
from . import sym, ten
from .sym import (CTX, Elem, ElemBool, Lin, Pow2, Seq, Set, SymBool, SymInt, Unsupported, ent0, entge, eq0, ilen, items_of, lin, log2, mk, order_runs, simplify, to_set)

REPO = os.environ.get('HV_REPO', '/repo')
REAL = ('horqrux.noise', 'horqrux.primitives', 'horqrux.matrices', 'horqrux._misc', 'horqrux.circuit', 'horqrux.analog', 'horqrux.composite',
        'horqrux.differentiation.gpsr', 'horqrux.shots')
SYMS = (ten.T, Seq, Set, SymInt, SymBool, Pow2, Elem, ElemBool, ten.InvPerm, ten.Part, ten.Opaque, ten.GenList, ten.NegPow2, ten.PartCat)


def symbolic(x, depth=3):
    if isinstance(x, SYMS):
        return True
    if depth and isinstance(x, (_b.tuple, _b.list, _b.set)):
        return _b.any(symbolic(y, depth - 1) for y in x)
    if depth and isinstance(x, _b.dict):
        return _b.any(symbolic(y, depth - 1) for y in x.values())
    return False


# ---------------------------------------------------------------- builtins
def drain(it, f):
    """runs the iterable; f(value, block) with block None or (length, name of the generic position)"""
    CTX.consumer += 1
    saved = CTX.mult
    try:
        CTX.mult = 1
        for v in it:
            m = CTX.mult
            f(v, None if m == 1 else m)
            CTX.mult = 1
    finally:
        CTX.consumer -= 1
        CTX.mult = saved


def collect(it):
    out = []

    def f(v, m):
        if m is None:
            out.append(('v', v))
            return
        if m[0] == 'fam':
            out.append(('fam', v, m[1]))
            return
        n, j = m
        if isinstance(v, SymInt):
            c = v.l.co.get(j, 0)
            if c == 1:
                out.append(('run', v.l - Lin({j: 1}), n))
            elif c == 0:
                out.append(('rep', v, n))
            else:
                raise Unsupported('sequence of this form')
        elif isinstance(v, Elem):
            if v.j != j:
                raise Unsupported('sequence of this form')
            out.append(v.it)
        elif v is None or isinstance(v, (_b.int, _b.float, _b.complex, _b.str, _np.ndarray)) or hasattr(v, 'todense') and not isinstance(v, ten.T):
            out.append(('rep', v, n))
        else:
            raise Unsupported('sequence of this form')
    drain(it, f)
    fam = [o for o in out if o[0] == 'fam']
    if fam:
        if len(out) != 1:
            raise Unsupported('sequence of this form')
        return ten.GenList(fam[0][1], fam[0][2])
    return out


def iterable(x):
    if isinstance(x, Set):
        x = x.arbitrary()
    return x


def mkseq(x, lst):
    if isinstance(x, ten.GenList):
        return x
    if isinstance(x, (Seq, Set)):
        return simplify(Seq(items_of(x), lst=lst))
    if isinstance(x, (_b.tuple, _b.list, _b.str, _b.dict, _b.range, _np.ndarray)):
        return (_b.list if lst else _b.tuple)(x)
    r = collect(iterable(x))
    return r if isinstance(r, ten.GenList) else simplify(Seq(r, lst=lst))


class Meta(type):
    def __instancecheck__(cls, x):
        return cls.__test__(x)

    def __subclasscheck__(cls, c):
        return _b.issubclass(c, cls.__real__)


class S_tuple(_b.tuple, metaclass=Meta):
    __real__ = _b.tuple
    __test__ = staticmethod(lambda x: _b.isinstance(x, _b.tuple) or (_b.isinstance(x, Seq) and not x.lst and not x.array))

    def __new__(cls, x=()):
        return mkseq(x, False)

    def __class_getitem__(cls, k):
        return _b.tuple[k]


class S_list(_b.list, metaclass=Meta):
    __real__ = _b.list
    __test__ = staticmethod(lambda x: _b.isinstance(x, _b.list) or (_b.isinstance(x, Seq) and x.lst))

    def __new__(cls, x=()):
        return mkseq(x, True)

    def __class_getitem__(cls, k):
        return _b.list[k]


class S_set(_b.set, metaclass=Meta):
    __real__ = _b.set
    __test__ = staticmethod(lambda x: _b.isinstance(x, (_b.set, Set)))

    def __new__(cls, x=()):
        if isinstance(x, Set):
            return Set(_b.list(x.runs))
        x = mkseq(x, False)
        return to_set(x) if symbolic(x) else _b.set(x)

    def __class_getitem__(cls, k):
        return _b.set[k]


class S_int(_b.int, metaclass=Meta):
    __real__ = _b.int
    __test__ = staticmethod(lambda x: _b.isinstance(x, (_b.int, SymInt)))

    def __new__(cls, x=0, *a):
        return x if isinstance(x, (SymInt, Pow2)) else _b.int(x, *a)


class S_range(metaclass=Meta):
    __real__ = _b.range
    __test__ = staticmethod(lambda x: _b.isinstance(x, _b.range))

    def __new__(cls, *a):
        if not symbolic(a):
            return _b.range(*a)
        if len(a) == 3:
            if a[2] != 1:
                raise Unsupported('range with a step')
            a = a[:2]
        s, e = (Lin(), lin(a[0])) if len(a) == 1 else (lin(a[0]), lin(a[1]))
        n = e - s
        if not entge(n):
            if not sym.ge(n):
                n = Lin()
        return simplify(Seq([('run', s, n)] if n.const() is None else [('v', mk(s + i)) for i in _b.range(n.const())]))


def s_len(x):
    if isinstance(x, (Seq, Set, ten.T, ten.InvPerm, ten.GenList)):
        return x.symlen()
    return _b.len(x)


def truth(v):
    return _b.bool(v)


def s_all(it):
    pend = []
    res = [True]

    def f(v, m):
        if res[0] is False:
            return
        if isinstance(v, ElemBool):
            if v.mode != 'all':
                raise Unsupported('all over generic elements')
            CTX_late_bool(v, res, False)
            return
        if not truth(v):
            if m is not None and m[0] != 'fam' and not (m[0].const() or 0) > 0:
                pend.append(m[0])
                return
            res[0] = False
    drain(iterable(it), f)
    for n in pend:
        if res[0] is not False and sym.ge(n, 1):
            res[0] = False
    return res[0]


def s_any(it):
    pend = []
    res = [False]

    def f(v, m):
        if res[0] is True:
            return
        if isinstance(v, ElemBool):
            if v.mode != 'any':
                raise Unsupported('any over generic elements')
            CTX_late_bool(v, res, True)
            return
        if truth(v):
            if m is not None and m[0] != 'fam' and not (m[0].const() or 0) > 0:
                pend.append(m[0])
                return
            res[0] = True
    drain(iterable(it), f)
    for n in pend:
        if res[0] is not True and sym.ge(n, 1):
            res[0] = True
    return res[0]


def CTX_late_bool(v, res, val):
    b = CTX.decide(v.z)
    if b is val:
        res[0] = val


def s_sorted(x, key=None, reverse=False):
    if not symbolic(x):
        if _b.isinstance(x, types.GeneratorType):
            x = mkseq(x, True)
            if not symbolic(x):
                return _b.sorted(x, key=key, reverse=reverse)
        else:
            return _b.sorted(x, key=key, reverse=reverse)
    if key is not None or reverse:
        raise Unsupported('sorted with a key')
    if isinstance(x, Set):
        return aslist(x.sorted())
    runs = []
    for it in items_of(x):
        if it[0] == 'v':
            runs.append((lin(it[1]), Lin(None, 1)))
        elif it[0] == 'run':
            runs.append((it[1], it[2]))
        elif it[0] == 'perm':
            runs += [(a + it[3], n) for a, n in it[2]]
        else:
            raise Unsupported('sorted')
    for i in _b.range(len(runs)):
        for k in _b.range(i):
            (p, n), (q, m) = runs[i], runs[k]
            if n.const() == 1 and m.const() == 1:
                continue
            if not (entge(q - (p + n)) or entge(p - (q + m))):
                raise Unsupported('sorted over overlapping runs')
    return aslist(simplify(Seq([('v', mk(a)) if n.const() == 1 else ('run', a, n) for a, n in order_runs(runs)])))


def aslist(x):
    return Seq(x.items, lst=True) if isinstance(x, Seq) else _b.list(x)


def s_zip(*xs, strict=False):
    if not _b.any(isinstance(x, (Seq, Set)) for x in xs):
        return _b.zip(*xs)
    return ZipGen([items_of(x) if symbolic(x) or isinstance(x, (_b.tuple, _b.list, _b.range, _np.ndarray)) else items_of(mkseq(x, False)) for x in xs])


def ZipGen(its):
    its = [_b.list(i) for i in its]
    while _b.all(its):
        heads = [i[0] for i in its]
        if _b.all(h[0] == 'v' for h in heads):
            for i in its:
                i.pop(0)
            yield _b.tuple(h[1] for h in heads)
            continue
        lens = [ilen(h) for h in heads]
        # shortest
        best = None
        for k in _b.range(len(lens)):
            if _b.all(entge(l - lens[k]) for l in lens):
                best = k
                break
        if best is None:
            for k in _b.range(1, len(lens)):
                sym.ge(lens[k] - lens[0])
            continue
        n = lens[best]
        if n.const() == 0:
            its[best].pop(0)
            continue
        if n.const() is not None and n.const() == 1:
            for k, h in enumerate(heads):
                if h[0] == 'perm' and not ent0(ilen(h) - 1):
                    raise Unsupported('first element of an unknown order')
        blk = []
        for k, h in enumerate(heads):
            if ent0(lens[k] - n):
                its[k].pop(0)
                blk.append(h)
            elif h[0] == 'run':
                its[k][0] = ('run', h[1] + n, h[2] - n)
                blk.append(('run', h[1], n))
            elif h[0] == 'rep':
                its[k][0] = ('rep', h[1], h[2] - n)
                blk.append(('rep', h[1], n))
            else:
                raise Unsupported('part of an unknown order')
        if n.const() == 1:
            yield _b.tuple(h[1] if h[0] in ('v', 'rep') else mk(h[1]) if h[0] == 'run' else mk(h[2][0][0] + h[3]) for h in blk)
            continue
        if CTX.consumer <= 0:
            raise Unsupported('iteration over sequences of symbolic length')
        j = f'j{next(CTX.fresh)}'
        CTX.enter(z3.Int(j) >= 0, z3.Int(j) < n.z3(), names=(j,))
        CTX.mult = (n, j)
        yield _b.tuple(sym.generic(h, j) for h in blk)
        CTX.leave()


def s_enumerate(x, start=0):
    if not isinstance(x, (Seq, Set)):
        return _b.enumerate(x, start)
    its = items_of(x)
    n = sum((ilen(i) for i in its), Lin())
    return ZipGen([[('run', lin(start), n)], its])


def s_max(*a, **k):
    if not symbolic(a):
        return _b.max(*a, **k)
    xs = a if len(a) > 1 else a[0]
    if isinstance(xs, (Seq, Set)):
        xs = s_sorted(xs)
        return xs[-1]
    return functools.reduce(lambda x, y: y if y > x else x, xs)


def s_min(*a, **k):
    if not symbolic(a):
        return _b.min(*a, **k)
    xs = a if len(a) > 1 else a[0]
    if isinstance(xs, (Seq, Set)):
        return s_sorted(xs)[0]
    return functools.reduce(lambda x, y: y if y < x else x, xs)


def s_isinstance(x, c):
    if c is bool and isinstance(x, SymBool):
        return True
    return _b.isinstance(x, c)


def s_reduce(f, xs, *init):
    if isinstance(xs, Seq):
        its = items_of(xs)
        acc = _b.list(init)
        for it in its:
            if it[0] == 'v':
                acc = [it[1]] if not acc else [f(acc[0], it[1])]
                continue
            if it[0] != 'rep' or not acc:
                raise Unsupported('fold over a symbolic sequence')
            acc = [fold_rep(f, acc[0], it[1], it[2])]
        return acc[0]
    if symbolic(xs) and not isinstance(xs, (_b.list, _b.tuple)):
        raise Unsupported('fold')
    return functools.reduce(f, xs, *init)


def fold_rep(f, acc, x, n):
    """lemma: folding  kron(., I2)  n times is  kron(., I)  with I of n qubits (and the same on the left)"""
    if x is None or not is_id2(x):
        raise Unsupported('fold over repeated values')
    CTX.kronlog = []
    f(acc, x)
    if len(CTX.kronlog) != 1:
        raise Unsupported('fold which is not a Kronecker product')
    a, b = CTX.kronlog[0]
    I = ten.identity(mk(n), sp=acc.bcoo if isinstance(acc, ten.T) else False)
    if a is acc and b is x:
        return ten.kron(acc, I)
    if b is acc and a is x:
        return ten.kron(I, acc)
    raise Unsupported('fold which is not a Kronecker product')


def is_id2(x):
    if isinstance(x, ten.T):
        try:
            return ten.equal(ten.dense(x), ten.identity(1))
        except ten.Differ:
            return False
    a = _np.asarray(x.todense() if hasattr(x, 'todense') else x)
    return a.shape == (2, 2) and _np.array_equal(a, _np.eye(2))


def cat(*parts):
    """(*a, b, *c)"""
    out, lst = [], False
    for k, x in parts:
        if k == 's':
            if isinstance(x, (Seq, Set, _b.tuple, _b.list, _b.range)):
                out += items_of(x)
            else:
                out += items_of(mkseq(x, False))
        else:
            out.append(('v', x))
    return simplify(Seq(out))


# ---------------------------------------------------------------- imported modules
class Guard:
    """a function of a library without a contract: usable on concrete values only"""
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        if symbolic(a) or symbolic(k):
            raise Unsupported(f'no contract for {getattr(self.f, "__name__", self.f)}')
        return self.f(*a, **k)

    def __getattr__(self, n):
        return getattr(self.f, n)


def over(f, real):
    def g(*a, **k):
        if symbolic(a) or symbolic(k):
            return f(*a, **k)
        return real(*a, **k)
    return g


class Proxy:
    def __init__(self, _mod, /, **ov):
        self.__dict__["_real"] = _mod
        self.__dict__['_ov'] = ov

    def __getattr__(self, n):
        if n in self._ov:
            return self._ov[n]
        r = getattr(self._real, n)
        if isinstance(r, types.ModuleType):
            r = module(r.__name__)
        elif callable(r) and not isinstance(r, type):
            r = Guard(r)
        self._ov[n] = r
        return r


def np_log2(x):
    return mk(log2(x))


def m_log(x, base=None):
    if base != 2:
        raise Unsupported('log')
    return mk(log2(x))


def mk_array(x, *a, **k):
    if isinstance(x, ten.T):
        return x
    if isinstance(x, (Seq, _b.tuple, _b.list)):
        its = items_of(x)
        if _b.all(it[0] != 'v' or isinstance(it[1], (_b.int, SymInt, _np.integer)) for it in its):
            return Seq(its, array=True)
        if isinstance(x, _b.list) and _b.all(isinstance(v, ten.T) for v in x):
            return ten.stack(x)
    raise Unsupported('array')


def arange(*a, **k):
    if not symbolic(a):
        return _np.arange(*a, **k)
    k.pop('dtype', None)
    a = _b.tuple(x for x in ((k.get('start'), k.get('stop')) if k else a) if x is not None)
    r = S_range(*a)
    return Seq(items_of(r), array=True)


def concatenate(xs, axis=0, **k):
    xs = _b.list(xs)
    if _b.all(isinstance(x, (ten.Part, ten.PartCat)) or not symbolic(x) for x in xs) and _b.any(isinstance(x, (ten.Part, ten.PartCat)) for x in xs):
        return ten.PartCat(xs)
    out = []
    for x in xs:
        if isinstance(x, ten.T):
            raise Unsupported('concatenate')
        out += items_of(x)
    return Seq(out, array=True)


def identity_fn(f=None, *a, **k):
    if f is None:
        return lambda g: g
    return f


def jconj(x):
    return x.conj()


def make_numpy(real):
    d = dict(tensordot=ten.tensordot, moveaxis=ten.moveaxis, transpose=ten.transpose, permute_dims=ten.transpose, swapaxes=ten.swapaxes, reshape=ten.reshape,
             ravel=ten.flatten, expand_dims=ten.expand_dims, multiply=ten.multiply, kron=ten.kron, dot=ten.dot, matmul=ten.matmul, vdot=ten.vdot,
             diagonal=ten.diagonal, trace=ten.trace, sum=ten.tsum, stack=ten.stack, abs=ten.tabs, absolute=ten.tabs, power=ten.power, float_power=ten.power,
             square=ten.square, conj=jconj, conjugate=jconj, real=lambda x: x.real, argsort=ten.argsort, log2=np_log2, array=mk_array, asarray=mk_array,
             concatenate=concatenate, eye=ten.eye, identity=ten.eye, ndim=lambda x: x.ndim, shape=lambda x: x.shape, size=lambda x: x.size, outer=ten.outer,
             einsum=ten.einsum)
    o = {n: over(f, getattr(real, n)) for n, f in d.items() if hasattr(real, n)}
    if real is not _np:
        o['eye'] = o['identity'] = ten.eye
    o['arange'] = arange if real is _np else over(arange, real.arange)
    return o


_mods = {}


def module(name):
    if name in _mods:
        return _mods[name]
    real = importlib.import_module(name)
    if name == 'jax':
        m = Proxy(real, Array=ten.T, vmap=ten.vmap, jit=identity_fn)
    elif name == 'jax.numpy':
        m = Proxy(real, ndarray=ten.T, **make_numpy(real))
    elif name == 'numpy':
        m = Proxy(real, **make_numpy(real))
    elif name == 'jax.lax':
        m = Proxy(real, transpose=over(ten.transpose, real.transpose), reshape=over(ten.reshape, real.reshape), conj=over(jconj, real.conj))
    elif name == 'jax.experimental.sparse':
        m = Proxy(real, BCOO=ten.TS, sparsify=identity_fn, bcoo_transpose=over(ten.transpose, real.bcoo_transpose), eye=ten.speye,
                  bcoo_reshape=over(ten.reshape, real.bcoo_reshape), todense=over(ten.dense, real.todense))
    elif name == 'jax.tree_util':
        m = Proxy(real, register_pytree_node_class=identity_fn)
    elif name == 'functools':
        m = Proxy(real, reduce=s_reduce, partial=functools.partial, singledispatch=functools.singledispatch, wraps=functools.wraps, lru_cache=functools.lru_cache,
                  cache=functools.cache)
    elif name == 'math':
        m = Proxy(real, log=over(m_log, math.log), log2=over(np_log2, math.log2))
    elif name == 'jax.experimental':
        m = Proxy(real)
    elif name.startswith(('jax', 'numpy')):
        m = Proxy(real)
    else:
        m = real
    _mods[name] = m
    return m


# ---------------------------------------------------------------- the modules of /repo
class Rewrite(ast.NodeTransformer):
    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name('__hv_list__', ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name('__hv_set__', ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])

    def _cat(self, n, wrap):
        return ast.Call(ast.Name(wrap, ast.Load()), [
            ast.Tuple([ast.Constant('s' if isinstance(e, ast.Starred) else 'v'), e.value if isinstance(e, ast.Starred) else e], ast.Load()) for e in n.elts], [])

    def visit_Tuple(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and _b.any(isinstance(e, ast.Starred) for e in n.elts):
            return self._cat(n, '__hv_cat__')
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and _b.any(isinstance(e, ast.Starred) for e in n.elts):
            return self._cat(n, '__hv_lcat__')
        return n

    def visit_Subscript(self, n):
        # annotations and type aliases such as Callable[[*A], B] are left alone
        return self.generic_visit(n)


def find(name):
    base = os.path.join(REPO, *name.split('.'))
    for p in (base + '.py', os.path.join(base, '__init__.py')):
        if os.path.exists(p):
            return p
    return None


class World:
    """one loading of the modules of /repo"""
    def __init__(self):
        self.mods = {}
        b = dict(vars(_b))
        b.update(tuple=S_tuple, list=S_list, set=S_set, int=S_int, range=S_range, len=s_len, all=s_all, any=s_any, sorted=s_sorted, zip=s_zip,
                 enumerate=s_enumerate, max=s_max, min=s_min, isinstance=s_isinstance, __import__=self.imp, __hv_list__=S_list, __hv_set__=S_set,
                 __hv_cat__=cat, __hv_lcat__=lambda *a: aslist(cat(*a)))
        self.builtins = b

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = find(name)
        src = open(path).read()
        tree = ast.fix_missing_locations(Rewrite().visit(ast.parse(src)))
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.builtins
        m.__file__ = path
        m.__package__ = name if path.endswith('__init__.py') else name.rpartition('.')[0]
        self.mods[name] = m
        importlib.import_module(name)            # dataclasses looks its module up
        exec(compile(tree, path, 'exec'), m.__dict__)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            pkg = pkg[:len(pkg) - level + 1]
            name = '.'.join(pkg + ([name] if name else []))
        if name == 'horqrux' or name.startswith('horqrux.'):
            return self.horqrux(name, fromlist)
        if fromlist:
            return module(name)
        importlib.import_module(name)
        return module(name.split('.')[0])

    def horqrux(self, name, fromlist):
        if not fromlist:
            raise Unsupported('import horqrux')
        p = find(name)
        if p is not None and p.endswith('__init__.py') and not name.startswith(REAL):
            ns = types.SimpleNamespace()
            for n in fromlist:
                if find(f'{name}.{n}'):
                    setattr(ns, n, self.horqrux(f'{name}.{n}', ('x',)))
                else:
                    setattr(ns, n, getattr(importlib.import_module(name), n))
            return ns
        if name.startswith(REAL) and name not in self.mods:
            return importlib.import_module(name)
        return self.load(name)
