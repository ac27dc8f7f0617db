"""The modules of /repo, loaded for the list engine: loops, comprehensions, generators and `is None` are rewritten to calls of
the engine (nothing else is changed, nothing is dropped); library functions keep their meaning on concrete values."""
from __future__ import annotations
import ast, builtins as _b, collections, dataclasses, functools, importlib, itertools, os, types
import z3
from ..una import sym
from ..una.load import Guard, Proxy as UProxy, find
from ..una.sym import CTX, Lin, SymBool, SymInt, Unsupported, lin, mk
from .val import *
from . import loop, val
from .loop import Loop, get

ABS = (A, P, AList, Obj, SymInt, SymBool, loop.Poison)


def symbolic(x, d=3):
    if isinstance(x, ABS) or hasattr(x, '__hv__'):
        return True
    if d and isinstance(x, (_b.list, _b.tuple, _b.set, frozenset)):
        return any(symbolic(y, d - 1) for y in x)
    if d and isinstance(x, dict):
        return any(symbolic(y, d - 1) for y in x.values())
    d2 = getattr(x, '__dict__', None)
    if d and isinstance(d2, dict) and type(x).__module__.startswith('horqrux'):
        return any(symbolic(y, d - 1) for y in d2.values())
    return False


class Proxy(UProxy):
    def __getattr__(self, n):
        if n not in self._ov and isinstance(_b.getattr(self._real, n), types.ModuleType):
            self._ov[n] = module(_b.getattr(self._real, n).__name__)
        return super().__getattr__(n)


# ---------------------------------------------------------------- rewriting
class Names(ast.NodeVisitor):
    """names stored and loaded in statements, not entering nested functions"""
    def __init__(self):
        self.st, self.ld = [], []

    def visit_Name(self, n):
        (self.ld if isinstance(n.ctx, ast.Load) else self.st).append(n.id)

    def visit_FunctionDef(self, n):
        self.st.append(n.name)
        inner = Names()
        for s in n.body:
            inner.visit(s)
        self.ld += [x for x in inner.ld]
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        inner = Names()
        inner.visit(n.body)
        a = {x.arg for x in n.args.args}
        self.ld += [x for x in inner.ld if x not in a]

    def _comp(self, n):
        bound = set()
        for g in n.generators:
            k = Names()
            k.visit(g.target)
            bound |= set(k.st)
        inner = Names()
        for g in n.generators:
            inner.visit(g.iter)
            for c in g.ifs:
                inner.visit(c)
        for f in ('elt', 'key', 'value'):
            if hasattr(n, f):
                inner.visit(getattr(n, f))
        self.ld += [x for x in inner.ld if x not in bound]
    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp


def names_of(nodes):
    v = Names()
    for n in nodes:
        v.visit(n)
    return v


def has_yield(fn):
    todo = list(fn.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(x))
    return False


def call(f, *a):
    return ast.Call(ast.Name(f, ast.Load()), list(a), [])


def name(x):
    return ast.Name(x, ast.Load())


class Rewrite(ast.NodeTransformer):
    def __init__(self, path):
        self.path, self.k, self.scope, self.loops, self.gen = path, 0, [], [], []

    def site(self):
        self.k += 1
        return f'{os.path.basename(self.path)}:{self.k}'

    # functions
    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        a = n.args
        a.defaults = [self.visit(d) for d in a.defaults]
        loc = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
        gen = has_yield(n)
        self.scope.append(loc | set(names_of(n.body).st))
        outer, self.loops = self.loops, []
        self.gen.append(gen)
        body = []
        for s in n.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        self.gen.pop()
        self.loops = outer
        self.scope.pop()
        if gen:
            body = [ast.Assign([ast.Name('hv_acc', ast.Store())], ast.List([], ast.Load()))] + body + [ast.Return(name('hv_acc'))]
            n.decorator_list = n.decorator_list + [name('__hv_gen__')]
        n.body = body
        return n

    def visit_ClassDef(self, n):
        sc, self.scope = self.scope, []
        lo, self.loops = self.loops, []
        ge, self.gen = self.gen, []
        n = self.generic_visit(n)
        self.scope, self.loops, self.gen = sc, lo, ge
        return n

    def visit_Lambda(self, n):
        self.scope.append({x.arg for x in n.args.args})
        n = self.generic_visit(n)
        self.scope.pop()
        return n

    def visit_Expr(self, n):
        v = n.value
        if self.gen and self.gen[-1] and isinstance(v, (ast.Yield, ast.YieldFrom)):
            x = self.visit(v.value) if v.value is not None else ast.Constant(None)
            # augmented assignment: the accumulator is a variable of the enclosing loops
            one = isinstance(v, ast.Yield)
            return ast.Assign([ast.Name('hv_acc', ast.Store())], call('__hv_acc1__' if one else '__hv_acc__', name('hv_acc'), x))
        return self.generic_visit(n)

    def visit_Yield(self, n):
        raise Unsupported('yield expression')
    visit_YieldFrom = visit_Yield

    def visit_Return(self, n):
        n = self.generic_visit(n)
        if self.gen and self.gen[-1]:
            n.value = name('hv_acc')
        for l in self.loops:
            n.value = call('__hv_ret__', name(l), n.value or ast.Constant(None))
        return n

    def visit_Break(self, n):
        if self.loops:
            return [ast.Expr(call('__hv_ret__', name(self.loops[-1]), ast.Constant(None))), n] if self.loops[-1] else n
        return n

    def visit_While(self, n):
        self.loops.append(None) if False else None
        return self.generic_visit(n)

    def visit_For(self, n):
        if not self.scope or n.orelse:
            return self.generic_visit(n)
        it = self.visit(n.iter)
        k = names_of(n.body + [n.target])
        loc = set().union(*self.scope[-1:])
        gen = self.gen and self.gen[-1]
        vs = sorted(x for x in set(k.st) | set(k.ld) if x in loc and not x.startswith('__hv'))
        if gen:
            vs.append('hv_acc')
        l = f'hv_l{self.k}_{len(self.loops)}'
        site = self.site()
        self.loops.append(l)
        body = []
        for s in n.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        self.loops.pop()
        cur = ast.Tuple([call('__hv_get__', ast.Lambda(ast.arguments([], [], None, [], [], None, []), name(v))) for v in vs], ast.Load())
        setv = lambda: [ast.Assign([ast.Tuple([ast.Name(v, ast.Store()) for v in vs], ast.Store())], ast.Attribute(name(l), 'state', ast.Load()))] if vs else []
        return [ast.Assign([ast.Name(l, ast.Store())], call('__hv_loop__', it, ast.Constant(site))),
                ast.While(ast.Call(ast.Attribute(name(l), 'more', ast.Load()), [cur], []),
                          setv() + [ast.Assign([n.target], ast.Attribute(name(l), 'item', ast.Load()))] + body, setv() or [ast.Pass()])]

    # comprehensions
    def _comp(self, n, elt, kind):
        gens = n.generators
        val_ = call('__hv_one__', elt)
        for g in reversed(gens):
            arg, body = 'hv_x', val_
            if isinstance(g.target, ast.Name):
                arg = g.target.id
                fn = lambda b: ast.Lambda(ast.arguments([], [ast.arg(arg)], None, [], [], None, []), b)
            elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                nm = [e.id for e in g.target.elts]
                fn = lambda b, nm=nm: call('__hv_unpack__', ast.Lambda(ast.arguments([], [ast.arg(x) for x in nm], None, [], [], None, []), b), ast.Constant(len(nm)))
            else:
                raise Unsupported('comprehension target')
            for c in reversed(g.ifs):
                body = ast.IfExp(self.visit(c), body, ast.Tuple([], ast.Load()))
            val_ = call('__hv_flat__', self.visit(g.iter), fn(body), ast.Constant(self.site()))
        return call(kind, val_)

    def visit_ListComp(self, n):
        return self._comp(n, self.visit(n.elt), '__hv_list__')

    def visit_GeneratorExp(self, n):
        return self._comp(n, self.visit(n.elt), '__hv_seq__')

    def visit_SetComp(self, n):
        return self._comp(n, self.visit(n.elt), '__hv_set__')

    def visit_DictComp(self, n):
        return self._comp(n, ast.Tuple([self.visit(n.key), self.visit(n.value)], ast.Load()), '__hv_dict__')

    # None
    def visit_Compare(self, n):
        n = self.generic_visit(n)
        if len(n.ops) == 1:
            a, b = n.left, n.comparators[0]
            if isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                r = call('__hv_is__', a, b)
                return r if isinstance(n.ops[0], ast.Is) else ast.UnaryOp(ast.Not(), r)
            if isinstance(n.ops[0], (ast.In, ast.NotIn)):
                r = call('__hv_in__', a, b)
                return r if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), r)
        return n

    def visit_Call(self, n):
        n = self.generic_visit(n)
        if any(isinstance(a, ast.Starred) for a in n.args) and not n.keywords:
            return call('__hv_star__', n.func, ast.Tuple([ast.Tuple([ast.Constant(isinstance(a, ast.Starred)), a.value if isinstance(a, ast.Starred) else a], ast.Load()) for a in n.args], ast.Load()))
        return n


def h_one(x):
    return (x,)


def h_unpack(f, k):
    def g(x):
        xs = parts(x)
        if len(xs) != k:
            raise ValueError('unpack')
        return f(*xs)
    return g


def concrete(it):
    return not any(isinstance(p, (Seg, Rep)) for p in it)


def h_flat(it, f, site):
    l = Loop(it, site)
    acc = ()
    while l.more((acc,)):
        acc, = l.state
        r = f(l.item)
        acc = acc + (tuple(r) if isinstance(r, list) else r)
    acc, = l.state
    return acc


def h_ret(l, v):
    if l is not None and l.seg is not None:
        raise Unsupported('leaving a loop over a list of any length')
    return v


def h_is(a, b):
    if isinstance(a, A) or isinstance(b, A):
        x, y = (a, b) if isinstance(a, A) else (b, a)
        if y is None:
            return decide(pred('is_none', x.z))
        if isinstance(y, _b.bool):
            return decide(pred(f'is_{y}', x.z))
        if isinstance(y, A):
            return decide(x.z == y.z)
        return False
    return a is b


def h_in(x, s):
    if isinstance(s, (Vals, ASet)):
        return s.has(x)
    if isinstance(s, AList):
        return s_any(h_flat(s, lambda y: (z3eq(x, y),), 'in'))
    if isinstance(s, (_b.tuple, _b.list, _b.set, frozenset, dict)) and (symbolic(x) or symbolic(_b.list(s))):
        return any(_b.bool(x == y) if not (x is y) else True for y in s)
    return x in s


def z3eq(x, y):
    a, b = term(x), term(y)
    if a is None or b is None:
        raise Unsupported('comparison')
    return SymBool(a == b)


def h_star(f, args):
    out = []
    for st, a in args:
        if st:
            ps = parts(a)
            if not concrete(ps):
                g = getattr(f, '__hv_star__', None)
                if g is None:
                    raise Unsupported('unpacked list as arguments')
                return g([x for s, b in args for x in (parts(b) if s else [b])])
            out += ps
        else:
            out.append(a)
    return f(*out)


def h_gen(f):
    """a generator collects what it yields; on a generic element inside its own execution its contract is assumed (structural induction)"""
    depth = [0]

    @functools.wraps(f)
    def g(*a, **k):
        if a and isinstance(a[-1], Obj) and CTX.contracts is not None:
            c = CTX.contracts.get(f.__qualname__.split('.')[-1])
            if c is not None and depth[0] >= 1:
                return c(a[-1])
        depth[0] += 1
        try:
            return f(*a, **k)
        finally:
            depth[0] -= 1
    return g


CTX.contracts = None
CTX.setiter = False


# ---------------------------------------------------------------- builtins
class Meta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, AList):
            return x.kind == cls.knd
        if isinstance(x, A):
            return decide(pred('is_' + cls.knd, x.z))
        return _b.isinstance(x, cls.real)

    def __subclasscheck__(cls, c):
        return _b.issubclass(c, cls.real)


def mkseq(kind, *a):
    if not a:
        return [] if kind == 'list' else ()
    ps = parts(a[0])
    return conc(kind, ps)


class S_tuple(_b.tuple, metaclass=Meta):
    knd, real = 'tuple', _b.tuple

    def __new__(cls, *a):
        return mkseq('tuple', *a) if cls is S_tuple else _b.tuple.__new__(cls, *a)


class S_list(_b.list, metaclass=Meta):
    knd, real = 'list', _b.list

    def __new__(cls, *a):
        return mkseq('list', *a) if cls is S_list else _b.list.__new__(cls)


class DMeta(type):
    def __instancecheck__(cls, x):
        return _b.isinstance(x, dict)

    def __subclasscheck__(cls, c):
        return _b.issubclass(c, dict)


class S_dict(dict, metaclass=DMeta):
    def __new__(cls, *a, **k):
        if _b.len(a) == 1 and not k and hasattr(a[0], 'hv_dict'):
            return a[0].hv_dict()
        if _b.len(a) == 1 and not k and DICT is not None and not _b.isinstance(a[0], dict) and hasattr(a[0], 'hv_parts') | _b.isinstance(a[0], AList):
            return mkdict(a[0])
        return dict(*a, **k)

    @staticmethod
    def fromkeys(keys, v=None):
        f = _b.getattr(keys, 'fromkeys', None)
        return f(v) if f is not None and hasattr(keys, '__hv__') else dict.fromkeys(keys, v)


class ASet:
    """set with segments; only membership, union, inclusion, order and size of the whole are used"""
    __hv__ = True

    def __init__(self, ps):
        self.ps = _b.list(ps)

    @property
    def union(self):
        return AUnion(self)

    def __or__(self, o):
        return ASet(self.ps + flat_sets([o]))

    def key(self):
        return self.ps

    def has(self, x):
        return s_any(h_flat(AList('tuple', self.ps), lambda y: (z3eq(x, y),), 'has'))

    def issubset(self, o):
        o = o if isinstance(o, ASet) else ASet(parts(o))
        for a, b in CTX.subsets:
            if eqparts(a.ps, self.ps) and eqparts(b.ps, o.ps):
                return decide(CTX.subq[(id(a), id(b))])
        if eqparts(self.ps, o.ps):
            return True
        q = z3.Bool(f'subset{len(CTX.subsets)}')
        CTX.subsets.append((self, o))
        CTX.subq[(id(self), id(o))] = q
        return decide(q)
    __le__ = issubset

    def __sub__(self, o):
        raise Unsupported('difference of sets')
    __and__ = __xor__ = __sub__

    def add(self, x):
        self.ps.append(x)

    def symlen(self):
        raise Unsupported('size of a set')

    def __iter__(self):
        raise Unsupported('iteration over a set')

    @property
    def hv_parts(self):
        """elements, with repetitions and in no particular order: only for a result that is a set again"""
        if not CTX.setiter:
            raise Unsupported('iteration over a set')
        return self.ps

    def __eq__(self, o):
        raise Unsupported('comparison of sets')
    __hash__ = None


class AUnion:
    def __init__(self, s):
        self.s = s

    def __call__(self, *others):
        return ASet(self.s.ps + flat_sets(others))

    def __hv_star__(self, ps):
        return ASet(self.s.ps + flat_sets(ps))


def s_set(*a):
    if not a:
        return S_set0()
    x = a[0]
    if isinstance(x, ASet):
        return ASet(x.ps)
    if hasattr(x, 'hv_set'):
        return x.hv_set()
    ps = parts(x)
    if concrete(ps) and not symbolic(ps):
        return _b.set(ps)
    return ASet(ps)


class S_set0(_b.set):
    """the empty set"""
    @property
    def union(self):
        return Union(self)


class Union:
    def __init__(self, s):
        self.s = s

    def __call__(self, *o):
        if any(symbolic(x) for x in o) or symbolic(self.s):
            return ASet(parts_set(self.s)).union(*o)
        return _b.set(self.s).union(*o)

    def __hv_star__(self, ps):
        """union of a list of sets of any length"""
        return ASet(parts_set(self.s) + flat_sets(ps))


def parts_set(x):
    return x.ps if isinstance(x, ASet) else parts(x)


def flat_sets(ps):
    out = []
    for p in ps:
        if isinstance(p, Seg):
            out.append(Seg(p.base, p.rev, [(c, _b.tuple(flat_sets(i))) for c, i in p.cases]))
        elif isinstance(p, Rep):
            raise Unsupported('union of a repetition')
        else:
            out += parts_set(p)
    return out


def s_len(x):
    if hasattr(x, 'symlen'):
        return x.symlen()
    return _b.len(x)


def s_iter(x, *a):
    if a:
        return _b.iter(x, *a)
    if isinstance(x, AList):
        return AList('list', x.resolve())
    it = getattr(type(x), '__iter__', None)
    if it is not None and type(x).__module__.startswith('horqrux'):
        return it(x)
    return _b.iter(x)


def s_map(f, *its):
    it = its[0] if len(its) == 1 else s_zip(*its)
    g = (lambda x: (f(x),)) if len(its) == 1 else (lambda x: (f(*x),))
    return h_flat(it, g, f'map:{code(f)}')


def code(f):
    c = getattr(f, '__code__', None)
    return f'{c.co_firstlineno}' if c is not None else getattr(f, '__name__', 'f')


def s_filter(f, it):
    return h_flat(it, lambda x: (x,) if (x if f is None else f(x)) else (), f'filter:{code(f)}')


def s_reduce(f, it, *init):
    l = Loop(it, f'reduce:{code(f)}')
    if init:
        acc = init[0]
    else:
        lst = AList('list', l.parts)
        if not lst.resolve():
            raise TypeError('reduce() of empty iterable with no initial value')
        try:
            lst.first(False)
        except IndexError:
            raise TypeError('reduce() of empty iterable with no initial value')
        acc = lst.parts[0]
        l.todo = lst.parts[1:]
    while l.more((acc,)):
        acc, = l.state
        acc = f(acc, l.item)
    acc, = l.state
    return acc


def total(ps):
    """the sum of numbers which know how to be summed over a list of any length (hv/lst/grad.py)"""
    out, some = None, False
    for p in ps:
        if isinstance(p, Seg):
            xs = [(c, x) for c, i in p.cases for x in i]
        else:
            xs = [(None, p)]
        for c, x in xs:
            if not hasattr(x, 'hv_total'):
                return None
            some = some or c is not None
            y = x if c is None else x.hv_total(p.base, c)
            out = y if out is None else out + y
    return out if some else None


def s_sum(it, start=0):
    ps = parts(it)
    if not ps:
        return start
    r = total(ps)
    if r is not None:
        return r if isinstance(start, int) and start == 0 else start + r
    if start == 0 and not concrete(ps):
        return s_reduce(lambda a, b: a + b, it)
    return s_reduce(lambda a, b: a + b if not (isinstance(a, int) and a == 0) else b, ps, start)


zip_ = _b.zip


def isnone(h):
    return isinstance(h, Seg) and len(h.cases) == 1 and h.uniform() == 1 and (h.cases[0][1][0] is None or isinstance(h.cases[0][1][0], A) and ent(pred('is_none', h.cases[0][1][0].z)))


def aligned(hs):
    """segments over one base in the same order, with several cases: one item per element each, or filtered by the same conditions"""
    if not all(isinstance(h, Seg) for h in hs):
        return None
    h0 = hs[0]
    if not all(h.base.name == h0.base.name and h.rev == h0.rev for h in hs):
        return None
    cs = [[(c, i) for c, i in h.cases] for h in hs]
    if all(_b.len(c) == _b.len(cs[0]) and all(_b.len(x[0]) == _b.len(y[0]) and all(p.eq(q) for p, q in zip_(x[0], y[0])) and _b.len(x[1]) == _b.len(y[1]) for x, y in zip_(c, cs[0])) for c in cs):
        return Seg(h0.base, h0.rev, [(c0[0], _b.tuple(zip_(*[c[k][1] for c in cs]))) for k, c0 in _b.enumerate(cs[0])])
    if all(h.uniform() == 1 for h in hs):
        return Seg(h0.base, h0.rev, [(_b.tuple(x for c, _ in combo for x in c), (_b.tuple(i[0] for _, i in combo),)) for combo in itertools.product(*cs)])
    return None


def s_zip(*its, strict=False):
    for i in its:
        if hasattr(i, 'hv_zip'):
            r = i.hv_zip(its)
            if r is not NotImplemented:
                return r
    ps = [AList('tuple', parts(i)) for i in its]
    if all(concrete(p.parts) for p in ps):
        return _b.list(_b.zip(*[p.parts for p in ps]))
    out = []
    qs = [p.parts for p in ps]
    while True:
        live = [q for q in qs if not q]
        if live:
            if all(not q for q in qs):
                break
            # some list is exhausted: zip stops (the rest may be of length zero)
            rest = [AList('tuple', q).symlen() for q in qs if q]
            if strict and any(_b.bool(r != 0) for r in rest):
                raise ValueError('zip() arguments have different lengths')
            break
        hs = [q[0] for q in qs]
        if all(isinstance(h, Seg) for h in hs) and all(eqbase(h.base, hs[0].base) and h.rev == hs[0].rev and len(h.cases) == 1 and h.uniform() == 1 for h in hs):
            b = hs[0].base
            out.append(Seg(b, hs[0].rev, [((), (_b.tuple(sub(h.cases[0][1][0], h.base.var, b.var) for h in hs),))]))
            qs = [q[1:] for q in qs]
        elif aligned(hs) is not None:
            out.append(aligned(hs))
            qs = [q[1:] for q in qs]
        elif any(isnone(h) for h in hs) and not all(isnone(h) for h in hs):
            # all its elements are None
            qs = [[Rep(None, h.base.length())] + q[1:] if isnone(h) else q for h, q in zip_(hs, qs)]
        elif all(isinstance(h, Rep) for h in hs):
            raise Unsupported('zip of repetitions')
        elif any(isinstance(h, Rep) for h in hs) and any(isinstance(h, Seg) for h in hs):
            sg = [h for h in hs if isinstance(h, Seg)]
            if not all(eqbase(h.base, sg[0].base) and h.rev == sg[0].rev and len(h.cases) == 1 and h.uniform() == 1 for h in sg):
                raise Unsupported('zip')
            b, n = sg[0].base, sg[0].base.length()
            if not all(entge(h.n - n) for h in hs if isinstance(h, Rep)):
                raise Unsupported('zip with a shorter repetition')
            out.append(Seg(b, sg[0].rev, [((), (_b.tuple(h.value if isinstance(h, Rep) else sub(h.cases[0][1][0], h.base.var, b.var) for h in hs),))]))
            qs = [q[1:] if isinstance(q[0], Seg) or ent0(q[0].n - n) else [Rep(q[0].value, q[0].n - n)] + q[1:] for q in qs]
        else:
            for i, h in enumerate(hs):
                if isinstance(h, Seg):
                    t = AList('tuple', qs[i])
                    try:
                        t.first(False)
                        qs[i] = t.parts
                    except IndexError:
                        qs[i] = []
                elif isinstance(h, Rep):
                    if decide(h.n.z3() == 0):
                        qs[i] = qs[i][1:]
                    else:
                        qs[i] = [h.value, Rep(h.value, h.n - Lin(None, 1))] + qs[i][1:]
            if any(not q for q in qs):
                continue
            out.append(_b.tuple(q[0] for q in qs))
            qs = [q[1:] for q in qs]
    return conc('list', out)


def s_any(it):
    return not s_all_(it, True)


def s_all(it):
    return s_all_(it, False)


def s_all_(it, neg):
    ps = parts(it)
    if concrete(ps) and not symbolic(ps):
        return not _b.any(ps) if neg else _b.all(ps)
    for p in ps:
        if isinstance(p, Seg):
            for c, items in p.cases:
                for x in items:
                    if isinstance(x, A):
                        z = pred('truth', x.z)
                    elif isinstance(x, SymBool):
                        z = x.z
                    elif isinstance(x, (_b.bool, _b.int, _b.str, type(None))):
                        z = z3.BoolVal(_b.bool(x))
                    else:
                        raise Unsupported('truth of an element')
                    z = z3.Not(z) if neg else z
                    if not val.forall(p.base, z3.Implies(z3.And(*c), z) if c else z):
                        return False
        elif isinstance(p, Rep):
            raise Unsupported('any/all')
        elif _b.bool(p) == neg:
            return False
    return True


def s_sorted(x, key=None, reverse=False):
    if isinstance(x, ASet):
        return AList('list', [Seg(setbase(x), False, [((), (A(setbase(x).var),))])])
    ps = parts(x)
    if concrete(ps) and not symbolic(ps):
        return _b.sorted(ps, key=key, reverse=reverse)
    return ordered(AList('list', ps), key, reverse)


def setbase(x):
    for s, b in CTX.setbases:
        if eqparts(s.ps, x.ps):
            return b
    b = Base(f'set{len(CTX.setbases)}', A)
    CTX.setbases.append((x, b))
    return b


def s_isinstance(x, c):
    if isinstance(c, _b.tuple):
        return _b.any(s_isinstance(x, y) for y in c)
    if isinstance(c, Meta):
        return _b.isinstance(x, c)
    if isinstance(x, Obj) and isinstance(c, type):
        if _b.isinstance(x, c):
            return True
        h = getattr(x, 'is_a', None)
        if h is not None:
            return h(c)
    if isinstance(x, A):
        if c is None:
            return False
        n = getattr(c, '__name__', None)
        if n is None:
            raise Unsupported('isinstance')
        return decide(pred('is_' + n, x.z))
    if isinstance(x, (SymInt,)):
        return c is _b.int
    return _b.isinstance(x, c)


def s_enumerate(x, start=0):
    ps = parts(x)
    if concrete(ps):
        return _b.enumerate(ps, start)
    if start != 0:
        raise Unsupported('enumerate')
    out = []
    for p in ps:
        if not isinstance(p, Seg) or p.rev or p.uniform() != 1 or len(ps) != 1:
            raise Unsupported('enumerate')
        out.append(Seg(p.base, False, [(c, ((A(uf('index', p.base.var)), i[0]),)) for c, i in p.cases]))
    return AList('list', out)


def s_hasattr(x, n):
    if isinstance(x, Obj):
        h = _b.getattr(x, 'has', None)
        if h is not None:
            return h(n)
    return _b.hasattr(x, n)


def s_min(*a, **k):
    if len(a) == 2 and not k and any(isinstance(x, SymInt) for x in a):
        return a[0] if _b.bool(a[0] <= a[1]) else a[1]
    return _b.min(*a, **k)


def s_max(*a, **k):
    if len(a) == 1 and not k and symbolic(a[0]):
        ps = parts(a[0])
        if len(ps) == 1 and isinstance(ps[0], Seg) and len(ps[0].cases) == 1 and len(ps[0].cases[0][1]) == 1 and hasattr(ps[0].cases[0][1][0], 'hv_max'):
            return ps[0].cases[0][1][0].hv_max(ps[0].base)
        raise Unsupported('max')
    return _b.max(*a, **k)


def s_reversed(x):
    ps = parts(x)
    return conc('list', [rev(p) for p in ps[::-1]])


def s_range(*a):
    if not any(isinstance(x, SymInt) for x in a):
        return _b.range(*a)
    if len(a) != 1:
        raise Unsupported('range')
    n = a[0].l
    # the integers below n: a list of length n
    b = Base(f'range:{n!r}', lambda z: A(uf('int', z)))
    CTX.solver.add(b.length().z3() == z3.If(n.z3() >= 0, n.z3(), 0))
    return AList('list', [Seg(b, False, [((), (A(uf('int', b.var)),))])])


def s_getattr(x, n, *d):
    return _b.getattr(x, str(n.value) if hasattr(n, 'value') else n, *d)


def acc1(acc, x):
    return acc + [x]


def acc_(acc, x):
    return acc + parts_list(x)


def parts_list(x):
    ps = parts(x)
    return conc('list', ps)


class Vals:
    """the dictionary of values given by the user"""
    __hv__ = True

    def __init__(self, z):
        self.z = z

    def __getitem__(self, k):
        z = term(k)
        if z is None:
            raise Unsupported('key')
        if not decide(pred('has', self.z, z)):
            raise KeyError(k)
        return A(uf('value', self.z, z))

    def has(self, k):
        return decide(pred('has', self.z, term(k)))
    __contains__ = has

    def get(self, k, d=None):
        return self[k] if self.has(k) else d

    def _frozen(self, *a, **k):
        raise Mutation('the values are changed in place')
    __setitem__ = __delitem__ = update = pop = setdefault = clear = popitem = _frozen

    def __iter__(self):
        raise Unsupported('keys of the values')
    values = items = __len__ = __iter__

    def keys(self):
        return self

    def __bool__(self):
        return decide(pred('nonempty', self.z))


# ---------------------------------------------------------------- modules
_mods = {}


def ident(f=None, *a, **k):
    return f if callable(f) else (lambda g: g)


def over(f, real):
    def g(*a, **k):
        if any(symbolic(x) for x in a) or any(symbolic(x) for x in k.values()):
            return f(*a, **k)
        return real(*a, **k)
    return g


def arr(x, *a, **k):
    return x


def stack_(xs, axis=0, **k):
    return Stack(AList('tuple', parts(xs)), axis)


class Stack:
    __hv__ = True

    def __init__(self, items, axis):
        self.items, self.axis = items, axis

    def sum(self, axis=None):
        if self.axis != 0 or axis not in (-1, 1):
            raise Unsupported('sum of a stack')
        return Stack(h_flat(self.items, lambda x: (x.sum(),), 'stack.sum'), 0)

    def __add__(self, o):
        if not isinstance(o, Stack) or self.axis != o.axis:
            raise Unsupported('sum of stacks')
        return Stack(h_flat(s_zip(self.items, o.items), lambda xy: (xy[0] + xy[1],), 'stack.add'), self.axis)


def module(nm):
    if nm in _mods:
        return _mods[nm]
    real = importlib.import_module(nm)
    if nm == 'jax':
        m = Proxy(real, Array=PArr, jit=ident)
    elif nm in ('jax.numpy', 'numpy'):
        m = Proxy(real, array=over(arr, real.array), asarray=over(arr, real.asarray), stack=over(stack_, real.stack))
    elif nm == 'jax.experimental.sparse':
        m = Proxy(real, BCOO=PSp, sparsify=ident)
    elif nm == 'jax.tree_util':
        m = Proxy(real, register_pytree_node_class=ident)
    elif nm == 'functools':
        m = types.SimpleNamespace(reduce=s_reduce, partial=functools.partial, singledispatch=dispatch, wraps=functools.wraps, lru_cache=functools.lru_cache,
                                  cache=functools.cache, cached_property=functools.cached_property)
    elif nm == 'itertools':
        m = types.SimpleNamespace(**{k: Guard(v) for k, v in vars(real).items() if not k.startswith('_')})
        m.chain = types.SimpleNamespace(from_iterable=lambda its: h_flat(its, lambda x: parts_tuple(x), 'chain'))
    elif nm.startswith(('jax', 'numpy')):
        m = Proxy(real)
    else:
        m = real
    _mods[nm] = m
    return m


def parts_tuple(x):
    return conc('tuple', parts(x))


def dispatch(f):
    """functools.singledispatch; a generic operation forks on its class"""
    d = functools.singledispatch(f)
    reg = []

    class D:
        __name__ = getattr(f, '__name__', 'f')
        __wrapped__ = f

        def register(self, *a):
            r = d.register(*a)
            reg.append(1)
            return r

        def __call__(self, x, *a, **k):
            if isinstance(x, Obj) and getattr(x, 'is_a', None) and not getattr(x, 'real_class', False):
                c = (CTX.contracts or {}).get(self.__name__)
                if c is not None:
                    return c(x, *a, **k)
                raise Unsupported('dispatch on a generic operation')
            return d(x, *a, **k)

        @property
        def registry(self):
            return d.registry
        dispatch = staticmethod(d.dispatch)
    return D()


REAL = ('horqrux.matrices',)


class World:
    def __init__(self):
        self.mods = {}
        b = dict(vars(_b))
        b.update(dict=S_dict, tuple=S_tuple, list=S_list, set=s_set, len=s_len, all=s_all, any=s_any, sorted=s_sorted, zip=s_zip, map=s_map, filter=s_filter, sum=s_sum,
                 iter=s_iter, enumerate=s_enumerate, reversed=s_reversed, range=s_range, isinstance=s_isinstance, getattr=s_getattr, hasattr=s_hasattr, min=s_min, max=s_max, __import__=self.imp,
                 __hv_loop__=Loop, __hv_get__=get, __hv_one__=h_one, __hv_flat__=h_flat, __hv_unpack__=h_unpack, __hv_list__=lambda x: parts_list(x), __hv_seq__=lambda x: x,
                 __hv_set__=s_set, __hv_dict__=mkdict, __hv_ret__=h_ret, __hv_is__=h_is, __hv_in__=h_in, __hv_star__=h_star, __hv_gen__=h_gen, __hv_acc1__=acc1, __hv_acc__=acc_)
        self.builtins = b

    def load(self, nm):
        if nm in self.mods:
            return self.mods[nm]
        path = find(nm)
        if path is None:
            raise ImportError(nm)
        pkg = path.endswith('__init__.py')
        parent, _, last = nm.rpartition('.')
        if parent and parent != 'horqrux':
            self.load(parent)
            if nm in self.mods:
                return self.mods[nm]
        m = types.ModuleType(nm)
        m.__dict__['__builtins__'] = self.builtins
        m.__file__ = path
        m.__package__ = nm if pkg else parent
        self.mods[nm] = m
        tree = ast.fix_missing_locations(Rewrite(path).visit(ast.parse(open(path).read())))
        exec(compile(tree, path, 'exec'), m.__dict__)
        if parent in self.mods:
            setattr(self.mods[parent], last, m)
        return m

    def imp(self, nm, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            pkg = pkg[:len(pkg) - level + 1]
            nm = '.'.join(pkg + ([nm] if nm else []))
        if nm == 'horqrux' or nm.startswith('horqrux.'):
            if not fromlist:
                raise Unsupported('import horqrux')
            if nm == 'horqrux':
                return types.SimpleNamespace(**{n: self.load('horqrux.' + n) for n in fromlist})
            if nm in REAL:
                return importlib.import_module(nm)
            m = self.load(nm)
            for n in fromlist:
                if not hasattr(m, n) and find(f'{nm}.{n}'):
                    self.load(f'{nm}.{n}')
            return m
        if fromlist:
            return module(nm)
        importlib.import_module(nm)
        return module(nm.split('.')[0])


class ADict:
    __hv__ = True

    def __init__(self, ps):
        self.ps = ps


DICT = None           # how dictionaries with any number of entries are represented (hv/lst/gradj.py)


def mkdict(x):
    ps = parts(x)
    if concrete(ps) and not any(symbolic(p[0]) for p in ps):
        return dict(ps)
    return (DICT or ADict)(ps)
