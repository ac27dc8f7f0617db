"""Abstract values of the list engine: opaque terms, operator words, lists with segments of any length.

A list is a sequence of known elements and segments; a segment stands for the elements of an arbitrary list (its base), each
mapped to the same expression of the element.  Every question about an element or a length that the path does not settle forks."""
from __future__ import annotations
import builtins as _b
import z3
from ..una import sym
from ..una.sym import CTX, Lin, SymBool, SymInt, Unsupported, ent0, entge, lin, mk

V = z3.DeclareSort('V')
_uf = {}


def uf(name, *args, sort=None):
    """application of an uninterpreted function"""
    so = [a.sort() for a in args] + [V if sort is None else sort]
    k = (name, tuple(map(str, so)))
    if k not in _uf:
        _uf[k] = z3.Function(name, *so)
    return _uf[k](*args)


def const(name):
    return z3.Const(name, V)


def pred(name, *args):
    return uf(name, *args, sort=z3.BoolSort())


def decide(c):
    return CTX.decide(z3.simplify(c))


def ent(c):
    c = z3.simplify(c)
    return True if z3.is_true(c) else False if z3.is_false(c) else CTX.entailed(c)


class A:
    """an opaque value"""
    def __init__(self, z, cls=None):
        self.z, self.cls = z, cls

    def __eq__(self, o):
        if o is None:
            return decide(pred('is_none', self.z))
        z = term(o)
        return NotImplemented if z is None else (True if z.eq(self.z) else decide(self.z == z))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        raise Unsupported('hash of an opaque value')

    def __bool__(self):
        return decide(pred('truth', self.z))

    def __iter__(self):
        raise Unsupported('iteration over an opaque value')

    def symlen(self):
        z = uf('len', self.z, sort=z3.IntSort())
        n = 'len(' + str(self.z) + ')'
        CTX.solver.add(z3.Int(n) == z, z >= 0)
        return mk(Lin({n: 1}))

    def __mul__(self, o):
        if isinstance(o, A):
            return A(uf('mul', self.z, o.z))
        return NotImplemented

    def __add__(self, o):
        z = term(o)
        return NotImplemented if z is None else A(uf('add', self.z, z))

    def __radd__(self, o):
        z = term(o)
        return NotImplemented if z is None else A(uf('add', z, self.z))

    def __repr__(self):
        return f'<{self.z}>'


_lit = {}


def term(o):
    """the term of a simple value"""
    if isinstance(o, A):
        return o.z
    if isinstance(o, _b.str) or o is None or isinstance(o, (_b.int, _b.float, _b.bool, _b.tuple)):
        k = (type(o).__name__, repr(o))
        return const('lit:%s:%s' % k)
    if isinstance(o, Obj):
        return o.z
    return None


class Obj:
    """an opaque operation (a gate, or a sequence of any kind): only its term is known"""
    z = None


# ---------------------------------------------------------------- operator words
class P:
    """sum of (coefficients, word); a word is a tuple of factors in the order they are applied.  kind: 'mat' or a kind of state"""
    kind = 'mat'

    def __init__(self, terms):
        self.terms = _b.tuple(terms)

    def new(self, terms):
        return type(self)(terms)

    def __matmul__(self, o):
        # self @ o: o is applied first
        if not isinstance(o, P):
            return NotImplemented
        return o.new([(c1 + c2, w2 + w1) for c1, w1 in self.terms for c2, w2 in o.terms])

    def __add__(self, o):
        if isinstance(o, P) and type(o) is type(self):
            return self.new(self.terms + o.terms)
        return NotImplemented

    def __mul__(self, o):
        z = term(o)
        return NotImplemented if z is None else self.new([(c + (z,), w) for c, w in self.terms])
    __rmul__ = __mul__

    def act(self, *factors):
        return self.new([(c, w + factors) for c, w in self.terms])

    def __eq__(self, o):
        raise Unsupported('comparison of states or matrices')
    __hash__ = None

    @property
    def shape(self):
        raise Unsupported('shape')

    def __repr__(self):
        return ' + '.join('*'.join(map(str, c)) + '·' + '›'.join(show(f) for f in w) for c, w in self.terms)[:400] or '0'


class PArr(P):
    kind = 'arr'


class PSp(P):
    kind = 'sp'


def show(f):
    return f[0] + '(' + ','.join(str(x) if not isinstance(x, (list, tuple)) else '..' for x in f[1:]) + ')'


def leaf(z):
    return P([((), (('op', z),))])


# ---------------------------------------------------------------- lists
class Base:
    """an arbitrary list; rep: its generic element"""
    def __init__(self, name, make, preds=(), args=()):
        self.name, self.make, self.preds, self.args = name, make, tuple(preds), tuple(args)
        self.var = const('el:' + name)

    def __repr__(self):
        return self.name

    def length(self):
        n = 'len:' + self.name
        CTX.solver.add(z3.Int(n) >= 0)
        CTX.vars.add(n)
        return Lin({n: 1})


def facts(base, z):
    CTX.insts.setdefault(base.name, []).append(z)
    CTX.cache, CTX.models = {}, []
    for p in base.preds:
        CTX.solver.add(p(z))
    for v, c in CTX.univ.get(base.name, ()):
        CTX.solver.add(z3.substitute(c, (v, z)))


def universal(base, c):
    """c(rep) holds for every element of the base"""
    a = CTX.alias.get(base.name)
    if a is not None:                       # the same elements in another order
        universal(a, z3.substitute(c, (base.var, a.var)))
        CTX.solver.add(c)
        for z in CTX.insts.get(base.name, ()):
            CTX.solver.add(z3.substitute(c, (base.var, z)))
        CTX.cache, CTX.models = {}, []
        return
    CTX.univ.setdefault(base.name, []).append((base.var, c))
    CTX.solver.add(c)
    for z in CTX.insts.get(base.name, ()):
        CTX.solver.add(z3.substitute(c, (base.var, z)))
    CTX.cache, CTX.models = {}, []


class Seg:
    """for each element of base (from the last to the first when rev): the items of the case that applies"""
    def __init__(self, base, rev, cases):
        self.base, self.rev, self.cases = base, rev, tuple((tuple(c), tuple(i)) for c, i in cases)

    def uniform(self):
        """number of items per element"""
        ns = {len(i) if not any(isinstance(x, Seg) for x in i) else None for c, i in self.cases}
        return ns.pop() if len(ns) == 1 else None

    def __repr__(self):
        return f'[{self.base.name}{"~" if self.rev else ""}: {self.cases}]'[:200]


class Rep:
    """a value, repeated"""
    def __init__(self, value, n):
        self.value, self.n = value, n


def sub(v, a, b):
    """v with the term a replaced by b"""
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, (a, b))
    if isinstance(v, A):
        return A(z3.substitute(v.z, (a, b)), v.cls)
    if isinstance(v, Obj):
        return v.again(z3.substitute(v.z, (a, b)))
    if isinstance(v, P):
        return v.new([(tuple(sub(x, a, b) for x in c), tuple(sub(f, a, b) for f in w)) for c, w in v.terms])
    if isinstance(v, Seg):
        return Seg(sub(v.base, a, b), v.rev, sub(v.cases, a, b))
    if isinstance(v, Base):
        if not v.args:
            return v
        args = tuple(sub(x, a, b) for x in v.args)
        return v if all(x.eq(y) for x, y in zip(args, v.args)) else v.derive(args)
    if isinstance(v, SymBool):
        return SymBool(z3.substitute(v.z, (a, b)))
    if isinstance(v, AList):
        return AList(v.kind, [sub(p, a, b) for p in v.parts])
    if hasattr(v, 'ps') and hasattr(v, '__hv__'):
        return type(v)([sub(p, a, b) for p in v.ps])
    if type(v) is _b.tuple:
        return tuple(sub(x, a, b) for x in v)
    if type(v) is _b.list:
        return [sub(x, a, b) for x in v]
    if v is None or isinstance(v, (_b.int, _b.float, _b.str)):
        return v
    if hasattr(v, 'hv_sub'):
        return v.hv_sub(a, b)
    if isinstance(v, SymInt):
        if any(mentions(z3.Int(n), a) for n in v.l.co) or any(str(a) in n for n in v.l.co):
            raise Unsupported('length which depends on the element')
        return v
    raise Unsupported(f'element expression of type {type(v).__name__}')


def mentions(v, a):
    """does the value depend on the term a (a z3 constant)"""
    if isinstance(v, z3.ExprRef):
        todo, seen = [v], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.eq(a):
                return True
            todo += x.children()
        return False
    if isinstance(v, (A, Obj, SymBool)):
        return mentions(v.z, a)
    if hasattr(v, 'hv_mentions'):
        return v.hv_mentions(a)
    if isinstance(v, P):
        return mentions(v.terms, a)
    if isinstance(v, Seg):
        return mentions(v.base.args, a) or mentions(v.cases, a)
    if isinstance(v, AList):
        return mentions(v.parts, a)
    if isinstance(v, Rep):
        return mentions(v.value, a)
    if hasattr(v, 'ps') and hasattr(v, '__hv__'):
        return mentions(v.ps, a)
    if isinstance(v, SymInt):
        return any(str(a) in n for n in v.l.co)
    if isinstance(v, Base):
        return mentions(v.args, a)
    if isinstance(v, (_b.tuple, _b.list)):
        return any(mentions(x, a) for x in v)
    return False


class AList:
    """list, tuple or set with segments of any length"""
    frozen = False

    def __init__(self, kind, parts, frozen=False):
        self.kind, self.parts, self.frozen = kind, [p for p in parts if not (isinstance(p, Rep) and p.n.const() == 0)], frozen

    # -- structure
    def resolve(self):
        """parts, with the splits of the bases made on this path"""
        out, todo = [], list(self.parts)
        while todo:
            p = todo.pop(0)
            if isinstance(p, Seg):
                if ent0(p.base.length()):
                    continue
                s = CTX.splits.get(p.base.name)
                if s is not None:
                    todo = expand(p, s) + todo
                    continue
            out.append(p)
        self.parts = out
        return out

    def symlen(self):
        n = Lin()
        for p in self.resolve():
            if isinstance(p, Seg):
                u = p.uniform()
                if u is None:
                    raise Unsupported('length of a filtered list')
                n = n + p.base.length().scale(u)
            elif isinstance(p, Rep):
                n = n + p.n
            else:
                n = n + Lin(None, 1)
        return mk(n)

    def __bool__(self):
        return _b.bool(self.symlen() != 0)

    def __iter__(self):
        if all(not isinstance(p, (Seg, Rep)) for p in self.resolve()):
            return iter(list(self.parts))
        raise Unsupported('native iteration over an abstract list')

    def first(self, end):
        """make the first (or last) part an element"""
        ps = self.resolve()
        if not ps:
            raise IndexError('index out of range')
        p = ps[-1] if end else ps[0]
        if isinstance(p, Rep):
            raise Unsupported('element of a repetition')
        if not isinstance(p, Seg):
            return
        if decide(p.base.length().z3() == 0):
            return self.first(end)
        if p.uniform() != 1:
            raise Unsupported('element of a filtered list')
        split(p.base, p.rev != end)
        self.first(end)

    def __getitem__(self, i):
        if isinstance(i, slice):
            ps = self.resolve()
            a, b, s = i.start, i.stop, i.step
            if s == -1 and a is None and b is None:
                return AList(self.kind, [rev(p) for p in ps[::-1]])
            if s not in (None, 1) or isinstance(a, SymInt) or isinstance(b, SymInt):
                raise Unsupported('slice')
            t = AList(self.kind, ps)
            for _ in range(a or 0) if (a or 0) >= 0 else ():
                if not t.resolve():
                    break
                try:
                    t.first(False)
                except IndexError:
                    break
                t = AList(self.kind, t.parts[1:])
            if a is not None and a < 0:
                raise Unsupported('slice')
            if b is not None:
                if b >= 0:
                    out = []
                    for _ in range(b - (a or 0)):
                        try:
                            t.first(False)
                        except IndexError:
                            break
                        out.append(t.parts[0])
                        t = AList(self.kind, t.parts[1:])
                    return conc(self.kind, out)
                for _ in range(-b):
                    try:
                        t.first(True)
                    except IndexError:
                        break
                    t = AList(self.kind, t.parts[:-1])
            return t
        if isinstance(i, _b.int):
            t = AList(self.kind, self.resolve())
            for _ in range(i if i >= 0 else -i - 1):
                t.first(i < 0)
                t = AList(self.kind, t.parts[1:] if i >= 0 else t.parts[:-1])
            t.first(i < 0)
            return t.parts[0 if i >= 0 else -1]
        raise Unsupported('index')

    def __add__(self, o):
        if isinstance(o, (AList, _b.list, _b.tuple)):
            return AList(self.kind, self.resolve() + parts(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (_b.list, _b.tuple)):
            return AList(self.kind, list(o) + self.resolve())
        return NotImplemented

    def _mutate(self):
        if self.frozen:
            raise Mutation('an argument is changed in place')
        if self.kind != 'list':
            raise AttributeError('tuple')

    def __iadd__(self, o):
        if self.kind == 'list':
            self._mutate()
            self.parts = self.resolve() + parts(o)
            return self
        return self + o

    def append(self, x):
        self._mutate()
        self.parts = self.resolve() + [x]

    def extend(self, o):
        self.__iadd__(o)

    def insert(self, i, x):
        self._mutate()
        if i != 0:
            raise Unsupported('insert')
        self.parts = [x] + self.resolve()

    def copy(self):
        return AList(self.kind, self.resolve())

    def clear(self):
        self._mutate()
        self.parts = []

    def reverse(self):
        self._mutate()
        self.parts = [rev(p) for p in self.resolve()[::-1]]

    def sort(self, key=None, reverse=False):
        self._mutate()
        self.parts = ordered(self, key, reverse).parts

    def __eq__(self, o):
        if not isinstance(o, (AList, _b.list, _b.tuple)) or (o.kind if isinstance(o, AList) else type(o).__name__) != self.kind:
            return False
        return equal_lists(self, o)

    def __ne__(self, o):
        return not self.__eq__(o)
    __hash__ = None

    def __mul__(self, n):
        raise Unsupported('repetition of an abstract list')

    def __contains__(self, x):
        raise Unsupported('membership')

    def __repr__(self):
        return f'{self.kind}{self.parts}'


class Mutation(Exception):
    pass


def rev(p):
    return Seg(p.base, not p.rev, [(c, tuple(rev(x) if isinstance(x, Seg) else x for x in i[::-1])) for c, i in p.cases]) if isinstance(p, Seg) else p


def conc(kind, xs):
    return (tuple if kind == 'tuple' else list)(xs) if not any(isinstance(p, (Seg, Rep)) for p in xs) else AList(kind, xs)


def parts(x):
    """known elements and segments of an iterable"""
    if isinstance(x, AList):
        return list(x.resolve())
    if isinstance(x, A):
        raise Unsupported('iteration over an opaque value')
    if hasattr(type(x), 'hv_parts'):
        return list(x.hv_parts)
    it = getattr(type(x), '__iter__', None)
    if it is not None and getattr(type(x), '__module__', '').startswith('horqrux'):
        return parts(it(x))
    return list(x)


def expand(p, s):
    """the segment p over a base split as s = (base of the rest, element, element is the last)"""
    rest, z, last = s
    out = []
    cs = [i for c, i in p.cases] if len(p.cases) == 1 else None
    if cs is None:
        raise Unsupported('split of a filtered list')
    el = [sub(x, p.base.var, z) for x in cs[0]]
    r = Seg(rest, p.rev, sub(p.cases, p.base.var, rest.var))
    return [r] + el if last != p.rev else el + [r]


def split(base, last):
    """base (not empty) = element + rest or rest + element"""
    if base.name in CTX.splits:
        return
    k = 'last' if last else 'first'
    rest = Base(f'{base.name}/{k}', base.make, base.preds, ())
    z = const(f'{k}:{base.name}')
    facts(base, z)
    for v, c in CTX.univ.get(base.name, ()):
        CTX.univ.setdefault(rest.name, []).append((v, c))
    facts(rest, rest.var)
    CTX.solver.add(base.length().z3() == rest.length().z3() + 1)
    CTX.cache, CTX.models = {}, []
    CTX.splits[base.name] = (rest, z, last)


def equal_lists(a, b):
    pa, pb = parts(a), parts(b)
    na, nb = AList('list', pa).symlen(), AList('list', pb).symlen()
    if not (na == nb):
        return False
    # a repeated value against anything
    for x, y in ((pa, pb), (pb, pa)):
        if len(x) == 1 and isinstance(x[0], Rep):
            r = True
            for p in y:
                r = all_equal(p, x[0].value) and r
            return r
    if len(pa) == len(pb) and all(isinstance(p, Seg) == isinstance(q, Seg) and not isinstance(p, Rep) and not isinstance(q, Rep) for p, q in zip(pa, pb)):
        for p, q in zip(pa, pb):
            if isinstance(p, Seg):
                if p.base.name != q.base.name or p.rev != q.rev or len(p.cases) != 1 or len(q.cases) != 1:
                    raise Unsupported('comparison of lists')
                for u, w in zip(p.cases[0][1], q.cases[0][1]):
                    if not eqval(u, w):
                        raise Unsupported('comparison of lists')
            elif not (p == q):
                return False
        return True
    raise Unsupported('comparison of lists')


def all_equal(p, v):
    if isinstance(p, Seg):
        r = True
        for c, i in p.cases:
            for x in i:
                z = pred('is_none', x.z) if v is None and isinstance(x, A) else None
                if z is None and isinstance(x, (A, Obj)) and term(v) is not None:
                    z = x.z == term(v)
                if z is None:
                    if x is v or (not isinstance(x, (A, Obj, P, AList, Seg)) and x == v):
                        continue
                    raise Unsupported('comparison with a repeated value')
                r = forall(p.base, z3.Implies(z3.And(*c), z) if c else z) and r
        return r
    if isinstance(p, Rep):
        return p.value == v
    return (p is None) if v is None and not isinstance(p, A) else _b.bool(p == v)


def forall(base, c):
    """does c hold for every element of the base (forks)"""
    a = CTX.alias.get(base.name)
    if a is not None:
        r = forall(a, z3.substitute(c, (base.var, a.var)))
        if r:
            CTX.solver.add(c)
            CTX.cache, CTX.models = {}, []
        return r
    if not mentions(c, base.var):
        return decide(z3.Or(c, base.length().z3() == 0))
    if ent(c) and not ACTIVE(base):
        return True
    q = z3.Bool(f'all:{base.name}:{c.sexpr()}')
    if decide(q):
        universal(base, c)
        return True
    # some element fails
    w = const(f'w:{base.name}:{c.hash()}')
    facts(base, w)
    CTX.solver.add(z3.Not(z3.substitute(c, (base.var, w))), base.length().z3() >= 1)
    CTX.cache, CTX.models = {}, []
    return False


def ACTIVE(base):
    return base.name in CTX.active


# ---------------------------------------------------------------- equality of values, words
def eqval(a, b):
    if a is b:
        return True
    if isinstance(a, A) and isinstance(b, A):
        return ent(a.z == b.z)
    if isinstance(a, Obj) and isinstance(b, Obj):
        return ent(a.z == b.z)
    if isinstance(a, A) or isinstance(b, A):
        if isinstance(a, A) and b is None:
            return ent(pred('is_none', a.z))
        if isinstance(b, A) and a is None:
            return ent(pred('is_none', b.z))
        x, y = term(a), term(b)
        return x is not None and y is not None and ent(x == y)
    if isinstance(a, P) and isinstance(b, P):
        return a.kind == b.kind and peq(a, b)
    if isinstance(a, (SymInt, SymBool)) or isinstance(b, (SymInt, SymBool)):
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            return False
        return ent0(lin(a) - lin(b))
    if isinstance(a, AList) or isinstance(b, AList):
        if not isinstance(a, (AList, list, tuple)) or not isinstance(b, (AList, list, tuple)):
            return False
        ka, kb = (x.kind if isinstance(x, AList) else type(x).__name__ for x in (a, b))
        return ka == kb and eqparts(parts(a), parts(b))
    if type(a) is type(b) and isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(eqval(x, y) for x, y in zip(a, b))
    if type(a) is type(b) and hasattr(a, 'ps') and hasattr(a, '__hv__'):
        return eqparts(a.ps, b.ps)
    if type(a) is type(b) and isinstance(a, (int, float, str)):
        return a == b
    return False


def eqparts(p, q):
    p, q = AList('list', p).resolve(), AList('list', q).resolve()
    return len(p) == len(q) and all(eqpart(x, y) for x, y in zip(p, q))


def eqpart(x, y):
    if isinstance(x, Seg) and isinstance(y, Seg):
        return eqbase(x.base, y.base) and x.rev == y.rev and eqcases(x.base, x.cases, sub(y.cases, y.base.var, x.base.var) if x.base is not y.base else y.cases,
                                                                  lambda a, b: eqparts(list(a), list(b)))
    if isinstance(x, Rep) and isinstance(y, Rep):
        return eqval(x.value, y.value) and ent0(x.n - y.n)
    return not isinstance(x, (Seg, Rep)) and not isinstance(y, (Seg, Rep)) and eqval(x, y)


def eqbase(a, b):
    if a.name == b.name:
        return True
    return bool(a.args) and bool(b.args) and getattr(a, 'fam', 0) == getattr(b, 'fam', 1) and all(ent(x == y) for x, y in zip(a.args, b.args))


def eqcases(base, c1, c2, eq):
    for d1, i1 in c1:
        for d2, i2 in c2:
            CTX.enter(*d1, *d2, *[z3.substitute(c, (v, base.var)) for v, c in CTX.univ.get(base.name, ())], *[p(base.var) for p in base.preds])
            try:
                if CTX.solver.check() == z3.unsat:
                    continue
                if not eq(i1, i2):
                    return False
            finally:
                CTX.leave()
    return True


def wnorm(w):
    """normal form of a word"""
    out = []
    for f in w:
        t = f[0]
        if t == 'actn' and (f[4] is None or isinstance(f[4], A) and ent(pred('is_none', f[4].z))):
            f, t = ('act',) + f[1:4], 'act'
        if t == 'act' and isinstance(f[1], P) and len(f[1].terms) == 1 and len(f[1].terms[0][1]) > 1:
            c, ww = f[1].terms[0]
            if not c:
                out += wnorm([('act', P([((), (g,))]), f[2], f[3]) for g in ww])
                continue
        if t == 'prod':
            base, rv, cases = f[1:]
            if ent0(base.length()):
                continue
            s = CTX.splits.get(base.name)
            if s is not None:
                rest, z, last = s
                if len(cases) != 1 or cases[0][0]:
                    raise Unsupported('split of a case distinction')
                el = list(sub(cases[0][1], base.var, z))
                r = ('prod', rest, rv, sub(cases, base.var, rest.var))
                out += wnorm([r] + el if last != rv else el + [r])
                continue
            cases = tuple((c, tuple(wnorm_in(base, c, i))) for c, i in cases)
            eqv = CTX.equiv.get(base.name)
            if eqv is not None:
                r = eqv(rv, cases)
                if r is not None:
                    out += wnorm(r)
                    continue
            if all(not i for c, i in cases):
                continue
            f = ('prod', base, rv, cases)
        out.append(f)
    return out


def wnorm_in(base, conds, w):
    CTX.enter(*conds, *[p(base.var) for p in base.preds])
    try:
        if CTX.solver.check() == z3.unsat:
            return []
        return wnorm(w)
    finally:
        CTX.leave()


def weq(a, b):
    a, b = wnorm(a), wnorm(b)
    return len(a) == len(b) and all(feq(f, g) for f, g in zip(a, b))


def feq(f, g):
    if f[0] != g[0] or len(f) != len(g):
        return False
    if f[0] in ('prod', 'sum'):
        if not eqbase(f[1], g[1]) or f[2] != g[2]:
            return False
        c2 = g[3] if f[1] is g[1] else sub(g[3], g[1].var, f[1].var)
        return eqcases(f[1], f[3], c2, (lambda x, y: weq(x, y)) if f[0] == 'prod' else (lambda x, y: peq(P(x), P(y))))
    return all(arg_eq(x, y) for x, y in zip(f[1:], g[1:]))


def arg_eq(x, y):
    if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
        return x.eq(y) or ent(x == y)
    return eqval(x, y)


_names = {}


def fresh(kind, *content):
    """a name for an object introduced during the run: equal names only for equal content"""
    k = (kind, tuple(canon(x) for x in content))
    return kind + str(_names.setdefault(k, len(_names)))


def canon(x):
    """the content of a value as text: two values with the same text are the same value"""
    if isinstance(x, z3.ExprRef):
        return x.sexpr()
    if isinstance(x, (str, int, float, bool, type(None), _b.str, _b.int, _b.bool)):
        return repr(x)
    if isinstance(x, SymInt):
        return 'int:' + lin(x).z3().sexpr()
    if isinstance(x, Base):
        return f'base:{x.name}:{canon(tuple(x.args))}'
    if isinstance(x, Seg):
        return f'seg:{canon(x.base)}:{x.rev}:{canon(x.cases)}'
    if isinstance(x, Rep):
        return f'rep:{canon(x.value)}:{lin(x.n).z3().sexpr()}'
    if isinstance(x, AList):
        return f'{x.kind}:{canon(x.parts)}'
    if isinstance(x, P):
        return f'{type(x).__name__}:{canon(x.terms)}'
    if isinstance(x, (A, Obj)):
        return f'{type(x).__name__}:{x.z.sexpr()}'
    if isinstance(x, (tuple, list)):
        return f'{type(x).__name__}(' + ','.join(canon(y) for y in x) + ')'
    raise Unsupported(f'content of {type(x).__name__}')


def peq(a, b):
    """equality of sums of words, up to the order of the summands"""
    if len(a.terms) != len(b.terms):
        return False
    left = list(b.terms)
    for c, w in a.terms:
        for i, (c2, w2) in enumerate(left):
            if len(c) == len(c2) and coefs(c, c2) and weq(w, w2):
                del left[i]
                break
        else:
            return False
    return True


def coefs(c, d):
    left = list(d)
    for x in c:
        for i, y in enumerate(left):
            if x.eq(y) or ent(x == y):
                del left[i]
                break
        else:
            return False
    return True


def ordered(lst, key, reverse):
    """stable sort: a rearrangement which moves past each other only elements whose keys differ"""
    ps = lst.resolve()
    if not any(isinstance(p, (Seg, Rep)) for p in ps) and len(ps) < 2:
        return AList(lst.kind, ps)
    if any(isinstance(p, Rep) or isinstance(p, Seg) and (len(p.cases) != 1 or p.cases[0][0] or p.uniform() != 1) for p in ps):
        raise Unsupported('sort')
    gen = []
    for p in ps:
        if isinstance(p, Seg):
            for k in (1, 2):
                z = const(f'sort{k}:{p.base.name}')
                facts(p.base, z)
                gen.append(sub(p.cases[0][1][0], p.base.var, z))
        else:
            gen.append(p)
    kf = key or (lambda x: x)
    # sorted(reverse=True) keeps the order of equal elements as well
    ok = all(isinstance(x, Obj) and ent(single(x.z)) and ent(plain(x.z)) for x in gen)
    keys = [kf(x) for x in gen]
    for i, x in enumerate(gen):
        for j in range(i + 1, len(gen)):
            ok = ok and keyed(x, gen[j], keys[i], keys[j])
    name = fresh('sorted', ps, keys)
    make = type(gen[0]).make if isinstance(gen[0], Obj) else None
    b = Base(name, make, ())
    src = list(ps)
    n = AList('list', ps).symlen()
    CTX.solver.add(b.length().z3() == lin(n).z3())
    CTX.cache, CTX.models = {}, []
    # what holds of every element sorted holds of every element of the result
    if ok:
        def eqv(rv, cases, src=src, b=b):
            """product over the sorted list = product over the list (standard action of gates only)"""
            if rv or len(cases) != 1 or cases[0][0] or not std(cases[0][1], b.var):
                return None
            return word_of(src, lambda g: sub(cases[0][1], b.var, g.z))
        CTX.equiv[name] = eqv
    else:
        CTX.equiv[name] = lambda rv, cases: None
    return AList(lst.kind, [Seg(b, False, [((), (make(b.var),))])])


def keyed(x, y, kx, ky):
    """single-qubit uncontrolled gates commute when their targets differ; with equal targets the keys have to be equal (no swap)"""
    CTX.enter(uf('target', x.z) == uf('target', y.z))
    try:
        return CTX.solver.check() == z3.unsat or eqval(kx, ky)
    finally:
        CTX.leave()


def single(z):
    return uf('len', uf('target', z), sort=z3.IntSort()) == 1


def plain(z):
    return z3.Not(pred('controlled', uf('control', z)))


def std(word, var):
    """the action of one gate: operator, target, control (and noise) of the same element"""
    if len(word) != 1 or word[0][0] not in ('act', 'actn'):
        return False
    f = word[0]
    ok = f[2].z.eq(uf('target', var)) and f[3].z.eq(uf('control', var)) and (len(f) < 5 or isinstance(f[4], A) and f[4].z.eq(uf('noise', var)))
    w = f[1].terms
    return ok and len(w) == 1 and not w[0][0] and len(w[0][1]) == 1 and w[0][1][0][0] == 'op' and w[0][1][0][1].children() and w[0][1][0][1].children()[0].eq(var)


def word_of(ps, f):
    """word of a list: f(element) -> factors, in order"""
    out = []
    for p in AList('list', ps).resolve():
        if isinstance(p, Seg):
            out.append(('prod', p.base, p.rev, tuple((c, tuple(word_of(list(i), f))) for c, i in p.cases)))
        elif isinstance(p, Rep):
            raise Unsupported('repetition')
        else:
            out += f(p)
    return out
