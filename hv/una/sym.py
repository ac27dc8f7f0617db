"""Symbolic integers, booleans and integer sequences of symbolic length (registers of any size).

Everything is exact: a question the linear-integer solver cannot settle forks the execution, an operation without
a contract raises Unsupported (the obligation is then undecided, never discharged)."""
from __future__ import annotations
import builtins as _b
import itertools, time
import z3


class Unsupported(Exception):
    pass


DEADLINE = [float('inf')]
STAT = dict(queries=0, seconds=0.0, paths=0)


class Ctx:
    def __init__(self):
        self.assume, self.script, self.trace, self.solver, self.cache = [], [], [], None, {}
        self.consumer = 0
        self.repeat = None
        self.mult = 1
        self.kronlog = []
        self.vars = set()
        self.models = []
        self.steps = 0
        self.points = []
        self.scopes, self.late, self.gen = 0, [], set()
        self.fresh = itertools.count()

    def reset(self, assume, script):
        self.__init__()
        self.assume = list(assume)
        self.script = list(script)
        self.solver = z3.Solver()
        self.solver.set('timeout', 10000)
        for a in assume:
            self.solver.add(a)

    def check(self, c):
        t = time.time()
        if t > DEADLINE[0]:
            raise Unsupported('time limit')
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        STAT['queries'] += 1
        STAT['seconds'] += time.time() - t
        if r == z3.unknown:
            raise Unsupported('z3 unknown')
        return r == z3.sat

    def entailed_lin(self, l, k, eq):
        self.steps += 1
        if self.steps > 300000:
            raise Unsupported('too many steps')
        key = (tuple(sorted(l.co.items())), l.k - k, eq)
        r = self.cache.get(key)
        if r is not None:
            return r
        if not self.models:
            if self.solver.check() != z3.sat:
                return True
            self.models.append(Model(self.solver.model()))
        for m in self.models:
            v = l.k - k
            for x, c in l.co.items():
                v += c * ival(m, x)
            if (v != 0) if eq else (v < 0):
                self.cache[key] = False
                return False
        z = (l.z3() != k) if eq else (l.z3() < k)
        t = time.time()
        if t > DEADLINE[0]:
            raise Unsupported('time limit')
        self.solver.push()
        self.solver.add(z)
        r = self.solver.check()
        if r == z3.sat:
            self.models.append(Model(self.solver.model()))
        self.solver.pop()
        STAT['queries'] += 1
        STAT['seconds'] += time.time() - t
        if r == z3.unknown:
            raise Unsupported('z3 unknown')
        self.cache[key] = r == z3.unsat
        return r == z3.unsat

    def entailed(self, c):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported('too many steps')
        k = ('e', c.hash(), c.sexpr())
        if k not in self.cache:
            self.cache[k] = not self.check(z3.Not(c))
        return self.cache[k]

    def decide(self, c):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        pos, neg = self.check(c), self.check(z3.Not(c))
        if pos and not neg:
            return True
        if neg and not pos:
            return False
        if not pos and not neg:
            return True                      # inside a block which is empty: vacuous
        if self.scopes and any(str(x) in self.gen for x in z3vars(c)):
            raise Unsupported('open question about a generic element')
        i = len(self.trace)
        v = self.script[i] if i < len(self.script) else True
        self.trace.append(v)
        d = c if v else z3.Not(c)
        self.solver.add(d)
        self.assume.append(d)
        if self.scopes:
            self.late.append(d)
        self.cache, self.models = {}, []
        return v

    def enter(self, *cs, names=()):
        self.solver.push()
        self.solver.add(*cs)
        self.gen |= set(names)
        self.scopes += 1
        self.cache, self.models = {}, []

    def leave(self):
        self.solver.pop()
        self.scopes -= 1
        for d in self.late:
            self.solver.add(d)
        if not self.scopes:
            self.late = []
        self.cache, self.models = {}, []


def z3vars(c):
    out, todo = [], [c]
    while todo:
        x = todo.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo += x.children()
    return out


CTX = Ctx()


class Model:
    def __init__(self, m):
        self.m, self.d = m, {}


def ival(m, x):
    if isinstance(m, Model):
        v = m.d.get(x)
        if v is None:
            v = m.d[x] = ival(m.m, x)
        return v
    return m.eval(z3.Int(x), model_completion=True).as_long()


class Path:
    def __init__(self, cond, result, exc):
        self.cond, self.result, self.exc = cond, result, exc


def explore(fn, assume=(), max_paths=64, judge=None):
    """run fn on every feasible path; judge(result) runs inside the path's assumptions"""
    out, todo = [], [[]]
    while todo:
        script = todo.pop()
        CTX.reset(assume, script)
        from . import ten
        ten.splits.clear()
        res = exc = None
        try:
            res = fn()
            if judge is not None:
                res = judge(res)
        except Unsupported:
            raise
        except Exception as e:
            exc = e
        STAT['paths'] += 1
        out.append(Path(list(CTX.assume[len(assume):]), res, exc))
        if len(out) > max_paths:
            raise Unsupported('too many paths')
        for i in _b.range(len(script), len(CTX.trace)):
            todo.append(CTX.trace[:i] + [not CTX.trace[i]])
    return out


# ---------------------------------------------------------------- integers
_Z = {}


class Lin:
    __slots__ = ('co', 'k')

    def __init__(self, co=None, k=0):
        self.co, self.k = {v: c for v, c in (co or {}).items() if c}, k

    def __add__(self, o):
        o = lin(o)
        co = dict(self.co)
        for v, c in o.co.items():
            co[v] = co.get(v, 0) + c
        return Lin(co, self.k + o.k)

    def scale(self, c):
        return Lin({v: c * x for v, x in self.co.items()}, c * self.k)

    def __sub__(self, o):
        return self + lin(o).scale(-1)

    def const(self):
        return self.k if not self.co else None

    def z3(self):
        key = self.key()
        r = _Z.get(key)
        if r is None:
            r = _Z[key] = z3.Sum([z3.IntVal(self.k)] + [c * z3.Int(v) for v, c in sorted(self.co.items())])
        return r

    def __repr__(self):
        return '+'.join([f'{c}{v}' if c != 1 else v for v, c in sorted(self.co.items())] + ([str(self.k)] if self.k or not self.co else []))

    def key(self):
        return (tuple(sorted(self.co.items())), self.k)


def lin(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, SymInt):
        return x.l
    import numpy as np
    if isinstance(x, (_b.int, np.integer)) and not isinstance(x, _b.bool):
        return Lin(None, _b.int(x))
    raise Unsupported(f'not an integer: {type(x).__name__}')


def mk(l):
    return l.k if not l.co else SymInt(l)


def var(name):
    CTX.vars.add(name)
    return SymInt(Lin({name: 1}, 0))


def eq0(l):
    """is l == 0 (decided, forking when open)"""
    c = l.const()
    if c is not None:
        return c == 0
    if CTX.entailed_lin(l, 0, True):
        return True
    if CTX.entailed_lin(l, 1, False) or CTX.entailed_lin(l.scale(-1), 1, False):
        return False
    return CTX.decide(l.z3() == 0)


def ge(l, k=0):
    """is l >= k (decided, forking when open)"""
    c = l.const()
    if c is not None:
        return c >= k
    if CTX.entailed_lin(l, k, False):
        return True
    if CTX.entailed_lin(l.scale(-1), 1 - k, False):
        return False
    return CTX.decide(l.z3() >= k)


def ent0(l):
    c = l.const()
    return c == 0 if c is not None else CTX.entailed_lin(l, 0, True)


def entge(l, k=0):
    c = l.const()
    return c >= k if c is not None else CTX.entailed_lin(l, k, False)


class SymBool:
    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return CTX.decide(self.z)


def _cmp(f):
    def g(self, o):
        try:
            d = self.l - lin(o)
        except Unsupported:
            return NotImplemented
        c = d.const()
        return f(c) if c is not None else SymBool(f(d.z3()))
    return g


class SymInt:
    def __init__(self, l):
        self.l = l

    def __add__(self, o):
        if isinstance(o, (_b.tuple, _b.list)):
            return NotImplemented
        return mk(self.l + lin(o))
    __radd__ = __add__

    def __sub__(self, o):
        return mk(self.l - lin(o))

    def __rsub__(self, o):
        return mk(lin(o) - self.l)

    def __neg__(self):
        return mk(self.l.scale(-1))

    def __mul__(self, o):
        if isinstance(o, (_b.tuple, _b.list)):
            return (CTX.repeat or repeat)(o, self)
        o = lin(o)
        if o.const() is not None:
            return mk(self.l.scale(o.const()))
        if self.l.const() is not None:
            return mk(o.scale(self.l.const()))
        raise Unsupported('product of symbolic integers')
    __rmul__ = __mul__

    def __floordiv__(self, o):
        c = lin(o).const()
        if c and all(x % c == 0 for x in self.l.co.values()) and self.l.k % c == 0:
            return mk(Lin({v: x // c for v, x in self.l.co.items()}, self.l.k // c))
        if c and c > 0:
            # the same value written otherwise (equalities of this path): look for c * (v + k)
            if CTX.solver.check() == z3.sat:
                m = CTX.solver.model()
                val = self.l.k + sum(x * ival(m, v) for v, x in self.l.co.items())
                if val % c == 0:
                    for v in [None] + sorted(CTX.vars | set(self.l.co)):
                        k = val // c - (ival(m, v) if v else 0)
                        cand = Lin({v: 1} if v else None, k)
                        if ent0(self.l - cand.scale(c)):
                            return mk(cand)
        raise Unsupported('division of a symbolic integer')

    def __rlshift__(self, o):
        if o == 1:
            return Pow2(self.l)
        raise Unsupported('shift')

    def __rpow__(self, o):
        if o == 2:
            return Pow2(self.l)
        raise Unsupported('power')

    __eq__ = _cmp(lambda d: d == 0)
    __ne__ = _cmp(lambda d: d != 0)
    __lt__ = _cmp(lambda d: d < 0)
    __le__ = _cmp(lambda d: d <= 0)
    __gt__ = _cmp(lambda d: d > 0)
    __ge__ = _cmp(lambda d: d >= 0)

    def __hash__(self):
        raise Unsupported('hash of a symbolic integer')

    def __bool__(self):
        return CTX.decide(self.l.z3() != 0)

    def __index__(self):
        raise Unsupported('symbolic integer used as a machine integer')
    __int__ = __float__ = __index__

    def __format__(self, spec):
        return repr(self)

    def __repr__(self):
        return f'<{self.l!r}>'


class Pow2:
    """2 ** (a symbolic integer)"""
    def __init__(self, l):
        self.l = l

    def __eq__(self, o):
        d = self.l - log2(o)
        c = d.const()
        return c == 0 if c is not None else SymBool(d.z3() == 0)

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r if isinstance(r, _b.bool) else SymBool(z3.Not(r.z))

    def __mul__(self, o):
        return Pow2(self.l + log2(o))
    __rmul__ = __mul__

    def __hash__(self):
        raise Unsupported('hash')

    def __index__(self):
        raise Unsupported('symbolic integer used as a machine integer')
    __int__ = __float__ = __index__

    def __repr__(self):
        return f'2**({self.l!r})'


def log2(x):
    """exponent of a power of two"""
    if isinstance(x, Pow2):
        return x.l
    if isinstance(x, _b.int) and x > 0 and x & (x - 1) == 0:
        return Lin(None, x.bit_length() - 1)
    raise Unsupported(f'log2 of {x!r}')


# ---------------------------------------------------------------- sequences of integers
# items: ('v', value) | ('run', start, length) = start..start+length-1 | ('rep', value, length)
#        ('perm', key, ((start, length), ...), offset) = the integers of the runs (+offset) in an arbitrary fixed order `key`
def ilen(it):
    if it[0] == 'v':
        return Lin(None, 1)
    if it[0] == 'run':
        return it[2]
    if it[0] == 'rep':
        return it[2]
    return sum((r[1] for r in it[2]), Lin())


class Seq:
    """tuple / integer array of symbolic length"""
    def __init__(self, items, array=False, lst=False):
        out = []
        for it in items:
            if it[0] != 'v' and ilen(it).const() == 0:
                continue
            out.append(it)
        self.items, self.array, self.lst = out, array, lst

    def _new(self, items):
        return Seq(items, self.array, self.lst)

    def length(self):
        return sum((ilen(i) for i in self.items), Lin())

    def symlen(self):
        return mk(self.length())

    def __add__(self, o):
        if self.array:
            k = lin(o)
            out = []
            for it in self.items:
                if it[0] == 'v':
                    out.append(('v', mk(lin(it[1]) + k)))
                elif it[0] == 'run':
                    out.append(('run', it[1] + k, it[2]))
                elif it[0] == 'perm':
                    out.append(('perm', it[1], it[2], it[3] + k))
                else:
                    out.append(('rep', mk(lin(it[1]) + k), it[2]))
            return self._new(out)
        return self._new(self.items + items_of(o))

    def __radd__(self, o):
        if self.array:
            return self + o
        return self._new(items_of(o) + self.items)

    def __mul__(self, k):
        if self.array:
            raise Unsupported('array product')
        return repeat(self, k)
    __rmul__ = __mul__

    def __iter__(self):
        for it in split_points(self.items):
            if it[0] == 'v':
                yield it[1]
            else:
                if CTX.consumer <= 0:
                    raise Unsupported('iteration over a sequence of symbolic length')
                j = f'j{next(CTX.fresh)}'
                v = generic(it, j)
                CTX.enter(z3.Int(j) >= 0, z3.Int(j) < ilen(it).z3(), names=(j,))
                CTX.mult = (ilen(it), j)
                yield v
                CTX.leave()

    def __len__(self):
        raise Unsupported('length of a symbolic sequence')

    def __contains__(self, x):
        return to_set((x,)).issubset(self)

    def index(self, x):
        x = lin(x)
        pre = Lin()
        for it in self.items:
            if it[0] == 'v':
                if eq0(lin(it[1]) - x):
                    return mk(pre)
            elif it[0] == 'run':
                if CTX.decide(z3.And((x - it[1]).z3() >= 0, (x - it[1] - it[2]).z3() < 0)):
                    return mk(pre + x - it[1])
            else:
                raise Unsupported('index')
            pre = pre + ilen(it)
        raise ValueError('not in the sequence')

    def tolist(self):
        return Seq(self.items, lst=True)

    def astype(self, *a):
        return self

    @property
    def shape(self):
        return (self.symlen(),)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i == slice(None, None, None):
                return self
            if i == slice(None, None, -1) and _b.all(x[0] in ('v', 'rep') for x in self.items):
                return self._new(self.items[::-1])
            raise Unsupported('slice of a symbolic sequence')
        l = lin(i)
        pre = Lin()
        if l.const() is not None and l.const() < 0:
            l = l + self.length()
        for it in self.items:
            if it[0] == 'v' and ent0(l - pre):
                return it[1]
            n = ilen(it)
            if it[0] != 'v' and entge(l - pre) and entge(pre + n - l, 1):
                if it[0] == 'rep':
                    return it[1]
                if it[0] == 'run':
                    return mk(it[1] + (l - pre))
            pre = pre + n
        raise Unsupported('index into a symbolic sequence')

    def __eq__(self, o):
        if isinstance(o, (Seq, _b.tuple, _b.list)):
            a, b = self.items, items_of(o)
            if [shape_key(x) for x in a] == [shape_key(x) for x in b]:
                return True
        raise Unsupported('comparison of symbolic sequences')

    def __hash__(self):
        raise Unsupported('hash')

    @property
    def size(self):
        return self.symlen()

    def __repr__(self):
        return f'Seq{self.items}'


def shape_key(it):
    if it[0] == 'v':
        return ('v', repr(it[1]))
    return tuple(repr(x) for x in it)


def generic(it, j):
    """the j-th element of a block"""
    if it[0] == 'run':
        return mk(it[1] + Lin({j: 1}))
    if it[0] == 'rep':
        return it[1]
    return Elem(it, j)


def split_points(items):
    """runs cut at the known positions (so that a generic element of a run is never one of them)"""
    out = []
    for it in items:
        if it[0] != 'run' or not CTX.points or it[2].const() is not None and it[2].const() <= 0:
            out.append(it)
            continue
        segs = [(it[1], it[2])]
        for p in CTX.points:
            for i, (s, n) in enumerate(segs):
                inside = z3.And((p - s).z3() >= 0, (p - s - n).z3() < 0)
                if CTX.decide(inside):
                    segs[i:i + 1] = [(s, p - s), (p, Lin(None, 1)), (p + 1, s + n - p - 1)]
                    break
        for s, n in segs:
            if n.const() == 0 or ent0(n):
                continue
            out.append(('v', mk(s)) if n.const() == 1 else ('run', s, n))
    return out


class Elem:
    """a generic element of an arbitrarily ordered set of integers"""
    def __init__(self, it, j):
        self.it, self.j = it, j

    def __eq__(self, o):
        # only meaningful for all positions at once: does the unknown order coincide with start, start+1, ...
        if isinstance(o, SymInt) and o.l.co.get(self.j) == 1:
            return ElemBool(z3.Bool(f'same_{self.it[1]}_{self.it[3]!r}_{(o.l - Lin({self.j: 1}))!r}'), 'all')
        raise Unsupported('comparison of set elements')

    def __ne__(self, o):
        r = self.__eq__(o)
        return ElemBool(z3.Not(r.z), 'any')

    def __hash__(self):
        raise Unsupported('hash')


class ElemBool:
    """truth for all (mode all) or for some (mode any) of the elements of a block"""
    def __init__(self, z, mode):
        self.z, self.mode = z, mode

    def __bool__(self):
        raise Unsupported('truth of one generic element')


def items_of(x):
    if isinstance(x, Seq):
        return list(x.items)
    if isinstance(x, (_b.tuple, _b.list, _b.range, _b.set, _b.frozenset)):
        return [('v', y) for y in x]
    if isinstance(x, Set):
        return items_of(x.arbitrary())
    import numpy as np
    if isinstance(x, np.ndarray) and x.ndim == 1:
        return [('v', _b.int(y)) for y in x]
    raise Unsupported(f'sequence expected: {type(x).__name__}')


def repeat(x, k):
    k = lin(k)
    its = items_of(x)
    if k.const() is not None:
        return Seq(its * _b.max(0, k.const()), lst=isinstance(x, _b.list))
    if len(its) == 1 and its[0][0] in ('v',):
        return Seq([('rep', its[0][1], k)], lst=isinstance(x, _b.list))
    raise Unsupported('repetition')


def simplify(s):
    """plain tuple when all items are single values"""
    if _b.all(i[0] == 'v' for i in s.items):
        v = [i[1] for i in s.items]
        return v if s.lst else _b.tuple(v)
    return s


class Set:
    """finite set of integers: pairwise disjoint runs (start, length), kept in increasing order when possible"""
    def __init__(self, runs):
        self.runs = runs

    def __rsub__(self, o):
        return to_set(o) - self

    def __and__(self, o):
        return self - (self - to_set(o))
    __rand__ = __and__

    def intersection(self, o):
        return self & o

    def difference(self, *os):
        r = self
        for o in os:
            r = r - o
        return r

    def isdisjoint(self, o):
        return not (self & o).nonempty()

    def nonempty(self):
        n = sum((r[1] for r in self.runs), Lin())
        return CTX.decide(n.z3() >= 1) if n.const() is None else n.const() > 0
    __bool__ = nonempty

    def __sub__(self, o):
        o = to_set(o)
        runs = list(self.runs)
        for s, n in o.runs:
            out, done = [], False
            for a, m in runs:
                if done:
                    out.append((a, m))
                    continue
                # [s, s+n) inside [a, a+m)
                if entge(s - a) and entge((a + m) - (s + n)):
                    out += [(a, s - a), (s + n, (a + m) - (s + n))]
                    done = True
                elif entge(s - (a + m)) or entge(a - (s + n)):
                    out.append((a, m))
                elif n.const() == 1:
                    if CTX.decide(z3.And((s - a).z3() >= 0, (s - a - m).z3() < 0)):
                        out += [(a, s - a), (s + n, (a + m) - (s + n))]
                        done = True
                    else:
                        out.append((a, m))
                else:
                    raise Unsupported('set difference')
            runs = [r for r in out if not (r[1].const() == 0)]
        return Set(runs)

    def __or__(self, o):
        if not isinstance(o, Set):
            o = to_set(o)
        extra = o - self
        return Set(order_runs(self.runs + extra.runs))

    __ror__ = __or__

    def union(self, *os):
        r = self
        for o in os:
            r = r | (o if isinstance(o, Set) else to_set(o))
        return r

    def issubset(self, o):
        o = o if isinstance(o, Set) else to_set(o)
        for s, n in self.runs:
            ok = False
            for a, m in o.runs:
                if entge(s - a) and entge((a + m) - (s + n)):
                    ok = True
                    break
            if not ok:
                if n.const() == 1:
                    inside = z3.Or([z3.And((s - a).z3() >= 0, ((a + m) - s).z3() > 0) for a, m in o.runs] + [z3.BoolVal(False)])
                    if CTX.decide(inside):
                        continue
                    return False
                raise Unsupported('subset')
        return True
    __le__ = issubset

    def issuperset(self, o):
        return to_set(o).issubset(self)

    def __contains__(self, x):
        return to_set((x,)).issubset(self)

    def __len__(self):
        raise Unsupported('len of a symbolic set')

    def symlen(self):
        return mk(sum((r[1] for r in self.runs), Lin()))

    def sorted(self):
        return simplify(Seq([('v', mk(a)) if n.const() == 1 else ('run', a, n) for a, n in order_runs(self.runs)]))

    def arbitrary(self):
        """iteration order of a set: some fixed order, nothing known about it"""
        runs = order_runs(self.runs)
        if _b.all(n.const() == 1 for a, n in runs) and len(runs) <= 1:
            return _b.tuple(mk(a) for a, n in runs)
        key = 'set' + ';'.join(f'{a!r}:{n!r}' for a, n in runs)
        return Seq([('perm', key, _b.tuple(runs), Lin())])

    def __iter__(self):
        raise Unsupported('iteration over a symbolic set')


def order_runs(runs):
    out = []
    for r in runs:
        if r[1].const() == 0:
            continue
        i = 0
        while i < len(out) and _before(out[i], r):
            i += 1
        out.insert(i, r)
    return out


def _before(x, y):
    """x comes before y (disjoint runs)"""
    if entge(y[0] - (x[0] + x[1])):
        return True
    if entge(x[0] - (y[0] + y[1])):
        return False
    return ge(y[0] - x[0], 1)


def to_set(x):
    if isinstance(x, Set):
        return x
    runs = []
    for it in items_of(x):
        if it[0] == 'v':
            if it[1] is None:
                raise Unsupported('None in a set')
            r = (lin(it[1]), Lin(None, 1))
            if _b.any(n.const() == 1 and eq0(a - r[0]) for a, n in runs):
                continue
            runs.append(r)
        elif it[0] == 'run':
            runs.append((it[1], it[2]))
        elif it[0] == 'perm':
            runs += [(a + it[3], n) for a, n in it[2]]
        else:
            raise Unsupported('set of repeated values')
    return Set(runs)
