"""Loops over lists of any length.

A loop over a segment is cut: (1) one iteration on an arbitrary state of the loop variables and an arbitrary element, on every path;
(2) what follows the loop, on the state the loop leaves.  When every iteration adds to a variable something which depends on the
element alone, that state is known exactly (a map, a fold or a sum over the segment: induction on its length).  Otherwise the
caller asks for a homomorphism proof (obl.hom): the state is arbitrary, and the invariant is the meaning of what the rest of the
function makes of it."""
from __future__ import annotations
import builtins as _b
import z3
from ..una import sym
from ..una.sym import CTX, Lin, SymInt, Unsupported, ent0, lin, mk
from .val import *
from . import val


class EndIter(Exception):
    pass


class Restart(Exception):
    def __init__(self, prefix):
        self.prefix = prefix


class NeedHom(Exception):
    def __init__(self, site, info, base):
        self.site, self.info, self.base = site, info, base


class Poison:
    """value of a variable which is local to the iterations"""
    def _no(self, *a, **k):
        raise Unsupported('value of an earlier iteration')
    __getattr__ = __call__ = __eq__ = __add__ = __iter__ = __len__ = __bool__ = __getitem__ = _no
    __hash__ = None


class Unbound:
    pass


UNBOUND, POISON = Unbound(), Poison()


class Info:
    def __init__(self):
        self.kinds, self.outcomes, self.group, self.preds, self.make = {}, [], {}, {}, {}


PREDS = {'single': lambda z: single(z), 'plain': lambda z: plain(z)}


def get(f):
    try:
        return f()
    except NameError:
        return UNBOUND


def choose():
    i = len(CTX.trace)
    v = CTX.script[i] if i < len(CTX.script) else True
    CTX.trace.append(v)
    return v


def assume(*cs):
    for c in cs:
        CTX.solver.add(c)
        CTX.assume.append(c)
    CTX.cache, CTX.models = {}, []


class Loop:
    def __init__(self, it, site):
        self.site = site
        self.parts = parts(it)
        self.todo = list(self.parts)
        self.seg = None
        self.pend = []

    def more(self, cur):
        if self.seg is not None:
            if self.pend:
                self.item = self.pend.pop(0)
                self.state = cur
                return True
            self.end(cur)
        if self.pend:                                  # remaining items of a step
            self.item = self.pend.pop(0)
            self.state = cur
            return True
        while self.todo:
            p = self.todo.pop(0)
            self.state = cur
            if isinstance(p, Rep):
                raise Unsupported('loop over a repetition')
            if not isinstance(p, Seg):
                self.item = p
                return True
            r = self.enter(p, cur)
            if r:
                return True
            cur = self.state
        self.state = cur
        return False

    # -- a segment
    def enter(self, p, cur):
        if ent0(p.base.length()):
            return False
        s = CTX.splits.get(p.base.name)
        if s is not None:
            self.todo = val.expand(p, s) + self.todo
            self.state = cur
            return False
        hom = CTX.hom
        if hom is not None and hom.site == self.site and hom.base == p.base.name:
            return self.homstep(p, cur, hom)
        if p.base.name in CTX.active:
            raise Unsupported('nested loops over one list')
        self.box = {i: v for i, v in enumerate(cur) if hasattr(type(v), '__hv_box__')}
        if len({id(v) for v in self.box.values()}) < len(self.box):
            raise Unsupported('two names of one dictionary')
        cur = self.unbox(cur)
        prefix = tuple(CTX.trace)
        self.info = info = CTX.loops.setdefault(prefix, Info())
        self.prefix = prefix
        v = choose()
        if v:
            CTX.active.add(p.base.name)
            assume(p.base.length().z3() >= 1)
            facts(p.base, p.base.var)
            # the case of the element
            k = 0
            while k < len(p.cases) - 1 and not choose():
                k += 1
            conds, items = p.cases[k]
            assume(*conds)
            if CTX.solver.check() == z3.unsat:
                raise EndIter()
            self.seg, self.entry = p, cur
            self.mark = len(CTX.assume)
            self.start = self.havoc(p, cur, info, prefix)
            self.state = self.rebox(self.start)
            if any(isinstance(x, (Seg, Rep)) for x in items):
                lst = AList('tuple', items)
                if len(items) != 1:
                    raise Unsupported('nested segments')
                raise Unsupported('loop over nested segments')
            self.conds0 = conds
            self.pend = list(items)
            if not self.pend:
                self.end(self.state)
            self.item = self.pend.pop(0)
            return True
        self.state = self.rebox(self.summary(p, cur, info, prefix))
        return False

    def unbox(self, cur):
        return tuple(v.__hv_box__() if i in self.box and hasattr(type(v), '__hv_box__') else v for i, v in enumerate(cur)) if self.box else cur

    def rebox(self, cur):
        return tuple(self.box[i].__hv_rebox__(v) if i in self.box else v for i, v in enumerate(cur)) if self.box else cur

    def havoc(self, p, cur, info, prefix):
        mut = [id(v) for v in cur if isinstance(v, list) or isinstance(v, AList) and v.kind == 'list' and not v.frozen]
        if len(set(mut)) < len(mut):
            raise Unsupported('two names of one list')
        out = []
        for i, v in enumerate(cur):
            out.append(self.fresh(i, v, info.kinds.get(i, 'same'), info, hid(prefix)))
        return tuple(out)

    def fresh(self, i, v, kind, info, pid):
        if kind == 'same':
            if isinstance(v, AList):
                return v if v.frozen or v.kind != 'list' else AList('list', v.resolve())
            return list(v) if type(v) is list else v
        if kind == 'temp':
            return POISON
        if kind == 'list':
            g = info.group.get(i, (f'v{i}', 0))
            b = Base(f'h{pid}{g[0]}', None, [PREDS[k] for k in sorted(info.preds.get(i, PREDS))] if info.make.get(i) in (None, 'obj') else ())
            mk_ = info.make.get(i)
            el = element(mk_, b.var, g[1], self)
            k = v.kind if isinstance(v, AList) else type(v).__name__
            return AList(k, [Seg(b, False, [((), (el,))])])
        if kind == 'poly':
            return v.new([((), (('sym', f'h{pid}v{i}'),))])
        if kind == 'term':
            return A(const(f'h{pid}v{i}'))
        if kind == 'obj':
            return v.again(const(f'h{pid}v{i}'))
        if kind == 'int':
            return mk(Lin({f'h{pid}v{i}': 1}))
        raise Unsupported(kind)

    def end(self, new):
        """end of the arbitrary iteration"""
        if any(not hasattr(type(new[i]), '__hv_box__') for i in self.box):
            raise Unsupported('dictionary replaced in a loop')
        new = self.unbox(new)
        info, restart = self.info, False
        rec = []
        for i, (v0, s, n) in enumerate(zip(self.entry, self.start, new)):
            k = info.kinds.get(i, 'same')
            if k == 'temp':
                rec.append(None)
                continue
            if k == 'same':
                # lists are copied at the head: a change in place shows here
                if n is v0 or safe_eq(n, v0):
                    rec.append(None)
                    continue
                info.kinds[i] = kindof(v0, n)
                restart = True
                rec.append(None)
                continue
            if kindof(v0, n) != k:
                info.kinds[i] = 'temp'
                restart = True
                rec.append(None)
                continue
            if k == 'list':
                ps = n.resolve() if isinstance(n, AList) else list(n)
                head = s.parts[0]
                app = ps[1:] if ps and isinstance(ps[0], Seg) and ps[0].base.name == head.base.name and not ps[0].rev else None
                every = list(v0.resolve() if isinstance(v0, AList) else v0) + (app if app is not None else ps)
                m = info.make.get(i)
                for e in every:
                    for x in (([y for c, its in e.cases for y in its]) if isinstance(e, Seg) else [e]):
                        t = typ(x)
                        if m is None:
                            info.make[i] = m = t
                            restart = True
                        elif m != t and m != 'any':
                            info.make[i] = m = 'any'
                            restart = True
                if m == 'obj':
                    for nm in list(info.preds.setdefault(i, set(PREDS))):
                        if not all(holds(PREDS[nm], e) for e in every):
                            info.preds[i].discard(nm)
                            restart = True
                rec.append(('list', app, len(ps) if app is None else None))
            else:
                rec.append((k, s, n))
        # a list in the frame mutated in place: the entry object is the same object
        if restart:
            info.outcomes = []
            raise Restart(self.prefix)
        info.outcomes.append((list(self.conds0) + list(CTX.assume[self.mark:]), rec, self.start))
        raise EndIter()

    def symbols(self, info, prefix):
        return f'h{hid(prefix)}'

    # -- the state after the loop
    def summary(self, p, cur, info, prefix):
        hs = self.symbols(info, prefix)
        if not info.outcomes:
            return cur                              # no feasible iteration
        changed = [i for i, k in info.kinds.items() if k not in ('same', 'temp')]
        out = list(cur)
        ok = True
        for i in changed:
            r = None
            if not any(depends(o[0], hs) for o in info.outcomes):
                r = self.summarize(p, cur[i], i, info.kinds[i], info, hs)
            if r is None:
                ok = False
                break
            out[i] = r
        for i, k in info.kinds.items():
            if k == 'temp':
                out[i] = POISON
        if ok:
            return tuple(out)
        # parallel lists
        sig = {}
        for i in changed:
            if info.kinds[i] == 'list':
                n0 = len(parts(cur[i]))
                s = (n0,) + tuple(-1 if o[1][i] is None or o[1][i][1] is None or any(isinstance(x, Seg) for x in o[1][i][1]) else len(o[1][i][1]) for o in info.outcomes)
                if -1 not in s:
                    sig.setdefault(s, []).append(i)
        regroup = False
        for s, ii in sig.items():
            if len(ii) > 1 and any(x > 0 for x in s):
                for j, i in enumerate(ii):
                    g = (f'g{ii[0]}', j)
                    if info.group.get(i) != g:
                        info.group[i] = g
                        regroup = True
        if regroup:
            info.outcomes = []
            raise Restart(prefix)
        raise NeedHom(self.site, info, p.base.name)

    def summarize(self, p, v0, i, kind, info, hs):
        cases = []
        for conds, rec, start in info.outcomes:
            r = rec[i]
            if r is None:
                return None
            if kind == 'list':
                if r[1] is None or depends(r[1], hs):
                    return None
                cases.append((conds, tuple(r[1])))
            elif kind == 'poly':
                s, n = r[1], r[2]
                me = s.terms[0][1][0]
                mult = [(c, w) for c, w in n.terms if any(x == me for x in w)]
                rest = [(c, w) for c, w in n.terms if not any(x == me for x in w)]
                if len(mult) != 1 or mult[0][0] or depends(rest, hs):
                    return None
                w = mult[0][1]
                j = [q for q, x in enumerate(w) if x == me]
                if len(j) != 1 or depends(w[:j[0]] + w[j[0] + 1:], hs):
                    return None
                cases.append((conds, ('r', w[:j[0]]), ('l', w[j[0] + 1:]), ('s', tuple(rest))))
            elif kind == 'int':
                d = lin(r[2]) - lin(r[1])
                if d.const() is None:
                    return None
                cases.append((conds, d.const()))
            else:
                return None
        if kind == 'int':
            if len({c for _, c in cases}) != 1:
                return None
            return mk(lin(v0) + p.base.length().scale(cases[0][1]))
        if kind == 'list':
            k = v0.kind if isinstance(v0, AList) else type(v0).__name__
            m = merge(p.base, cases, lambda a, b: eqparts(list(a), list(b)))
            old = v0.resolve() if isinstance(v0, AList) else list(v0)
            if all(not c[1] for c in m):
                return AList(k, old)
            return AList(k, old + [Seg(p.base, p.rev, m)])
        right, left, add = [(c[0], c[1][1]) for c in cases], [(c[0], c[2][1]) for c in cases], [(c[0], c[3][1]) for c in cases]
        if any(x for _, x in add):
            if any(x for _, x in right + left):
                return None
            if any(x for c, w in v0.terms for x in w if False):
                return None
            return v0.new(v0.terms + (((), (('sum', p.base, False, merge(p.base, add, lambda a, b: peq(P(a), P(b)))),)),))
        if any(x for _, x in right) and any(x for _, x in left):
            return None
        if any(x for _, x in right):
            # factors applied before: the last element comes first
            f = ('prod', p.base, not p.rev, merge(p.base, right, weq))
            return v0.new([(c, (f,) + w) for c, w in v0.terms])
        f = ('prod', p.base, p.rev, merge(p.base, left, weq))
        return v0.new([(c, w + (f,)) for c, w in v0.terms])

    # -- homomorphism proofs
    def homstep(self, p, cur, hom):
        hom.hits += 1
        if hom.mode == 'base':
            self.state = cur
            return False
        info = hom.info
        pid = 'hom'
        st = tuple(self.fresh(i, v, info.kinds.get(i, 'same'), info, pid) for i, v in enumerate(cur))
        hom.rev = p.rev
        self.state = st
        if hom.mode == 'step0':
            return False
        if len(p.cases) != 1 or p.uniform() != 1:
            raise Unsupported('step over a filtered list')
        facts(p.base, hom.x)
        self.item = sub(p.cases[0][1][0], p.base.var, hom.x)
        return True


def hid(prefix):
    return ''.join('T' if b else 'F' for b in prefix) + '_'


def typ(x):
    return 'obj' if isinstance(x, Obj) else 'op' if isinstance(x, P) and x.kind == 'mat' else 'term' if isinstance(x, A) else ('tuple', tuple(typ(y) for y in x)) if isinstance(x, tuple) else 'none' if x is None else 'lit'


def element(m, z, j, loop):
    f = uf(f'f{j}', z) if m != 'obj' else z
    if m is None:
        return A(f)
    if m == 'obj':
        return CTX.objmake(z)
    if m == 'op':
        return leaf(f)
    if m in ('term', 'any', 'lit', 'none'):
        return A(f)
    if isinstance(m, tuple):
        return tuple(element(t, uf(f'p{k}', f), 0, loop) if t != 'obj' else CTX.objmake(uf(f'p{k}', f)) for k, t in enumerate(m[1]))
    raise Unsupported(f'list of {m}')


def holds(pf, e):
    if isinstance(e, Seg):
        r = True
        for c, its in e.cases:
            CTX.enter(*c)
            try:
                r = r and (CTX.solver.check() == z3.unsat or all(holds(pf, x) for x in its))
            finally:
                CTX.leave()
        return r
    return isinstance(e, Obj) and ent(pf(e.z))


def kindof(v0, n):
    if isinstance(n, (AList, list, tuple)) and isinstance(v0, (AList, list, tuple)):
        a, b = (x.kind if isinstance(x, AList) else type(x).__name__ for x in (v0, n))
        return 'list' if a == b else 'temp'
    if isinstance(v0, P) and isinstance(n, P) and type(v0) is type(n):
        return 'poly'
    if isinstance(v0, (A, str, type(None))) and isinstance(n, (A, str, type(None))) and isinstance(v0, A):
        return 'term'
    if isinstance(v0, Obj) and isinstance(n, Obj):
        return 'obj'
    if isinstance(v0, (int, SymInt)) and isinstance(n, (int, SymInt)) and not isinstance(v0, bool):
        return 'int'
    return 'temp'


def safe_eq(a, b):
    try:
        return eqval(a, b)
    except Unsupported:
        return False


def depends(v, hs):
    """does the value mention a variable of the loop state"""
    if isinstance(v, z3.ExprRef):
        todo, seen = [v], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and (hs + 'v' in str(x) or hs + 'g' in str(x)):
                return True
            todo += x.children()
        return False
    if isinstance(v, (A, Obj)):
        return depends(v.z, hs)
    if isinstance(v, P):
        return depends(v.terms, hs)
    if isinstance(v, Seg):
        return hs + 'v' in v.base.name or hs + 'g' in v.base.name or depends(v.base.args, hs) or depends(v.cases, hs)
    if isinstance(v, Base):
        return hs + 'v' in v.name or hs + 'g' in v.name
    if isinstance(v, AList):
        return depends(v.parts, hs)
    if isinstance(v, Rep):
        return depends(v.value, hs)
    if isinstance(v, SymInt):
        return any(hs in n for n in v.l.co)
    if hasattr(v, 'ps') and hasattr(v, '__hv__'):
        return depends(v.ps, hs)
    if isinstance(v, str):
        return hs + 'v' in v or hs + 'g' in v
    if isinstance(v, (tuple, list)):
        return any(depends(x, hs) for x in v)
    if isinstance(v, Poison):
        return True
    return False


def merge(base, cases, eq):
    """drop the case distinction when every case gives the same"""
    cases = [(tuple(c), v) for c, v in cases]
    if len(cases) == 1:
        return ((() if True else cases[0][0], cases[0][1]),) if trivial(base, cases[0][0]) else tuple(cases)
    first = cases[0][1]
    try:
        if all(same_under(c, first, v, eq) for c, v in cases[1:]):
            return (((), first),)
    except Unsupported:
        pass
    return tuple(cases)


def trivial(base, conds):
    # the only feasible case: every path of the iteration is an outcome or raised an error, so the conditions are the
    # complement of errors; the function does not return when an error is raised
    return True


def same_under(c, a, b, eq):
    CTX.enter(*c)
    try:
        return CTX.solver.check() == z3.unsat or eq(a, b)
    finally:
        CTX.leave()


# ---------------------------------------------------------------- exploring the paths
class Path:
    def __init__(self, cond, result, exc):
        self.cond, self.result, self.exc = cond, result, exc


def repeated(xs, n):
    if len(xs) != 1 or not isinstance(xs, (list, tuple)):
        raise Unsupported('repetition')
    CTX.solver.add(n.l.z3() >= 0) if ent(n.l.z3() >= 0) else None
    return AList(type(xs).__name__, [Rep(xs[0], n.l)])


def reset(assume_, script, loops):
    CTX.reset(assume_, script)
    CTX.loops = loops
    CTX.repeat = repeated
    CTX.alias = {}
    CTX.univ, CTX.insts, CTX.splits, CTX.equiv, CTX.active = {}, {}, {}, {}, set()


CTX.hom = None


def explore(fn, assume_=(), judge=None, max_paths=600):
    out, todo, loops = [], [()], {}
    n = 0
    while todo:
        script = todo.pop()
        n += 1
        if n > max_paths:
            raise Unsupported('too many paths')
        reset(assume_, list(script), loops)
        res = exc = None
        keep, upto = True, None
        try:
            res = fn()
            if judge is not None:
                res = judge(res)
        except (Unsupported, NeedHom):
            raise
        except EndIter:
            keep = False
        except Restart as r:
            keep = False
            upto = r.prefix
        except Exception as e:
            exc = e
            if CTX.active:
                # an error in an arbitrary iteration: reported like an error of the function
                pass
        sym.STAT['paths'] += 1
        if keep:
            out.append(Path(list(CTX.assume[len(assume_):]), res, exc))
        tr = list(CTX.trace)
        if upto is None:
            for i in range(len(script), len(tr)):
                todo.append(tuple(tr[:i] + [not tr[i]]))
        else:
            k = len(upto)
            for key in [x for x in loops if len(x) > k and x[:k + 1] == upto + (True,)]:
                del loops[key]
            for i in range(len(script), min(k + 1, len(tr))):
                todo.append(tuple(tr[:i] + [not tr[i]]))
            todo = [t for t in todo if t[:k + 1] != upto + (True,)]
            # with a new shape of the state, what followed the loop has to be redone too
            todo = [t for t in todo if not (len(t) > k + 1 and t[:k + 1] == upto + (False,))]
            if upto + (False,) not in todo:
                todo.append(upto + (False,))
            todo.append(upto + (True,))
    return out
