"""Frame conditions, function by function: 'assigns nothing which existed before the call', read off the current source.

Every function, method, nested function and lambda of horqrux gets one obligation. It is discharged when every assignment through a subscript or an attribute, every in-place
operator and every call of a mutating method acts on an object the function itself made (a literal, a comprehension, a copy, the result of an arithmetic operation, an array of jax,
or self in a constructor). Calls are taken at their contract: functions of horqrux have the same frame condition (their own obligation), those of the libraries are assumed to have
it unless listed as mutating. What is not covered is left undecided, never reported: the replays of hv/props/c17.py decide then."""
from __future__ import annotations
import ast, os

MUT = {'append', 'extend', 'insert', 'remove', 'clear', 'update', 'setdefault', 'sort', 'reverse', 'pop', 'popitem', 'add', 'discard', 'fill', 'put', 'itemset', 'resize', 'partition',
       'setflags', 'setfield', 'appendleft', 'popleft', 'extendleft', 'rotate', 'subtract', 'difference_update', 'intersection_update', 'symmetric_difference_update', 'byteswap', 'swapaxes_',
       'move_to_end', 'cache_clear', 'send', 'throw', 'close', 'write', '__setitem__', '__setattr__', '__delitem__', '__delattr__', '__init__', '__post_init__', '__iadd__', '__ior__', '__imul__'}
MUTF = {'setattr', 'delattr', 'exec', 'eval', 'next', 'vars', 'globals', 'locals', '__import__', 'shuffle', 'heappush', 'heappop', 'heapify', 'heapreplace', 'insort', 'insort_left',
        'insort_right', 'copyto', 'fill_diagonal', 'put_along_axis', 'place', 'putmask'}
STORES = {'append', 'insert', 'setdefault', 'add', 'extend', 'update'}
NEW = {'list', 'dict', 'set', 'tuple', 'frozenset', 'sorted', 'str', 'int', 'float', 'complex', 'bool', 'len', 'range', 'zip', 'map', 'filter', 'enumerate', 'reversed', 'abs', 'Counter',
       'defaultdict', 'OrderedDict', 'deque', 'deepcopy', 'iter', 'repr', 'format', 'round', 'object'} - {'iter'}
NPNEW = {'zeros', 'ones', 'array', 'eye', 'empty', 'full', 'arange', 'linspace', 'zeros_like', 'ones_like', 'copy', 'kron', 'dot', 'outer', 'concatenate', 'stack'}
CHANCE = {'random', 'time', 'os', 'secrets', 'datetime', 'threading', 'uuid'}


class Scope:
    def __init__(self, node, parent, name, cls):
        self.node, self.parent, self.name, self.cls = node, parent, name, cls
        self.bind, self.params, self.muts, self.why, self.glob = {}, set(), [], [], set()
        self.put = {}                # name -> values stored into it

    def owner(self, n):
        s = self
        while s is not None:
            if n in s.glob:
                return None
            if n in s.bind or n in s.params:
                return s
            s = s.parent
        return None


def name_of(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


def root(e):
    """the variable an expression goes through, and how many steps from it"""
    d = 0
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e, d = e.value, d + 1
    return (e, d)


OPAQUE = object()


class Reader(ast.NodeVisitor):
    def __init__(self, mod, tree):
        self.mod, self.out, self.cur, self.cls = mod, [], None, None
        self.alias = {}
        for x in ast.walk(tree):
            if isinstance(x, ast.Import):
                for a in x.names:
                    self.alias[(a.asname or a.name).split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            if isinstance(x, ast.ImportFrom) and x.module and not x.level:
                for a in x.names:
                    self.alias[a.asname or a.name] = f'{x.module}.{a.name}'
        self.visit(tree)

    # -- scopes
    def visit_ClassDef(self, n):
        old, self.cls = self.cls, n.name
        for x in n.body:
            self.visit(x)
        self.cls = old

    def scope(self, n, name):
        s = Scope(n, self.cur, name, self.cls)
        a = n.args
        s.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        if a.vararg:                     # the tuple and the dictionary of a call are its own
            s.params.discard(a.vararg.arg)
            s.bind[a.vararg.arg] = [ast.Tuple([], ast.Load())]
        if a.kwarg:
            s.params.discard(a.kwarg.arg)
            s.bind[a.kwarg.arg] = [ast.Dict([], [])]
        old, self.cur = self.cur, s
        oc, self.cls = self.cls, None if not isinstance(n, ast.Lambda) else self.cls
        for x in n.body if isinstance(n.body, list) else [n.body]:
            self.visit(x)
        self.cur, self.cls = old, oc
        self.out.append(s)

    def visit_FunctionDef(self, n):
        if self.cur is not None:
            self.cur.bind.setdefault(n.name, []).append(ast.Constant(0))
        self.scope(n, n.name)
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        if self.cur is None:
            return
        self.scope(n, f'<lambda {n.lineno}>')

    # -- bindings
    def bindt(self, t, v):
        c = self.cur
        if c is None:
            return
        if isinstance(t, ast.Name):
            c.bind.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in list(t.elts) + list(v.elts)) else [OPAQUE] * len(t.elts)
            for x, y in zip(t.elts, vs):
                self.bindt(x.value if isinstance(x, ast.Starred) else x, ast.List([], ast.Load()) if isinstance(x, ast.Starred) else y)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            c.muts.append((t.value, t.lineno))
            r, d = root(t.value)
            if isinstance(r, ast.Name) and isinstance(t, ast.Subscript):
                c.put.setdefault(r.id, []).append((d, v))

    def visit_Assign(self, n):
        for t in n.targets:
            self.bindt(t, n.value)
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.bindt(n.target, n.value)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        if self.cur is not None:
            if isinstance(n.target, ast.Name):
                self.cur.muts.append((n.target, n.lineno))
                self.cur.bind.setdefault(n.target.id, [])
                self.cur.put.setdefault(n.target.id, []).append((0, OPAQUE))
            else:
                self.bindt(n.target, ast.Constant(0))            # what is stored: the element changed in place, or a new object
                self.cur.muts.append((n.target, n.lineno))
        self.generic_visit(n)

    def visit_NamedExpr(self, n):
        self.bindt(n.target, n.value)
        self.generic_visit(n)

    def visit_For(self, n):
        self.bindt(n.target, OPAQUE)
        self.generic_visit(n)

    def visit_comprehension(self, n):
        self.bindt(n.target, OPAQUE)
        self.generic_visit(n)

    def visit_With(self, n):
        for i in n.items:
            if i.optional_vars is not None:
                self.bindt(i.optional_vars, OPAQUE)
        self.generic_visit(n)

    def visit_ExceptHandler(self, n):
        if n.name and self.cur is not None:
            self.cur.bind.setdefault(n.name, []).append(OPAQUE)
        self.generic_visit(n)

    def visit_Delete(self, n):
        for t in n.targets:
            if isinstance(t, (ast.Attribute, ast.Subscript)) and self.cur is not None:
                self.cur.muts.append((t.value, n.lineno))

    def visit_Global(self, n):
        if self.cur is not None:
            self.cur.glob |= set(n.names)
            self.cur.why.append(f'line {n.lineno}: global {", ".join(n.names)}')

    def visit_Nonlocal(self, n):
        pass

    def visit_Match(self, n):
        if self.cur is not None:
            self.cur.why.append(f'line {n.lineno}: match')

    def visit_Call(self, n):
        c, f = self.cur, n.func
        if c is not None:
            nm = name_of(f)
            if isinstance(f, ast.Attribute) and nm in MUT:
                at = isinstance(f.value, ast.Subscript) and name_of(f.value.value) == 'at'       # array.at[...].add is functional
                sup = isinstance(f.value, ast.Call) and name_of(f.value.func) == 'super'
                lib = isinstance(f.value, ast.Name) and c.owner(f.value.id) is None and self.alias.get(f.value.id, '').split('.')[0] in ('jax', 'numpy', 'operator')
                if not (at or lib or sup and c.name in ('__init__', '__post_init__')):
                    c.muts.append((f.value, n.lineno))
                    r, d = root(f.value)
                    if isinstance(r, ast.Name) and nm in STORES:
                        for x in n.args[-1:]:
                            c.put.setdefault(r.id, []).append((d, x if nm in ('append', 'insert', 'setdefault', 'add') else OPAQUE))
            elif nm in MUTF and not (isinstance(f, ast.Name) and c.owner(nm)):
                if nm == 'next' and n.args:
                    c.muts.append((n.args[0], n.lineno))
                else:
                    c.why.append(f'line {n.lineno}: {nm}')
            if any(k.arg == 'out' for k in n.keywords):
                c.why.append(f'line {n.lineno}: out=')
            r, _ = root(f)
            src = self.alias.get(r.id, '') if isinstance(r, ast.Name) and c.owner(r.id) is None else ''
            if src.split('.')[0] in CHANCE and nm != 'uuid4' or src.split('.')[0] == 'numpy' and 'random' in ast.unparse(f).split('.') or nm in ('id', 'hash') and isinstance(f, ast.Name):
                c.why.append(f'line {n.lineno}: {ast.unparse(f)} may differ from call to call')
        self.generic_visit(n)


def fresh(e, s, rd, seen=()):
    """the value is an object made here (or an immutable one)"""
    if e is OPAQUE:
        return False
    if isinstance(e, (ast.Constant, ast.List, ast.Dict, ast.Set, ast.Tuple, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.JoinedStr, ast.BinOp, ast.Compare, ast.UnaryOp, ast.Lambda)):
        return True
    if isinstance(e, ast.IfExp):
        return fresh(e.body, s, rd, seen) and fresh(e.orelse, s, rd, seen)
    if isinstance(e, ast.BoolOp):
        return all(fresh(x, s, rd, seen) for x in e.values)
    if isinstance(e, ast.Name):
        return fresh_name(e.id, s, rd, seen)
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
        return fresh(e.value, s, rd, seen)
    if isinstance(e, ast.Call):
        f = e.func
        nm = name_of(f)
        if isinstance(f, ast.Name):
            return nm in NEW and s.owner(nm) is None
        if isinstance(f, ast.Attribute):
            if nm == 'copy' and not e.args:
                return True
            if nm == 'fromkeys' and isinstance(f.value, ast.Name) and f.value.id == 'dict' and s.owner('dict') is None:
                return True
            r, _ = root(f)
            if isinstance(r, ast.Name) and s.owner(r.id) is None:
                src = rd.alias.get(r.id, '')
                if src == 'jax.numpy' or src == 'jax' and 'numpy' in ast.unparse(f):
                    return True
                return src == 'numpy' and nm in NPNEW
    return False


def fresh_name(n, s, rd, seen=()):
    o = s.owner(n)
    if o is None or n in o.params or (id(o), n) in seen:
        return o is not None and (id(o), n) in seen
    if not o.bind[n]:
        return False
    return all(fresh(v, o, rd, seen + ((id(o), n),)) for v in o.bind[n])


def elements_fresh(n, s, rd):
    """everything the object of that name holds was made here too"""
    o = s.owner(n)
    if o is None or n in o.params:
        return False

    def deep(v):
        if isinstance(v, (ast.List, ast.Tuple, ast.Set)):
            return all(fresh(x, o, rd) for x in v.elts)
        if isinstance(v, ast.Dict):
            return all(x is not None and fresh(x, o, rd) for x in v.values)
        if isinstance(v, ast.DictComp):
            return fresh(v.value, o, rd)
        if isinstance(v, (ast.ListComp, ast.SetComp)):
            return fresh(v.elt, o, rd)
        if isinstance(v, ast.Call) and name_of(v.func) == 'fromkeys':
            return fresh(v, o, rd) and (len(v.args) == 1 or fresh(v.args[1], o, rd) and not isinstance(v.args[1], (ast.Name, ast.List, ast.Dict, ast.Set)))
        return isinstance(v, ast.Call) and name_of(v.func) in ('list', 'dict', 'set', 'tuple') and not v.args and not v.keywords
    scopes = [x for x in rd.out if x is o or within(x, o)]
    return bool(o.bind[n]) and all(v is not OPAQUE and deep(v) for v in o.bind[n]) and all(d > 0 or v is not OPAQUE and fresh(v, x, rd) for x in scopes for d, v in x.put.get(n, []))


def within(x, o):
    while x is not None:
        if x is o:
            return True
        x = x.parent
    return False


def judge(s, rd):
    """what stands against the frame condition"""
    bad = list(s.why)
    for e, line in s.muts:
        r, d = root(e)
        what = ast.unparse(e)
        if isinstance(r, ast.Name):
            ctor = s
            while ctor is not None and ctor.name.startswith('<lambda'):
                ctor = ctor.parent
            if d == 0 and r.id == 'self' and ctor is not None and ctor.name in ('__init__', '__post_init__') and 'self' in ctor.params:
                continue
            if d == 0 and (fresh_name(r.id, s, rd) or just_made(r.id, line, s, rd)):
                continue
            if d == 1 and fresh_name(r.id, s, rd) and elements_fresh(r.id, s, rd):
                continue
        elif d == 0 and fresh(e, s, rd):
            continue
        bad.append(f'line {line}: {what} may be an object of the caller')
    return bad


def just_made(n, line, s, rd):
    """the name was last bound to an object made here, earlier in the same block"""
    if s.owner(n) is not s or isinstance(s.node, ast.Lambda):
        return False
    at = None
    for b in ast.walk(s.node):
        for fld in ('body', 'orelse', 'finalbody'):
            xs = getattr(b, fld, None)
            if isinstance(xs, list):
                for k, x in enumerate(xs):
                    if x.lineno <= line <= x.end_lineno and isinstance(x, (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign)):
                        at = (xs, k)
    if at is None:
        return False
    xs, k = at
    for x in reversed(xs[:k]):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == n:
            return fresh(x.value, s, rd)
        if any(isinstance(y, ast.Name) and y.id == n and isinstance(y.ctx, ast.Store) for y in ast.walk(x)):
            return False
    return False


def decorators(n):
    return [name_of(d.func if isinstance(d, ast.Call) else d) for d in getattr(n, 'decorator_list', [])]


def functions():
    """(name, reasons) of every function of the current source"""
    import horqrux
    base = os.path.dirname(horqrux.__file__)
    for dp, dn, fs in sorted(os.walk(base)):
        dn.sort()
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            p = os.path.join(dp, f)
            mod = os.path.relpath(p, base)[:-3].replace(os.sep, '.')
            rd = Reader(mod, ast.parse(open(p).read()))
            count = {}
            for s in sorted(rd.out, key=lambda x: (x.node.lineno, x.node.col_offset)):
                q, x = [], s
                while x is not None:
                    q.append(x.name if not x.name.startswith('<lambda') else '<lambda>')
                    x = x.parent
                c = s
                while c.parent is not None:
                    c = c.parent
                nm = '.'.join(([c.cls] if c.cls else []) + q[::-1])
                count[nm] = k = count.get(nm, 0) + 1
                bad = judge(s, rd)
                if {'cache', 'lru_cache'} & set(decorators(s.node)):
                    bad.append('remembers earlier calls')
                yield f'{mod}.{nm}' + (f' #{k}' if k > 1 else ''), bad
