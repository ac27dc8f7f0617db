"""Builds horqrux objects (real code) from operation trees (see oracle.py)."""
from __future__ import annotations
import os, sys
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
REPO = os.environ.get('HV_REPO', '/repo')
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)
from . import jxi                      # patches jax library entry points before horqrux is imported
import jax, jax.numpy as jnp, numpy as np
from jax.experimental.sparse import BCOO
import horqrux
assert os.path.realpath(horqrux.__file__).startswith(os.path.realpath(REPO)), horqrux.__file__
from horqrux import apply as _apply
from horqrux.api import run, sample, expectation
from horqrux.apply import apply_gates, apply_operator
from horqrux.circuit import QuantumCircuit, hea
from horqrux.composite import Add, Observable, OpSequence, Scale
from horqrux.noise.noise import DigitalNoiseInstance, DigitalNoiseType
from horqrux.primitives import primitive as _pr, parametric as _pa
from horqrux.utils.operator_utils import DensityMatrix, density_mat, DiffMode
from horqrux.utils.conversion import to_sparse, to_dense

_fd = BCOO.fromdense.__func__ if hasattr(BCOO.fromdense, '__func__') else None


def _fromdense(cls, mat, *a, **kw):
    # contract of BCOO.fromdense: the dense meaning is unchanged; a traced operand keeps every element
    if jxi.sym_mode() and isinstance(mat, jax.core.Tracer) and not a and set(kw) <= {'nse'}:
        return jxi.fromdense(mat, kw.get('nse'))
    return _fd(cls, mat, *a, **kw)


if _fd is not None:
    BCOO.fromdense = classmethod(_fromdense)


def noise(ns):
    if not ns:
        return None
    out = []
    for kind, p in ns:
        out.append(DigitalNoiseInstance(DigitalNoiseType(kind), tuple(p) if isinstance(p, (list, tuple)) else p))
    return tuple(out)


def _tgt(t):
    return t[0] if len(t) == 1 else tuple(t)


def _ctl(c):
    return (None,) if not c else (c[0] if len(c) == 1 else tuple(c))


def build(op, sparse=False, nv=None, memo=None):
    """nv: optional dict giving the numeric/traced value of named noise rates
    memo: optional dict; equal subtrees are then built once and shared as one object"""
    if memo is not None:
        key = repr(op)
        if key not in memo:
            memo[key] = _build(op, sparse, nv, memo)
        return memo[key]
    return _build(op, sparse, nv, memo)


def _build(op, sparse, nv, memo):
    t = op[0]
    if t == 'g':
        ns = op[4] if len(op) > 4 else ()
        fn = getattr(_pr, op[1])
        return fn(_tgt(op[2]), _ctl(op[3]), noise(_sub(ns, nv)), sparse)
    if t == 'r':
        ns = op[5] if len(op) > 5 else ()
        fn = getattr(_pa, op[1])
        g = fn(op[2], _tgt(op[3]), _ctl(op[4]), noise(_sub(ns, nv)), sparse)
        if len(op) > 6:
            g = type(g)(g.generator_name, g.target[0], g.control[0], g.noise, g.sparse, g.param, op[6])
        return g
    if t == 'scale':
        return Scale(build(op[2], sparse, nv, memo), op[1])
    if t == 'add':
        return Add([build(o, sparse, nv, memo) for o in op[1]])
    if t == 'seq':
        return OpSequence([build(o, sparse, nv, memo) for o in op[1]])
    if t == 'obs':
        return Observable([build(o, sparse, nv, memo) for o in op[1]])
    raise KeyError(t)


def _sub(ns, nv):
    def v(x):
        if isinstance(x, str):
            return nv[x]
        return x
    return tuple((kind, tuple(v(x) for x in p) if isinstance(p, (list, tuple)) else v(p)) for kind, p in ns)


def circ(ops, n, sparse=False, nv=None, fparams=(), memo=None):
    return QuantumCircuit(n, [build(o, sparse, nv, memo) for o in ops], list(fparams))


def dense_out(x):
    """normalise an output for comparison"""
    if isinstance(x, DensityMatrix):
        return dense_out(x.array)
    if isinstance(x, BCOO):
        return x.todense()
    if isinstance(x, (tuple, list)):
        return [dense_out(y) for y in x]
    return x
