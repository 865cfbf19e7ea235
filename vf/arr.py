"""Symbolic n-dimensional arrays: symbolic extents, elements given by (memoised) closures.

``SArray`` follows numpy's value and aliasing semantics for the operations it supports (basic
slices and transposes are views that write through; arithmetic snapshots its operands) and raises
``Unsupported`` for the rest.  When every element an operation needs is concrete, the operation is
delegated to numpy.
"""
from __future__ import annotations

import hashlib
import itertools
import math

import numpy as np
import z3

from . import sym as S
from .sym import SBool, SInt, SNum, SReal, Unsupported, ctx, is_num, is_sym, ite


RECORD = None   # selftest: definitions of the counts and sums


class CompDim(SInt):
    """Extent of an axis produced by boolean-mask selection; indexed by the parent index (a tuple)."""

    def __init__(self, z, mask, parents, key):
        SInt.__init__(self, z)
        self.mask, self.parents, self.key = mask, parents, key


class FlatDim(SInt):
    """Extent of an axis produced by flattening several axes; indexed by the parent index (a tuple)."""

    def __init__(self, z, parents):
        SInt.__init__(self, z)
        self.parents = parents


class CatDim(SInt):
    """Extent of an axis produced by concatenation; ``parts`` are the extents of its parts."""

    def __init__(self, z, parts):
        SInt.__init__(self, z)
        self.parts = parts


class Rows:
    """One field of every item of a list of symbolic length: stands for the whole list in a map over it.

    Only components may be taken of it; ``array([rows])`` is the array with a row per list item.
    """

    def __init__(self, n, fns, dtype='float64'):
        self.n, self.fns, self.dtype = n, fns, dtype   # fns: a function, or a list of functions, of the item index

    def __len__(self):
        if callable(self.fns):
            raise TypeError('scalar')
        return len(self.fns)

    def __iter__(self):
        if callable(self.fns):
            raise TypeError('scalar')
        return iter([Rows(self.n, f, self.dtype) for f in self.fns])

    def __getitem__(self, k):
        if callable(self.fns):
            raise TypeError('scalar')
        return Rows(self.n, self.fns[k], self.dtype)

    def __bool__(self):
        raise Unsupported('truth of a list item')

    def __eq__(self, o):
        raise Unsupported('comparison of a list item')

    __hash__ = None

    def array(self):
        if callable(self.fns):
            return SArray.make((self.n,), lambda i: self.fns(i[0]), self.dtype)
        return SArray.make((self.n, len(self.fns)), lambda i: sel(lambda j: self.fns[j[1]](j[0]), i, 1, len(self.fns)) if not isinstance(i[1], int) else self.fns[i[1]](i[0]), self.dtype)


def rows_of(x):
    """Rows for a list item that is, or is a tuple of, Rows."""
    if isinstance(x, Rows):
        return x
    if isinstance(x, (list, tuple)) and x and all(isinstance(e, Rows) and callable(e.fns) for e in x):
        return Rows(x[0].n, [e.fns for e in x], x[0].dtype)
    return None


class RowList(list):
    """A list of symbolic length n, given by the one generic item."""

    def __init__(self, n, item):
        list.__init__(self, [item])
        self.n = n

    def sym_len(self):
        return self.n

    def __bool__(self):
        return bool(self.n > 0)

    def __len__(self):
        raise Unsupported('length of a list of symbolic length')

    def __getitem__(self, k):
        raise Unsupported('item of a list of symbolic length')


def _k(i):
    if isinstance(i, tuple):
        return tuple(_k(v) for v in i)
    return i if isinstance(i, int) else ('z', i.z.get_id())


class Fn:
    """Memoised index -> scalar function."""

    __slots__ = ('f', 'memo')

    def __init__(self, f):
        self.f, self.memo = f, {}

    def __call__(self, idx):
        key = tuple(_k(i) for i in idx)
        if key not in self.memo:
            self.memo[key] = (self.f(idx), idx)
        return self.memo[key][0]


class Store:
    __slots__ = ('shape', 'fn')

    def __init__(self, shape, fn):
        self.shape, self.fn = shape, fn if isinstance(fn, Fn) else Fn(fn)


def dim_same(a, b):
    """Provably equal extents."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, CompDim) or isinstance(b, CompDim):
        return isinstance(a, CompDim) and isinstance(b, CompDim) and a.key == b.key
    if isinstance(a, FlatDim) and isinstance(b, FlatDim):
        if len(a.parents) == len(b.parents) and all(
            dim_same(x, y) for x, y in zip(a.parents, b.parents)
        ):
            return True
    az, bz = SInt.of(a).z, SInt.of(b).z
    if az.eq(bz):
        return True
    return ctx().entails(az == bz)


def dim_merge(a, b):
    """numpy broadcasting of two extents."""
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    if dim_same(a, b):
        return a if not isinstance(a, int) else a
    if isinstance(a, int) and isinstance(b, int):
        raise ValueError('operands could not be broadcast together')
    if isinstance(a, CompDim) or isinstance(b, CompDim):
        raise Unsupported('broadcast of differently masked axes')
    az, bz = SInt.of(a).z, SInt.of(b).z
    if ctx().fork(az == bz):
        return a
    if ctx().fork(az == 1):
        return b
    if ctx().fork(bz == 1):
        return a
    raise ValueError('operands could not be broadcast together')


def dim_is_one(d):
    if isinstance(d, int):
        return d == 1
    if isinstance(d, (CompDim, FlatDim)):
        return False
    return ctx().entails(d.z == 1)


def broadcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for ax in range(n):
        d = 1
        for s in shapes:
            k = ax - (n - len(s))
            if k >= 0:
                d = dim_merge(d, s[k])
        out.append(d)
    return tuple(out)


def bcast_fn(fn, shape, out_shape):
    off = len(out_shape) - len(shape)
    one = [dim_is_one(d) and not dim_is_one(o) for d, o in zip(shape, out_shape[off:])]
    if off == 0 and not any(one):
        return fn
    return lambda idx: fn(tuple(0 if o else i for o, i in zip(one, idx[off:])))


def iadd(a, b):
    return a + b


def result_dtype(*xs):
    """numpy 2 result type, with Python scalars weak."""
    ds = []
    for x in xs:
        if isinstance(x, SArray):
            ds.append(x.dtype)
        elif isinstance(x, np.ndarray):
            ds.append(x.dtype)
        elif isinstance(x, (np.generic,)):
            ds.append(x.dtype)
        elif isinstance(x, SReal) or isinstance(x, float):
            ds.append(0.0)
        elif isinstance(x, (bool, SBool)):
            ds.append(np.dtype('bool'))
        else:
            ds.append(0)
    arrs = [d for d in ds if isinstance(d, np.dtype)]
    if not arrs:
        return np.result_type(*ds)
    return np.result_type(*ds)


class SArray:
    __array_ufunc__ = None

    def __init__(self, store, shape, axes, dtype, base_axes=None, ro=False):
        # axes: one entry per base axis: ('i', k) fixed index, or ('s', start, step, view axis)
        self.store = store
        self._shape = shape
        self.axes = axes
        self.dtype = np.dtype(dtype)
        self.ro = ro  # result of reshape: writing would need reshape-through

    # ---------------------------------------------------------------- constructors
    @staticmethod
    def make(shape, fn, dtype):
        shape = tuple(shape)
        st = Store(shape, fn)
        return SArray(st, shape, [('s', 0, 1, k) for k in range(len(shape))], dtype)

    @staticmethod
    def from_np(a):
        a = np.array(a)
        if a.dtype == object:
            raise Unsupported('object array')

        def fn(idx):
            if all(isinstance(i, int) for i in idx):
                return a[idx].item() if a.dtype.kind in 'fiub' else a[idx]
            # symbolic index into concrete data
            return _select(a, idx)

        r = SArray.make(tuple(int(d) for d in a.shape), fn, a.dtype)
        return r

    # ---------------------------------------------------------------- basics
    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for d in self._shape:
            r = r * d
        return r

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *perm):
        if len(perm) == 1 and isinstance(perm[0], (tuple, list)):
            perm = perm[0]
        if not perm:
            perm = tuple(range(self.ndim))[::-1]
        pos = {p: k for k, p in enumerate(perm)}
        axes = [a if a[0] == 'i' else ('s', a[1], a[2], pos[a[3]]) for a in self.axes]
        return SArray(self.store, tuple(self._shape[p] for p in perm), axes, self.dtype, ro=self.ro)

    def _base_idx(self, idx):
        out = []
        for a in self.axes:
            if a[0] == 'i':
                out.append(a[1])
            else:
                _, st, step, va = a
                i = idx[va]
                if isinstance(i, tuple):
                    out.append(i)
                else:
                    out.append(i if (isinstance(st, int) and st == 0) and step == 1 else st + i * step)
        return tuple(out)

    def snap(self):
        """A closure on the current contents."""
        fn = self.store.fn
        if all(
            a[0] == 's' and isinstance(a[1], int) and a[1] == 0 and a[2] == 1 and a[3] == k
            for k, a in enumerate(self.axes)
        ) and len(self.axes) == self.ndim:
            return fn
        return lambda idx, bi=self._base_idx, fn=fn: fn(bi(idx))

    def at(self, *idx):
        return self.snap()(tuple(int(i) if isinstance(i, np.integer) else i for i in idx))

    def concrete_shape(self):
        return all(isinstance(d, int) for d in self._shape)

    def indices(self):
        if not self.concrete_shape():
            raise Unsupported('enumeration of an array with a symbolic extent')
        return itertools.product(*[range(d) for d in self._shape])

    def elems(self):
        f = self.snap()
        return [f(i) for i in self.indices()]

    def to_np(self):
        """A numpy array if every element is concrete, else None."""
        if not self.concrete_shape():
            return None
        es = self.elems()
        if any(is_sym(e) for e in es):
            return None
        return np.array(es, dtype=self.dtype).reshape(self._shape)

    def __len__(self):
        d = self._shape[0]
        if isinstance(d, int):
            return d
        raise Unsupported('len() of a symbolic extent by uninterpreted code')

    def __iter__(self):
        if not isinstance(self._shape[0], int):
            raise Unsupported('iteration over a symbolic extent')
        return iter([self[k] for k in range(self._shape[0])])

    def __bool__(self):
        if self.concrete_shape() and len(self.elems()) == 1:
            return bool(self.elems()[0])
        raise ValueError('The truth value of an array is ambiguous.')

    def __float__(self):
        raise Unsupported('float() of an array')

    def _one(self):
        es = self.elems()
        if len(es) != 1:
            raise TypeError('only length-1 arrays can be converted')
        return es[0]

    def __index__(self):
        return self._one().__index__()

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f'<sym array {self._shape}>'

    def __array__(self, *a, **k):
        r = self.to_np()
        if r is None:
            raise Unsupported('symbolic array passed to uninterpreted code')
        return r

    def item(self):
        return self._one()

    def tolist(self):
        if self.ndim == 0:
            return self.at()
        return [self[k].tolist() if self.ndim > 1 else _py(self.at(k)) for k in range(len(self))]

    def copy(self, *a, **k):
        return SArray.make(self._shape, self.snap(), self.dtype)

    def astype(self, dtype, copy=True, casting='unsafe', **kw):
        dtype = np.dtype(dtype)
        if dtype == self.dtype:
            return self.copy() if copy else self
        f = self.snap()
        return SArray.make(self._shape, lambda i: cast(f(i), self.dtype, dtype), dtype)

    def view(self, dtype=None):
        dtype = np.dtype(dtype)
        if {dtype, self.dtype} == {np.dtype('bool'), np.dtype('uint8')}:
            f = self.snap()
            if dtype == np.dtype('bool'):
                g = lambda i: _ne0(f(i))
            else:
                g = lambda i: f(i)._num() if isinstance(f(i), SBool) else int(f(i))
            r = SArray.make(self._shape, g, dtype)
            r.ro = True
            return r
        raise Unsupported('view')

    def ravel(self):
        return self.reshape(-1)

    def flatten(self):
        return self.reshape(-1).copy()

    def squeeze(self, axis=None):
        keep = [k for k, d in enumerate(self._shape) if not dim_is_one(d)]
        if self.ndim == len(keep):
            return self
        drop = [k for k in range(self.ndim) if k not in keep]
        return self[tuple(0 if k in drop else slice(None) for k in range(self.ndim))]

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = tuple(int(s) if isinstance(s, np.integer) else s for s in shape)
        return _reshape(self, shape)

    # ---------------------------------------------------------------- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    def fill(self, v):
        self[...] = v

    # ---------------------------------------------------------------- reductions & methods
    def sum(self, axis=None, **k):
        return reduce_(self, 'sum', axis)

    def mean(self, axis=None, **k):
        return reduce_(self, 'mean', axis)

    def min(self, axis=None, **k):
        return reduce_(self, 'min', axis)

    def max(self, axis=None, **k):
        return reduce_(self, 'max', axis)

    def any(self, axis=None, **k):
        return reduce_(self, 'any', axis)

    def all(self, axis=None, **k):
        return reduce_(self, 'all', axis)

    def prod(self, axis=None, **k):
        return reduce_(self, 'prod', axis)

    def argmin(self, *a, **k):
        r = self.to_np()
        if r is None:
            raise Unsupported('argmin')
        return r.argmin(*a, **k)

    def argmax(self, *a, **k):
        r = self.to_np()
        if r is None:
            raise Unsupported('argmax')
        return r.argmax(*a, **k)

    def round(self, n=0):
        if n:
            return self.copy()  # only used for messages
        return ew(S.rint, self)

    def clip(self, lo=None, hi=None, **k):
        return clip(self, lo, hi)

    def dot(self, o):
        return dot(self, o)

    __matmul__ = dot

    def __rmatmul__(self, o):
        return dot(o, self)

    # ---------------------------------------------------------------- operators
    def __add__(self, o):
        return ew2w(lambda a, b: a + b, self, o)

    def __radd__(self, o):
        return ew2w(lambda a, b: a + b, o, self)

    def __sub__(self, o):
        return ew2w(lambda a, b: a - b, self, o)

    def __rsub__(self, o):
        return ew2w(lambda a, b: a - b, o, self)

    def __mul__(self, o):
        return ew2w(_mul, self, o)

    def __rmul__(self, o):
        return ew2w(_mul, o, self)

    def __truediv__(self, o):
        return ew2(_div, self, o, dt='div')

    def __rtruediv__(self, o):
        return ew2(_div, o, self, dt='div')

    def __floordiv__(self, o):
        return ew2w(lambda a, b: a // b, self, o)

    def __rfloordiv__(self, o):
        return ew2w(lambda a, b: a // b, o, self)

    def __mod__(self, o):
        return ew2(lambda a, b: a % b, self, o)

    def __pow__(self, o):
        return ew2w(lambda a, b: a**b, self, o)

    def __neg__(self):
        return ew(lambda a: -a, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return ew(abs, self)

    def __and__(self, o):
        return ew2(_and, self, o)

    __rand__ = __and__

    def __or__(self, o):
        return ew2(_or, self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return ew2(lambda a, b: a != b, self, o)

    def __invert__(self):
        if self.dtype != bool:
            raise Unsupported('bitwise not')
        return ew(lambda a: ~a if isinstance(a, SBool) else not a, self)

    def __lt__(self, o):
        return ew2(lambda a, b: a < b, self, o, dt='bool')

    def __le__(self, o):
        return ew2(lambda a, b: a <= b, self, o, dt='bool')

    def __gt__(self, o):
        return ew2(lambda a, b: a > b, self, o, dt='bool')

    def __ge__(self, o):
        return ew2(lambda a, b: a >= b, self, o, dt='bool')

    def __eq__(self, o):
        return ew2(lambda a, b: a == b, self, o, dt='bool')

    def __ne__(self, o):
        return ew2(lambda a, b: a != b, self, o, dt='bool')

    def _inplace(self, o, f, dt=None):
        r = ew2(f, self, o, dt=dt) if dt else ew2w(f, self, o)
        shape = broadcast_shapes(self._shape, r.shape if isinstance(r, SArray) else ())
        if len(shape) != self.ndim:
            raise ValueError('non-broadcastable output operand')
        if not np.can_cast(r.dtype, self.dtype, 'same_kind'):
            raise TypeError('Cannot cast ufunc output')  # numpy: UFuncTypeError
        self[...] = r
        return self

    def __iadd__(self, o):
        return self._inplace(o, lambda a, b: a + b)

    def __isub__(self, o):
        return self._inplace(o, lambda a, b: a - b)

    def __imul__(self, o):
        return self._inplace(o, _mul)

    def __itruediv__(self, o):
        return self._inplace(o, _div, dt='div')

    def __iand__(self, o):
        return self._inplace(o, _and)

    def __ior__(self, o):
        return self._inplace(o, _or)


# -------------------------------------------------------------------------------------- scalar ops
def _py(e):
    return e.item() if isinstance(e, np.generic) else e


def _mul(a, b):
    return a * b


def _div(a, b):
    if not is_sym(a) and not is_sym(b):
        if b == 0:
            return float('nan') if a == 0 or a != a else math.copysign(math.inf, a)
        return a / b
    return a / b if is_sym(a) else SReal.of(a) / b


def _and(a, b):
    if isinstance(a, SBool) or isinstance(b, SBool):
        return (a & b) if isinstance(a, SBool) else (b & a)
    return a and b if isinstance(a, bool) and isinstance(b, bool) else a & b


def _or(a, b):
    if isinstance(a, SBool) or isinstance(b, SBool):
        return (a | b) if isinstance(a, SBool) else (b | a)
    return a or b if isinstance(a, bool) and isinstance(b, bool) else a | b


def _ne0(a):
    return a != 0


INT_RANGE = {
    d: (int(np.iinfo(d).min), int(np.iinfo(d).max))
    for d in ('uint8', 'int8', 'uint16', 'int16', 'uint32', 'int32', 'int64', 'uint64')
}


def cast(e, src, dst):
    """numpy 'unsafe' cast of one element."""
    if src == dst:
        return e
    if dst.kind == 'b':
        return e != 0
    if not is_sym(e):
        with np.errstate(all='ignore'):
            return np.array(e).astype(dst).item()
    if isinstance(e, SBool):
        e = e._num()
    if dst.kind == 'f':
        if dst == np.float32:
            if src.kind in 'iu' and src.itemsize <= 2 or src.kind == 'b':
                return SReal.of(e)
            return S.rnd32(SReal.of(e))
        return SReal.of(e)
    if dst.kind in 'iu':
        lo, hi = INT_RANGE[str(dst)]
        if isinstance(e, SReal):
            v = S.to_int(e)
            vz = SInt.of(v).z
            # out-of-range float to integer casts are unspecified
            f = ctx()
            tz = S.ufn('cast_' + str(dst), 1, [z3.RealSort()], z3.IntSort())(e.z)
            inr = z3.And(vz >= lo, vz <= hi)
            return SInt.mk(z3.If(inr, vz, tz))
        vz = SInt.of(e).z
        n = hi - lo + 1
        return SInt.mk(z3.If(z3.And(vz >= lo, vz <= hi), vz, (vz - lo) % n + lo))
    raise Unsupported(f'cast to {dst}')


# ------------------------------------------------------------------------------------- element-wise
def asarr(x):
    if isinstance(x, SArray):
        return x
    if isinstance(x, np.ndarray):
        return SArray.from_np(x)
    if isinstance(x, np.generic):
        v = x.item()
        return SArray.make((), lambda i: v, x.dtype)
    if isinstance(x, (SInt,)):
        return SArray.make((), lambda i: x, 'int64')
    if isinstance(x, (SReal,)):
        return SArray.make((), lambda i: x, 'float64')
    if isinstance(x, (SBool, bool)):
        return SArray.make((), lambda i: x, 'bool')
    if isinstance(x, int):
        return SArray.make((), lambda i: x, 'int64')
    if isinstance(x, float):
        return SArray.make((), lambda i: x, 'float64')
    if x is None:
        raise TypeError('unsupported operand type: NoneType')
    if isinstance(x, (list, tuple)) or hasattr(x, '__iter__'):
        return array(x)
    raise Unsupported(f'array of {type(x)}')


def _wrap0(r):
    """0-d results are scalars."""
    if isinstance(r, SArray) and r.ndim == 0:
        v = r.at()
        if not is_sym(v):
            return r.dtype.type(v)
        return v
    return r


def ew(f, *xs, dt=None):
    """Element-wise function of broadcast operands."""
    arrs = [asarr(x) for x in xs]
    shape = broadcast_shapes(*[a.shape for a in arrs])
    fns = [bcast_fn(a.snap(), a.shape, shape) for a in arrs]
    if dt is None:
        dt = result_dtype(*[a if isinstance(x, (SArray, np.ndarray, list, tuple)) else x for a, x in zip(arrs, xs)])
    elif dt == 'div':
        dt = result_dtype(*[a if isinstance(x, (SArray, np.ndarray, list, tuple)) else x for a, x in zip(arrs, xs)])
        if dt.kind in 'iub':
            dt = np.dtype('float64')
    dt = np.dtype(dt)
    r = SArray.make(shape, lambda idx: f(*[fn(idx) for fn in fns]), dt)
    return _wrap0(r)


def ew2(f, a, b, dt=None):
    if isinstance(b, (str, dict, type(None))) or isinstance(a, (str, dict, type(None))):
        return NotImplemented
    return ew(f, a, b, dt=dt)


def ew2w(f, a, b):
    """Arithmetic: 8 and 16 bit integer results wrap (wider ones are mathematical)."""
    r = ew2(f, a, b)
    if isinstance(r, SArray) and r.dtype.kind in 'iu' and r.dtype.itemsize <= 2 and r.store.shape == r.shape:
        g, dt = r.snap(), r.dtype
        return SArray.make(r.shape, lambda idx: cast(g(idx), np.dtype('int64'), dt), dt)
    return r


def where(c, a=None, b=None):
    if a is None:
        return nonzero(c)
    return ew(lambda x, y, z: ite(x, y, z), c, a, b, dt=result_dtype(a, b))


def clip(a, lo, hi, out=None):
    xs = [a]
    r = a
    if lo is not None:
        r = ew(lambda x, l: S.ite(S.SBool.mk(S.zb(x < l)) if is_sym(x) or is_sym(l) else x < l, l, x), r, lo, dt=None)
    if hi is not None:
        r = ew(lambda x, h: S.ite(x > h, h, x), r, hi, dt=None)
    if out is not None:
        out[...] = r
        return out
    return r


def _select(a, idx):
    """Concrete data at a symbolic index."""
    k = next(n for n, i in enumerate(idx) if not isinstance(i, int))
    i = idx[k]
    r = None
    for v in range(a.shape[k] - 1, -1, -1):
        sub = idx[:k] + (v,) + idx[k + 1 :]
        e = a[sub].item() if all(isinstance(j, int) for j in sub) else _select(a, sub)
        r = e if r is None else ite(i == v, e, r)
    return r


def sel(fn, idx, k, n):
    """fn at idx, where axis k (extent n, concrete) has a symbolic index."""
    i = idx[k]
    r = None
    for v in range(n - 1, -1, -1):
        e = fn(idx[:k] + (v,) + idx[k + 1 :])
        r = e if r is None else ite(i == v, e, r)
    return r


# ------------------------------------------------------------------------------------ construction
def _dtype_of(e):
    if isinstance(e, SReal) or isinstance(e, float):
        return np.dtype('float64')
    if isinstance(e, (SBool, bool)):
        return np.dtype('bool')
    if isinstance(e, (SInt, int)):
        return np.dtype('int64')
    if isinstance(e, np.generic):
        return e.dtype
    if isinstance(e, str):
        return np.dtype('U')
    raise Unsupported(f'array element {type(e)}')


def array(x, dtype=None, copy=True, ndmin=0, **kw):
    if isinstance(x, SArray):
        r = x.copy() if copy else x
        return r.astype(dtype, copy=False) if dtype is not None else r
    if isinstance(x, np.ndarray):
        r = SArray.from_np(x)
        return r.astype(dtype, copy=False) if dtype is not None else r
    if is_num(x):
        r = asarr(x)
        return r.astype(dtype, copy=False) if dtype is not None else r
    if isinstance(x, (list, tuple)) or hasattr(x, 'sym_items'):
        if hasattr(x, 'sym_items'):
            r = x.sym_items()
            return r.astype(dtype, copy=False) if dtype is not None else r
        if len(x) == 1 and rows_of(x[0]) is not None:
            r = rows_of(x[0]).array()
            return r.astype(dtype, copy=False) if dtype is not None else r
        items = [asarr(e) if not isinstance(e, (list, tuple)) else array(e) for e in x]
        if not items:
            return SArray.from_np(np.array([], dtype=dtype))
        if any(e.ndim != items[0].ndim for e in items):
            raise ValueError('setting an array element with a sequence (inhomogeneous shape)')
        r = stack(items)
        return r.astype(dtype, copy=False) if dtype is not None else r
    if hasattr(x, 'sym_items'):
        r = x.sym_items()
        return r.astype(dtype, copy=False) if dtype is not None else r
    a = np.array(x, dtype=dtype)
    if a.dtype == object:
        raise Unsupported(f'np.array of {type(x)}')
    return SArray.from_np(a)


def stack(items, axis=0):
    items = [asarr(e) for e in items]
    shape = items[0].shape
    for e in items[1:]:
        if e.ndim != len(shape):
            raise ValueError('all input arrays must have the same shape')
        for a, b in zip(shape, e.shape):
            if not dim_same(a, b):
                if isinstance(a, int) and isinstance(b, int) or ctx().fork(SInt.of(a).z != SInt.of(b).z):
                    raise ValueError('all input arrays must have the same shape')
    fns = [e.snap() for e in items]
    n = len(items)
    dt = np.result_type(*[e.dtype for e in items])
    if axis < 0:
        axis += len(shape) + 1

    def fn(idx):
        k = idx[axis]
        rest = idx[:axis] + idx[axis + 1 :]
        if isinstance(k, int):
            return fns[k](rest)
        r = fns[n - 1](rest)
        for v in range(n - 2, -1, -1):
            r = ite(k == v, fns[v](rest), r)
        return r

    return SArray.make(shape[:axis] + (n,) + shape[axis:], fn, dt)


def concatenate(items, axis=0, **k):
    items = [asarr(e) for e in items]
    nd = items[0].ndim
    if axis < 0:
        axis += nd
    offs = [0]
    for e in items:
        d = e.shape[axis]
        if isinstance(d, CompDim):
            raise Unsupported('concatenate along a masked axis')
        offs.append(offs[-1] + d)
    shape = list(items[0].shape)
    for e in items[1:]:
        if e.ndim != nd:
            raise ValueError('dimension mismatch in concatenate')
        for ax in range(nd):
            if ax != axis and not dim_same(shape[ax], e.shape[ax]):
                if isinstance(shape[ax], CompDim) or isinstance(e.shape[ax], CompDim):
                    raise Unsupported('concatenate of differently masked arrays')
                if isinstance(shape[ax], int) and isinstance(e.shape[ax], int) or ctx().fork(
                    SInt.of(shape[ax]).z != SInt.of(e.shape[ax]).z
                ):
                    raise ValueError('dimension mismatch in concatenate')
    shape[axis] = offs[-1]
    if len(items) > 1 and isinstance(offs[-1], SInt):
        shape[axis] = CatDim(offs[-1].z, [e.shape[axis] for e in items])
    fns = [e.snap() for e in items]
    dt = np.result_type(*[e.dtype for e in items])

    def fn(idx):
        i = idx[axis]
        r = None
        for k in range(len(items) - 1, -1, -1):
            lo, hi = offs[k], offs[k + 1]
            c = i < hi
            if c is False or (isinstance(c, SBool) and r is not None and ctx().entails(znot_(c))):
                if r is None:
                    continue
                continue
            sub = idx[:axis] + (i - lo,) + idx[axis + 1 :]
            if r is None or c is True:
                if r is None and isinstance(i, int) and isinstance(lo, int) and i < lo:
                    continue
                r = fns[k](sub)
            else:
                r = ite(c, fns[k](sub), r)
        return r

    return SArray.make(shape, fn, dt)


def znot_(c):
    return z3.Not(S.zb(c))


def vstack(items):
    items = [asarr(e) for e in items]
    return concatenate([e if e.ndim >= 2 else e[None, :] for e in items], axis=0)


def column_stack(items):
    items = [asarr(e) for e in items]
    return concatenate([e if e.ndim >= 2 else e[:, None] for e in items], axis=1)


def full(shape, fill_value, dtype=None, **k):
    shape = _shape(shape)
    if dtype is None:
        dtype = _dtype_of(fill_value) if not isinstance(fill_value, SArray) else fill_value.dtype
    dtype = np.dtype(dtype)
    if fill_value is None:
        raise TypeError('cannot fill with None')
    if not is_sym(fill_value):
        if isinstance(fill_value, SArray):
            f0 = bcast_fn(fill_value.snap(), fill_value.shape, shape)
            return SArray.make(shape, lambda i: cast(f0(i), fill_value.dtype, dtype), dtype)
        with np.errstate(all='ignore'):
            v = np.full((), fill_value, dtype=dtype).item()
    else:
        v = cast(fill_value, fill_value.dtype, dtype)
    return SArray.make(shape, lambda i: v, dtype)


def _shape(s):
    if isinstance(s, (int, SInt, np.integer)):
        s = (s,)
    return tuple(int(d) if isinstance(d, np.integer) else d for d in s)


def zeros(shape, dtype='float64', **k):
    return full(shape, 0, np.dtype(dtype or 'float64'))


def ones(shape, dtype='float64', **k):
    return full(shape, 1, np.dtype(dtype or 'float64'))


def eye(n, m=None, dtype='float64', **k):
    m = n if m is None else m
    return SArray.make(
        (n, m), lambda i: ite(i[0] == i[1], 1.0, 0.0) if is_sym(i[0] == i[1]) else float(i[0] == i[1]), dtype
    )


def arange(*a, dtype=None, **k):
    if not any(is_sym(v) for v in a):
        return SArray.from_np(np.arange(*a, dtype=dtype))
    start, stop, step = 0, None, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    if any(isinstance(v, (float, SReal)) for v in (start, stop, step)):
        raise Unsupported('float arange')
    n = range_len(start, stop, step)
    r = SArray.make((n,), lambda i: start + i[0] * step, 'int64')
    return r.astype(dtype) if dtype is not None else r


def range_len(start, stop, step):
    if isinstance(step, int) and step == 1 and not is_sym(step):
        d = stop - start
        if not is_sym(d):
            return max(0, d)
        return d if ctx().entails(d >= 0) else S.smax(d, 0)
    if not ctx().entails(step > 0):
        raise Unsupported('range with a step not known to be positive')
    d = stop - start
    q = (d + step - 1) // step
    if not is_sym(q):
        return max(0, q)
    return q if ctx().entails(d >= 0) else S.smax(q, 0)


def linspace(a, b, num=50, endpoint=True, **k):
    a, b = asarr(a), asarr(b)
    shape = broadcast_shapes(a.shape, b.shape)
    fa, fb = bcast_fn(a.snap(), a.shape, shape), bcast_fn(b.snap(), b.shape, shape)
    num = int(num) if isinstance(num, np.integer) else num
    div = num - 1 if endpoint else num

    def fn(idx):
        i, rest = idx[0], idx[1:]
        x, y = fa(rest), fb(rest)
        if isinstance(div, int):
            if div == 0:
                return x if is_sym(x) else float(x)
            r = x + (y - x) * i / div
            return r
        x, y = SReal.of(x), SReal.of(y)
        if isinstance(i, int) and i == 0:
            return x
        r = x + (y - x) * SReal.of(i) / SReal.of(div)
        r = SReal(r.z, S.zor(x.nan, y.nan))
        return S.ite(SInt.of(i) == 0, x, r) if is_sym(i) and not ctx().entails(div > 0) else r

    return SArray.make((num,) + shape, fn, 'float64')


def meshgrid(x, y, indexing='xy', **k):
    x, y = asarr(x), asarr(y)
    fx, fy = x.snap(), y.snap()
    nx, ny = x.shape[0], y.shape[0]
    if indexing == 'xy':
        return [
            SArray.make((ny, nx), lambda i: fx((i[1],)), x.dtype),
            SArray.make((ny, nx), lambda i: fy((i[0],)), y.dtype),
        ]
    return [
        SArray.make((nx, ny), lambda i: fx((i[0],)), x.dtype),
        SArray.make((nx, ny), lambda i: fy((i[1],)), y.dtype),
    ]


# ----------------------------------------------------------------------------------------- reshape
def _prod(ds):
    r = 1
    for d in ds:
        r = r * d
    return r


def _reshape(a, shape):
    src = a.shape
    fn = a.snap()
    if len(shape) == len(src) and all(
        (isinstance(t, int) and t == -1) or dim_same(s, t) for s, t in zip(src, shape)
    ):
        out = tuple(s if isinstance(t, int) and t == -1 else s for s, t in zip(src, shape))
        r = SArray.make(out, fn, a.dtype)
        r.ro = True
        return r
    # drop / add unit axes
    if any(isinstance(d, FlatDim) for d in src):
        # unflatten
        k = next(i for i, d in enumerate(src) if isinstance(d, FlatDim))
        par = src[k].parents
        full_ = src[:k] + tuple(par) + src[k + 1 :]
        if len(full_) == len(shape) and all(
            isinstance(t, int) and t == -1 or dim_same(s, t) for s, t in zip(full_, shape)
        ):
            n = len(par)
            r = SArray.make(full_, lambda i: fn(i[:k] + (tuple(i[k : k + n]),) + i[k + n :]), a.dtype)
            r.ro = True
            return r
    nu_src = [k for k, d in enumerate(src) if not dim_is_one(d)]
    tgt = [d for d in shape if not (isinstance(d, int) and d == 1)]
    if len(nu_src) == len(tgt):
        ok = all(
            isinstance(t, int) and t == -1 or dim_same(src[k], t) for k, t in zip(nu_src, tgt)
        )
        if ok:
            it = iter(nu_src)
            out, pos = [], []
            for p, d in enumerate(shape):
                if isinstance(d, int) and d == 1:
                    out.append(1)
                else:
                    k = next(it)
                    out.append(src[k])
                    pos.append((p, k))

            def f2(i):
                v = [0] * len(src)
                for p, k in pos:
                    v[k] = i[p]
                return fn(tuple(v))

            r = SArray.make(out, f2, a.dtype)
            r.ro = True
            return r
    if len(nu_src) + 1 == len(tgt) and any(isinstance(d, int) and d == -1 for d in tgt):
        # e.g. (n,) with n == 1 -> (-1, 1) handled above; a -1 may stand for a unit axis
        pass
    if len([d for d in shape if isinstance(d, int) and d == -1]) == 1 and len(nu_src) < len(tgt):
        # -1 resolves to 1 when all other extents match
        others = [d for d in shape if not (isinstance(d, int) and d in (-1, 1))]
        if len(others) == len(nu_src) and all(dim_same(src[k], t) for k, t in zip(nu_src, others)):
            return _reshape(a, tuple(1 if isinstance(d, int) and d == -1 else d for d in shape))
    if a.concrete_shape() and all(isinstance(d, int) for d in shape):
        n = _prod(src)
        shp = list(shape)
        if -1 in shp:
            rest = _prod([d for d in shp if d != -1])
            if rest == 0 or n % rest:
                raise ValueError('cannot reshape array')
            shp[shp.index(-1)] = n // rest
        if _prod(shp) != n:
            raise ValueError('cannot reshape array')
        src_ = src

        def f3(i):
            if any(not isinstance(v, int) for v in i):
                for k, v in enumerate(i):
                    if not isinstance(v, int):
                        return sel(f3, i, k, shp[k])
            flat = 0
            for v, d in zip(i, shp):
                flat = flat * d + v
            out = []
            for d in reversed(src_):
                out.append(flat % d)
                flat //= d
            return fn(tuple(reversed(out)))

        r = SArray.make(shp, f3, a.dtype)
        r.ro = True
        return r
    # flatten all axes
    if len(shape) == 1 and isinstance(shape[0], int) and shape[0] == -1 or (
        len(shape) == 2 and shape[0] == 1 and isinstance(shape[1], int) and shape[1] == -1
    ):
        lead = len(shape) - 1
        ks = [k for k in range(len(src)) if not dim_is_one(src[k])]
        if any(isinstance(src[k], (CompDim, FlatDim)) for k in ks):
            raise Unsupported('flatten of a masked array')
        fd = FlatDim(SInt.of(_prod([src[k] for k in ks])).z, tuple(src[k] for k in ks))

        def f4(i):
            t = i[lead]
            if not isinstance(t, tuple):
                raise Unsupported('flat index into a flattened symbolic array')
            v = [0] * len(src)
            for k, j in zip(ks, t):
                v[k] = j
            return fn(tuple(v))

        r = SArray.make((1,) * lead + (fd,), f4, a.dtype)
        r.ro = True
        return r
    # merge trailing axes with leading kept: (B, H, W) -> (B, -1)
    if len(shape) == 2 and len(src) >= 2 and isinstance(shape[1], int) and shape[1] == -1 and dim_same(src[0], shape[0]):
        rest = src[1:]
        fd = FlatDim(SInt.of(_prod(rest)).z, tuple(rest))
        r = SArray.make((src[0], fd), lambda i: fn((i[0],) + tuple(i[1])), a.dtype)
        r.ro = True
        return r
    raise Unsupported(f'reshape {src} -> {shape}')


# ---------------------------------------------------------------------------------------- indexing
def _expand_key(a, key):
    key = key if isinstance(key, tuple) else (key,)
    out = []
    n_used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if _is_mask(k):
            n_used += asarr(k).ndim
        else:
            n_used += 1
    for k in key:
        if k is Ellipsis:
            out.extend([slice(None)] * (a.ndim - n_used))
        else:
            out.append(k)
    if Ellipsis not in [k for k in key if not isinstance(k, (SArray, np.ndarray, SNum, SBool))]:
        out.extend([slice(None)] * (a.ndim - n_used))
    return out


def _is_mask(k):
    return isinstance(k, (SArray, np.ndarray)) and k.dtype == bool or isinstance(k, (list,)) and len(k) and all(isinstance(e, (bool, SBool)) for e in k)


def _is_fancy(k):
    return isinstance(k, (SArray, np.ndarray, list)) and not _is_mask(k)


def _norm_int(i, d):
    if isinstance(i, np.integer):
        i = int(i)
    if isinstance(i, SArray):
        i = i._one()
    if isinstance(i, SReal) or isinstance(i, float):
        raise IndexError('only integers are valid indices')
    if isinstance(d, (CompDim, FlatDim)):
        raise Unsupported('integer index into a masked axis')
    if isinstance(i, int):
        if i < 0:
            i = i + d
            if isinstance(d, int) and i < 0:
                raise IndexError('index out of bounds')
        elif isinstance(d, int):
            if i >= d:
                raise IndexError('index out of bounds')
        if is_sym(i) or is_sym(d):
            c = S.zand(S.zb(SInt.of(i) >= 0), S.zb(SInt.of(i) < d))
            if not ctx().entails(c) and not ctx().fork(c):
                raise IndexError('index out of bounds')
        return i
    c = S.zand(S.zb(i >= 0), S.zb(i < d))
    if not ctx().entails(c):
        if not ctx().fork(c):
            neg = S.zand(S.zb(i < 0), S.zb(i >= -d))
            if not ctx().fork(neg):
                raise IndexError('index out of bounds')
            return i + d
    return i


def _norm_slice(s, d):
    """(start, step, length)."""
    if isinstance(d, (CompDim, FlatDim)):
        if s.start is None and s.stop is None and s.step in (None, 1):
            return 0, 1, d
        raise Unsupported('slice of a masked axis')
    step = 1 if s.step is None else s.step
    def py(v):
        return int(v) if isinstance(v, np.integer) else (v._one() if isinstance(v, SArray) else v)
    start, stop = py(s.start), py(s.stop)
    if isinstance(d, int) and not any(is_sym(v) for v in (start, stop, step)):
        st, sp, stp = slice(start, stop, step).indices(d)
        return st, stp, len(range(st, sp, stp))
    if is_sym(step):
        raise Unsupported('symbolic slice step')
    if step == -1 and start is None and stop is None:
        return d - 1, -1, d
    if step != 1:
        raise Unsupported('slice step')

    def bound(v, default):
        if v is None:
            return default
        if isinstance(v, (float, SReal)):
            raise TypeError('slice indices must be integers')
        if isinstance(v, int) and v < 0:
            v = v + d
        elif is_sym(v) and not ctx().entails(v >= 0):
            v = ite(v < 0, v + d, v)
        lo = v >= 0
        if lo is not True and not ctx().entails(lo):
            v = S.smax(v, 0)
        hi = v <= d
        if hi is not True and not ctx().entails(hi):
            v = S.smin(v, d)
        return v

    st, sp = bound(start, 0), bound(stop, d)
    n = sp - st
    if not ctx().entails(n >= 0):
        n = S.smax(n, 0)
    return st, 1, n


def getitem(a, key):
    keys = _expand_key(a, key)
    if any(_is_mask(k) for k in keys):
        return _mask_get(a, keys)
    if any(_is_fancy(k) for k in keys):
        return _fancy_get(a, keys)
    shape, vmap = [], {}
    ax = 0
    for k in keys:
        if k is None:
            shape.append(1)
            continue
        d = a.shape[ax] if ax < a.ndim else None
        if d is None:
            raise IndexError('too many indices for array')
        if isinstance(k, slice):
            st, step, n = _norm_slice(k, d)
            vmap[ax] = ('s', st, step, len(shape))
            shape.append(n)
        else:
            vmap[ax] = ('i', _norm_int(k, d))
        ax += 1
    axes = []
    for b in a.axes:
        if b[0] == 'i':
            axes.append(b)
            continue
        _, st0, step0, va = b
        m = vmap[va]
        if m[0] == 'i':
            axes.append(('i', _lin(st0, step0, m[1])))
        else:
            axes.append(('s', _lin(st0, step0, m[1]), step0 * m[2], m[3]))
    r = SArray(a.store, tuple(shape), axes, a.dtype, ro=a.ro)
    return _wrap0(r)


def _lin(st, step, i):
    if isinstance(i, int) and i == 0:
        return st
    return st + i * step


def _same_mask(key, m, parents):
    """The key of an earlier mask over the same axes that is equivalent on this path, or ``key``."""
    c = ctx()
    tbl = c.__dict__.setdefault('_comp', {})
    known = tbl.setdefault(key[0], {})
    if key[1] in known:
        return known[key[1]][1]
    rng = [z3.And(z3.Int(f'g{k}!') >= 0, z3.Int(f'g{k}!') < SInt.of(p).z) for k, p in enumerate(parents)]
    for m2, k2 in list(known.values()):
        s = z3.Solver()
        s.set('timeout', 700)
        s.add(*c.pc, *rng, m != m2)
        if s.check() == z3.unsat:
            return k2
    known[key[1]] = (m, key)
    return key


def comp_dim(mask_fn, parents):
    with S.binder(len(parents), 'g') as b:
        m = S.zb(mask_fn(tuple(SInt(z3.Int(q)) for q in b.names)))
    # canonical names, so that equal masks have equal keys
    if b.names[:1] != ['g0!']:
        m = z3.substitute(m, *[(z3.Int(q), z3.Int(f'g{k}!')) for k, q in enumerate(b.names)])
    if S.mentions(m, S.BOUND):
        raise Unsupported('mask that depends on a bound index')
    key = (tuple(SInt.of(p).z.sexpr() for p in parents), z3.simplify(m).sexpr())
    key = _same_mask(key, m, parents)
    name = 'cnt!' + hashlib.md5(repr(key).encode()).hexdigest()[:16]
    z = z3.Int(name)
    d = CompDim(z, mask_fn, parents, key)
    if RECORD is not None:
        RECORD[name] = ('count', [f'g{k}!' for k in range(len(parents))], [SInt.of(p).z for p in parents], m)
    ctx().assume(z3.And(z >= 0, z <= SInt.of(_prod(parents)).z))
    return d


def _mask_split(a, keys):
    out, ax = [], 0
    for k in keys:
        if k is None:
            raise Unsupported('newaxis with a mask')
        if _is_mask(k):
            m = asarr(k)
            for j in range(m.ndim):
                if ax + j >= a.ndim:
                    raise IndexError('too many indices for array')
                if not dim_same(m.shape[j], a.shape[ax + j]):
                    if isinstance(m.shape[j], int) and isinstance(a.shape[ax + j], int) or ctx().fork(
                        SInt.of(m.shape[j]).z != SInt.of(a.shape[ax + j]).z
                    ):
                        raise IndexError('boolean index did not match')
            out.append(('m', ax, m))
            ax += m.ndim
        else:
            out.append(('k', ax, k))
            ax += 1
    return out


def _concrete_mask(m):
    n = m.to_np()
    return n


def _mask_get(a, keys):
    parts = _mask_split(a, keys)
    ms = [p for p in parts if p[0] == 'm']
    if len(ms) != 1:
        raise Unsupported('several masks')
    _, max_, m = ms[0]
    cm = _concrete_mask(m)
    if cm is None and m.ndim == 1 and a.ndim == 1 and a.dtype.kind in 'iu' and isinstance(m._shape[0], int) and m._shape[0] <= 4:
        cm = np.array([bool(m.at(i)) for i in range(m._shape[0])], bool)   # one path for each value of the mask
    if cm is not None and m.ndim == 1:
        ks = [k for _, _, k in parts]
        ks[[p[0] for p in parts].index('m')] = [int(i) for i in np.nonzero(cm)[0]]
        return _fancy_get(a, ks)
    # integer keys alongside the mask: apply first
    if any(p[0] == 'k' and not isinstance(p[2], slice) for p in parts):
        pre = []
        for p in parts:
            pre.extend([p[2]] if p[0] == 'k' else [slice(None)] * m.ndim)
        b = getitem(a, tuple(pre))
        post = tuple(
            m if p[0] == 'm' else slice(None)
            for p in parts
            if p[0] == 'm' or isinstance(p[2], slice)
        )
        return _mask_get(b, _expand_key(b, post))
    if any(p[0] == 'k' and p[2] != slice(None) for p in parts):
        raise Unsupported('slice with a mask')
    fn, mf = a.snap(), m.snap()
    cd = comp_dim(mf, m.shape)
    shape = a.shape[:max_] + (cd,) + a.shape[max_ + m.ndim :]
    n = m.ndim

    def f(i):
        t = i[max_]
        t = t if isinstance(t, tuple) else (t,)
        if len(t) != n:
            raise Unsupported('index into a masked axis')
        return fn(i[:max_] + t + i[max_ + 1 :])

    return SArray.make(shape, f, a.dtype)


def _fancy_get(a, keys):
    fk = [k for k in keys if _is_fancy(k)]
    lists = []
    for k in fk:
        k = asarr(k)
        n = k.to_np()
        if n is None:
            if k.ndim == 1 and len(fk) == 1 and not a.concrete_shape() or k.ndim == 1 and len(fk) == 1:
                lists.append(k)
                continue
            raise Unsupported('symbolic fancy index')
        lists.append(n)
    if any(k is None for k in keys):
        raise Unsupported('newaxis with fancy index')
    fn = a.snap()
    pos = [p for p, k in enumerate(keys) if _is_fancy(k)]
    if len(fk) == 1:
        L = lists[0]
        p = pos[0]
        if isinstance(L, np.ndarray) and L.ndim != 1:
            raise Unsupported('nd fancy index')
        # apply the basic keys first
        b = getitem(a, tuple(k if q != p else slice(None) for q, k in enumerate(keys)))
        p2 = p - sum(1 for q in range(p) if not isinstance(keys[q], slice))
        fb = b.snap()
        if isinstance(L, np.ndarray):
            d = b.shape[p2]
            idxs = [int(v) for v in L]
            if isinstance(d, int):
                for v in idxs:
                    if v >= d or v < -d:
                        raise IndexError('index out of bounds')
            idxs = [v if v >= 0 else v + d for v in idxs]
            shape = b.shape[:p2] + (len(idxs),) + b.shape[p2 + 1 :]

            def f(i):
                j = i[p2]
                if isinstance(j, int):
                    return fb(i[:p2] + (idxs[j],) + i[p2 + 1 :])
                return sel(f, i, p2, len(idxs))

            return SArray.make(shape, f, a.dtype)
        lf = L.snap()
        shape = b.shape[:p2] + L.shape + b.shape[p2 + 1 :]
        return SArray.make(shape, lambda i: fb(i[:p2] + (lf((i[p2],)),) + i[p2 + 1 :]), a.dtype)
    if len(fk) == a.ndim and all(isinstance(L, np.ndarray) and L.ndim == 1 for L in lists):
        n = max(len(L) for L in lists)
        tup = [tuple(int(L[j if len(L) > 1 else 0]) for L in lists) for j in range(n)]
        return SArray.make((n,), lambda i: fn(tup[i[0]]), a.dtype)
    raise Unsupported('fancy index')


def setitem(a, key, val):
    if a.ro:
        raise Unsupported('write through a reshaped array')
    if isinstance(key, str):
        raise Unsupported('field assignment')
    keys = _expand_key(a, key)
    if any(_is_mask(k) for k in keys):
        return _mask_set(a, keys, val)
    if any(_is_fancy(k) for k in keys):
        return _fancy_set(a, keys, val)
    # target view without scalar collapsing
    v = _view(a, keys)
    _write(v, val)


def _view(a, keys):
    shape, vmap = [], {}
    ax = 0
    for k in keys:
        if k is None:
            shape.append(1)
            continue
        if ax >= a.ndim:
            raise IndexError('too many indices for array')
        d = a.shape[ax]
        if isinstance(k, slice):
            st, step, n = _norm_slice(k, d)
            vmap[ax] = ('s', st, step, len(shape))
            shape.append(n)
        else:
            vmap[ax] = ('i', _norm_int(k, d))
        ax += 1
    axes = []
    for b in a.axes:
        if b[0] == 'i':
            axes.append(b)
            continue
        _, st0, step0, va = b
        m = vmap[va]
        if m[0] == 'i':
            axes.append(('i', _lin(st0, step0, m[1])))
        else:
            axes.append(('s', _lin(st0, step0, m[1]), step0 * m[2], m[3]))
    return SArray(a.store, tuple(shape), axes, a.dtype)


def _in_view(v, b):
    """(condition, view index) for a base index."""
    conds, idx = [], [0] * v.ndim
    for a, i in zip(v.axes, b):
        if a[0] == 'i':
            c = _ieq(i, a[1])
        else:
            _, st, step, va = a
            d = v.shape[va]
            if isinstance(i, tuple):
                idx[va] = i
                continue
            if step == 1:
                j = i - st if not (isinstance(st, int) and st == 0) else i
            elif step == -1:
                j = st - i
            elif isinstance(i, int) and isinstance(st, int):
                if (i - st) % step:
                    return False, None
                j = (i - st) // step
            else:
                raise Unsupported('strided write at a symbolic index')
            idx[va] = j
            if isinstance(d, (CompDim, FlatDim)):
                c = True
            elif isinstance(st, int) and st == 0 and step == 1 and v.store.shape and _same_ext(d, v.store.shape[v.axes.index(a)]):
                c = True
            else:
                c = _and(j >= 0, j < d)
        if c is False:
            return False, None
        if c is not True:
            conds.append(S.zb(c))
    return (S.zand(*conds) if conds else True), tuple(idx)


def _same_ext(d, e):
    """The view extent is the whole store extent, by its form."""
    if d is e or isinstance(d, int) and isinstance(e, int) and d == e:
        return True
    return isinstance(d, SInt) and isinstance(e, SInt) and d.z.eq(e.z)


def _ieq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    r = SInt.of(a) == SInt.of(b)
    return r


def _write(v, val):
    st = v.store
    old = st.fn
    src = asarr(val)
    if src.ndim > v.ndim:
        # leading unit axes may be dropped
        if all(dim_is_one(d) for d in src.shape[: src.ndim - v.ndim]):
            src = src[(0,) * (src.ndim - v.ndim)] if src.ndim > v.ndim else src
            src = asarr(src)
        else:
            raise ValueError('could not broadcast input array')
    off = v.ndim - src.ndim
    for d, s in zip(v.shape[off:], src.shape):
        if dim_is_one(s) or dim_same(d, s):
            continue
        if isinstance(d, int) and isinstance(s, int):
            raise ValueError('could not broadcast input array')
        if isinstance(d, CompDim) or isinstance(s, CompDim):
            raise Unsupported('assignment of a differently masked array')
        if ctx().fork(SInt.of(d).z != SInt.of(s).z):
            if ctx().fork(SInt.of(s).z != 1):
                raise ValueError('could not broadcast input array')
    fs = bcast_fn(src.snap(), src.shape, v.shape)
    dt, sdt = v.dtype, src.dtype
    snapv = SArray(st, v.shape, v.axes, v.dtype)

    def fn(b):
        c, i = _in_view(snapv, b)
        if c is False:
            return old(b)
        new = cast(fs(i), sdt, dt)
        if c is True:
            return new
        return ite(c, new, old(b))

    st.fn = Fn(fn)


def _mask_set(a, keys, val):
    parts = _mask_split(a, keys)
    ms = [p for p in parts if p[0] == 'm']
    if len(ms) != 1:
        raise Unsupported('several masks')
    _, max_, m = ms[0]
    mf = m.snap()
    if any(p[0] == 'k' and not isinstance(p[2], slice) for p in parts):
        pre = []
        for p in parts:
            pre.extend([p[2]] if p[0] == 'k' else [slice(None)] * m.ndim)
        b = _view(a, pre)
        post = [
            m if p[0] == 'm' else slice(None)
            for p in parts
            if p[0] == 'm' or isinstance(p[2], slice)
        ]
        return _mask_set(b, post, val)
    if any(p[0] == 'k' and p[2] != slice(None) for p in parts):
        raise Unsupported('slice with a mask')
    st, old, n = a.store, a.store.fn, m.ndim
    src = asarr(val)
    nsel = a.ndim - n + 1
    cd = None
    if src.ndim > 0 and not dim_is_one(src.shape[-1 - (nsel - 1 - max_)] if src.ndim > nsel - 1 - max_ else 1):
        d = src.shape[-1 - (nsel - 1 - max_)]
        cd = comp_dim(mf, m.shape)
        if isinstance(d, CompDim):
            if d.key != cd.key:
                raise Unsupported('assignment of a differently masked array')
        else:
            cmn = _concrete_mask(m)
            if cmn is None or not isinstance(d, int):
                raise Unsupported('assignment of an unmasked array through a mask')
            order = {tuple(int(v) for v in ij): k for k, ij in enumerate(zip(*np.nonzero(cmn)))}
    sel_shape = a.shape[:max_] + ((cd if cd is not None else 1),) + a.shape[max_ + n :]
    fs0 = src.snap()
    off = nsel - src.ndim
    if off < 0:
        raise ValueError('could not broadcast input array')
    one = [dim_is_one(d) for d in src.shape]
    dt, sdt = a.dtype, src.dtype
    conc = cd is not None and not isinstance(src.shape[-1 - (nsel - 1 - max_)], CompDim)

    view = SArray(st, a.shape, a.axes, a.dtype)

    def fn(b):
        c, i = _in_view(view, b)
        if c is False:
            return old(b)
        t = i[max_ : max_ + n]
        mc = mf(t)
        c = S.zand(c, S.zb(mc)) if not isinstance(mc, bool) else (c if mc else False)
        if c is not True and c is not False:
            c = z3.simplify(c)
            c = True if z3.is_true(c) else False if z3.is_false(c) else c
        if c is False:
            return old(b)
        j = i[:max_] + ((order[t],) if conc else (t if n > 1 else t[0],)) + i[max_ + n :]
        if cd is not None and not conc and n == 1:
            j = i[:max_] + (t[0],) + i[max_ + n :]
        j = tuple(0 if o else x for o, x in zip(one, j[off:]))
        new = cast(fs0(j), sdt, dt)
        return new if c is True else ite(c, new, old(b))

    st.fn = Fn(fn)


def _fancy_set(a, keys, val):
    lists = []
    for k in keys:
        if _is_fancy(k):
            n = asarr(k).to_np()
            if n is None or n.ndim != 1:
                raise Unsupported('symbolic fancy assignment')
            lists.append(n)
    src = asarr(val)
    if all(_is_fancy(k) for k in keys) and len(keys) == a.ndim:
        n = max(len(L) for L in lists)
        for j in range(n):
            idx = tuple(int(L[j if len(L) > 1 else 0]) for L in lists)
            a[idx] = src.at(j) if src.ndim else src.at()
        return
    if len(lists) == 1 and a.ndim >= 1:
        p = next(q for q, k in enumerate(keys) if _is_fancy(k))
        sels = [k for k in keys if not isinstance(k, slice)]
        if len(sels) != 1:
            raise Unsupported('fancy assignment')
        for j, v in enumerate(lists[0]):
            kk = tuple(int(v) if q == p else k for q, k in enumerate(keys))
            if src.ndim == a.ndim:
                a[kk] = src[tuple(j if q == p else slice(None) for q in range(a.ndim))]
            else:
                a[kk] = src if src.ndim and not (src.ndim == 1 and a.ndim == 1) else (src.at(j) if src.ndim else src.at())
        return
    raise Unsupported('fancy assignment')


# -------------------------------------------------------------------------------------- reductions
def _fold(op, es):
    if op in ('sum', 'mean'):
        r = 0
        for e in es:
            r = r + e
        return r
    if op == 'prod':
        r = 1
        for e in es:
            r = r * e
        return r
    if op == 'any':
        r = False
        for e in es:
            r = _or(e if isinstance(e, (bool, SBool)) else e != 0, r)
        return r
    if op == 'all':
        r = True
        for e in es:
            r = _and(e if isinstance(e, (bool, SBool)) else e != 0, r)
        return r
    r = es[0]
    for e in es[1:]:
        if isinstance(e, (bool, SBool)):
            r = _or(r, e) if op == 'max' else _and(r, e)
            continue
        c = (e < r) if op == 'min' else (e > r)
        nan = S.zor(*[x for x in (getattr(r, 'nan', False), getattr(e, 'nan', False))])
        v = ite(c, e, r)
        if nan is not False:
            v = SReal.mk(SReal.of(v).z, nan)
        r = v
    return r


def reduce_(a, op, axis=None):
    a = asarr(a)
    if a.dtype.kind == 'b' and op in ('min', 'max'):
        op = 'all' if op == 'min' else 'any'
    if axis is None:
        axes = tuple(range(a.ndim))
    else:
        axes = axis if isinstance(axis, tuple) else (axis,)
        axes = tuple(x + a.ndim if x < 0 else x for x in axes)
    fn = a.snap()
    keep = [k for k in range(a.ndim) if k not in axes]
    conc = [k for k in axes if isinstance(a.shape[k], int)]
    symb = [k for k in axes if not isinstance(a.shape[k], int)]
    out_shape = tuple(a.shape[k] for k in keep)
    if op in ('any', 'all'):
        dt = np.dtype('bool')
    elif op == 'mean':
        dt = np.dtype('float64') if a.dtype.kind in 'iub' else a.dtype
    elif op == 'sum':
        dt = np.dtype('int64') if a.dtype.kind in 'ib' else np.dtype('uint64') if a.dtype.kind == 'u' else a.dtype
    else:
        dt = a.dtype
    n_conc = 1
    for k in conc:
        n_conc *= a.shape[k]
    if op in ('min', 'max') and n_conc == 0:
        raise ValueError('zero-size array to reduction operation')

    def inner(idx_keep, idx_sym):
        idx = [None] * a.ndim
        for k, i in zip(keep, idx_keep):
            idx[k] = i
        for k, i in zip(symb, idx_sym):
            idx[k] = i
        es = []
        for t in itertools.product(*[range(a.shape[k]) for k in conc]):
            for k, i in zip(conc, t):
                idx[k] = i
            es.append(fn(tuple(idx)))
        return es

    if not symb:
        n = n_conc

        def f(idx):
            es = inner(idx, ())
            if dt.kind in 'iu' and op == 'sum':
                es = [e._num() if isinstance(e, SBool) else int(e) if isinstance(e, bool) else e for e in es]
            r = _fold(op, es)
            if op == 'mean':
                r = r / n if n else float('nan')
            return r

        return _wrap0(SArray.make(out_shape, f, dt))

    dims = [a.shape[k] for k in symb]
    if op == 'sum' and a.dtype.kind == 'b' and not keep and not conc and not any(isinstance(d, (CompDim, FlatDim)) for d in dims):
        # number of true elements; zero iff there is none
        d = comp_dim(lambda idx: fn(tuple(idx)), tuple(dims))
        w, wc = dom_idx(dims, lambda: S.fresh_int('wit'))
        ctx().assume(z3.Implies(d.z > 0, z3.And(*wc, S.zb(fn(tuple(w))))))
        ctx().assume(z3.Implies(d.z == 0, S.zb(quant(dims, lambda si: ~_sbool(fn(tuple(si))), 'all'))))
        return SInt(d.z)

    def f(idx):
        g = lambda si: _fold('sum' if op == 'mean' else op, inner(idx, si))
        if op == 'sum':
            return bigsum(dims, g)
        if op == 'mean':
            cnt = count(dims) * n_conc
            return SReal.of(bigsum(dims, g)) / SReal.of(cnt)
        if op in ('any', 'all'):
            return quant(dims, g, op)
        return extremum(dims, g, op)

    return _wrap0(SArray.make(out_shape, f, dt))


def dom_idx(dims, mk):
    """Index tuple for the given extents, from per-axis variables, with its range condition."""
    idx, cond = [], []
    for d in dims:
        if isinstance(d, (CompDim, FlatDim)):
            sub = []
            for p in d.parents:
                v = mk()
                sub.append(v)
                cond += [v.z >= 0, v.z < SInt.of(p).z]
            if isinstance(d, CompDim):
                cond.append(S.zb(d.mask(tuple(sub))))
                idx.append(tuple(sub) if len(sub) > 1 else sub[0])
            else:
                idx.append(tuple(sub))
        else:
            v = mk()
            cond += [v.z >= 0, v.z < SInt.of(d).z]
            idx.append(v)
    return tuple(idx), cond


def _sbool(v):
    return v if isinstance(v, SBool) else SBool(z3.BoolVal(bool(v)))


def flat_vars(idx):
    out = []
    for i in idx:
        out.extend(flat_vars(i) if isinstance(i, tuple) else [i])
    return out


def count(dims):
    r = 1
    for d in dims:
        r = r * (SInt(d.z) if isinstance(d, SInt) else d)
    return r


def _n_axes(dims):
    return sum(len(d.parents) if isinstance(d, (CompDim, FlatDim)) else 1 for d in dims)


def bound(dims, g):
    """Evaluate g at an index of bound variables: (index, domain condition, value)."""
    with S.binder(_n_axes(dims)) as b:
        it = iter(b.names)
        idx, cond = dom_idx(dims, lambda: SInt(z3.Int(next(it))))
        return idx, cond, g(idx)


def quant(dims, g, op):
    """Existential / universal over a symbolic domain."""
    idx, cond, e = bound(dims, g)
    vs = [v.z for v in flat_vars(idx)]
    e = e if isinstance(e, (bool, SBool)) else e != 0
    if op == 'any':
        return SBool.mk(z3.Exists(vs, z3.And(*cond, S.zb(e))))
    return SBool.mk(z3.ForAll(vs, z3.Implies(z3.And(*cond), S.zb(e))))


def extremum(dims, g, op):
    """min / max over a symbolic domain: bound + attained."""
    c = ctx()
    idx, cond, e = bound(dims, g)
    vs = [v.z for v in flat_vars(idx)]
    isint = isinstance(e, (SInt, int)) and not isinstance(e, bool)
    m = S.fresh_int('ext') if isint else S.fresh_real('ext')
    if isinstance(e, SReal) and e.nan is not False:
        raise Unsupported('extremum of possibly NaN data')
    ez = SInt.of(e).z if isint else SReal.of(e).z
    c.assume(z3.ForAll(vs, z3.Implies(z3.And(*cond), ez >= m.z if op == 'min' else ez <= m.z)))
    w, wc = dom_idx(dims, lambda: S.fresh_int('wit'))
    we = g(w)
    c.assume(z3.And(*wc, (SInt.of(we).z if isint else SReal.of(we).z) == m.z))
    return m


def bigsum(dims, g):
    """Sum over a symbolic domain, expanded linearly over index-free coefficients."""
    from . import bigsum as B

    for k, d in enumerate(dims):
        if isinstance(d, CatDim):
            r, lo = 0, 0
            for n in d.parts:
                h = lambda i, lo=lo: g(tuple(i[:k]) + (i[k] + lo,) + tuple(i[k + 1:]))
                if isinstance(n, int):
                    for q in range(n):
                        sub = list(dims[:k]) + list(dims[k + 1:])
                        at = lambda i, q=q, h=h: h(tuple(i[:k]) + (q,) + tuple(i[k:]))
                        r = r + (bigsum(sub, at) if sub else at(()))
                else:
                    r = r + bigsum(list(dims[:k]) + [n] + list(dims[k + 1:]), h)
                lo = lo + n
            return r
    return B.bigsum(dims, g)


def nonzero(c):
    c = asarr(c)
    n = c.to_np()
    if n is not None:
        return tuple(SArray.from_np(v) for v in np.nonzero(n))
    if c.ndim != 1:
        raise Unsupported('nonzero of a symbolic nd array')
    if isinstance(c.shape[0], int) and c.shape[0] <= 6:
        return (SArray.from_np(np.array([i for i in range(c.shape[0]) if bool(_sbool(c.at(i)))], dtype='int64')),)
    return (NonZero(c),)


class NonZero:
    """np.nonzero(cond)[0] of a symbolic vector: ascending indices where cond holds."""

    def __init__(self, c):
        self.c = c
        f, d = c.snap(), c.shape[0]
        self.f, self.d = f, d
        self.any = quant([d], lambda i: f(i), 'any') if not isinstance(d, int) else _fold('any', c.elems())
        self.dtype = np.dtype('int64')
        self._first = None

    def _nonempty(self):
        return bool(self.any)

    def sym_len(self):
        # only emptiness is modelled
        n = S.fresh_int('nnz', lo=0)
        if self._nonempty():
            ctx().assume(n.z >= 1)
            return n
        return 0

    @property
    def size(self):
        return self.sym_len()

    @property
    def shape(self):
        return (self.sym_len(),)

    def _ext(self, first):
        c = ctx()
        k = S.fresh_int('first' if first else 'last', lo=0)
        c.assume(k.z < SInt.of(self.d).z)
        c.assume(S.zb(self.f((k,))))
        (q,), _, fq = bound([self.d], self.f)
        rng = (
            z3.And(q.z >= 0, q.z < k.z)
            if first
            else z3.And(q.z > k.z, q.z < SInt.of(self.d).z)
        )
        c.assume(z3.ForAll([q.z], z3.Implies(rng, z3.Not(S.zb(fq)))))
        c.__dict__.setdefault('witness', []).append((self, k))
        return k

    def __getitem__(self, i):
        if i not in (0, -1):
            raise Unsupported('index into nonzero()')
        if not self._nonempty():
            raise IndexError('index 0 is out of bounds for axis 0 with size 0')
        return self._ext(i == 0)

    def min(self):
        if not self._nonempty():
            raise ValueError('zero-size array to reduction operation minimum')
        return self._ext(True)

    def max(self):
        if not self._nonempty():
            raise ValueError('zero-size array to reduction operation maximum')
        return self._ext(False)


# ------------------------------------------------------------------------------------------ linear
def dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return ew(_mul, a, b)
    n, m = a.shape[-1], b.shape[0] if b.ndim == 1 else b.shape[-2]
    if not dim_same(n, m):
        if isinstance(n, CompDim) or isinstance(m, CompDim):
            raise Unsupported('dot over differently masked axes')
        if isinstance(n, int) and isinstance(m, int) or ctx().fork(SInt.of(n).z != SInt.of(m).z):
            raise ValueError('shapes not aligned')
    fa, fb = a.snap(), b.snap()
    dt = np.result_type(a.dtype, b.dtype)
    na = a.ndim - 1
    if b.ndim == 1:
        g = lambda idx, k: fa(idx[:na] + (k,)) * fb((k,))
        shape = a.shape[:-1]
    else:
        g = lambda idx, k: fa(idx[:na] + (k,)) * fb(idx[na : na + b.ndim - 2] + (k,) + idx[na + b.ndim - 2 :])
        shape = a.shape[:-1] + b.shape[:-2] + b.shape[-1:]

    def fn(idx):
        if isinstance(n, int):
            r = None
            for k in range(n):
                e = _mulz(g, idx, k, fa, fb, na, b)
                r = e if r is None else _addz(r, e)
            return r if r is not None else 0.0
        return bigsum([n], lambda i: g(idx, i[0]))

    return _wrap0(SArray.make(shape, fn, dt))


def _mulz(g, idx, k, fa, fb, na, b):
    x = fa(idx[:na] + (k,))
    y = fb((k,)) if b.ndim == 1 else fb(idx[na : na + b.ndim - 2] + (k,) + idx[na + b.ndim - 2 :])
    # exact zeros of constant matrices are dropped unless the other factor may be NaN
    for p, q in ((x, y), (y, x)):
        if not is_sym(p) and p == 0 and is_sym(q) and getattr(q, 'nan', False) is False:
            return 0
        if not is_sym(p) and p == 1 and is_sym(q):
            return q
        if not is_sym(p) and p == -1 and is_sym(q):
            return -q
    return x * y


def _addz(r, e):
    if not is_sym(r) and r == 0 and is_sym(e):
        return e
    if not is_sym(e) and e == 0 and is_sym(r):
        return r
    return r + e


def inv(a):
    """Inverse of a 2x2 / 3x3 matrix by adjugate / determinant."""
    a = asarr(a)
    n = a.to_np()
    if n is not None:
        return SArray.from_np(np.linalg.inv(n))
    if a.shape == (2, 2):
        (p, q), (r, s) = [[a.at(i, j) for j in range(2)] for i in range(2)]
        det = p * s - q * r
        return array([[s / det, -q / det], [-r / det, p / det]])
    if a.shape != (3, 3):
        raise Unsupported('matrix inverse')
    m = [[a.at(i, j) for j in range(3)] for i in range(3)]
    if all(not is_sym(m[i][j]) and m[i][j] == (1 if i == j else 0) for i, j in ((1, 0), (2, 0), (2, 1), (2, 2))):
        # upper triangular with unit last row (camera intrinsics)
        f, s, cx = m[0]
        _, g, cy = m[1]
        f, g = SReal.of(f), SReal.of(g)
        return array(
            [
                [1 / f, -s / (f * g) if is_sym(s) or s != 0 else 0.0, (s * cy / (f * g) if is_sym(s) or s != 0 else 0) - cx / f],
                [0.0, 1 / g, -cy / g],
                [0.0, 0.0, 1.0],
            ]
        )

    def cof(i, j):
        r = [k for k in range(3) if k != i]
        c = [k for k in range(3) if k != j]
        v = m[r[0]][c[0]] * m[r[1]][c[1]] - m[r[0]][c[1]] * m[r[1]][c[0]]
        return v if (i + j) % 2 == 0 else -v

    det = m[0][0] * cof(0, 0) + m[0][1] * cof(0, 1) + m[0][2] * cof(0, 2)
    return array([[cof(j, i) / det for j in range(3)] for i in range(3)])


def cross(a, b):
    a, b = asarr(a), asarr(b)
    x, y = a.elems(), b.elems()
    if len(x) != 3 or len(y) != 3:
        raise Unsupported('cross')
    return array([x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]])


def roll(a, n, axis=None):
    a = asarr(a)
    if a.ndim != 1 or not a.concrete_shape():
        raise Unsupported('roll')
    es = a.elems()
    m = len(es)
    return array([es[(i - n) % m] for i in range(m)])


def diff(a, axis=-1):
    a = asarr(a)
    if axis < 0:
        axis += a.ndim
    lo = tuple(slice(None, -1) if k == axis else slice(None) for k in range(a.ndim))
    hi = tuple(slice(1, None) if k == axis else slice(None) for k in range(a.ndim))
    return a[hi] - a[lo]


def unwrap(p, discont=None, axis=-1, *, period=2 * math.pi):
    p = asarr(p)
    if p.ndim != 1 or not p.concrete_shape() or discont is not None:
        raise Unsupported('unwrap')
    es = [SReal.of(e) for e in p.elems()]
    half = period / 2
    out, off = es[:1], 0
    for a, b in zip(es, es[1:]):
        d = b - a
        m = S.SReal.of(d + half) % period - half
        m = S.ite((m == -half) & (d > 0), half, m)
        off = off + S.ite(abs(d) < half, 0, m - d)
        out.append(b + off)
    return array(out)


def symarray(name, shape, dtype='float64', nan=False):
    """A symbolic input array: uninterpreted function of its indices."""
    shape = _shape(shape)
    dtype = np.dtype(dtype)
    srt = [z3.IntSort()] * len(shape)

    def fn(idx):
        flat = flat_vars(idx)
        zs = [SInt.of(i).z for i in flat]
        if dtype.kind == 'b':
            return SBool(z3.Function(name, *srt, z3.BoolSort())(*zs) if zs else z3.Bool(name))
        if dtype.kind in 'iu':
            return SInt(z3.Function(name, *srt, z3.IntSort())(*zs) if zs else z3.Int(name))
        v = z3.Function(name, *srt, z3.RealSort())(*zs) if zs else z3.Real(name)
        n = z3.Function(name + '!nan', *srt, z3.BoolSort())(*zs) if nan and zs else False
        return SReal(v, n)

    a = SArray.make(shape, fn, dtype)
    if dtype.kind in 'iu':
        # typed range: available as a fact at any index
        pass
    return a


def generic_idx(dims, tag='n'):
    """Fresh arbitrary in-range index for the given extents (assumed in range on this path)."""
    idx, cond = dom_idx(dims, lambda: S.fresh_int(tag))
    for c in cond:
        ctx().assume(c)
    return idx
