"""Stand-ins for the libraries the code calls, used while the real functions run symbolically.

numpy is interpreted (``SArray``); OpenCV, GDAL/PROJ and file access are replaced by assumed contracts
(uninterpreted functions), which the evidence lists.  Operations without a model raise Unsupported.
"""
from __future__ import annotations

import builtins
import contextlib
import hashlib
import itertools
import math
import sys
import types

import numpy as real_np
import z3

from . import arr as A
from . import sym as S
from .arr import SArray
from .sym import SBool, SInt, SNum, SReal, Unsupported, ctx, is_sym


# ------------------------------------------------------------------------------------- builtins
class _IntMeta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1:
            v = a[0]
            if isinstance(v, SArray):
                v = v._one()
            if is_sym(v):
                return S.to_int(v)
        return builtins.int(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.int, SInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int) or c is SInt

    def __repr__(cls):
        return "<class 'int'>"


class Int(metaclass=_IntMeta):
    from_bytes = builtins.int.from_bytes


class _FloatMeta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1:
            v = a[0]
            if isinstance(v, SArray):
                v = v._one()
            if is_sym(v):
                return SReal.of(v)
        return builtins.float(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.float, SReal))

    def __repr__(cls):
        return "<class 'float'>"


class Float(metaclass=_FloatMeta):
    pass


def _any_sym(xs):
    return any(is_sym(x) or isinstance(x, SArray) for x in xs)


def b_min(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not k and _any_sym(xs):
        r = xs[0]
        for x in xs[1:]:
            r = S.ite(x < r, x, r) if is_sym(x) or is_sym(r) else builtins.min(r, x)
        return r
    return builtins.min(*a, **k) if len(a) > 1 else builtins.min(xs, **k)


def b_max(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not k and _any_sym(xs):
        r = xs[0]
        for x in xs[1:]:
            r = S.ite(x > r, x, r) if is_sym(x) or is_sym(r) else builtins.max(r, x)
        return r
    return builtins.max(*a, **k) if len(a) > 1 else builtins.max(xs, **k)


def b_len(x):
    if isinstance(x, SArray):
        return x.shape[0]
    if hasattr(x, 'sym_len'):
        return x.sym_len()
    return builtins.len(x)


class SymRange:
    """range() with symbolic arguments.  Iteration yields one arbitrary element (see ``generic``)."""

    def __init__(self, *a):
        a = [SInt.of(v) if is_sym(v) else v for v in a]
        self.start, self.stop, self.step = (
            (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else tuple(a)
        )
        self.n = A.range_len(self.start, self.stop, self.step)

    def sym_len(self):
        return self.n

    def sym_items(self):
        return SArray.make((self.n,), lambda i: self.start + i[0] * self.step, 'int64')

    def at(self, k):
        return self.start + k * self.step

    def __iter__(self):
        n = ctx().concretise(self.n) if is_sym(self.n) else self.n
        if n is not None and n <= 64:
            return iter([self.at(k) for k in range(n)])
        g = getattr(ctx(), 'generic', None)
        if g is None:
            # split on small trip counts; the path with a larger one must be infeasible
            for k in range(17):
                if ctx().fork(SInt.of(self.n).z == k if k else SInt.of(self.n).z <= 0):
                    return iter([self.at(q) for q in range(k)])
            raise Unsupported('loop with a symbolic trip count and no contract')
        return g([self])

    def __getitem__(self, k):
        return self.at(k)


class SymProduct:
    def __init__(self, rs):
        self.rs = rs

    def __iter__(self):
        g = getattr(ctx(), 'generic', None)
        if g is None:
            raise Unsupported('loop with a symbolic trip count and no contract')
        return g(self.rs, tup=True)


def b_range(*a):
    a = tuple(v._one() if isinstance(v, SArray) else v for v in a)
    if any(is_sym(v) for v in a):
        if all(isinstance(v, (SInt, builtins.int)) for v in a):
            return SymRange(*a)
        raise TypeError('range of a non-integer')
    return builtins.range(*[builtins.int(v) if isinstance(v, real_np.integer) else v for v in a])


def b_product(*its, **k):
    if any(isinstance(i, SymRange) for i in its):
        return SymProduct([i if isinstance(i, SymRange) else list(i) for i in its])
    return itertools.product(*its, **k)


def b_isinstance(o, t):
    if isinstance(t, tuple):
        return any(b_isinstance(o, x) for x in t)
    if t is Int or t is builtins.int:
        return isinstance(o, (builtins.int, SInt))
    if t is Float or t is builtins.float:
        return isinstance(o, (builtins.float, SReal))
    if t is builtins.bool:
        return isinstance(o, (builtins.bool, SBool))
    if hasattr(o, 'sym_isinstance'):
        r = o.sym_isinstance(t)
        if r is not None:
            return r
    return builtins.isinstance(o, t)


def b_sum(xs, start=0):
    if isinstance(xs, SArray):
        return xs.sum(axis=0)
    r = start
    for x in xs:
        r = r + x
    return r


def b_enumerate(it, start=0):
    """enumerate() in Python, so that its counter is visible state."""
    if isinstance(it, A.RowList):
        raise Unsupported('positions in a list of symbolic length')
    for v in it:
        yield start, v
        start += 1


BUILTINS = dict(vars(builtins))
BUILTINS.update(
    int=Int, float=Float, min=b_min, max=b_max, len=b_len, range=b_range, isinstance=b_isinstance, sum=b_sum,
    enumerate=b_enumerate,
)


# ------------------------------------------------------------------------------------ numpy shim
class _NdMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (SArray, real_np.ndarray))


class ndarray(metaclass=_NdMeta):
    pass


def _fix_dt(dt):
    if dt is Int:
        return real_np.dtype('int64')
    if dt is Float:
        return real_np.dtype('float64')
    return dt


def _red(op):
    def f(a, axis=None, **k):
        if k.get('keepdims'):
            raise Unsupported('keepdims')
        return A.reduce_(a, op, axis)

    return f


def _u(f):
    def g(a, out=None, dtype=None, **k):
        if not isinstance(a, (SArray, real_np.ndarray, list, tuple)) and not is_sym(a):
            a_ = A.asarr(a)
        r = A.ew(f, a)
        if out is not None:
            out[...] = r
            return out
        return r

    return g


def _abs(a):
    return abs(a)


def _fdt(f):
    """Function to float."""

    def g(a, out=None, **k):
        x = A.asarr(a)
        dt = x.dtype if x.dtype.kind == 'f' else real_np.dtype('float64')
        r = A.ew(f, a, dt=dt)
        if out is not None:
            out[...] = r
            return out
        return r

    return g


def np_round(a, decimals=0, out=None):
    if decimals:
        raise Unsupported('round to decimals')
    x = A.asarr(a)
    r = A.ew(lambda v: S.rint(v) if isinstance(v, (SReal, float)) else v, x, dt=x.dtype)
    if out is not None:
        out[...] = r
        return out
    return r


def np_clip(a, a_min=None, a_max=None, out=None, **k):
    r = A.clip(a, a_min if a_min is not None else k.get('min'), a_max if a_max is not None else k.get('max'))
    if out is not None:
        out[...] = r
        return out
    return r


def np_std(a, axis=None, **k):
    x = A.asarr(a)
    m = x.mean(axis=axis)
    if axis is not None:
        raise Unsupported('std along an axis')
    d = x - m
    return S.sqrt((d * d).mean())


def np_divmod(a, b):
    return a // b, a % b


def np_isscalar(a):
    return isinstance(a, (builtins.int, builtins.float, real_np.generic, str)) or is_sym(a)


def np_isnan(a):
    if not isinstance(a, (SArray, real_np.ndarray, list, tuple)):
        if a is None:
            raise TypeError("ufunc 'isnan' not supported for the input types")
        return S.isnan(a)
    return A.ew(S.isnan, a, dt='bool')


def np_isfinite(a):
    r = np_isnan(a)
    return ~r if isinstance(r, (SArray, SBool)) else not r


def _nanred(op):
    def f(a, axis=None, **k):
        x = A.asarr(a)
        n = x.to_np()
        if n is not None:
            return getattr(real_np, 'nan' + op)(n, axis=axis)
        # extremum over the non-NaN elements
        if axis is not None or x.concrete_shape() and False:
            raise Unsupported('nan' + op)
        fn = x.snap()
        c = ctx()
        if op not in ('min', 'max'):
            raise Unsupported('nan' + op)
        idx, cond, e = A.bound(list(x.shape), fn)
        vs = [v.z for v in A.flat_vars(idx)]
        ok = S.zb(S.SBool.mk(S.znot(e.nan)) if isinstance(e, SReal) and e.nan is not False else True)
        m = S.fresh_real('nan' + op)
        ez = SReal.of(e).z
        if vs:
            c.assume(z3.ForAll(vs, z3.Implies(z3.And(*cond, ok), ez >= m.z if op == 'min' else ez <= m.z)))
        w, wc = A.dom_idx(list(x.shape), lambda: S.fresh_int('wit'))
        we = fn(w)
        wok = S.znot(we.nan) if isinstance(we, SReal) else True
        c.assume(z3.And(*wc, S.zb(S.SBool.mk(wok)), SReal.of(we).z == m.z))
        return m

    return f


def np_logical_not(a):
    return A.ew(lambda v: ~v if isinstance(v, SBool) else not v, a, dt='bool')


def np_array(x, dtype=None, copy=True, **k):
    dtype = _fix_dt(dtype)
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        x = tuple(x)
    r = A.array(x, dtype=dtype, copy=copy, **k)
    return r


def np_expand_dims(a, axis):
    x = A.asarr(a)
    if axis == 0:
        return x[None]
    raise Unsupported('expand_dims')


def np_full(shape, fill_value=None, dtype=None, **k):
    return A.full(shape, fill_value, _fix_dt(dtype))


def np_inner(name):
    def f(*a, **k):
        raise Unsupported(f'numpy.{name}')

    return f


def np_unravel_index(i, shape):
    raise Unsupported('unravel_index')


def lstsq(a, b, rcond=None):
    """Assumed contract: x satisfies the normal equations (A'A x = A'b)."""
    a, b = A.asarr(a), A.asarr(b)
    an, bn = a.to_np(), b.to_np()
    if an is not None and bn is not None:
        r = real_np.linalg.lstsq(an, bn, rcond=rcond)
        return tuple(SArray.from_np(real_np.asarray(v)) if isinstance(v, real_np.ndarray) else v for v in r)
    n = a.shape[1]
    if not isinstance(n, builtins.int):
        raise Unsupported('lstsq with a symbolic number of unknowns')
    cols = 1 if b.ndim == 1 else b.shape[1]
    if cols != 1:
        raise Unsupported('lstsq with several right hand sides')
    x = A.array([S.fresh_real('lsq') for _ in range(n)])
    bb = b if b.ndim == 1 else b[:, 0]
    res = a.dot(x) - bb
    c = ctx()
    for k in range(n):
        e = a[:, k].dot(res)
        c.assume(S.zb(e == 0) if is_sym(e) else e == 0)
    c.__dict__.setdefault('lsq', []).append((a, b, x))
    return (x if b.ndim == 1 else x.reshape(-1, 1)), None, None, None


def np_norm(a, *k, **kw):
    if k or kw:
        raise Unsupported('norm options')
    x = A.asarr(a)
    return S.sqrt((x * x).sum())


class _LinAlg:
    LinAlgError = real_np.linalg.LinAlgError

    @staticmethod
    def inv(a):
        return A.inv(a)

    lstsq = staticmethod(lstsq)
    norm = staticmethod(np_norm)

    def __getattr__(self, n):
        raise Unsupported(f'numpy.linalg.{n}')


def np_issubdtype(a, b):
    return real_np.issubdtype(a, b)


def _mm(f, arith=False):
    def g(a, b, out=None, where=True, **k):
        r = A.ew2w(f, a, b) if arith else A.ew(f, a, b)
        if where is not True:
            if out is None:
                raise Unsupported('where without out')
            r = A.where(where, r, out)
        if out is not None:
            out[...] = r
            return out
        return r

    return g


def np_array_equal(a, b, **k):
    a, b = A.asarr(a), A.asarr(b)
    if a.ndim != b.ndim:
        return False
    return A.reduce_(a == b, 'all')


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if equal_nan:
        raise Unsupported('equal_nan')

    def f(x, y):
        d = x - y
        d = S.ite(d < 0, -d, d) if is_sym(d) else builtins.abs(d)
        t = S.ite(y < 0, -y, y) if is_sym(y) else builtins.abs(y)
        return d <= atol + rtol * t

    return A.ew(f, a, b, dt='bool')


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = np_isclose(a, b, rtol, atol, equal_nan)
    return r.all() if isinstance(r, SArray) else r


def np_dot(a, b, **k):
    return A.dot(a, b)


def np_atleast_1d(a):
    a = A.asarr(a)
    return a if a.ndim else a.reshape(1)


def np_empty(shape, dtype='float64', **k):
    dt = real_np.dtype(_fix_dt(dtype) or 'float64')
    return A.symarray(S.fresh('empty'), shape, dt)


class NpShim(types.ModuleType):
    def __getattr__(self, name):
        v = getattr(real_np, name)
        if isinstance(v, type) or not callable(v):
            return v
        raise Unsupported(f'numpy.{name}')


def make_np():
    m = NpShim('numpy')
    d = dict(
        ndarray=ndarray,
        array=np_array,
        asarray=lambda x, dtype=None, **k: np_array(x, dtype=dtype, copy=False),
        ascontiguousarray=lambda x, dtype=None: np_array(x, dtype=dtype, copy=False),
        arange=lambda *a, dtype=None, **k: A.arange(*a, dtype=_fix_dt(dtype)),
        zeros=lambda s, dtype='float64', **k: A.zeros(s, _fix_dt(dtype)),
        ones=lambda s, dtype='float64', **k: A.ones(s, _fix_dt(dtype)),
        empty=np_empty,
        full=np_full,
        zeros_like=lambda a, dtype=None, **k: A.zeros(A.asarr(a).shape, dtype or A.asarr(a).dtype),
        ones_like=lambda a, dtype=None, **k: A.ones(A.asarr(a).shape, dtype or A.asarr(a).dtype),
        full_like=lambda a, v, dtype=None, **k: A.full(A.asarr(a).shape, v, dtype or A.asarr(a).dtype),
        eye=A.eye,
        identity=A.eye,
        diag=np_diag,
        linspace=A.linspace,
        meshgrid=lambda x, y, indexing='xy', **k: A.meshgrid(x, y, indexing),
        stack=A.stack,
        concatenate=A.concatenate,
        vstack=A.vstack,
        hstack=lambda xs: A.concatenate(xs, axis=0 if A.asarr(list(xs)[0]).ndim == 1 else 1),
        column_stack=A.column_stack,
        where=A.where,
        nonzero=A.nonzero,
        clip=np_clip,
        round=np_round,
        around=np_round,
        rint=np_round,
        floor=_fdt(S.floor),
        ceil=_fdt(S.ceil),
        abs=_u(_abs),
        absolute=_u(_abs),
        sqrt=_fdt(S.sqrt),
        square=lambda a, dtype=None, **k: (lambda x: x * x)(A.asarr(a)) if not np_isscalar(a) else a * a,
        sin=_fdt(S.sin),
        cos=_fdt(S.cos),
        tan=_fdt(S.tan),
        arctan=_fdt(S.arctan),
        arcsin=_fdt(S.arcsin),
        arctan2=lambda a, b: A.ew(S.arctan2, a, b, dt='float64'),
        hypot=lambda a, b: A.ew(lambda x, y: S.sqrt(x * x + y * y), a, b, dt='float64'),
        radians=_fdt(S.radians),
        deg2rad=_fdt(S.radians),
        degrees=_fdt(S.degrees),
        rad2deg=_fdt(S.degrees),
        log2=_fdt(S.log2),
        sum=_red('sum'),
        mean=_red('mean'),
        min=_red('min'),
        max=_red('max'),
        amin=_red('min'),
        amax=_red('max'),
        prod=_red('prod'),
        any=_red('any'),
        all=_red('all'),
        nanmin=_nanred('min'),
        nanmax=_nanred('max'),
        nanmedian=_nanred('median'),
        nanmean=_nanred('mean'),
        std=np_std,
        isnan=np_isnan,
        isfinite=np_isfinite,
        isscalar=np_isscalar,
        logical_not=np_logical_not,
        logical_and=_mm(lambda a, b: A._and(a, b)),
        logical_or=_mm(lambda a, b: A._or(a, b)),
        maximum=_mm(lambda a, b: S.smax(a, b)),
        minimum=_mm(lambda a, b: S.smin(a, b)),
        add=_mm(lambda a, b: a + b, True),
        subtract=_mm(lambda a, b: a - b, True),
        multiply=_mm(lambda a, b: a * b, True),
        divide=_mm(A._div),
        divmod=np_divmod,
        floor_divide=lambda a, b: a // b,
        mod=lambda a, b: a % b,
        dot=np_dot,
        matmul=np_dot,
        outer=lambda a, b: A.asarr(a).reshape(-1, 1) * A.asarr(b).reshape(1, -1),
        cross=A.cross,
        roll=A.roll,
        diff=A.diff,
        unwrap=A.unwrap,
        expand_dims=np_expand_dims,
        atleast_1d=np_atleast_1d,
        squeeze=lambda a, **k: A.asarr(a).squeeze(),
        ravel=lambda a, **k: A.asarr(a).ravel(),
        reshape=lambda a, s, **k: A.asarr(a).reshape(s),
        transpose=lambda a, *p: A.asarr(a).transpose(*p),
        array_equal=np_array_equal,
        isclose=np_isclose,
        allclose=np_allclose,
        issubdtype=np_issubdtype,
        can_cast=lambda a, b, casting='safe': real_np.can_cast(a, b, casting=casting),
        promote_types=real_np.promote_types,
        result_type=real_np.result_type,
        iinfo=real_np.iinfo,
        finfo=real_np.finfo,
        errstate=real_np.errstate,
        copy=lambda a: A.asarr(a).copy(),
        unravel_index=np_unravel_index,
        linalg=_LinAlg(),
        nan=float('nan'),
        pi=real_np.pi,
        inf=float('inf'),
        newaxis=None,
    )
    for k, v in d.items():
        setattr(m, k, v)
    return m


def np_diag(a):
    x = A.asarr(a)
    if x.ndim == 1 and x.concrete_shape():
        n = x.shape[0]
        return A.array([[x.at(i) if i == j else 0.0 for j in range(n)] for i in range(n)])
    if x.ndim == 2 and x.concrete_shape():
        return A.array([x.at(i, i) for i in range(builtins.min(x.shape))])
    raise Unsupported('diag')


# ------------------------------------------------------------------------------------------ cv2
def src_token(a):
    """Name of the current contents of an image array."""
    a = A.asarr(a)
    c = ctx()
    tbl = c.__dict__.setdefault('_tok', {})
    ax = tuple(
        (x[0],) + tuple(A._k(v) if isinstance(v, (builtins.int, SInt, tuple)) else v for v in x[1:]) for x in a.axes
    )
    key = (id(a.store.fn), ax)
    if key not in tbl:
        tbl[key] = (f'img{len(tbl)}', a.store.fn)
    return tbl[key][0]


def _int_key(v):
    return v


def remap_value(src, x, y, mode):
    """Assumed contract of cv2.remap: (inside, interpolated value)."""
    src = A.asarr(src)
    h, w = src.shape
    ins = S.ufn('remap_inside', 5, [S._R, S._R, S._I, S._I, S._I], z3.BoolSort())(
        SReal.of(x).z, SReal.of(y).z, SInt.of(w).z, SInt.of(h).z, z3.IntVal(builtins.int(mode))
    )
    tok = src_token_sym(src)
    if src.dtype.kind == 'f':
        f = S.ufn(f'remap_{tok[0]}', 3 + len(tok[1]), [S._R, S._R, S._I] + [S._I] * len(tok[1]), S._R)
        v = SReal(f(SReal.of(x).z, SReal.of(y).z, z3.IntVal(builtins.int(mode)), *tok[1]))
    else:
        f = S.ufn(f'remap_{tok[0]}', 3 + len(tok[1]), [S._R, S._R, S._I] + [S._I] * len(tok[1]), S._I)
        v = SInt(f(SReal.of(x).z, SReal.of(y).z, z3.IntVal(builtins.int(mode)), *tok[1]))
    return SBool(ins), v


def src_token_sym(a):
    """(name, integer parameters): the base array and the fixed indices of the view."""
    c = ctx()
    tbl = c.__dict__.setdefault('_tok', {})
    shape_key, params = [], []
    for x in a.axes:
        if x[0] == 'i':
            shape_key.append('i')
            params.append(SInt.of(x[1]).z)
        else:
            shape_key.append(('s', x[2], x[3]))
            params.append(SInt.of(x[1]).z)
    key = (id(a.store.fn), tuple(shape_key))
    if key not in tbl:
        tbl[key] = (f'img{len(tbl)}', a.store.fn)
    return tbl[key][0], params


class Cv2Shim:
    """OpenCV: constants are real; functions are assumed contracts."""

    def __init__(self, real):
        self._real = real
        self.calls = []
        self.remaps = []

    def __getattr__(self, n):
        v = getattr(self._real, n)
        if isinstance(v, (builtins.int, builtins.float, str)):
            return v
        raise Unsupported(f'cv2.{n}')

    def remap(self, src, map1, map2, interpolation, dst=None, borderMode=0, borderValue=None, **k):
        src, map1, map2 = A.asarr(src), A.asarr(map1), A.asarr(map2)
        if map1.dtype != real_np.float32 or map2.dtype != real_np.float32:
            raise self._real.error('maps should be float32')
        if dst is None or borderMode != self._real.BORDER_TRANSPARENT:
            raise Unsupported('cv2.remap without a transparent border')
        for a, b in zip(dst.shape, map1.shape):
            if not A.dim_same(a, b):
                raise Unsupported('cv2.remap into an array of another size')
        fx, fy, old = map1.snap(), map2.snap(), dst.snap()
        self.remaps.append((src, fx, fy, interpolation))

        def fn(i):
            ins, v = remap_value(src, fx(i), fy(i), interpolation)
            return S.ite(ins, v, old(i))

        dst[...] = SArray.make(dst.shape, A.Fn(fn), dst.dtype)
        return dst

    def Rodrigues(self, r, *a, **k):
        x = A.asarr(r)
        n = x.to_np()
        if n is not None:
            o, j = self._real.Rodrigues(n)
            return SArray.from_np(o), j
        es = x.elems()
        if builtins.len(es) != 3:
            raise Unsupported('cv2.Rodrigues of a matrix')
        out = []
        for i in range(3):
            out.append([S.apply(f'rodrigues{i}{j}', *es) for j in range(3)])
        return A.array(out), None

    def projectPoints(self, pts, rvec, tvec, K, dist):
        """Assumed contract: pinhole projection with OpenCV's rational / tangential / prism / tilt distortion."""
        pts, K = A.asarr(pts), A.asarr(K)
        for v in (rvec, tvec):
            z = A.asarr(v).to_np()
            if z is None or real_np.any(z != 0):
                raise Unsupported('projectPoints with a pose')
        d = cv_dist(dist)
        fp = pts.snap()
        fx, fy, cx, cy = K.at(0, 0), K.at(1, 1), K.at(0, 2), K.at(1, 2)

        def fn(i):
            x, y, z = (fp((i[0], k)) for k in range(3))
            u, v = opencv_distort(x / z, y / z, d)
            c = i[2]
            return fx * u + cx if c == 0 else fy * v + cy

        return SArray.make((pts.shape[0], 1, 2), _last(fn), 'float64'), None

    def undistortPoints(self, pts, K, dist, R=None, P=None, **k):
        """Assumed contract: a pointwise function of pixel, intrinsics and coefficients."""
        if R is not None or P is not None or k:
            raise Unsupported('undistortPoints options')
        pts = A.asarr(pts)
        if pts.ndim != 2:
            raise Unsupported('undistortPoints layout')
        fp, p = pts.snap(), undist_params(K, cv_dist(dist))

        def fn(i):
            return S.apply('cv_undist_' + 'xy'[i[2]], fp((i[0], 0)), fp((i[0], 1)), *p)

        return SArray.make((pts.shape[0], 1, 2), _last(fn), 'float64')

    def initUndistortRectifyMap(self, K, dist, R, newK, size, m1type):
        return undist_maps(K, R, newK, size, lambda x, y, d=cv_dist(dist): opencv_distort(x, y, d))

    def getOptimalNewCameraMatrix(self, *a, **k):
        raise Unsupported('getOptimalNewCameraMatrix')

    @property
    def fisheye(self):
        return Fisheye(self._real)


class Fisheye:
    def __init__(self, real):
        self._real = real

    def __getattr__(self, n):
        v = getattr(self._real.fisheye, n)
        if isinstance(v, (builtins.int, builtins.float, str)):
            return v
        raise Unsupported(f'cv2.fisheye.{n}')

    def undistortPoints(self, pts, K, dist, R=None, P=None, **k):
        if R is not None or P is not None or k:
            raise Unsupported('undistortPoints options')
        pts = A.asarr(pts)
        if pts.ndim != 3:
            raise Unsupported('undistortPoints layout')
        fp, p = pts.snap(), undist_params(K, A.asarr(dist).reshape(-1).elems())

        def fn(i):
            return S.apply('fe_undist_' + 'xy'[i[2]], fp((i[0], i[1], 0)), fp((i[0], i[1], 1)), *p)

        return SArray.make((pts.shape[0], pts.shape[1], 2), _last(fn), 'float64')

    def initUndistortRectifyMap(self, K, dist, R, newK, size, m1type):
        d = A.asarr(dist).reshape(-1).elems()
        return undist_maps(K, R, newK, size, lambda x, y: fisheye_distort(x, y, d))


def _last(fn):
    return lambda i: fn(i) if isinstance(i[2], builtins.int) else A.sel(fn, i, 2, 2)


def cv_dist(dist):
    d = A.asarr(dist).reshape(-1).elems()
    if builtins.len(d) not in (4, 5, 8, 12, 14):
        raise Unsupported('number of distortion coefficients')
    return d + [0] * (14 - builtins.len(d))


def undist_params(K, d):
    K = A.asarr(K)
    return [K.at(0, 0), K.at(1, 1), K.at(0, 2), K.at(1, 2)] + list(d)


def undist_maps(K, R, newK, size, dist):
    K, newK = A.asarr(K), A.asarr(newK)
    r = A.asarr(R).to_np()
    if r is None or not real_np.array_equal(r, real_np.eye(3)):
        raise Unsupported('rectification')
    size = list(A.asarr(size).elems())
    inv = A.inv(newK)

    def one(c):
        def fn(i):
            j, ii = i[1], i[0]
            x, y = (inv.at(k, 0) * j + inv.at(k, 1) * ii + inv.at(k, 2) for k in range(2))
            u, v = dist(x, y)
            return S.rnd32(K.at(0, 0) * u + K.at(0, 2) if c == 0 else K.at(1, 1) * v + K.at(1, 2))

        return SArray.make((size[1], size[0]), fn, 'float32')

    return one(0), one(1)


def fisheye_distort(x, y, d):
    r = S.sqrt(x * x + y * y)
    t = S.arctan(r)
    t2 = t * t
    td = t * (1 + d[0] * t2 + d[1] * t2 * t2 + d[2] * t2 * t2 * t2 + d[3] * t2 * t2 * t2 * t2)
    s = S.ite(r == 0, 1.0, td / r)
    return x * s, y * s


def opencv_distort(x, y, d, sin=None, cos=None):
    sin, cos = sin or S.sin, cos or S.cos
    k1, k2, p1, p2, k3, k4, k5, k6, s1, s2, s3, s4, tx, ty = d
    r2 = x * x + y * y
    r4, r6 = r2 * r2, r2 * r2 * r2
    num = 1 + k1 * r2 + k2 * r4 + k3 * r6
    den = 1 + k4 * r2 + k5 * r4 + k6 * r6
    rad = num / den
    u = x * rad + 2 * p1 * x * y + p2 * (r2 + 2 * x * x) + s1 * r2 + s2 * r4
    v = y * rad + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y + s3 * r2 + s4 * r4
    if all(not is_sym(t) and t == 0 for t in (tx, ty)):
        return u, v
    if any(is_sym(t) for t in (u, v, tx, ty)):
        # abstract: any pointwise function of (u, v, tx, ty)
        return S.apply('cv_tilt_x', u, v, tx, ty), S.apply('cv_tilt_y', u, v, tx, ty)
    cx, sx, cy, sy = cos(tx), sin(tx), cos(ty), sin(ty)
    # rotation Ry(ty) Rx(tx), then projection on the tilted plane
    R = [[cy, sy * sx, -sy * cx], [0, cx, sx], [sy, -cy * sx, cy * cx]]
    w = [R[k][0] * u + R[k][1] * v + R[k][2] for k in range(3)]
    q = [R[2][2] * w[0] - R[0][2] * w[2], R[2][2] * w[1] - R[1][2] * w[2]]
    return q[0] / w[2], q[1] / w[2]


# ------------------------------------------------------------------------------------- rasterio
def crs_key(crs):
    if crs is None:
        return 'none'
    if hasattr(crs, 'sym_key'):
        return crs.sym_key
    return hashlib.md5(str(crs.to_wkt()).encode()).hexdigest()[:8]


class FakeCrs:
    """An opaque CRS."""

    def __init__(self, name, is_projected=True, is_geographic=False):
        self.sym_key = name
        self.is_projected, self.is_geographic = is_projected, is_geographic

    def sym_isinstance(self, t):
        return True if getattr(t, '__name__', '') == 'CRS' else False if t is str else None

    def __eq__(self, o):
        return isinstance(o, FakeCrs) and o.sym_key == self.sym_key

    def __hash__(self):
        return hash(self.sym_key)

    def to_string(self):
        return self.sym_key

    def to_proj4(self):
        return self.sym_key

    def to_wkt(self):
        return self.sym_key


def warp_value(src, dst, x, y, z, k):
    """Assumed contract of PROJ: a pointwise function of the coordinates."""
    return S.apply(f'warp_{crs_key(src)}_{crs_key(dst)}_{"xyz"[k]}', x, y, z)


def transform(src_crs, dst_crs, xs, ys, zs=None):
    conc = not (
        hasattr(src_crs, 'sym_key') or hasattr(dst_crs, 'sym_key')
    )
    axs = [A.asarr(xs), A.asarr(ys)] + ([A.asarr(zs)] if zs is not None else [])
    if conc and all(a.to_np() is not None for a in axs):
        import rasterio.warp as w

        return w.transform(src_crs, dst_crs, *[a.to_np() for a in axs])
    n = axs[0].shape[0]
    for a in axs[1:]:
        if not A.dim_same(n, a.shape[0]):
            raise ValueError('coordinate arrays of different lengths')
    fns = [a.snap() for a in axs]
    out = []
    for k in range(builtins.len(axs)):
        f = lambda i, k=k: warp_value(
            src_crs, dst_crs, fns[0](i), fns[1](i), fns[2](i) if zs is not None else 0.0, k
        )
        r = SArray.make((n,), f, 'float64')
        out.append(r if not isinstance(n, builtins.int) else [r.at(j) for j in range(n)])
    return tuple(out)


class ModProxy:
    """A module whose listed attributes are replaced."""

    def __init__(self, real, over=None, block=()):
        self.__dict__['_real'] = real
        self.__dict__['_over'] = over or {}
        self.__dict__['_block'] = block

    def __getattr__(self, n):
        if n in self._over:
            return self._over[n]
        if n in self._block:
            def f(*a, **k):
                raise Unsupported(f'{self._real.__name__}.{n}')
            return f
        return getattr(self._real, n)

    def __setattr__(self, n, v):
        self._over[n] = v


class NullCtx:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Future:
    def __init__(self, fn, a, k):
        self.exc, self.val = None, None
        try:
            self.val = fn(*a, **k)
        except Exception as ex:
            self.exc = ex

    def result(self, *a):
        if self.exc is not None:
            raise self.exc
        return self.val


class Executor:
    """Runs each task when it is submitted (the schedule is a separate assumption)."""

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def submit(self, fn, *a, **k):
        return Future(fn, a, k)

    def map(self, fn, *its):
        return [fn(*a) for a in zip(*its)]

    def shutdown(self, *a, **k):
        pass


class Bar:
    def __init__(self, it=None, *a, **k):
        self.it = it
        self.total = k.get('total')

    def __iter__(self):
        return iter(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def update(self, *a):
        pass

    def refresh(self, *a):
        pass

    def close(self):
        pass

    def set_postfix_str(self, *a, **k):
        pass
