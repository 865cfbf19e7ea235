"""C16: data type conversion rounds to nearest and saturates."""
import itertools
from fractions import Fraction

import numpy as np
import z3

from .. import arr as A
from .. import sym as S
from ..runner import Fail, Prop, Skip, call

prop = Prop('C16')
FN = 'orthority/common.py:convert_array_dtype'
SRC = ['uint8', 'int8', 'uint16', 'int16', 'uint32', 'int32', 'uint64', 'int64', 'float32', 'float64']
DST = ['uint8', 'int8', 'uint16', 'int16', 'uint32', 'int32', 'float32', 'float64']
prop.assume('numpy round is round half to even, clip saturates, and astype between types is exact where the value is representable, rounds to nearest for float types, and wraps for integer types',
            'conversion of NaN to an integer type is unspecified (the result is not used)',
            'float64 arithmetic on values below 2**53 is exact; destination integer types wider than 32 bits are out of scope')


def conv_case(L, X, s, d):
    H, W = S.integer('H', 1), S.integer('W', 1)
    nan = s[0] == 'f' and d[0] == 'f'
    a = A.symarray('a', (H, W), s, **({'nan': True} if nan else {}))
    a0 = a.snap()
    i, j = A.generic_idx((H, W), 'p')
    v = a0((i, j))
    X.input('v', v)
    if s[0] == 'f':
        m = float(np.finfo(s).max)
        X.assume(z3.And(S.SReal.of(v).z <= S.SReal.of(m).z, S.SReal.of(v).z >= S.SReal.of(-m).z))
    else:
        si = np.iinfo(s)
        X.assume(z3.And(S.SReal.of(v).z >= z3.RealVal(int(si.min)), S.SReal.of(v).z <= z3.RealVal(int(si.max))))
    out = L.common.convert_array_dtype(a, d)
    X.require('type-and-shape', z3.And(z3.BoolVal(str(out.dtype) == d and len(out.shape) == 2), S.zb(out.shape[0] == H), S.zb(out.shape[1] == W)))
    g = out.at(i, j)
    if d[0] == 'f':
        G, V = S.SReal.of(g), S.SReal.of(v)
        X.require('nan-kept', S.zb(S.isnan(g)) == S.zb(S.isnan(v)))
        exact = np.can_cast(s, d, 'safe')
        E = V if exact else S.rnd32(V) if d == 'float32' else V
        X.require('exact' if exact else 'nearest-float', z3.Or(S.zb(S.isnan(v)), G.z == S.SReal.of(E).z))
        return
    ii = np.iinfo(d)
    x, G = S.SReal.of(v).z, S.SReal.of(g).z
    lo, hi = z3.RealVal(int(ii.min)), z3.RealVal(int(ii.max))
    if s[0] != 'f':
        # integer to integer: exact within the range
        X.require('in-range-unchanged', z3.Implies(z3.And(x >= lo, x <= hi), G == x))
    else:
        h = z3.RealVal(Fraction(1, 2))
        X.require('nearest', z3.Implies(z3.And(x >= lo, x <= hi), z3.And(G - x <= h, x - G <= h)))
    X.require('saturates', z3.And(z3.Implies(x < lo, G == lo), z3.Implies(x > hi, G == hi)))
    X.require('in-range', z3.And(G >= lo, G <= hi))


def replay(R, data, s, d):
    sweep(R, s, d)


for s, d in itertools.product(SRC, DST):
    exp = ['type-and-shape'] + (['nan-kept'] if d[0] == 'f' else ['saturates', 'in-range', 'nearest' if s[0] == 'f' else 'in-range-unchanged'])
    prop.case(f'convert[{s} to {d}]', [FN], expect=exp, replay=lambda R, data, s=s, d=d: replay(R, data, s, d))(lambda L, X, a=(s, d): conv_case(L, X, *a))


# ------------------------------------------------------------------------------------ run time
def values(s, d, rs, n=120):
    out = []
    for t in (s, d):
        if np.dtype(t).kind in 'iu':
            ii = np.iinfo(t)
            out += [ii.min, ii.max, ii.min + 1, ii.max - 1, ii.min - 1, ii.max + 1]
    out += [0, 1, -1, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, -32768, -32769, 65535, 65536, 65537, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 40, -2 ** 40, 300, -5]
    if np.dtype(s).kind in 'iu':
        ii = np.iinfo(s)
        out += [int(v) for v in rs.integers(ii.min, ii.max, n, dtype=s, endpoint=True)] + [int(v) for v in rs.integers(-70000, 70000, n)]
        return np.array([v for v in out if ii.min <= v <= ii.max], dtype=s)
    fr = [v + f for v in out if abs(v) < 1e12 for f in (0, .5, -.5, .25, .499, .501)]
    fr += list(rs.normal(0, 200, n)) + list(rs.normal(0, 1e5, n)) + [1e20, -1e20, 3e38, -3e38, 1e-40, -0.0, 254.5, 255.49, 255.5]
    return np.array(fr).astype(s)


def check(R, arr, d):
    s = str(arr.dtype)
    ref = arr.copy()
    shp = arr.shape
    out = call(R.common.convert_array_dtype, arr, d)
    if out.dtype != np.dtype(d) or out.shape != shp:
        raise Fail(f'{s} to {d}: result is {out.dtype} {out.shape}')
    for v, g in zip(ref.ravel(), out.ravel()):
        if d[0] == 'f':
            with np.errstate(over='ignore'):
                e = np.dtype(d).type(v)
            if not (g == e or (g != g and e != e)):
                raise Fail(f'{s} {v!r} to {d} gives {g!r}, expected {e!r}', dict(value=str(v)))
            continue
        if v != v:
            continue
        ii = np.iinfo(d)
        q = Fraction(v.item()) if np.isfinite(v) else None
        if q is None:
            e = ii.max if v > 0 else ii.min
            ok = int(g) == e
        elif q < ii.min or q > ii.max:
            e = ii.min if q < ii.min else ii.max
            ok = int(g) == e
        else:
            e = round(q)
            ok = abs(int(g) - q) <= Fraction(1, 2)
        if not ok:
            raise Fail(f'{s} {v!r} to {d} gives {g!r}, expected {e!r}', dict(value=str(v)))


def sweep(R, s, d):
    rs = np.random.default_rng(3)
    v = values(s, d, rs)
    check(R, v.copy(), d)
    if s[0] == 'f':
        check(R, np.concatenate([v, np.array([np.nan, np.inf, -np.inf], s)]), d)
    # conversion of each value alone, so that it does not depend on the others
    for x in v[:60]:
        check(R, np.array([[x]], dtype=s), d)


@prop.fuzz('pairs-real', len(SRC) * len(DST), len(SRC) * len(DST) * 4, 60, [FN])
def f_pairs(R, rng, i):
    s, d = list(itertools.product(SRC, DST))[i % (len(SRC) * len(DST))]
    sweep(R, s, d)
    rs = np.random.default_rng(rng.randrange(2 ** 32))
    v = values(s, d, rs)
    check(R, rs.permutation(v)[:60].reshape(2, 5, 6), d)
    # non contiguous
    check(R, np.asfortranarray(rs.permutation(v)[:24].reshape(4, 6))[::1, ::2], d)
