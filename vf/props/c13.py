"""C13: DEM windows, crops and masking keep the DEM georeferenced and complete."""
import os
import types
import warnings

import numpy as np
import z3

from .. import arr as A
from .. import sym as S
from ..runner import Fail, Prop, Skip, call, literals
from .c06 import Tmp

prop = Prop('C13')
FO, FC = 'orthority/ortho.py:Ortho.', 'orthority/common.py:'
prop.assume('cv2.fillPoly(mask, [poly]) sets the cells of the polygon with integer vertices poly to the colour, and no others',
            'rasterio dataset.window(bounds) is the pixel rectangle of the bounds; dataset.read(band, window, masked=True) masks nodata and returns the cells of the window',
            'rasterio.warp.reproject resamples with the given source and destination grids (its result is checked at run time only)',
            'frame camera world_boundary(z) meets its contract (C22): each boundary point is affine in z')


# ------------------------------------------------------------------------------ windows
def replay_win(R, d):
    f = lambda k: float(eval(str(d[k]).rstrip('?')))
    check_win(R, f('c'), f('r'), f('w'), f('h'), (int(f('e0')), int(f('e1'))))


def check_win(R, c, r, w, h, e):
    from rasterio.windows import Window
    o = call(R.common.expand_window_to_grid, Window(c, r, w, h), expand_pixels=e)
    for off, n, a, b in ((o.col_off, o.width, c - e[1], c + w + e[1]), (o.row_off, o.height, r - e[0], r + h + e[0])):
        if int(off) != off or int(n) != n:
            raise Fail(f'window ({c}, {r}, {w}, {h}) expanded by {e} gives non integer {o}')
        if off > a + 1e-9 or off + n < b - 1e-9 or off < a - 1 - 1e-9 or off + n > b + 1 + 1e-9:
            raise Fail(f'window ({c}, {r}, {w}, {h}) expanded by {e} gives {o}')


@prop.case('expand-window', [FC + 'expand_window_to_grid'], expect=['contains', 'smallest', 'whole'], replay=replay_win)
def expand(L, X):
    import rasterio
    c, r, w, h = [S.real(n) for n in 'crwh']
    e0, e1 = S.integer('e0', 0), S.integer('e1', 0)
    for n, v in zip(('c', 'r', 'w', 'h', 'e0', 'e1'), (c, r, w, h, e0, e1)):
        X.input(n, v)
    X.assume(S.zb(w >= 0)), X.assume(S.zb(h >= 0))
    win = types.SimpleNamespace(col_off=c, row_off=r, width=w, height=h)
    o = L.common.expand_window_to_grid(win, expand_pixels=(e0, e1))
    for off, n, a, b in ((o.col_off, o.width, c - e1, c + w + e1), (o.row_off, o.height, r - e0, r + h + e0)):
        X.require('whole', z3.BoolVal(isinstance(off, (S.SInt, int)) and isinstance(n, (S.SInt, int))))
        X.require('contains', z3.And(S.zb(off <= a), S.zb(off + n >= b)))
        X.require('smallest', z3.And(S.zb(off > a - 1), S.zb(off + n < b + 1)))


@prop.fuzz('expand-window-real', 600, 20000, 20, [FC + 'expand_window_to_grid'])
def f_win(R, rng, i):
    v = lambda lo: rng.choice([rng.uniform(lo, 50), float(rng.randint(lo, 50)), rng.randint(lo, 50) + .5, rng.randint(lo, 50) + 1e-6])
    check_win(R, v(-50), v(-50), v(0), v(0), rng.choice([(0, 0), (1, 1), (0, 2), (3, 0)]))


# ------------------------------------------------------------------------------ crop and mask
def mask_case(L, X, crop, mask):
    import rasterio
    T = rasterio.Affine(*[S.real('t' + c) for c in 'abcdef'])
    X.assume(S.zb(T.a * T.e - T.b * T.d != 0))
    H, W, N = S.integer('H', 1), S.integer('W', 1), 4
    dem = A.symarray('dem', (H, W), 'float32', nan=True)
    dem0 = dem.snap()
    # boundary points, by their pixel coordinates in the DEM
    P = A.symarray('P', (2, N))
    for k in (0, 1):
        for n in range(N):
            X.assume(z3.And(S.zb(P.at(k, n) > -2 ** 31), S.zb(P.at(k, n) < 2 ** 31)))
    wx, wy = T * (P[0], P[1])
    xy = A.stack([wx, wy, A.symarray('pz', (N,))], 0)
    seen = []
    o = object.__new__(L.ortho.Ortho)
    o._src_name = 'src'
    o._camera = types.SimpleNamespace(world_boundary=lambda *a, **k: (seen.append((a, k)), xy)[1])
    poly = A.symarray('poly', (H, W), 'bool')
    pts = []

    def fill(m, ps, color=None, **k):
        pts.extend(ps)
        v = color[0] if isinstance(color, tuple) else color
        return A.ew(lambda b: S.ite(b, v, 0), poly, dt='uint8')
    L.cv2.fillPoly = fill
    I, J = A.generic_idx((H, W), 'c')
    d = dem0((I, J))
    valid = z3.And(S.zb(poly.at(I, J)), z3.Not(S.zb(S.isnan(d))))
    interp = L.enums.Interp.cubic
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            out, T2 = o._mask_dem(dem, T, interp, crop=crop, mask=mask)
    except L.errors.OrthorityError:
        X.require('error-only-if-nothing-valid', z3.Not(valid))
        return
    # the footprint is that of this DEM, rounded to the nearest cell centres
    (a, k), = seen
    X.require('footprint-on-this-dem', z3.BoolVal((a[0] if a else k.get('z')) is dem and (a[1] if len(a) > 1 else k.get('transform')) is T))
    inv = ~T
    for n in range(N):
        X.require('vertices-to-nearest-cells', z3.And(z3.BoolVal(len(pts) == 1), *[z3.And(S.zb(pts[0].at(n, k) <= P.at(k, n)), S.zb(P.at(k, n) <= pts[0].at(n, k) + 1)) for k in (0, 1)]))
    # crop offsets from the transform
    h, w = out.shape
    if crop:
        # the offset of the crop, from its transform
        tj, ti = inv * (T2.c, T2.f)
        c0, r0 = S.normal(tj), S.normal(ti)
        if not (z3.is_to_real(c0.z) and z3.is_to_real(r0.z)):
            raise S.Unsupported('crop offset is not a whole number')
        c0, r0 = S.to_int(c0), S.to_int(r0)
    else:
        r0 = c0 = 0
        X.require_eq('uncropped-position', T2.c, T.c)
        X.require_eq('uncropped-position', T2.f, T.f)
        X.require('uncropped-position', z3.And(S.zb(h == H), S.zb(w == W)))
    for q in 'abde':
        X.require_eq('same-resolution', getattr(T2, q), getattr(T, q))
    X.require('valid-cells-kept', z3.Implies(valid, z3.And(S.zb(I >= r0), S.zb(I < r0 + h), S.zb(J >= c0), S.zb(J < c0 + w))))
    i, j = A.generic_idx((h, w), 'k')
    src = dem0((r0 + i, c0 + j))
    got = out.at(i, j)
    keep = z3.And(S.zb(poly.at(r0 + i, c0 + j)), z3.Not(S.zb(S.isnan(src))))
    if mask:
        X.require('kept-cell-value', z3.Implies(keep, z3.And(z3.Not(S.zb(S.isnan(got))), S.SReal.of(got).z == S.SReal.of(src).z)))
        X.require('other-cells-nan', z3.Implies(z3.Not(keep), S.zb(S.isnan(got))))
    else:
        X.require('kept-cell-value', z3.And(S.zb(S.isnan(got)) == S.zb(S.isnan(src)), z3.Implies(z3.Not(S.zb(S.isnan(src))), S.SReal.of(got).z == S.SReal.of(src).z)))


for crop in (True, False):
    for mask in (True, False):
        prop.case(f'mask-dem[crop={crop},mask={mask}]', [FO + '_mask_dem'],
                  expect=['error-only-if-nothing-valid', 'valid-cells-kept', 'kept-cell-value', 'vertices-to-nearest-cells', 'same-resolution'] + (['other-cells-nan'] if mask else []),
                  replay=lambda R, d: sweep(R), max_secs=200)(lambda L, X, crop=crop, mask=mask: mask_case(L, X, crop, mask))


class Masked:
    """Contract of the numpy masked array that a masked read returns."""

    def __init__(self, v, m, ext=None):
        self.v, self.m, self.ext, self.shape = v, m, ext, tuple(v.shape)

    def _ext(self, k):
        if self.ext is None:
            raise S.Unsupported('extremes of a cropped DEM')
        return ('index',) + self.ext[k]

    def argmin(self, **k):
        return self._ext(0)

    def argmax(self, **k):
        return self._ext(1)

    def min(self, **k):
        return self[self.argmin()[1:]]

    def max(self, **k):
        return self[self.argmax()[1:]]

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and all(isinstance(q, slice) for q in k):
            return Masked(self.v[k], self.m[k])
        if isinstance(k, tuple) and len(k) == 2:
            return self.v.at(*k)
        raise S.Unsupported(f'masked array index {k!r}')

    def astype(self, dt, **k):
        if str(np.dtype(dt)) != 'float32':
            raise S.Unsupported(f'DEM as {dt}')
        return self

    def filled(self, v=None):
        if not (v is not None and v != v):
            raise S.Unsupported(f'masked DEM filled with {v}')
        return A.ew(lambda a, m: S.ite(m, float('nan'), a), self.v, self.m, dt='float32')


class Win:
    """rasterio Window, with the intersection as in rasterio, in one branch."""

    def __init__(self, col_off, row_off, width, height):
        self.col_off, self.row_off, self.width, self.height = col_off, row_off, width, height

    def intersection(self, o):
        import rasterio
        c, r = S.smax(self.col_off, o.col_off), S.smax(self.row_off, o.row_off)
        w = S.smin(self.col_off + self.width, o.col_off + o.width) - c
        h = S.smin(self.row_off + self.height, o.row_off + o.height) - r
        if bool(w <= 0) or bool(h <= 0):
            raise rasterio.errors.WindowError('empty')
        return Win(c, r, w, h)

    def toslices(self):
        return slice(self.row_off, self.row_off + self.height), slice(self.col_off, self.col_off + self.width)


class Dem:
    def __init__(self, X, log):
        import rasterio
        self.X, self.log = X, log
        self.width, self.height, self.count = S.integer('W', 1), S.integer('H', 1), 2
        c, f = S.real('tc'), S.real('tf')
        self.transform = rasterio.Affine(2.5, 0.0, c, 0.0, -1.5, f)
        self.crs, self.nodata = 'the crs', None
        self.v = [A.symarray(f'dem{b}', (self.height, self.width), 'float32') for b in (1, 2)]
        self.m = [A.symarray(f'dmask{b}', (self.height, self.width), 'bool') for b in (1, 2)]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def window(self, left, bottom, right, top, **k):
        import rasterio
        T = self.transform
        return Win((left - T.c) / T.a, (top - T.f) / T.e, (right - left) / T.a, (bottom - top) / T.e)

    def window_transform(self, w):
        import rasterio
        T = self.transform
        return rasterio.Affine(T.a, 0.0, T.c + T.a * w.col_off, 0.0, T.e, T.f + T.e * w.row_off)

    def read(self, band, window=None, masked=False, **k):
        if not masked or window is None:
            raise S.Unsupported('DEM read')
        w = window
        self.log.append((band, w))
        v, m = [q[band - 1][w.row_off:w.row_off + w.height, w.col_off:w.col_off + w.width] for q in (self.v, self.m)]
        # contract of argmin and argmax: valid cells with the extreme values (at least one cell is valid)
        X, ext = self.X, []
        for t in ('lo', 'hi'):
            i, j = A.generic_idx(v.shape, t)
            X.assume(z3.Not(S.zb(m.at(i, j))))
            ext.append((i, j))
        self.zs = [v.at(*e) for e in ext]
        z0, z1 = self.lim
        X.assume(z3.And(S.zb(self.zs[0] <= self.zs[1]), S.zb(self.zs[0] >= z0), S.zb(self.zs[1] <= z1)))
        self.after()
        return Masked(v, m, ext)


def init_case(L, X, band):
    import rasterio
    log, wbs = [], []
    dem = Dem(X, log)
    N = S.integer('N', 4)

    def pt(n, z):
        n, z = S.SInt.of(n).z, S.SReal.of(z).z
        return [S.SReal(z3.Function('wb' + k, z3.IntSort(), z3.RealSort(), z3.RealSort())(n, z)) for k in 'xy']

    def wb(z, *a, **k):
        wbs.append(z)
        # a footprint of positive area (at heights below the camera)
        X.assume(z3.And(S.zb(pt(0, z)[0] < pt(1, z)[0]), S.zb(pt(2, z)[1] < pt(3, z)[1])))
        return A.stack([A.SArray.make((N,), lambda ix, k=k: pt(ix[0], z)[k], 'float64') for k in (0, 1)] + [A.full((N,), z)], 0)
    def after():
        # each point moves along its ray, so that its coordinates are monotonic in z
        n = z3.Int('nq')
        c = []
        if len(wbs) == 2:
            for k in (0, 1):
                a, b = S.smin(*wbs), S.smax(*wbs)
                u, p, q, w = [S.SReal.of(pt(S.SInt(n), z)[k]).z for z in (a, *dem.zs, b)]
                c.append(z3.Or(z3.And(u <= p, p <= q, q <= w), z3.And(u >= p, p >= q, q >= w)))
            X.assume(z3.Implies(z3.And(S.zb(a <= dem.zs[0]), S.zb(b >= dem.zs[1])), z3.ForAll([n], z3.And(*c))))
    dem.after = after
    o = object.__new__(L.ortho.Ortho)
    o._src_name, o._crs = 'src', dem.crs
    o._camera = types.SimpleNamespace(world_boundary=wb, im_size=(10, 10), pixel_to_world_z=lambda ji, z, **k: np.zeros((3, 1)))
    L.ortho.Window = Win

    def grid(win, expand_pixels=(0, 0)):
        """Contract of expand_window_to_grid (proved above), without expansion."""
        out = []
        for off, n in ((win.col_off, win.width), (win.row_off, win.height)):
            a = S.floor(off)
            out.append((S.to_int(a), S.to_int(S.ceil(off + n)) - S.to_int(a)))
        return Win(out[0][0], out[1][0], out[0][1], out[1][1])
    L.common.expand_window_to_grid = grid
    L.common.OpenRaster = lambda *a, **k: dem
    L.common.get_filename = lambda *a, **k: 'dem'
    tr = lambda s, d, x, y, z=None: (x, y, z)
    L.ortho.transform = tr
    ur = lambda ix, shape: ix[1:]
    L.np.unravel_index = ur
    lo, hi = -440. - 106.71, 8849. + 82.28  # Dead Sea shore and lowest EGM96 undulation; Everest and highest undulation
    dem.lim = lo, hi
    n = A.generic_idx((N,), 'n')[0]
    z = S.real('z')
    X.assume(z3.And(S.zb(z >= lo), S.zb(z <= hi)))
    T = dem.transform

    x, y = pt(n, z)
    pc, pr = (x - T.c) / T.a, (y - T.f) / T.e

    def mono(z0, z1):
        """Contract of world_boundary: each point moves along its ray, so that its coordinates are monotonic in z."""
        c = []
        for k in (0, 1):
            u, v, w = [pt(n, q)[k] for q in (z0, z, z1)]
            c.append(z3.Or(z3.And(S.zb(u <= v), S.zb(v <= w)), z3.And(S.zb(u >= v), S.zb(v >= w))))
        return z3.Implies(z3.And(S.zb(z0 <= z), S.zb(z <= z1)), z3.And(*c))
    inside = z3.And(S.zb(pc > 0), S.zb(pc < dem.width), S.zb(pr > 0), S.zb(pr < dem.height))
    try:
        out, T2, crs = o._get_init_dem('dem', band)
    except L.errors.OrthorityError:
        if not log:
            X.require('error-only-if-outside', z3.Implies(z3.And(*[mono(*q) for q in zip(wbs[::2], wbs[1::2])]), z3.Not(inside)))
        else:
            between = z3.And(S.zb(z >= dem.zs[0]), S.zb(z <= dem.zs[1]), mono(*dem.zs), *[mono(*q) for q in zip(wbs[::2], wbs[1::2])])
            X.require('error-only-if-outside', z3.Implies(between, z3.Not(inside)))
        return
    (b, w1), = log
    between = z3.And(S.zb(z >= dem.zs[0]), S.zb(z <= dem.zs[1]), mono(*dem.zs), *[mono(*q) for q in zip(wbs[::2], wbs[1::2])])
    X.require('band', z3.BoolVal(b == band))
    X.require('crs', z3.BoolVal(crs is dem.crs))
    h, w = out.shape
    X.require_eq('resolution', T2.a, T.a), X.require_eq('resolution', T2.e, T.e)
    c0, r0 = [S.SReal(z3.simplify(S.SReal.of((u - v) / w).z, som=True)) for u, v, w in ((T2.c, T.c, T.a), (T2.f, T.f, T.e))]
    if not (z3.is_to_real(c0.z) and z3.is_to_real(r0.z)):
        raise S.Unsupported('DEM offset is not a whole number'+str(c0.z)[:300])
    c0, r0 = S.to_int(c0), S.to_int(r0)
    X.require('window-in-dem', z3.And(S.zb(c0 >= 0), S.zb(r0 >= 0), S.zb(c0 + w <= dem.width), S.zb(r0 + h <= dem.height)))
    i, j = A.generic_idx((h, w), 'k')
    g, m, v = out.at(i, j), dem.m[band - 1].at(r0 + i, c0 + j), dem.v[band - 1].at(r0 + i, c0 + j)
    X.require('nodata-is-nan', z3.Implies(S.zb(m), S.zb(S.isnan(g))))
    X.require('cell-value-and-position', z3.Implies(z3.Not(S.zb(m)), z3.And(z3.Not(S.zb(S.isnan(g))), S.SReal.of(g).z == S.SReal.of(v).z)))
    # the heights used for the final window are those of the extreme cells, so a footprint point at any height between them is in it
    X.require('footprint-contained', z3.Implies(z3.And(between, inside), z3.And(S.zb(pc >= c0), S.zb(pc <= c0 + w), S.zb(pr >= r0), S.zb(pr <= r0 + h))))


for b in (1, 2):
    prop.case(f'initial-dem[band={b}]', [FO + '_get_init_dem'], expect=['footprint-contained', 'cell-value-and-position', 'nodata-is-nan', 'window-in-dem', 'resolution', 'error-only-if-outside', 'band'],
              bound='DEM cell size fixed (2.5 by -1.5); DEM size, position, values, mask, camera and number of boundary points arbitrary', replay=lambda R, d: sweep(R), max_secs=300)(lambda L, X, b=b: init_case(L, X, b))


# ------------------------------------------------------------------------------ resampling
def repro_case(L, X, same):
    from .c22 import Aff
    H, W, h2, w2 = [S.integer(n, 1) for n in ('H', 'W', 'h2', 'w2')]
    a, e, c, f = [S.real(n) for n in 'aecf']
    res = S.real('rx'), S.real('ry')
    for n, v in zip(('a', 'e', 'rx', 'ry', 'H', 'W'), (a, e, *res, H, W)):
        X.input(n, v)
    X.assume(z3.And(S.zb(a > 0), S.zb(e < 0), S.zb(res[0] > 0), S.zb(res[1] > 0)))
    cell = lambda nm: lambda ix: S.SReal(z3.Function(nm, *[z3.IntSort()] * len(ix), z3.RealSort())(*[S.SInt.of(q).z for q in ix]), z3.Function(nm + '_nan', *[z3.IntSort()] * len(ix), z3.BoolSort())(*[S.SInt.of(q).z for q in ix]))
    src = A.SArray.make((H, W), cell('dem'), 'float32')
    dst = A.SArray.make((1, h2, w2), cell('resampled'), 'float32')
    T, T2 = Aff(a, e, c, f), Aff(res[0], -res[1], S.real('c2'), S.real('f2'))
    calls, k0, k1 = [], S.real('zoff'), S.real('zscale')
    o = object.__new__(L.ortho.Ortho)
    world = object()
    o._src_name, o._crs, o._dem_crs, o._dem_transform, o._dem_array = 'src', world, world if same else object(), T, src
    size = S.real('bw'), S.real('bh')
    X.assume(z3.And(S.zb(size[0] > 0), S.zb(size[1] > 0)))
    if same:
        X.assume(z3.And(S.zb(size[0] == W * a), S.zb(size[1] == -H * e)))

    def bounds(s, d, *b, **k):
        X.require('bounds-of-the-dem', z3.And(z3.BoolVal(s is o._dem_crs and d is world), *[S.zb(p == q) for p, q in zip(b, (c, f + H * e, c + W * a, f))]))
        x, y = S.real('bx'), S.real('by')
        return x, y, x + size[0], y + size[1]

    def tr(s, d, xs, ys, zs=None):
        if s is not o._dem_crs or d is not world or zs is None:
            raise S.Unsupported('transform between other CRSs')
        return [S.apply('tx', S.SReal.of(x)) for x in xs], [S.apply('ty', S.SReal.of(y)) for y in ys], [k0 + k1 * z for z in zs]

    def rep(source, destination=None, **k):
        if destination is not None or set(k) - {'src_crs', 'src_transform', 'src_nodata', 'dst_crs', 'dst_resolution', 'resampling', 'dst_nodata', 'init_dest_nodata', 'apply_vertical_shift', 'mult_factor_vertical_shift', 'num_threads', 'warp_mem_limit'}:
            raise S.Unsupported(f'reproject with {sorted(k)}')
        calls.append((source, k))
        return dst, T2
    L.ortho.array_bounds = lambda h, w, t: (t.c, t.f + h * t.e, t.c + w * t.a, t.f)
    L.ortho.transform_bounds, L.ortho.transform, L.ortho.reproject = bounds, tr, rep
    try:
        out, To = o._reproject_dem(L.enums.Interp.cubic, res)
    except L.errors.OrthorityError:
        X.require('error-only-if-too-coarse', z3.Or(S.zb(res[0] > size[0]), S.zb(res[1] > size[1])))
        return
    if not calls:
        X.require('unchanged-only-on-the-ortho-grid', z3.And(z3.BoolVal(same), S.zb(res[0] == a), S.zb(res[1] == -e)))
        for q in 'abcdef':
            X.require_eq('unchanged-grid', getattr(To, q), getattr(T, q))
        n = A.generic_idx((H, W), 'n')
        X.require('unchanged-cells', z3.And(S.zb(out.shape[0] == H), S.zb(out.shape[1] == W), same_val(out.at(*n), src.at(*n))))
        return
    (s, k), = calls
    nan = lambda v: v is not None and bool(np.isnan(v))
    n = A.generic_idx((H, W), 'n')
    s = A.asarr(s)
    X.require('dem-resampled', z3.And(S.zb(s.shape[-2] == H), S.zb(s.shape[-1] == W), same_val(s.at(*n), src.at(*n))))
    t = k['src_transform']
    X.require('from-dem-grid', z3.And(z3.BoolVal(k['src_crs'] is o._dem_crs), *[S.zb(getattr(t, q) == getattr(T, q)) for q in 'abcdef']))
    X.require('to-ortho-grid', z3.And(z3.BoolVal(k['dst_crs'] is world), *[S.zb(p == q) for p, q in zip(k['dst_resolution'], res)]))
    X.require('invalid-stays-nan', z3.BoolVal(nan(k.get('src_nodata')) and nan(k.get('dst_nodata'))))
    # heights are shifted, and scaled, from the vertical datum and units of the DEM CRS to those of the ortho CRS
    if 'mult_factor_vertical_shift' not in k or not k.get('apply_vertical_shift'):
        X.require('heights-to-ortho-crs', z3.BoolVal(same))
    else:
        X.require('heights-to-ortho-crs', S.zb(k['mult_factor_vertical_shift'] == k1))
    n = A.generic_idx((h2, w2), 'm')
    X.require('resampled-cells', z3.And(z3.BoolVal(out.ndim == 2), S.zb(out.shape[0] == h2), S.zb(out.shape[1] == w2), same_val(out.at(*n), dst.at(0, *n))))
    for q in 'abcdef':
        X.require_eq('resampled-grid', getattr(To, q), getattr(T2, q))


def same_val(p, q):
    p, q = S.SReal.of(p), S.SReal.of(q)
    return z3.And(S.zb(S.isnan(p)) == S.zb(S.isnan(q)), z3.Or(S.zb(S.isnan(p)), p.z == q.z))


for same in (False, True):
    prop.case(f'resample[{"same" if same else "other"} CRS]', [FO + '_reproject_dem'], expect=['dem-resampled', 'to-ortho-grid', 'heights-to-ortho-crs', 'resampled-cells', 'error-only-if-too-coarse'] + (['unchanged-cells', 'unchanged-only-on-the-ortho-grid'] if same else []),
              replay=lambda R, d: sweep2(R))(lambda L, X, same=same: repro_case(L, X, same))


def sweep2(R):
    import random
    for i in range(60):
        try:
            f_repro(R, random.Random(i), i)
        except Skip:
            pass


def sweep(R):
    import random
    for i in range(40):
        try:
            f_dem(R, random.Random(i), i)
        except Skip:
            pass


def grid_ok(a, T, z, x0, y0, res, s, desc, margin=4):
    """Compare the ortho a with the projection of every DEM cell (NaN z: invalid), on the DEM grid."""
    H, W = z.shape
    jj, ii = np.meshgrid(np.arange(W) + .5, np.arange(H) + .5)
    x, y = x0 + jj * res[0], y0 - ii * res[1]
    j, i = s.proj(x, y, np.where(np.isnan(z), 0, z).astype(float))
    valid = ~np.isnan(z)
    inside = (j > margin) & (j < s.w - 1 - margin) & (i > margin) & (i < s.h - 1 - margin)
    frac = (np.abs(j - np.floor(j) - .5) > .04) & (np.abs(i - np.floor(i) - .5) > .04)
    outside = (j < -1.5) | (j > s.w + .5) | (i < -1.5) | (i > s.h + .5)
    c0, r0 = (T.c - x0) / res[0], (y0 - T.f) / res[1]
    if abs(c0 - round(c0)) > 1e-4 or abs(r0 - round(r0)) > 1e-4 or round(c0) < 0 or round(r0) < 0 or round(r0) + a.shape[1] > H or round(c0) + a.shape[2] > W:
        raise Fail(f'ortho grid is not a crop of the DEM grid: {desc}', dict(T=list(T)[:6]))
    c0, r0 = round(c0), round(r0)
    win = np.zeros(z.shape, bool)
    win[r0:r0 + a.shape[1], c0:c0 + a.shape[2]] = True
    m = valid & inside & ~win
    if m.any():
        r, c = np.argwhere(m)[0]
        raise Fail(f'{m.sum()} valid DEM cells inside the footprint are not in the ortho, first at row {r} col {c}, ortho at row {r0} col {c0} of size {a.shape[1:]}: {desc}')
    nd = {'uint8': 0, 'uint16': 0, 'int16': -32768}.get(str(a.dtype), np.nan)
    isn = np.isnan(a) if nd != nd else a == nd
    exp = s.ar[:, np.clip(np.rint(np.nan_to_num(i)).astype(int), 0, s.h - 1), np.clip(np.rint(np.nan_to_num(j)).astype(int), 0, s.w - 1)]
    sub = lambda q: q[..., r0:r0 + a.shape[1], c0:c0 + a.shape[2]]
    bad = (a != sub(exp)) & sub(valid & inside & frac)
    if bad.any():
        b, r, c = np.argwhere(bad)[0]
        raise Fail(f'{bad.sum()} ortho values are not those of their DEM cell, first at band {b + 1} row {r} col {c}: {a[b, r, c]}, expected {sub(exp)[b, r, c]}: {desc}')
    bad = ~isn & sub(~valid | outside)
    if bad.any():
        b, r, c = np.argwhere(bad)[0]
        raise Fail(f'ortho row {r} col {c} is {a[b, r, c]} where the DEM cell is {sub(z)[r, c]} and projects to {sub(j)[r, c], sub(i)[r, c]}: {desc}')
    return (valid & inside).sum()


def process(R, d, src, dem, cam, name, res, **k):
    import rasterio
    out = os.path.join(d, name)
    o = src if hasattr(src, 'process') else call(R.ortho.Ortho, src, dem, cam, **{'crs': 'EPSG:32735', **k.pop('init', {})}, allow_=(R.errors.OrthorityError,))
    call(o.process, out, allow_=(R.errors.OrthorityError,), resolution=res, interp='nearest', build_ovw=False, write_mask=False, compress='deflate', **k)
    with rasterio.open(out) as im:
        return o, im.read(), im.transform


@prop.fuzz('dem-cells-through-processing', 60, 1500, 60, [FO + '_get_init_dem', FO + '_mask_dem', FO + '_reproject_dem'])
def f_dem(R, rng, i):
    import rasterio
    from rasterio.transform import from_origin
    from .c12 import scene
    with Tmp() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ob = i % 3 == 2
        up = rng.choice([0, 0, -435, 2500])  # e.g. the shore of the Dead Sea
        s = scene(R, rng, d, oblique=ob, up=up)
        H, W = s.z.shape
        z = s.z.astype(float)
        dt = rng.choice(['float32', 'int16', 'float64'])
        z = np.rint(z) if dt == 'int16' else z.astype('float32').astype(float)
        # crop to a part of the DEM, so that it covers the footprint partially
        r0, c0 = [rng.choice([0, int(rng.uniform(0, .55) * n)]) for n in (H, W)]
        r1, c1 = [rng.choice([n, int(rng.uniform(.6, 1) * n)]) for n in (H, W)]
        if ob:
            r0, c0, r1, c1 = 0, 0, H, W
        z = z[r0:r1, c0:c1].copy()
        x0, y0 = s.x0 + c0 * s.res[0], s.y0 - r0 * s.res[1]
        for _ in range(0 if ob else rng.choice([0, 1, 4])):
            a, b = rng.randrange(z.shape[0]), rng.randrange(z.shape[1])
            z[a:a + rng.randint(1, 12), b:b + rng.randint(1, 12)] = np.nan
        nb = rng.choice([1, 2, 3])
        band = rng.randint(1, nb)
        nd = rng.choice([-9999, 0 if (np.nan_to_num(z, nan=1) != 0).all() else -9999]) if dt == 'int16' else rng.choice([-9999., float('nan'), -3.4028234663852886e+38])
        st = np.full((nb,) + z.shape, 3.)
        st[band - 1] = np.where(np.isnan(z), nd, z)
        dem = os.path.join(d, 'd.tif')
        with rasterio.open(dem, 'w', driver='GTiff', width=z.shape[1], height=z.shape[0], count=nb, dtype=dt, crs='EPSG:32735', nodata=nd, transform=from_origin(x0, y0, *s.res)) as im:
            im.write(st.astype(dt))
        desc = f'{dt} DEM of size {z.shape} with {np.isnan(z).sum()} nodata cells, band {band} of {nb}, nodata {nd}, {s.lens}, at {x0, y0}, res {s.res}'
        di = rng.choice(['cubic', 'bilinear', 'nearest'])
        try:
            o, a, T = process(R, d, s.src, dem, s.cam, 'a.tif', s.res, init=dict(dem_band=band), dem_interp=di)
        except R.errors.OrthorityError as ex:
            # only if there is no valid DEM cell well inside the footprint
            jj, ii = np.meshgrid(np.arange(z.shape[1]) + .5, np.arange(z.shape[0]) + .5)
            j, i = s.proj(x0 + jj * s.res[0], y0 - ii * s.res[1], np.nan_to_num(z))
            ok = ~np.isnan(z) & (j > 4) & (j < s.w - 5) & (i > 4) & (i < s.h - 5)
            if ok.sum() > 20:
                raise Fail(f'{ex!r} but {ok.sum()} valid DEM cells are inside the footprint: {desc}')
            raise Skip()
        grid_ok(a, T, z, x0, y0, s.res, s, desc, margin=6 if ob else 4)
        # the same again: the DEM held by the object is not changed by processing
        _, a2, T2 = process(R, d, o, None, None, 'b.tif', s.res, dem_interp=di)
        if T2 != T or a2.shape != a.shape or not np.array_equal(a2, a, equal_nan=a.dtype.kind == 'f'):
            raise Fail(f'processing a second time gives a different ortho: {desc}')


@prop.fuzz('resampled-dem', 60, 1500, 60, [FO + '_get_init_dem', FO + '_mask_dem', FO + '_reproject_dem'])
def f_repro(R, rng, i):
    import rasterio
    from rasterio.transform import from_origin
    from rasterio.warp import transform
    from .c12 import scene
    with Tmp() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        feet = rng.random() < .2  # heights in feet, at the shore of the Dead Sea
        up = -1427 if feet else 0
        s = scene(R, rng, d, up=up)
        X0, Y0 = s.x0 + 210, s.y0 - 210
        gx, gy, z0 = rng.uniform(-.04, .04), rng.uniform(-.04, .04), rng.uniform(5, 12) + up
        geo = not feet and rng.random() < .5
        crs = 'EPSG:4326' if geo else rng.choice(['EPSG:32735', 'EPSG:32734'])
        base, s_crs = 'EPSG:32735', None
        if not geo and not feet and rng.random() < .3:
            # projections without EPSG codes, whose easting differs by less than the extent of the DEM
            s_crs = [f'+proj=tmerc +lat_0=0 +lon_0=27.123 +k=0.9996 +x_0={500000 + q} +y_0=10000000 +datum=WGS84 +units=m +no_defs' for q in (0, rng.choice([-60, 60]))]
            base, crs = s_crs
        dem = os.path.join(d, 'd.tif')
        lon, lat = [v[0] for v in transform(base, crs, [X0], [Y0])]
        k = rng.uniform(8, 14)
        res = (k / 60000, k / 110000) if geo else (k, k * rng.choice([1, .8]))
        n = int(520 / k)
        if '32734' in crs:
            n = int(700 / k)
        x0, y0 = lon - n / 2 * res[0] + rng.uniform(-.5, .5) * res[0], lat + n / 2 * res[1]
        jj, ii = np.meshgrid(np.arange(n) + .5, np.arange(n) + .5)
        px, py = x0 + jj * res[0], y0 - ii * res[1]
        ux, uy = transform(crs, base, px.ravel(), py.ravel())
        zf = lambda x, y: z0 + 6 * gx * (np.asarray(x) - X0) + 6 * gy * (np.asarray(y) - Y0)
        z = zf(ux, uy).reshape(n, n).astype('float32')
        wc = base
        if feet:
            wc, crs = 'EPSG:32735+8050', crs + '+8050'
        elif s_crs:
            wc = s_crs[0]
        elif not geo and rng.random() < .5:
            # heights in another vertical datum or unit: EGM96, or feet above mean sea level
            wc, crs = 'EPSG:32735+4326', crs + rng.choice(['+5773', '+8050'])
            z = np.array(transform(wc, crs, ux, uy, z.ravel())[2]).reshape(n, n).astype('float32')
        with rasterio.open(dem, 'w', driver='GTiff', width=n, height=n, count=1, dtype='float32', crs=crs, transform=from_origin(x0, y0, *res)) as im:
            im.write(z[None])
        r = rng.choice([1.9, 2.6, 4.])
        r = (r, r * rng.choice([1, 1.3]))
        if '32735' in crs and rng.random() < .6:
            # the DEM resolution in one direction only
            r = rng.choice([(res[0], res[1] * rng.choice([.5, .8])), (res[0] * rng.choice([.5, .8]), res[1])])
        desc = f'DEM in {crs} at resolution {res}, ortho at {r}, slopes {6 * gx, 6 * gy}, {s.lens}'
        try:
            o, a, T = process(R, d, s.src, dem, s.cam, 'a.tif', r, init=dict(crs=wc), dem_interp=rng.choice(['cubic', 'bilinear']))
        except R.errors.OrthorityError as ex:
            raise Fail(f'{ex!r}, but the DEM covers the footprint: {desc}')
        if abs(T.a - r[0]) > 1e-9 or abs(T.e + r[1]) > 1e-9 or T.b or T.d:
            raise Fail(f'ortho resolution is {T.a, T.e}: {desc}')
        H, W = a.shape[1:]
        jj, ii = np.meshgrid(np.arange(W) + .5, np.arange(H) + .5)
        x, y = T * (jj, ii)
        zz = zf(x, y)
        j, i = s.proj(x, y, zz)
        j2, i2 = s.proj(x, y, zz + .25)  # DEM interpolation error allowed
        tol = .06 + np.hypot(j - j2, i - i2)
        m = 4
        ok = (j > m) & (j < s.w - 1 - m) & (i > m) & (i < s.h - 1 - m)
        ok &= (np.abs(j - np.floor(j) - .5) > tol) & (np.abs(i - np.floor(i) - .5) > tol)
        if ok.sum() < 20:
            raise Skip()
        exp = s.ar[:, np.clip(np.rint(np.nan_to_num(i)).astype(int), 0, s.h - 1), np.clip(np.rint(np.nan_to_num(j)).astype(int), 0, s.w - 1)]
        bad = (a != exp) & ok
        if bad.sum() > .002 * ok.sum():
            b, r_, c = np.argwhere(bad)[0]
            raise Fail(f'{bad.sum()} of {ok.sum() * a.shape[0]} ortho values are not those of the DEM surface, first at band {b + 1} row {r_} col {c}: {a[b, r_, c]}, expected {exp[b, r_, c]}: {desc}')
