"""C19: pan-sharpened output is on the pan grid over the shared bounds."""
import os
import tempfile
import threading
import types
import warnings

import numpy as np
import z3

from .. import arr as A
from .. import sym as S
from ..runner import Fail, Prop, Skip, call
from .c13 import Win
from .c17 import Im, TileWin, write
from .c18 import Out, oracle

prop = Prop('C19')
F = 'orthority/pan_sharp.py:PanSharpen.'
prop.assume('axis aligned transforms (either sign of the pixel height); dataset.window() and window_transform() are the affine maps that rasterio defines',
            'transform_bounds() is the identity for the same CRS, and otherwise returns some bounds (whose overlap with the image in its own CRS is what the grids cover)',
            'real arithmetic for coordinates; block_windows() partitions the output (C11)')


class Aff:
    """Axis aligned affine transform with symbolic coefficients."""

    def __init__(self, a, e, c, f):
        self.a, self.b, self.c, self.d, self.e, self.f = a, 0.0, c, 0.0, e, f

    def __getitem__(self, i):
        return (self.a, self.b, self.c, self.d, self.e, self.f, 0.0, 0.0, 1.0)[i]

    def __iter__(self):
        return iter(self[i] for i in range(9))

    @property
    def is_identity(self):
        return S.SBool(z3.And(*[S.SReal.of(x).z == y for x, y in ((self.a, 1), (self.e, 1), (self.c, 0), (self.f, 0))]))

    @staticmethod
    def scale(x, y=None):
        return Aff(x, x if y is None else y, 0.0, 0.0)

    @staticmethod
    def translation(x, y):
        return Aff(1.0, 1.0, x, y)

    @staticmethod
    def identity():
        return Aff(1.0, 1.0, 0.0, 0.0)

    def __mul__(self, o):
        if isinstance(o, Aff):
            return Aff(self.a * o.a, self.e * o.e, self.a * o.c + self.c, self.e * o.f + self.f)
        x, y = o
        return self.a * x + self.c, self.e * y + self.f


class Ds:
    def __init__(self, name, width, height, T, crs, count=1):
        self.name, self.width, self.height, self.transform, self.crs, self.count = name, width, height, T, crs, count
        self.shape = (height, width)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    @property
    def bounds(self):
        T = self.transform
        l, t = T * (0, 0)
        r, b = T * (self.width, self.height)
        return (l, b, r, t)

    def window(self, left, bottom, right, top, **k):
        T = self.transform
        return Win((left - T.c) / T.a, (top - T.f) / T.e, (right - left) / T.a, (bottom - top) / T.e)


class Crs:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Crs) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


def win_transform(win, T, *a):
    r = T * Aff.translation(win.col_off, win.row_off)
    r.origin = (T, win)
    return r


def win_intersect(*ws):
    ws = ws[0] if len(ws) == 1 else ws
    a, b = ws
    c, r = S.smax(a.col_off, b.col_off), S.smax(a.row_off, b.row_off)
    w = S.smin(a.col_off + a.width, b.col_off + b.width) - c
    h = S.smin(a.row_off + a.height, b.row_off + b.height) - r
    return bool(S.SBool(z3.And(S.SReal.of(w).z > 0, S.SReal.of(h).z > 0)))


def image(X, name, geo, crs, flip=False):
    W, H = S.integer(f'{name}W', 1), S.integer(f'{name}H', 1)
    if not geo:
        return Ds(name, W, H, Aff.identity(), None)
    r = {k: S.SReal(z3.Real(f'{name}_{k}')) for k in ('rx', 'ry', 'x0', 'y0')}
    X.assume(z3.And(r['rx'].z > 0, r['ry'].z > 0))
    return Ds(name, W, H, Aff(r['rx'], r['ry'] if flip else -r['ry'], r['x0'], r['y0']), crs)


def install(L, X, pan, ms, tb):
    ps = L.pan_sharp

    class Raster:
        def __new__(cls, f, mode='r', **k):
            return {'pan': pan, 'ms': ms}[f]

    L.common.OpenRaster = Raster
    L.common.suppress_no_georef = lambda: threading.Lock()
    ps.rio = types.SimpleNamespace(Affine=Aff, Env=ps.rio.Env, DatasetReader=Ds)
    for n, v in dict(Window=Win, intersect=win_intersect, window_transform=win_transform, transform_bounds=tb).items():
        if not hasattr(ps, n):
            raise S.Unsupported(f'pan_sharp without {n}')
        setattr(ps, n, v)
    # rasterio Window used in expand_window_to_grid
    L.common.Window = Win


def R_(v):
    return S.SReal.of(v).z


def zmin(a, b):
    return z3.If(a < b, a, b)


def zmax(a, b):
    return z3.If(a > b, a, b)


def grid_checks(X, tag, prof, ds, src_T, rect):
    """The grid of ``prof`` is a whole-pixel subset of the image's, and covers rect (in pixels: c0, r0, c1, r1) to within a pixel."""
    T = prof['transform']
    col, row = (S.normal(S.SReal.of(v)) for v in ((T.c - src_T.c) / src_T.a, (T.f - src_T.f) / src_T.e))
    if getattr(T, 'origin', (None,))[0] is src_T or (getattr(T, 'origin', None) and all(z3.eq(R_(p), R_(q)) for p, q in zip(T.origin[0], src_T))):
        # made by window_transform: the same offsets, without the division
        col, row = T.origin[1].col_off, T.origin[1].row_off
    w, h = prof['width'], prof['height']
    X.require(f'{tag}-same-pixel-size', z3.And(R_(T.a) == R_(src_T.a), R_(T.e) == R_(src_T.e)))
    col, row, w, h = R_(col), R_(row), R_(w), R_(h)
    X.require(f'{tag}-whole-pixels', z3.And(z3.IsInt(col), z3.IsInt(row), z3.IsInt(w), z3.IsInt(h)))
    X.require(f'{tag}-within-image', z3.And(col >= 0, row >= 0, w >= 1, h >= 1, col + w <= R_(ds.width), row + h <= R_(ds.height)))
    c0, r0, c1, r1 = rect
    X.require(f'{tag}-covers-overlap', z3.And(col <= c0, row <= r0, col + w >= c1, row + h >= r1))
    X.require(f'{tag}-no-larger', z3.And(col > c0 - 1, row > r0 - 1, col + w < c1 + 2, row + h < r1 + 2))


def overlap(win, ds):
    c0, r0 = zmax(R_(win.col_off), 0), zmax(R_(win.row_off), 0)
    return c0, r0, zmin(R_(win.col_off + win.width), R_(ds.width)), zmin(R_(win.row_off + win.height), R_(ds.height))


def georef(L, X, same, flip):
    ca, cb = Crs('a'), Crs('a' if same else 'b')
    pan, ms = image(X, 'pan', True, ca, flip), image(X, 'ms', True, cb, flip)
    # what distinguishes an image without georeferencing is its identity transform and missing CRS
    memo = {}

    def tb(src, dst, left, bottom, right, top, **k):
        if src == dst:
            return left, bottom, right, top
        key = (src.name, dst.name)
        if key not in memo:
            v = {q: S.SReal(z3.Real(f'tb_{src.name}{dst.name}_{q}')) for q in ('l', 'b', 'r', 't')}
            X.assume(z3.And(v['l'].z < v['r'].z, (v['b'].z > v['t'].z) if flip else (v['b'].z < v['t'].z)))
            memo[key] = (v['l'], v['b'], v['r'], v['t'])
        return memo[key]

    install(L, X, pan, ms, tb)
    wp, wm = pan.window(*tb(ms.crs, pan.crs, *ms.bounds)), ms.window(*tb(pan.crs, ms.crs, *pan.bounds))
    op, om = overlap(wp, pan), overlap(wm, ms)
    has = z3.And(op[0] < op[2], op[1] < op[3])
    if not same:
        X.assume(z3.Implies(has, z3.And(om[0] < om[2], om[1] < om[3])))
    try:
        prof = L.pan_sharp.PanSharpen._get_vrt_profiles('pan', 'ms')
    except Exception as ex:
        if type(ex).__name__ != 'OrthorityError':
            raise
        coarse = z3.Or(R_(pan.transform.a) > R_(ms.transform.a), R_(abs(pan.transform.e)) > R_(abs(ms.transform.e)))
        if same:
            X.require('error-only-without-overlap-or-coarse-pan', z3.Or(z3.Not(has), coarse))
        return
    X.require('error-without-overlap', has)
    if same:
        X.require('error-for-coarse-pan', z3.And(R_(pan.transform.a) <= R_(ms.transform.a), R_(abs(pan.transform.e)) <= R_(abs(ms.transform.e))))
    check_profiles(X, prof, pan, ms, pan.transform, ms.transform, op, om)


def check_profiles(X, prof, pan, ms, Tp, Tm, op, om):
    for a, b in (('pan_to_pan', 'ms_to_pan'), ('ms_to_ms', 'pan_to_ms')):
        p, q = prof[a], prof[b]
        X.require('same-grid', z3.And(*[R_(x) == R_(y) for x, y in zip(tuple(p['transform'])[:6], tuple(q['transform'])[:6])], R_(p['width']) == R_(q['width']), R_(p['height']) == R_(q['height']), z3.BoolVal(p['crs'] == q['crs'])))
    for k, T in (('pan_to_pan', Tp), ('pan_to_ms', Tp), ('ms_to_ms', Tm), ('ms_to_pan', Tm)):
        s = prof[k]['src_transform']
        X.require('source-transform', z3.And(*[R_(x) == R_(y) for x, y in zip(tuple(s)[:6], tuple(T)[:6])]))
        X.require('source-transform', z3.BoolVal(prof[k]['nodata'] != prof[k]['nodata'] and prof[k]['dtype'] == 'float64'))
    grid_checks(X, 'pan', prof['pan_to_pan'], pan, Tp, op)
    grid_checks(X, 'ms', prof['ms_to_ms'], ms, Tm, om)


GR = [f'{t}-{n}' for t in ('pan', 'ms') for n in ('same-pixel-size', 'whole-pixels', 'within-image', 'covers-overlap', 'no-larger')] + ['same-grid', 'source-transform']


def replay_grid(R, d):
    for i in range(40):
        grid_real(R, __import__('random').Random(i), i)
    for i in range(60):
        ungeo_real(R, __import__('random').Random(i), i)
    for i in range(10):
        content_real(R, __import__('random').Random(i), i)


for same in (True, False):
    for flip in (False, True):
        prop.case(f'grids[{"same" if same else "different"} CRS{", south up" if flip else ""}]', [F + '_get_vrt_profiles', 'orthority/common.py:expand_window_to_grid'], max_secs=200, replay=replay_grid,
                  expect=GR + ['error-without-overlap'] + (['error-for-coarse-pan', 'error-only-without-overlap-or-coarse-pan'] if same else []))(lambda L, X, a=(same, flip): georef(L, X, *a))


def ungeoref(L, X, gp, gm):
    pan, ms = image(X, 'pan', gp, Crs('a')), image(X, 'ms', gm, Crs('a'))
    if gp:
        X.assume(z3.Not(z3.And(R_(pan.transform.a) == 1, R_(pan.transform.e) == 1)))
    install(L, X, pan, ms, None)
    Tp, Tm = pan.transform, ms.transform
    if not gm:
        Tm = Tp * Aff.scale(S.SReal.of(pan.width) / ms.width, S.SReal.of(pan.height) / ms.height)
    else:
        Tp = Tm * Aff.scale(S.SReal.of(ms.width) / pan.width, S.SReal.of(ms.height) / pan.height)
    coarse = z3.Or(R_(pan.width) < R_(ms.width), R_(pan.height) < R_(ms.height))
    err = False
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            prof = L.pan_sharp.PanSharpen._get_vrt_profiles('pan', 'ms')
        except Exception as ex:
            if type(ex).__name__ != 'OrthorityError':
                raise
            err = True
    if err:
        X.require('error-only-for-coarse-pan', coarse)
        return
    X.require('error-for-coarse-pan', z3.Not(coarse))
    X.require('warned', z3.BoolVal(len(ws) == 1))
    full = lambda ds: (z3.RealVal(0), z3.RealVal(0), R_(ds.width), R_(ds.height))
    check_profiles(X, prof, pan, ms, Tp, Tm, full(pan), full(ms))


for gp, gm in ((False, False), (True, False), (False, True)):
    prop.case(f'grids[pan {"" if gp else "not "}georeferenced, MS {"" if gm else "not "}georeferenced]', [F + '_get_vrt_profiles'], expect=GR + ['error-for-coarse-pan', 'error-only-for-coarse-pan', 'warned'], max_secs=150, replay=replay_grid)(
        lambda L, X, a=(gp, gm): ungeoref(L, X, *a))


# ------------------------------------------------------------------------------ indexes and weights
def validate(L, X, nms, nidx, nw):
    """Index and weight validation, for nms MS bands, nidx indexes (None: default) and nw weights (None: default)."""
    from rasterio.enums import ColorInterp
    o = object.__new__(L.pan_sharp.PanSharpen)
    pc = S.integer('pan_count', 1)
    alpha = [S.boolean(f'alpha{i}') for i in range(nms)]
    ci = [ColorInterp.alpha if bool(a) else ColorInterp.gray for a in alpha]
    pan, ms = types.SimpleNamespace(count=pc, name='pan.tif'), types.SimpleNamespace(count=nms, colorinterp=ci, name='ms.tif')
    L.common.get_filename = lambda f: 'name'
    pi = S.integer('pan_index')
    idx = None if nidx is None else [S.integer(f'i{k}') for k in range(nidx)]
    w = None if nw is None else [S.SReal(z3.Real(f'w{k}')) for k in range(nw)]
    ok = [z3.And(pi.z >= 1, pi.z <= pc.z)]
    dflt = [k + 1 for k in range(nms) if ci[k] is not ColorInterp.alpha]
    n = nidx if nidx else len(dflt)
    if nidx:
        ok += [z3.And(i.z >= 1, i.z <= nms) for i in idx]
    if nw:
        ok += [z3.BoolVal(nw == n)] + [x.z >= 0 for x in w]
    good = z3.And(*ok)
    try:
        ri, rw = o._validate_pan_ms_params(pan, ms, pi, idx, w)
    except Exception as ex:
        if type(ex).__name__ != 'OrthorityError':
            raise
        X.require('error-only-for-invalid-parameters', z3.Not(good))
        return
    X.require('invalid-parameters-raise', good)
    if nidx:
        X.require('indexes-as-given', z3.And(z3.BoolVal(len(ri) == nidx), *[S.SInt.of(a).z == b.z for a, b in zip(ri, idx)]))
    else:
        X.require('default-non-alpha-bands', z3.BoolVal([int(a) for a in ri] == dflt))
    X.require('weights-as-given', z3.BoolVal(rw is None) if not nw else z3.And(z3.BoolVal(rw is not None and len(rw) == nw), *[S.SReal.of(a).z == b.z for a, b in zip(rw, w)]))


for nms in (1, 3):
    for nidx in (None, 0, 1, 3):
        for nw in (None, 0, 1, 3):
            prop.case(f'parameters[{nms} bands, {nidx} indexes, {nw} weights]', [F + '_validate_pan_ms_params'], replay=lambda R, d: [param_real(R, __import__('random').Random(i), i) for i in range(60)],
                      expect=['error-only-for-invalid-parameters'])(lambda L, X, a=(nms, nidx, nw): validate(L, X, *a))


# ------------------------------------------------------------------------------ every pixel written once
class Res:
    def __init__(self, im):
        self.im = im


def process_case(L, X, k, order, mask):
    from rasterio.enums import ColorInterp, Resampling
    ps = L.pan_sharp
    nb = len(order)
    wins = [TileWin(i) for i in range(k)]
    out = Out('float64', float('nan'))
    pan, ms = Im('pan', 2), Im('ms', 4)
    ms.colorinterp = (ColorInterp.red, ColorInterp.green, ColorInterp.blue, ColorInterp.gray)
    out.count, log, opened = nb, [], {}

    class OutCtx:
        def __enter__(self):
            return out

        def __exit__(self, *a):
            return False

    def raster(f, mode='r', overwrite=False, **kw):
        if mode == 'w':
            opened.update(kw)
            return OutCtx()
        return {'pan': pan, 'ms': ms}[f]

    L.common.OpenRaster = raster
    L.common.suppress_no_georef = lambda: threading.Lock()
    prof_args = {}

    def create_profile(**kw):
        prof_args.update(kw)
        return dict(dtype='float64', tag='profile'), mask

    L.common.create_profile = create_profile

    def vrt(im, tag=None, resampling=None, **kw):
        v = Im(im.name, im.count, True)
        log.append((im.name, tag, resampling))
        return v

    ps.WarpedVRT = vrt
    asked = []

    def windows(im, block_shape=None):
        asked.append(im)
        return iter(wins)

    L.common.block_windows = windows
    built = []
    L.common.build_overviews = lambda im, **kw: built.append(len(out.writes))
    o = object.__new__(ps.PanSharpen)
    for n in ('_pan_lock', '_ms_lock', '_out_lock'):
        setattr(o, n, threading.Lock())
    o._pan_file, o._ms_file = 'pan', 'ms'
    W, H, T, crs = S.integer('W', 1), S.integer('H', 1), object(), object()
    o._profiles = {n: dict(tag=n) for n in ('ms_to_pan', 'ms_to_ms', 'pan_to_ms')}
    o._profiles['pan_to_pan'] = dict(tag='pan_to_pan', width=W, height=H, transform=T, crs=crs)
    stats, args = (object(), object()), []
    o._get_stats = lambda p, m, pi, mi, *a, **kw: (args.append(('stats', p, m, pi, list(mi))), stats)[1]
    o._get_params = lambda *a, **kw: (args.append(('params',) + a), dict(tag=1))[1]

    def tile_array(p, m, **kw):
        mz, pz = m.snap(), p.snap()
        two = len(p.shape) == 2
        return A.SArray.make(tuple(m.shape), lambda i: S.apply(f'gs{i[0]}', S.SReal(pz(((0,) if two else ()) + tuple(i[1:])).z), *[S.SReal(mz((b,) + tuple(i[1:])).z) for b in range(nb)]), np.dtype('float64'))

    o._process_tile_array = tile_array
    o.process('out', pan_index=2, ms_indexes=list(order), interp='bilinear', dtype='float64', write_mask=mask, build_ovw=True)
    X.require('output-on-pan-grid', z3.And(z3.BoolVal(opened.get('transform') is T and opened.get('crs') is crs), z3.BoolVal(tuple(prof_args['shape'])[0] == nb),
                                          S.zb(prof_args['shape'][1] == H), S.zb(prof_args['shape'][2] == W)))
    X.require('inputs-on-pan-grid', z3.BoolVal(log == [('pan', 'pan_to_pan', log[0][2] if log else None), ('ms', 'ms_to_pan', Resampling.bilinear)] if len(log) == 2 and log[0][0] == 'pan'
                                              else len(log) == 2 and log[0] == ('ms', 'ms_to_pan', Resampling.bilinear) and log[1][:2] == ('pan', 'pan_to_pan')))
    X.require('tiles-of-output', z3.BoolVal(asked == [out]))
    X.require('parameters-of-statistics', z3.BoolVal(args[0] == ('stats', pan, ms, 2, list(order)) and args[1][1:3] == stats))
    X.require('each-tile-written-once', z3.BoolVal(sorted(w.k for _, w in out.writes) == list(range(k)) and sorted(w.k for _, w in out.masks) == (list(range(k)) if mask else [])))
    X.require('overviews-after-tiles', z3.BoolVal(built == [k]))
    X.require('colour-interpretation', z3.BoolVal(list(out.colorinterp) == [ms.colorinterp[b - 1] for b in order]))
    for a, w in out.writes:
        X.require('tile-shape', z3.And(z3.BoolVal(a.shape[0] == nb), S.zb(a.shape[1] == w.height), S.zb(a.shape[2] == w.width)))
        i, j = A.generic_idx((w.height, w.width), f'p{w.k}')
        pv = pan.band(2, w).at(i, j)
        mv = [ms.band(b, w).at(i, j) for b in order]
        ok = z3.And(*[z3.Not(S.zb(S.isnan(v))) for v in [pv] + mv])
        for b in range(nb):
            e = S.apply(f'gs{b}', S.SReal(pv.z), *[S.SReal(v.z) for v in mv])
            g = S.SReal.of(a.at(b, i, j))
            X.require('pixel-from-its-place', z3.Implies(ok, z3.And(z3.Not(S.zb(S.isnan(g))), g.z == e.z)))


for k, order, mask in ((0, (1,), False), (1, (2, 1), True), (3, (1, 3, 4), False), (2, (4, 1, 2, 3), True)):
    prop.case(f'process[{k} tiles, bands {order}]', [F + 'process', F + '_process_tile'], bound=f'{k} tiles of any size and place', max_secs=100, replay=lambda R, d: [content_real(R, __import__('random').Random(i), i) for i in range(20)],
              expect=['output-on-pan-grid', 'inputs-on-pan-grid', 'tiles-of-output', 'each-tile-written-once', 'overviews-after-tiles', 'parameters-of-statistics'] + (['pixel-from-its-place', 'tile-shape'] if k else []))(
        lambda L, X, a=(k, order, mask): process_case(L, X, *a))


# ------------------------------------------------------------------------------------ run time
def mk(path, w, h, T, crs, count=1):
    import rasterio
    kw = dict(crs=crs, transform=T) if T is not None else {}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rasterio.open(path, 'w', driver='GTiff', width=w, height=h, count=count, dtype='uint8', sparse_ok=True, **kw):
            pass


def grid_real(R, rng, i):
    """Placement of the grids, by exact rational arithmetic."""
    from fractions import Fraction as Q
    from rasterio.transform import from_origin
    from math import ceil, floor
    PS = R.pan_sharp.PanSharpen
    if not hasattr(PS, '_get_vrt_profiles'):
        raise Skip()
    exact = rng.random() < .6
    res = Q(rng.choice([1, 2, 4]), rng.choice([1, 2, 4])) if exact else Q(rng.choice([5, 10, 15, 30]), 100)
    k = rng.choice([1, 2, 3, 4])
    if rng.random() < .1:
        k = Q(1, 2)
    mres = res * k
    mw, mh, pw, ph = (rng.randrange(2, 60) for _ in range(4))
    x0, y0 = Q(rng.randrange(200000, 800000)), Q(rng.randrange(10 ** 6, 9 * 10 ** 6))
    kind = rng.choice(['same', 'inside', 'partial', 'off', 'sub'])
    if kind == 'same':
        pw, ph, px, py = int(mw * k) or 1, int(mh * k) or 1, x0, y0
    else:
        step = mres if kind == 'inside' else res if kind in ('partial', 'off') else res / 4
        px, py = x0 + step * rng.randrange(-60, 60), y0 + step * rng.randrange(-60, 60)
        if kind == 'off' and rng.random() < .5:
            px = x0 + mres * mw + res * rng.choice([0, 1, 5])
    with tempfile.TemporaryDirectory() as d:
        pf, mf = os.path.join(d, 'p.tif'), os.path.join(d, 'm.tif')
        mk(pf, pw, ph, from_origin(float(px), float(py), float(res), float(res)), 'EPSG:32735')
        mk(mf, mw, mh, from_origin(float(x0), float(y0), float(mres), float(mres)), 'EPSG:32735')
        l, r, t, b = max(px, x0), min(px + pw * res, x0 + mw * mres), min(py, y0), max(py - ph * res, y0 - mh * mres)
        tol = Q(0) if exact else Q(1, 1000) * res
        try:
            p = call(PS._get_vrt_profiles, pf, mf, allow_=(R.errors.OrthorityError,))
        except R.errors.OrthorityError as ex:
            if k >= 1 and r - l > tol and t - b > tol:
                raise Fail(f'{ex} for overlapping images', dict(pan=[pw, ph, str(px), str(py), str(res)], ms=[mw, mh, str(x0), str(y0), str(mres)]))
            return
        ctx = dict(pan=[pw, ph, str(px), str(py), str(res)], ms=[mw, mh, str(x0), str(y0), str(mres)])
        if r - l < -tol or t - b < -tol or (exact and (r <= l or t <= b)):
            raise Fail('no error for images that do not overlap', ctx)
        if k < 1:
            raise Fail('no error for a pan image of coarser resolution', ctx)
        if (r - l) <= tol or (t - b) <= tol:
            return
        for g, s, rs, ox, oy, W, H in (('pan_to_pan', 'ms_to_pan', res, px, py, pw, ph), ('ms_to_ms', 'pan_to_ms', mres, x0, y0, mw, mh)):
            for n in (g, s):
                q = p[n]
                T = q['transform']
                col, row = (T[2] - float(ox)) / float(rs), (float(oy) - T[5]) / float(rs)
                et = 0 if exact else 1e-3
                w, h = q['width'], q['height']
                if abs(col - round(col)) > 1e-3 or abs(row - round(row)) > 1e-3 or w != int(w) or h != int(h) or abs(T[0] - float(rs)) > 1e-9 or abs(T[4] + float(rs)) > 1e-9:
                    raise Fail(f'{n} grid is not on whole pixels of its image: {q}', ctx)
                col, row = round(col), round(row)
                c0, c1, r0, r1 = (l - ox) / rs, (r - ox) / rs, (oy - t) / rs, (oy - b) / rs
                if col < 0 or row < 0 or col + w > W or row + h > H:
                    raise Fail(f'{n} grid ({col}, {row}, {w}, {h}) is not within its image', ctx)
                if col > c0 + et or row > r0 + et or col + w < c1 - et or row + h < r1 - et:
                    raise Fail(f'{n} grid ({col}, {row}, {w}, {h}) does not cover the overlap', ctx)
                if col <= c0 - 1 - et or row <= r0 - 1 - et or col + w >= c1 + 2 or row + h >= r1 + 2:
                    raise Fail(f'{n} grid ({col}, {row}, {w}, {h}) is larger than the overlap', ctx)


@prop.fuzz('grids-real', 400, 8000, 60, [F + '_get_vrt_profiles'])
def f_grid(R, rng, i):
    grid_real(R, rng, i)


def ungeo_real(R, rng, i):
    """Images without georeferencing share the bounds of the other; resolution errors in each axis."""
    from rasterio.transform import from_origin
    PS = R.pan_sharp.PanSharpen
    if not hasattr(PS, '_get_vrt_profiles'):
        raise Skip()
    mw, mh = rng.randrange(2, 40), rng.randrange(2, 40)
    kx, ky = rng.choice([.5, 1, 2, 3, 4]), rng.choice([.5, 1, 2, 3, 4])
    pw, ph = max(1, int(mw * kx)), max(1, int(mh * ky))
    gp, gm = rng.random() < .5, rng.random() < .5
    rx, ry = rng.choice([.5, 1, 2]), rng.choice([.5, 1, 2])
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        pf, mf = os.path.join(d, 'p.tif'), os.path.join(d, 'm.tif')
        x0, y0 = 500000., 6000000.
        mk(pf, pw, ph, from_origin(x0, y0, rx, ry) if gp else None, 'EPSG:32735')
        mk(mf, mw, mh, from_origin(x0, y0, rx * pw / mw, ry * ph / mh) if gm else None, 'EPSG:32735')
        ctx = dict(pan=[pw, ph, gp], ms=[mw, mh, gm])
        try:
            p = call(PS._get_vrt_profiles, pf, mf, allow_=(R.errors.OrthorityError,))
        except R.errors.OrthorityError as ex:
            if pw >= mw and ph >= mh:
                raise Fail(f'{ex} for a {pw} x {ph} pan and {mw} x {mh} MS', ctx)
            return
    if pw < mw or ph < mh:
        raise Fail(f'no error for a {pw} x {ph} pan and {mw} x {mh} MS', ctx)
    T = from_origin(x0, y0, rx, ry) if gp else from_origin(x0, y0, rx, ry) if gm else None
    b = (T[2], T[5]) + tuple(T * (pw, ph)) if T is not None else (0, 0, pw, ph)
    for n, w, h in (('pan_to_pan', pw, ph), ('ms_to_pan', pw, ph), ('ms_to_ms', mw, mh), ('pan_to_ms', mw, mh)):
        q = p[n]
        if (q['width'], q['height']) != (w, h):
            raise Fail(f'{n} grid of {q["width"]} x {q["height"]}, expected {w} x {h}', ctx)
        g = tuple(q['transform'] * (0, 0)) + tuple(q['transform'] * (w, h))
        sw, sh = (pw, ph) if n.startswith('pan') else (mw, mh)
        g2 = tuple(q['src_transform'] * (0, 0)) + tuple(q['src_transform'] * (sw, sh))
        for v in (g, g2):
            if not np.allclose(v, b, rtol=0, atol=1e-5):
                raise Fail(f'{n} bounds {v}, expected {b}', ctx)


@prop.fuzz('grids-shared-bounds-real', 150, 3000, 30, [F + '_get_vrt_profiles'])
def f_ungeo(R, rng, i):
    ungeo_real(R, rng, i)


@prop.fuzz('grids-crs-real', 40, 800, 40, [F + '_get_vrt_profiles'])
def f_crs(R, rng, i):
    """Images in different CRSs: resolution errors, and grids within the images."""
    from rasterio.transform import from_origin
    from rasterio.warp import calculate_default_transform, transform_bounds
    PS = R.pan_sharp.PanSharpen
    if not hasattr(PS, '_get_vrt_profiles'):
        raise Skip()
    crs = rng.choice(['EPSG:4326', 'EPSG:32734', 'EPSG:3857'])
    ratio = rng.choice([4, 3, .25])
    pw, ph = rng.randrange(100, 400), rng.randrange(100, 400)
    b = (5e5, 6e6 - ph, 5e5 + pw, 6e6)
    l, bo, r, t = transform_bounds('EPSG:32735', crs, *b)
    rx, ry = (r - l) / pw * ratio, (t - bo) / ph * ratio
    mw, mh = max(2, round((r - l) / rx)), max(2, round((t - bo) / ry))
    swap = rng.random() < .5
    with tempfile.TemporaryDirectory() as d:
        pf, mf = os.path.join(d, 'p.tif'), os.path.join(d, 'm.tif')
        mk(pf, pw, ph, from_origin(5e5, 6e6, 1, 1), 'EPSG:32735')
        mk(mf, mw, mh, from_origin(l, t, rx, ry), crs)
        if swap:
            pf, mf, ratio = mf, pf, 1 / ratio
        ctx = dict(ms_crs=crs, ratio=ratio, swap=swap, pan=[pw, ph])
        try:
            p = call(PS._get_vrt_profiles, pf, mf, allow_=(R.errors.OrthorityError,))
        except R.errors.OrthorityError as ex:
            if ratio > 1:
                raise Fail(f'{ex} for a pan image of {ratio:.2f} times the resolution', ctx)
            return
        if ratio < 1:
            raise Fail('no error for a pan image of coarser resolution', ctx)
        W, H = (mw, mh) if swap else (pw, ph)
        q = p['pan_to_pan']
        if not (W - 2 <= q['width'] <= W and H - 2 <= q['height'] <= H):
            raise Fail(f'pan grid of {q["width"]} x {q["height"]} for the {W} x {H} shared area', ctx)


def content_real(R, rng, i):
    """Sharpened values at their place, for partial overlaps and images without georeferencing."""
    import rasterio
    rs = np.random.default_rng(rng.randrange(10 ** 9))
    nb, k = rng.choice([1, 2, 3]), rng.choice([2, 3, 4])
    h, w = rng.randrange(8, 30), rng.randrange(8, 30)
    dt = 'float32'
    ms = rs.uniform(40, 180, (1, h, w)) * rs.uniform(.4, 1.1, (nb, 1, 1)) + rs.normal(0, 25, (nb, h, w))
    ms = np.clip(ms, 1, 250).astype(dt)
    # pan area in MS pixels, partly outside the MS image
    c0, r0 = rng.randrange(-4, w - 4), rng.randrange(-4, h - 4)
    pw, ph = rng.randrange(4, w + 4), rng.randrange(4, h + 4)
    geo = rng.random() < .75
    if not geo:
        c0, r0, pw, ph = 0, 0, w, h
    pan = rs.uniform(20, 200, (ph * k, pw * k)).astype(dt)
    a0, a1, b0, b1 = max(c0, 0), min(c0 + pw, w), max(r0, 0), min(r0 + ph, h)
    if a1 - a0 < 2 or b1 - b0 < 2:
        raise Skip()
    cm, cp = ms[:, b0:b1, a0:a1], pan[(b0 - r0) * k:(b1 - r0) * k, (a0 - c0) * k:(a1 - c0) * k]
    hh, ww = cm.shape[1:]
    low = cp.astype(float).reshape(hh, k, ww, k).mean((1, 3))
    wt = [round(rng.uniform(.1, 2), 2) for _ in range(nb)]
    E, valid, _ = oracle(cp.astype(float), low, np.ones(cp.shape, bool), cm.astype(float), np.ones((hh, ww), bool), k, wt)
    which = rng.choice(['pan', 'ms', 'both']) if not geo else None
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        pf, mf, of = (os.path.join(d, n) for n in ('pan.tif', 'ms.tif', 'o.tif'))
        X0, Y0, res = 500000., 6000000., .5
        write(pf, pan[None], res, None, X0 + c0 * k * res, Y0 - r0 * k * res)
        write(mf, ms, res * k, None, X0, Y0)
        for f, a in ((pf, pan[None]), (mf, ms)):
            if which in ('both', os.path.basename(f)[:-4]):
                with rasterio.open(f, 'w', driver='GTiff', width=a.shape[2], height=a.shape[1], count=a.shape[0], dtype=dt) as im:
                    im.write(a)
        blk = (16 * rng.randrange(1, 4), 16 * rng.randrange(1, 4))
        co = dict(tiled=True, blockxsize=blk[0], blockysize=blk[1]) if rng.random() < .6 else None
        ps = call(R.pan_sharp.PanSharpen, pf, mf)
        call(ps.process, of, weights=wt, interp='nearest', **(dict(creation_options=co) if co else {}))
        with rasterio.open(of) as im:
            out, T, crs = im.read(), im.transform, im.crs
        with rasterio.open(mf if which == 'pan' else pf) as im:
            src = im.transform, im.crs
    ctx = dict(pan=[c0, r0, pw, ph], ms=[w, h], k=k, not_georeferenced=which)
    if out.shape != E.shape:
        raise Fail(f'output of {out.shape}, expected {E.shape}', ctx)
    if geo or which == 'ms':
        ex = (X0 + a0 * k * res, Y0 - b0 * k * res, res, -res)
        if (T[2], T[5], T[0], T[4]) != ex or crs is None:
            raise Fail(f'output transform {tuple(T)[:6]}, expected origin and resolution {ex}', ctx)
    D = np.abs(out - E)
    if not (D <= 2e-2).all():
        b, r, c = np.unravel_index(np.nanargmax(np.where(np.isnan(D), 1e9, D)), D.shape)
        raise Fail(f'band {b + 1} at ({r}, {c}) is {out[b, r, c]}, expected {E[b, r, c]:.3f}', ctx)


@prop.fuzz('content-real', 80, 2000, 60, [F + 'process', F + '_get_vrt_profiles'])
def f_content(R, rng, i):
    content_real(R, rng, i)


def param_real(R, rng, i):
    import rasterio
    PS = R.pan_sharp.PanSharpen
    nms, np_ = rng.choice([1, 3, 4]), rng.choice([1, 2])
    idx = rng.choice([None, [], [1], [nms], [nms + 1], [0], [1, nms], [-1], [1, 1]])
    pi = rng.choice([1, 1, 1, np_, np_ + 1, 0, -1])
    w = rng.choice([None, [], [1.], [1., 2.], [.5] * nms, [-1.], [1.] * (nms + 1), [1., -.1]])
    n = len(idx) if idx else nms
    ok = 1 <= pi <= np_ and all(1 <= b <= nms for b in idx or []) and (not w or (len(w) == n and min(w) >= 0))
    rs = np.random.default_rng(i)
    with tempfile.TemporaryDirectory() as d:
        pf, mf = os.path.join(d, 'p.tif'), os.path.join(d, 'm.tif')
        ms = rs.integers(20, 200, (nms, 6, 6)).astype('float32')
        write(pf, np.concatenate([np.kron(ms.mean(0), np.ones((2, 2)))[None].astype('float32')] * np_) + rs.normal(0, 1, (1, 12, 12)).astype('float32'), 1., None)
        write(mf, ms, 2., None)
        ps = call(PS, pf, mf)
        err = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                call(ps.process, os.path.join(d, 'o.tif'), pan_index=pi, ms_indexes=idx, weights=w, allow_=(R.errors.OrthorityError,))
        except R.errors.OrthorityError as ex:
            err = ex
    if ok and err and 'positive' not in str(err):
        raise Fail(f'{err} for pan_index={pi}, ms_indexes={idx}, weights={w}')
    if not ok and not err:
        raise Fail(f'no error for pan_index={pi}, ms_indexes={idx}, weights={w} with {np_} pan and {nms} MS bands')


@prop.fuzz('parameters-real', 80, 1000, 40, [F + '_validate_pan_ms_params'])
def f_param(R, rng, i):
    param_real(R, rng, i)
