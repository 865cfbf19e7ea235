"""C17: pan-sharpening statistics equal whole-image statistics."""
import os
import tempfile
import types

import numpy as np
import z3

from .. import arr as A
from .. import loopinv as LI
from .. import sym as S
from ..runner import Fail, Prop, Skip, call

prop = Prop('C17')
F = 'orthority/pan_sharp.py:PanSharpen.'
prop.assume('the WarpedVRT of the pan image with average resampling is the MS resolution pan image (GDAL); block_windows partitions the image (C11)',
            'real arithmetic for float64 means and products',
            'the loop over completed tiles is specified by induction: the live loop state after two tiles equals the state after the one tile with the union of their pixels; thread schedules only permute the tiles')


class TileWin:
    def __init__(self, k):
        self.k = k
        self.height, self.width = S.integer(f'H{k}', 1), S.integer(f'W{k}', 1)
        self.row_off, self.col_off = S.integer(f'r{k}', 0), S.integer(f'c{k}', 0)


class Im:
    """Pan or MS image at MS resolution: an uninterpreted function of band, tile and pixel."""

    def __init__(self, name, count, vrt=False):
        self.name, self.count, self.vrt = name, count, vrt
        self.nodata, self.dtypes = float('nan'), ('float64',) * count
        self.profile_ = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def band(self, b, win):
        return A.symarray(f'{self.name}{b}!{win.k}', (win.height, win.width), 'float64', nan=True)

    def read(self, indexes=None, window=None, **k):
        if not isinstance(window, TileWin) or k:
            raise S.Unsupported('read() other than of a tile')
        if indexes is None:
            indexes = list(range(1, self.count + 1))
        if isinstance(indexes, (list, tuple)):
            return A.stack([self.band(int(b), window) for b in indexes])
        return self.band(int(indexes), window).copy()


def setup(L, nb, order, wins, log):
    ps = L.pan_sharp
    o = object.__new__(ps.PanSharpen)
    o._profiles = {k: dict(tag=k) for k in ('pan_to_pan', 'ms_to_pan', 'ms_to_ms', 'pan_to_ms')}
    for k in ('_pan_lock', '_ms_lock', '_out_lock'):
        setattr(o, k, __import__('threading').Lock())
    pan, ms = Im('pan', 2), Im('ms', max(order) if order else nb)

    def vrt(im, tag=None, resampling=None, **k):
        v = Im(im.name, im.count, True)
        log.append((im.name, tag, resampling))
        return v

    ps.WarpedVRT = vrt
    L.common.block_windows = lambda im, block_shape=None: iter(wins)
    return o, pan, ms


def spec(pan_index, order, wins):
    """Sums over the pixels of the tiles that are valid in the pan and all MS bands."""
    nb = len(order)
    N = z3.RealVal(0)
    s1 = [z3.RealVal(0)] * (nb + 1)
    s2 = [[z3.RealVal(0)] * (nb + 1) for _ in range(nb + 1)]
    for w in wins:
        bands = [A.symarray(f'pan{pan_index}!{w.k}', (w.height, w.width), 'float64', nan=True)] + [A.symarray(f'ms{b}!{w.k}', (w.height, w.width), 'float64', nan=True) for b in order]

        def ok(t, bands=bands):
            r = z3.BoolVal(True)
            for b in bands:
                r = z3.And(r, z3.Not(S.zb(S.isnan(b.at(*t)))))
            return S.SBool(r)
        cd = A.comp_dim(ok, (w.height, w.width))
        val = lambda b, t: S.SReal(b.at(*t).z)
        N = N + S.SReal.of(S.SInt(cd.z)).z
        for i in range(nb + 1):
            s1[i] = s1[i] + S.SReal.of(A.bigsum((cd,), lambda t, i=i: val(bands[i], t[0]))).z
            for j in range(nb + 1):
                s2[i][j] = s2[i][j] + S.SReal.of(A.bigsum((cd,), lambda t, i=i, j=j: val(bands[i], t[0]) * val(bands[j], t[0]))).z
    return N, s1, s2


def whole(L, X, nb, order, k):
    wins = [TileWin(i) for i in range(k)]
    log = []
    o, pan, ms = setup(L, nb, order, wins, log)
    N, s1, s2 = spec(2, order, wins)
    X.assume(N >= 2)
    means, cov = o._get_stats(pan, ms, 2, list(order), {})
    X.require('statistics-at-ms-resolution', z3.BoolVal(sorted((a, b) for a, b, _ in log) == [('ms', 'ms_to_ms'), ('pan', 'pan_to_ms')]))
    X.require('shape', z3.BoolVal(tuple(means.shape) == (nb + 1,) and tuple(cov.shape) == (nb + 1, nb + 1)))
    for i in range(nb + 1):
        X.require_eq('mean', S.SReal.of(means.at(i)) * S.SReal(N), S.SReal(s1[i]))
        for j in range(nb + 1):
            X.require_eq('unbiased-covariance', S.SReal.of(cov.at(i, j)) * S.SReal(N - 1), S.SReal(s2[i][j] - s1[i] * s1[j] / N))


def replay(R, d):
    for i in range(6):
        stats_real(R, __import__('random').Random(i), i)


EXP = ['statistics-at-ms-resolution', 'shape', 'mean', 'unbiased-covariance']
for nb, order, k in ((1, (1,), 1), (1, (2,), 2), (2, (1, 2), 1), (2, (3, 1), 2), (3, (2, 3, 1), 1), (3, (1, 2, 3), 2), (4, (1, 2, 3, 4), 1)):
    prop.case(f'statistics[{nb} bands {order}, {k} tiles of any size]', [F + '_get_stats'], expect=EXP, replay=replay, max_secs=150,
              bound=f'{k} tiles of any size and content')(lambda L, X, a=(nb, order, k): whole(L, X, *a))


# ------------------------------------------------------------------------------ induction on tiles


class Fut:
    def __init__(self, v):
        self.v = v

    def result(self, *a, **k):
        return self.v


def symtile(tag, nb):
    n = S.integer(f'n{tag}', 0)
    m = A.symarray(f'm{tag}', (nb + 1,), 'float64')
    p = A.symarray(f'p{tag}', (nb + 1, nb + 1), 'float64')
    return n, m, p


def run_loop(L, o, pan, ms, order, tiles, log):
    ps = L.pan_sharp
    head = {}

    class Ex(L.futures.ThreadPoolExecutor):
        def submit(self, fn, *a, **k):
            log.append((fn, a, k))
            return Fut(None)

    def as_completed(fs, *a, **k):
        fs = list(fs)
        h = head['h'] = LI.Head([Fut(t) for t in tiles])
        return h

    ps.ThreadPoolExecutor, ps.as_completed = Ex, as_completed
    r = o._get_stats(pan, ms, 2, list(order), {})
    if 'h' not in head:
        raise S.Unsupported('no loop over completed tiles')
    return r, head['h']


def tile_contract(L, X, nb, order, strict):
    """The tile function returns (n, mean, sum of products of deviations) of the valid pixels of its tile."""
    w = TileWin(0)
    log = []
    o, pan, ms = setup(L, nb, order, [w], [])
    ps = L.pan_sharp
    got = []

    class Ex(L.futures.ThreadPoolExecutor):
        def submit(self, fn, *a, **k):
            got.append(fn(*a, **k))
            return Fut(got[-1])

    ps.ThreadPoolExecutor, ps.as_completed = Ex, lambda fs, *a, **k: iter(list(fs))
    N, s1, s2 = spec(2, order, [w])
    try:
        o._get_stats(pan, ms, 2, list(order), {})
    except ZeroDivisionError:
        pass
    if len(got) != 1 or not (isinstance(got[0], tuple) and len(got[0]) == 3):
        raise S.Unsupported('tile result in another form')
    n, m, p = got[0]
    if not isinstance(m, A.SArray) or not isinstance(p, A.SArray) or tuple(m.shape) != (nb + 1,) or tuple(p.shape) != (nb + 1, nb + 1):
        raise S.Unsupported('tile result in another form')
    n = S.SReal.of(n).z
    X.require('tile-count', n == N)
    X.assume(N >= 1)
    for i in range(nb + 1):
        X.require_eq('tile-mean', S.SReal.of(m.at(i)) * S.SReal(N), S.SReal(s1[i]))
        for j in range(nb + 1):
            X.require_eq('tile-products', S.SReal.of(p.at(i, j)), S.SReal(s2[i][j] - s1[i] * s1[j] / N))




def step(L, X, nb, order, zero):
    a, b = symtile('a', nb), symtile('b', nb)
    X.assume(a[0].z >= 1)
    X.assume(b[0].z == 0 if zero else b[0].z >= 1)
    if zero:
        c = a
    else:
        na, nb_ = S.SReal.of(a[0]), S.SReal.of(b[0])
        N = na + nb_
        m = A.SArray.make((nb + 1,), lambda i: (na * a[1].at(*i) + nb_ * b[1].at(*i)) / N, np.dtype('float64'))

        def prod(i):
            # sum of (x - m)(y - m') over the union, with S = n mean, Q = prod + n mean mean'
            q = a[2].at(*i) + na * a[1].at(i[0]) * a[1].at(i[1]) + b[2].at(*i) + nb_ * b[1].at(i[0]) * b[1].at(i[1])
            return q - N * m.at(i[0]) * m.at(i[1])
        c = (a[0] + b[0], m, A.SArray.make((nb + 1, nb + 1), prod, np.dtype('float64')))
    order = list(order)
    hs = []
    for tiles in ([a, b], [b, a], [c]):
        o, pan, ms = setup(L, nb, order, [TileWin(i) for i in range(len(tiles))], [])
        cp = [(t[0], t[1].copy(), t[2].copy()) for t in tiles]
        r, h = run_loop(L, o, pan, ms, order, cp, [])
        hs.append((r, h))
    (r1, h1), (r2, h2), (r0, h0) = hs
    k = LI.same_state(X, 'loop-state', h1, 2, h0, 1)
    k += LI.same_state(X, 'loop-state', h2, 2, h0, 1)
    if k < 2:
        raise S.Unsupported('no loop state found')
    n, m, p = c
    X.assume(S.SReal.of(n).z >= 2)
    for i in range(nb + 1):
        X.require_eq('result-mean', r0[0].at(i), m.at(i))
        for j in range(nb + 1):
            X.require_eq('result-covariance', S.SReal.of(r0[1].at(i, j)) * (S.SReal.of(n) - 1), p.at(i, j))


for nb, order in ((1, (1,)), (2, (2, 1)), (3, (1, 2, 3)), (4, (1, 2, 3, 4))):
    prop.case(f'tile contract[{nb} bands]', [F + '_get_stats'], expect=['tile-count', 'tile-mean', 'tile-products'], replay=replay, max_secs=120, soft=True)(
        lambda L, X, a=(nb, order): tile_contract(L, X, *a, True))
    for zero in (False, True):
        prop.case(f'tile accumulation step[{nb} bands{", empty tile" if zero else ""}]', [F + '_get_stats'], expect=['loop-state', 'result-mean', 'result-covariance'],
                  replay=replay, max_secs=120, soft=True)(lambda L, X, a=(nb, order, zero): step(L, X, *a))


# ------------------------------------------------------------------------------------ run time
def write(path, a, res, nodata, x0=500000., y0=6000000., mask=None, alpha=False):
    import rasterio
    from rasterio.enums import ColorInterp
    from rasterio.transform import from_origin
    with rasterio.Env(GDAL_TIFF_INTERNAL_MASK=True), rasterio.open(path, 'w', driver='GTiff', width=a.shape[2], height=a.shape[1], count=a.shape[0], dtype=str(a.dtype), crs='EPSG:32735', transform=from_origin(x0, y0, res, res), nodata=nodata, photometric='minisblack') as im:
        if alpha:
            im.colorinterp = [ColorInterp.gray] + [ColorInterp.undefined] * (a.shape[0] - 2) + [ColorInterp.alpha]
        im.write(a)
        if mask is not None:
            im.write_mask(mask)


def capture(R, pan, ms, out, blk=None, perm=None, **k):
    """Run the real pan-sharpening; returns (params inputs, PanSharpen)."""
    got = []
    PS = R.pan_sharp.PanSharpen
    if not hasattr(PS, '_get_params') or not hasattr(R.common, 'block_windows'):
        raise Skip()
    o_par, o_blk, o_ac = PS._get_params, R.common.block_windows, getattr(R.pan_sharp, 'as_completed', None)

    def par(self, means, cov, *a, **kk):
        got.append((np.array(means, dtype=float), np.array(cov, dtype=float)))
        return o_par(self, means, cov, *a, **kk)

    PS._get_params = par
    if blk:
        R.common.block_windows = lambda im, block_shape=None, **kk: o_blk(im, block_shape=blk)
    if perm is not None and o_ac is not None:
        def ac(fs, *a, **kk):
            fs = list(fs)
            perm.shuffle(fs)
            return iter(fs)
        R.pan_sharp.as_completed = ac
    try:
        p = call(PS, pan, ms)
        call(p.process, out, overwrite=True, **k)
    finally:
        PS._get_params, R.common.block_windows = o_par, o_blk
        if o_ac is not None:
            R.pan_sharp.as_completed = o_ac
    return got


def stats_real(R, rng, i):
    rs = np.random.default_rng(rng.randrange(10 ** 9))
    big = i % 25 == 7
    nb = 1 if big else rng.choice([1, 2, 3, 4])
    k = rng.choice([2, 3, 4]) if not big else 2
    h, w = (1040, 1100) if big else (rng.randrange(4, 40), rng.randrange(4, 40))
    how = rng.choice(['nodata', 'nodata', 'none', 'mask', 'alpha'])   # how invalid pixels are marked
    nodata = 0 if how == 'nodata' else None
    dt = 'uint8' if how == 'alpha' else rng.choice(['uint8', 'uint16', 'float32'])
    base = rs.uniform(20, 200, (h, w))
    if rng.random() < .5:
        base += 3 * np.arange(w)[None, :] / w * 10     # trend: tiles with different means
    ms = np.stack([np.clip(base * rs.uniform(.3, 1.1) + rs.normal(0, 12, (h, w)) + 10 * b, 1, 250) for b in range(nb)]).astype(dt)
    pan = np.clip(np.kron(ms.mean(0), np.ones((k, k))) + rs.normal(0, 6, (h * k, w * k)), 1, 250).astype(dt)[None]
    valid_ms, valid_pan = np.ones((h, w), bool), np.ones((h * k, w * k), bool)
    if how != 'none':
        kind = rng.choice(['none', 'holes', 'block', 'strip'])
        if kind == 'holes':
            ms[:, rs.random((h, w)) < .1] = 0
        elif kind == 'block':
            r, c = h // 2, w // 2
            ms[:, :r, :c] = 0
        elif kind == 'strip':
            ms[:, :, : w // 2] = 0
        valid_ms = (ms != 0).all(0)
        if how == 'nodata' and rng.random() < .5:
            # nodata in one of the bands
            ms[rng.randrange(nb), rs.random((h, w)) < .1] = 0
        if rng.random() < .5:
            pan[0][rs.random(pan[0].shape) < .3] = 0
            pan[0, : k * (h // 3)] = 0
        valid_pan = pan[0] != 0
    # oracle: mean of the valid pan pixels within each MS pixel
    vp = valid_pan.reshape(h, k, w, k)
    cnt = vp.sum((1, 3))
    p4 = np.where(vp, pan[0].astype(float).reshape(h, k, w, k), 0)
    low = p4.sum((1, 3)) / np.maximum(cnt, 1)
    idx = [rng.randrange(1, nb + 1) for _ in range(rng.randrange(1, nb + 1))] if rng.random() < .4 else list(range(1, nb + 1))
    if how == 'nodata':
        valid_ms = (ms[[b - 1 for b in idx]] != 0).all(0)
    m = valid_ms & (cnt > 0)
    if m.sum() < 5:
        raise Skip()
    X = np.vstack([low[m]] + [ms[b - 1].astype(float)[m] for b in idx])
    em, ec = X.mean(1), np.atleast_2d(np.cov(X))
    with tempfile.TemporaryDirectory() as d:
        pf, mf = os.path.join(d, 'pan.tif'), os.path.join(d, 'ms.tif')
        kw = lambda v: dict(mask=v) if how == 'mask' else dict(alpha=True) if how == 'alpha' else {}
        full = lambda a, v: np.concatenate([a, (v * 255).astype(a.dtype)[None]]) if how == 'alpha' else a
        write(pf, full(pan, valid_pan), 1., nodata, **kw(valid_pan))
        write(mf, full(ms, valid_ms), float(k), nodata, **kw(valid_ms))
        got = capture(R, pf, mf, os.path.join(d, 'o.tif'), blk=None if big or rng.random() < .3 else (rng.randrange(2, 12), rng.randrange(2, 12)), perm=rng if rng.random() < .7 else None,
                      ms_indexes=idx if idx != list(range(1, nb + 1)) or rng.random() < .5 else None, weights=[1.] * len(idx))
    if len(got) != 1:
        raise Skip()
    gm, gc = got[0]
    sc = np.sqrt(np.diag(ec)) + 1e-3
    if gm.shape != em.shape or gc.shape != ec.shape:
        raise Fail(f'statistics of shape {gm.shape}, {gc.shape} for {len(idx)} bands')
    if not (np.abs(gm - em) <= 1e-4 * sc + 1e-5 * np.abs(em)).all():
        raise Fail(f'means {gm.tolist()} differ from those of the valid pixels {em.tolist()}', dict(means=gm.tolist(), expected=em.tolist(), size=[h, w]))
    if not (np.abs(gc - ec) <= 1e-4 * np.outer(sc, sc)).all():
        raise Fail(f'covariances {gc.tolist()} differ from those of the valid pixels {ec.tolist()}', dict(size=[h, w]))


@prop.fuzz('statistics-real', 60, 1500, 60, [F + '_get_stats'])
def f_stats(R, rng, i):
    stats_real(R, rng, i)
