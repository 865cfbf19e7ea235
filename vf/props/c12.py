"""C12: every ortho pixel is sampled at its own centre and written in its own place."""
import os
import threading
import time
import types

import numpy as np
import z3

from .. import arr as A
from .. import sym as S
from ..runner import Fail, Prop, Skip, call
from . import c01, c02, c03
from .c06 import Tmp

prop = Prop('C12')
FN = ['orthority/ortho.py:Ortho._remap', 'orthority/ortho.py:Ortho._remap_tile']
prop.assume('Camera.remap and Camera.read meet their contracts (C14); common.block_windows meets its contract (C11)',
            'rasterio DatasetWriter.write(array, indexes, window=w) stores array in the given bands at w and nowhere else; it is not thread safe, so it must be called under a lock',
            'tasks submitted to the executor share no state other than what is passed to them (checked: the arrays passed are not modified, and writes happen under a lock), so any completion order gives the same image')


class Lock:
    held = 0

    def __enter__(self):
        Lock.held += 1

    def __exit__(self, *a):
        Lock.held -= 1

    def acquire(self, *a, **k):
        Lock.held += 1
        return True

    def release(self):
        Lock.held -= 1


SI = S.SInt.of


class Bands:
    """The list [1, ..., n] of symbolic length."""

    def __init__(self, n):
        self.n = n

    def sym_len(self):
        return self.n

    def __eq__(self, o):
        if o == [1]:
            return self.n == 1
        raise S.Unsupported('comparison of a list of symbolic length')

    __hash__ = None

    def __getitem__(self, k):
        if k == 0:
            return 1
        raise S.Unsupported('item of a list of symbolic length')


class Cam:
    def __init__(self, X, log):
        self.X, self.log = X, log

    def read(self, im, indexes=None, dtype=None, nodata=None, interp=None, **k):
        indexes = indexes if isinstance(indexes, Bands) else list(indexes)
        self.log.append(('read', im, indexes, dtype, nodata, interp))
        a = A.symarray(f'src{len(self.log)}', (indexes.n if isinstance(indexes, Bands) else len(indexes), S.integer('sh', 1), S.integer('sw', 1)), dtype)
        a_tok[id(a)] = (a, indexes, a.snap())
        return a

    def remap(self, src, x, y, z, nodata=None, interp=None, kernel_size=None, **k):
        n = len(self.log)
        out = A.symarray(f'out{n}', (src.shape[0],) + tuple(x.shape), src.dtype)
        mask = A.symarray(f'mask{n}', tuple(x.shape), 'bool')
        self.log.append(('remap', src, x, y, z, nodata, interp, out.snap(), mask, kernel_size))
        return out, mask


a_tok = {}


class Im:
    driver, height, width = 'GTiff', 100, 100

    def __init__(self, log, count, T, dtype):
        self.log, self.count = log, count
        self.profile = dict(transform=T, dtype=dtype, count=count)
        self.transform, self.dtypes = T, [dtype] * (count if isinstance(count, int) else 1)
        self.indexes = tuple(range(1, count + 1)) if isinstance(count, int) else None

    def write(self, a, indexes=None, window=None, **k):
        self.log.append(('write', a, indexes, window, Lock.held))

    def write_mask(self, a, window=None, **k):
        self.log.append(('mask', a, window, Lock.held))


def setup(L, X, count, per_band, dtype, write_mask, rot):
    import rasterio
    a_tok.clear()
    log = []
    a, b, c, d, e, f = [S.real('t' + n) for n in 'abcdef']
    if not rot:
        b = d = 0.0
    X.assume(S.zb(a != 0)), X.assume(S.zb(e != 0))
    T = rasterio.Affine(a, b, c, d, e, f)
    W, H, bw, bh, kx, ky = [S.integer(n, 1 if n[0] != 'k' else 0) for n in ('W', 'H', 'bw', 'bh', 'kx', 'ky')]
    X.assume(S.zb(kx * bw < W)), X.assume(S.zb(ky * bh < H))
    Win = rasterio.windows.Window
    first = Win(0, 0, S.smin(bw, W), S.smin(bh, H))
    tile = Win(kx * bw, ky * bh, S.smin(bw, W - kx * bw), S.smin(bh, H - ky * bh))

    class Tiles:
        """Contract of block_windows: the first tile is at the origin; then one arbitrary tile."""

        def __init__(self):
            self.i = 0

        def __iter__(self):
            return iter([tile])

        def __next__(self):
            return first

    L.common.block_windows = lambda im, *a, **k: Tiles()
    o = object.__new__(L.ortho.Ortho)
    o._camera, o._gsd, o._write_lock, o._src_name = Cam(X, log), S.real('gsd'), Lock(), 'src'
    X.assume(S.zb(o._gsd > 0))
    dem = A.symarray('dem', (H, W), 'float32', nan=True)
    src = types.SimpleNamespace(count=count)
    im = Im(log, count, T, dtype)
    dem0 = dem.snap()
    Lock.held = 0
    interp = L.enums.Interp.bilinear
    bar = types.SimpleNamespace(total=0, update=lambda *a: None, refresh=lambda *a: None)
    if not isinstance(count, int) and per_band:
        # loop contract: two arbitrary bands, in order (any later iteration runs after any earlier one)
        b1, b2 = S.integer('b1', 1), S.integer('b2', 1)
        X.assume(S.zb(b1 < b2)), X.assume(S.zb(b2 <= count))

        def gen(rs, tup=False):
            r = rs[0]
            if tup or not X.entails(S.zb(r.n == count)):
                raise S.Unsupported('loop that is not over the bands')
            return iter([r.at(b - r.start if r.step == 1 and X.entails(S.zb(SI(r.start) == 1)) else b - 1) for b in (b1, b2)])

        X.generic = gen
        groups = [[b1], [b2]]
        bands = lambda u, v: len(u) == len(v) and all(X.entails(S.zb(p == q)) for p, q in zip(u, v))
    elif not isinstance(count, int):
        groups = [Bands(count)]
        bands = lambda u, v: u is v
        arrs = Cam(X, log).read(src, groups[0], dtype, L.common._nodata_vals[dtype], interp)
        i0, j0 = first.height, first.width
        g = [A.SArray.make((i0, j0), lambda q, k=k: (T * (q[1] + 0.5, q[0] + 0.5))[k], 'float64') for k in range(2)]
        o._remap_tile(ortho_im=im, src_array=arrs, dem_array=dem, tile_win=tile, indexes=groups[0], init_xgrid=g[0], init_ygrid=g[1], interp=interp, write_mask=write_mask)
    else:
        groups = [[k] for k in range(1, count + 1)] if per_band else [list(range(1, count + 1))]
        bands = lambda u, v: list(u) == v
    if isinstance(count, int) or per_band:
        o._remap(src, im, dem, interp=interp, per_band=per_band, write_mask=write_mask, progress=bar)
    X.generic = None
    i, j = A.generic_idx((tile.height, tile.width), 'p')
    px, py = T * (tile.col_off + j + 0.5, tile.row_off + i + 0.5)
    reads = [r for r in log if r[0] == 'read']
    remaps = [r for r in log if r[0] == 'remap']
    writes = [r for r in log if r[0] == 'write']
    masks = [r for r in log if r[0] == 'mask']
    X.require('bands-read', z3.BoolVal(len(reads) == len(groups) and all(bands(r[2], g) for r, g in zip(reads, groups)) and all(r[1] is src for r in reads)))
    X.require('one-remap-and-write-per-tile-and-band-group', z3.BoolVal(len(remaps) == len(groups) == len(writes)))
    nd = L.common._nodata_vals[dtype]
    same = lambda u, v: u == v or (u != u and v != v)
    for r in reads:
        X.require('read-as-ortho-dtype-and-nodata', z3.BoolVal(str(r[3]) == dtype and same(r[4], nd) and r[5] is interp))
    for (_, sa, x, y, z, n, ip, out, mk, ks), g in zip(remaps, groups):
        X.require('grid-shape', z3.And(*[S.zb(s == t) for q in (x, y, z) for s, t in zip(q.shape, (tile.height, tile.width))]))
        X.require_eq('x-at-pixel-centre', x.at(i, j), px)
        X.require_eq('y-at-pixel-centre', y.at(i, j), py)
        X.require_eq('z-of-same-dem-pixel', z.at(i, j), dem0((tile.row_off + i, tile.col_off + j)))
        X.require('source-bands', z3.BoolVal(bands(a_tok[id(sa)][1], g) if id(sa) in a_tok else False))
        X.require('nodata-and-interp', z3.BoolVal(same(n, nd) and ip is interp))
    for (_, ar, idx, win, held), (_, sa, x, y, z, n, ip, out, mk, ks), g in zip(writes, remaps, groups):
        X.require('written-bands', z3.BoolVal(bands(idx, g) if idx is not None else not per_band))
        X.require('written-window', z3.And(*[S.zb(getattr(win, q) == getattr(tile, q)) for q in ('col_off', 'row_off', 'width', 'height')]))
        X.require('write-under-lock', z3.BoolVal(held > 0))
        for k in range(len(g)) if isinstance(g, list) else [A.generic_idx((count,), 'band')[0]]:
            X.require_eq('written-value', ar.at(k, i, j), out((k, i, j)))
    first_band = isinstance(groups[0], Bands) or X.entails(S.zb(SI(groups[0][0]) == 1))
    X.require('mask-written-once-if-asked', z3.BoolVal(len(masks) == (1 if write_mask and first_band else 0)))
    for m in masks:
        X.require('mask-window', z3.And(*[S.zb(getattr(m[2], q) == getattr(tile, q)) for q in ('col_off', 'row_off', 'width', 'height')]))
        X.require('mask-is-filled', S.zb(m[1].at(i, j)) == z3.Not(S.zb(remaps[0][8].at(i, j))))
        X.require('write-under-lock', z3.BoolVal(m[3] > 0))
    # frame: shared inputs unchanged
    gi, gj = A.generic_idx((H, W), 'd')
    X.require_eq('dem-not-modified', dem.at(gi, gj), dem0((gi, gj)))


for count in (1, 2, 3, 4):
    for per_band in (False, True):
        for wm in (False, True):
            if per_band and count > 2:
                continue   # any number of bands: below
            dtype = ['uint8', 'uint16', 'float32', 'int16'][count - 1]

            def case(L, X, count=count, per_band=per_band, wm=wm, dtype=dtype):
                setup(L, X, count, per_band, dtype, wm, rot=count == 2)
            exp = ['x-at-pixel-centre', 'y-at-pixel-centre', 'z-of-same-dem-pixel', 'grid-shape', 'written-window', 'written-value', 'written-bands', 'dem-not-modified', 'source-bands', 'bands-read']
            prop.case(f'remap-tile[bands={count},per_band={per_band},mask={wm}]', FN, bound='band count fixed (1..4); image, tile and block sizes, tile index, pixel and transform arbitrary',
                      expect=exp + (['mask-is-filled'] if wm else []), replay=lambda R, d: sweep(R))(case)


for dtype in ('uint8', 'int16', 'float32'):
    for per_band in (False, True):
        for wm in (False, True):
            if dtype != 'uint8' and not wm:
                continue
            def case(L, X, per_band=per_band, wm=wm, dtype=dtype):
                setup(L, X, S.integer('count', 1), per_band, dtype, wm, rot=dtype == 'int16')
            prop.case(f'remap-tile[any number of bands,{dtype},per_band={per_band},mask={wm}]', FN[1:] if not per_band else FN, expect=exp[:-1] + (['mask-is-filled'] if wm else []),
                      replay=lambda R, d: sweep(R))(case)


# ------------------------------------------------------------------------------------ run time
def sweep(R):
    import random
    for i in range(14):
        f_ortho(R, random.Random(i), i)


def scene(R, rng, d, oblique=False, up=0):
    """A random source image, DEM and camera with an independent projection oracle."""
    import rasterio
    from rasterio.transform import from_origin
    w, h = rng.randint(30, 60), rng.randint(30, 60)
    nb = rng.choice([1, 2, 3, 4])
    dtype = rng.choice(['uint8', 'uint16', 'int16', 'float32', 'float64'])
    src = os.path.join(d, 'src.tif')
    rs = np.random.default_rng(rng.randrange(2 ** 32))
    ar = rs.integers(1, 250, (nb, h, w)).astype(dtype)
    with rasterio.open(src, 'w', driver='GTiff', width=w, height=h, count=nb, dtype=dtype) as im:
        im.write(ar)
    z0 = rng.uniform(80, 150)
    X0, Y0 = 500000. + rng.uniform(-50, 50), 6000000. + rng.uniform(-50, 50)
    f = rng.uniform(.8, 1.3)
    opk = [rng.uniform(-.12, .12), rng.uniform(-.12, .12), rng.uniform(-3, 3)]
    cz = z0 + up
    if oblique:
        f = rng.uniform(1.6, 2.4)
        opk[rng.choice([0, 1])] = rng.choice([-1, 1]) * rng.uniform(.5, .7)
    lens, coef = rng.choice([('pinhole', {}), ('brown', dict(k1=rng.uniform(-.04, .04), p1=.001)), ('fisheye', dict(k1=rng.uniform(-.02, .02)))])
    cam = call(R.camera.create_camera, lens, im_size=(w, h), focal_len=f, sensor_size=(1., h / w), xyz=(X0, Y0, cz), opk=opk, **coef)
    res = rng.choice([1.6, 2.3, 3.1])
    res = (res, res * rng.choice([1, 1, 1.5]))
    n = int(420 / res[0]), int(420 / res[1])
    x0, y0 = X0 - 210 + rng.uniform(-1, 1), Y0 + 210 + rng.uniform(-1, 1)
    gx, gy = np.meshgrid(np.arange(n[0]) * .1, np.arange(n[1]) * .13)
    z = (rng.uniform(0, 6) * np.sin(gx) * np.cos(gy) + rng.uniform(0, 20)).astype('float32')
    if oblique:
        from .c05 import opk_mat
        v = np.array(opk_mat(*opk), dtype=float) @ [0, 0, -1.]
        gx, gy = np.meshgrid(x0 + (np.arange(n[0]) + .5) * res[0] - X0, y0 - (np.arange(n[1]) + .5) * res[1] - Y0)
        z = (z0 * .35 - rng.uniform(.25, .4) * (gx * v[0] + gy * v[1]) / np.hypot(v[0], v[1])).clip(-30, .7 * z0).astype('float32')
    z = z + np.float32(up)
    dem = os.path.join(d, 'dem.tif')
    with rasterio.open(dem, 'w', driver='GTiff', width=n[0], height=n[1], count=1, dtype='float32', crs='EPSG:32735', transform=from_origin(x0, y0, *res)) as im:
        im.write(z[None])

    def proj(x, y, zz):
        """Independent projection: collinearity, then the lens polynomial."""
        o, p, k = opk
        from .c05 import opk_mat
        Rm = np.array(opk_mat(o, p, k), dtype=float)
        v = Rm.T @ (np.stack([x, y, zz]).reshape(3, -1) - np.array([[X0], [Y0], [cz]]))
        u, vv = v[0] / -v[2], -v[1] / -v[2]
        if lens == 'brown':
            r2 = u * u + vv * vv
            r2 = np.where(r2 < 4, r2, np.nan)  # the polynomial is not a lens model far from the image
            q = 1 + coef['k1'] * r2
            u, vv = u * q + 2 * coef['p1'] * u * vv, vv * q + coef['p1'] * (r2 + 2 * vv * vv)
        elif lens == 'fisheye':
            r = np.sqrt(u * u + vv * vv)
            t = np.arctan(r)
            s = np.where(r > 0, t * (1 + coef['k1'] * t * t) / np.where(r > 0, r, 1), 1)
            u, vv = u * s, vv * s
        return (u * f * w + (w - 1) / 2).reshape(x.shape), (vv * f * w + (h - 1) / 2).reshape(x.shape)

    return types.SimpleNamespace(src=src, dem=dem, cam=cam, proj=proj, ar=ar, z=z, x0=x0, y0=y0, res=res, n=n, w=w, h=h, nb=nb, dtype=dtype, lens=lens)


@prop.fuzz('ortho-against-projection-oracle', 80, 1500, 60, FN + ['orthority/ortho.py:Ortho.process', 'orthority/camera.py:Camera.remap'])
def f_ortho(R, rng, i):
    import rasterio
    with Tmp() as d:
        s = scene(R, rng, d)
        per_band, wm = rng.random() < .5, rng.choice([True, False])
        co = rng.choice([dict(tiled=True, blockxsize=16, blockysize=16), dict(tiled=True, blockxsize=32, blockysize=16), dict(tiled=True, blockxsize=64, blockysize=128), dict(tiled=False, blockysize=rng.choice([1, 7, 40]))])
        # jitter the completion order of tiles
        remap = s.cam.remap
        jit = [rng.random() * .004 for _ in range(97)]
        cnt = [0]

        def slow(*a, **k):
            cnt[0] += 1
            time.sleep(jit[cnt[0] % 97])
            return remap(*a, **k)
        if i % 2:
            s.cam.remap = slow
        out = os.path.join(d, 'o.tif')
        o = call(R.ortho.Ortho, s.src, s.dem, s.cam, crs='EPSG:32735')
        call(o.process, out, resolution=s.res, interp='nearest', per_band=per_band, write_mask=wm, build_ovw=False, creation_options=co)
        with rasterio.open(out) as im:
            a, T, nd = im.read(), im.transform, im.nodata
            mask = im.dataset_mask() if wm else None
        if a.shape[0] != s.nb or abs(T.a - s.res[0]) > 1e-9 or abs(T.e + s.res[1]) > 1e-9:
            raise Fail(f'ortho shape {a.shape} or resolution {T.a, T.e} is not as requested {s.res}')
        judge(s, a, T, mask, per_band, f'{s.lens} {s.dtype} per_band={per_band} mask={wm} {co}')


def judge(s, a, T, mask, per_band, desc):
    H, W = a.shape[1:]
    jj, ii = np.meshgrid(np.arange(W) + .5, np.arange(H) + .5)
    x, y = T * (jj, ii)
    # DEM pixel at the same place
    dj, di = (x - s.x0) / s.res[0] - .5, (s.y0 - y) / s.res[1] - .5
    rj, ri = np.rint(dj).astype(int), np.rint(di).astype(int)
    if np.abs(dj - rj).max() > 1e-6 or np.abs(di - ri).max() > 1e-6 or rj.min() < 0 or ri.min() < 0 or rj.max() >= s.n[0] or ri.max() >= s.n[1]:
        raise Fail(f'ortho grid is not a crop of the DEM grid: {desc}', dict(T=list(T)[:6]))
    z = s.z[ri, rj].astype(float)
    j, i = s.proj(x, y, z)
    # ortho pixels that are well inside or well outside the image, and not near a rounding boundary
    m = 4
    inside = (j > m) & (j < s.w - 1 - m) & (i > m) & (i < s.h - 1 - m)
    frac = (np.abs(j - np.floor(j) - .5) > .04) & (np.abs(i - np.floor(i) - .5) > .04)
    outside = (j < -1.5) | (j > s.w + .5) | (i < -1.5) | (i > s.h + .5)
    ok = inside & frac
    if ok.sum() < 20:
        raise Skip()
    exp = s.ar[:, np.clip(np.rint(np.nan_to_num(i)).astype(int), 0, s.h - 1), np.clip(np.rint(np.nan_to_num(j)).astype(int), 0, s.w - 1)]
    bad = (a != exp) & ok
    if bad.any():
        b, r, c = np.argwhere(bad)[0]
        raise Fail(f'{bad.sum()} of {ok.sum() * a.shape[0]} interior ortho values are wrong, first at band {b + 1} row {r} col {c}: {a[b, r, c]}, expected {exp[b, r, c]}: {desc}')
    nd = {'uint8': 0, 'uint16': 0, 'int16': -32768}.get(str(a.dtype), np.nan)
    isn = np.isnan(a) if nd != nd else a == nd
    if (~isn & outside).any():
        b, r, c = np.argwhere(~isn & outside)[0]
        raise Fail(f'ortho pixel row {r} col {c} projects outside the source but is filled with {a[b, r, c]}: {desc}')
    if mask is not None:
        me = ~isn[0] if per_band else ~isn.all(0)
        if ((mask != 0) != me).any():
            r, c = np.argwhere((mask != 0) != me)[0]
            raise Fail(f'mask is {mask[r, c]} at row {r} col {c} where the values are {a[:, r, c].tolist()}: {desc}')


@prop.fuzz('tiling-and-schedule-independence', 40, 600, 60, FN)
def f_tiling(R, rng, i):
    import rasterio
    with Tmp() as d:
        s = scene(R, rng, d)
        outs = []
        interp = rng.choice(['nearest', 'bilinear', 'cubic', 'lanczos'])
        o = call(R.ortho.Ortho, s.src, s.dem, s.cam, crs='EPSG:32735')
        remap = s.cam.remap
        for k, (co, pb) in enumerate([(dict(tiled=True, blockxsize=512, blockysize=512), False), (dict(tiled=True, blockxsize=16, blockysize=32), False),
                                      (dict(tiled=True, blockxsize=48, blockysize=16), True), (dict(tiled=False, blockysize=3), False)]):
            r2 = __import__('random').Random(i * 7 + k)

            def slow(*a, **kw):
                time.sleep(r2.random() * .003)
                return remap(*a, **kw)
            s.cam.remap = slow
            p = os.path.join(d, f'o{k}.tif')
            call(o.process, p, resolution=s.res, interp=interp, per_band=pb, write_mask=True, build_ovw=False, creation_options=co)
            with rasterio.open(p) as im:
                outs.append((im.read(), im.dataset_mask(), im.transform, co, pb))
        a0, m0, T0 = outs[0][:3]
        for a, m, T, co, pb in outs[1:]:
            if a.shape != a0.shape or T != T0:
                raise Fail(f'ortho grid depends on the tiling: {a.shape}, {a0.shape}')
            x = a.astype(float) - a0
            # (x, y) of a pixel may differ by a unit of least precision between tilings
            tol = 0 if interp == 'nearest' else 1 if a.dtype.kind in 'iu' else .5
            bad = (np.abs(x) > tol) | (np.isnan(a) != np.isnan(a0)) if a.dtype.kind == 'f' else np.abs(x) > tol
            if bad.sum() > 2:
                b, r, c = np.argwhere(bad)[0]
                raise Fail(f'{bad.sum()} ortho values depend on tiling {co}, per_band={pb}: band {b + 1} row {r} col {c}: {a[b, r, c]}, {a0[b, r, c]}')
            nd = {'uint8': 0, 'uint16': 0, 'int16': -32768}.get(str(a.dtype), np.nan)
            me = ~(np.isnan(a0[0]) if nd != nd else a0[0] == nd) if pb else m0 != 0
            if ((m != 0) != me).sum() > 2:
                raise Fail(f'{((m != 0) != me).sum()} mask pixels depend on tiling {co}, per_band={pb}')
