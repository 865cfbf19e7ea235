"""C14: remapping fills the pixels that project inside the source, and marks all others as nodata."""
import itertools
import types
import warnings

import cv2
import numpy as np
import z3

from .. import arr as A
from .. import shims as SH
from .. import sym as S
from ..runner import Fail, Prop, Skip, call

prop = Prop('C14')
P = 'orthority/camera.py:'
FR, FF, FU = P + 'Camera.remap', P + 'FrameCamera.remap', P + 'FrameCamera._undistort_im'
NODATA = dict(uint8=0, uint16=0, int16=-32768, float32=float('nan'), float64=float('nan'))
prop.assume('cv2.remap(..., BORDER_TRANSPARENT) writes the interpolated value to each destination pixel whose source coordinate is inside the source, and leaves the others; '
            'a coordinate of -1 is outside (checked at run time for every data type and interpolation)',
            'cv2.dilate(mask, ones(k)) is binary dilation (checked at run time)',
            'world_to_pixel meets its contract (C01 to C03): one pixel coordinate per world coordinate, in order')


def same(a, b):
    """z3 condition: a and b are the same value, or both NaN."""
    if isinstance(a, float) and a != a or isinstance(b, float) and b != b or any(isinstance(q, S.SReal) for q in (a, b)):
        a, b = S.SReal.of(a), S.SReal.of(b)
        na, nb = S.zb(a.nan), S.zb(b.nan)
        return z3.Or(z3.And(na, nb), z3.And(z3.Not(na), z3.Not(nb), a.z == b.z))
    return S.zb(a == b)


def isnd(a, nd):
    return S.zb(S.isnan(a)) if nd != nd else z3.And(z3.Not(S.zb(S.isnan(a))), S.SReal.of(a).z == S.SReal.of(nd).z)


def remap_case(L, X, bands, dtype, nodata, interp):
    H, W, sh, sw = [S.integer(n, 1) for n in ('H', 'W', 'sh', 'sw')]
    X.assume(z3.And(S.zb(sh < 32767), S.zb(sw < 32767)))
    img = A.symarray('img', (bands, sh, sw), dtype, **({'nan': True} if dtype[0] == 'f' else {}))
    x, y = [A.symarray(n, (H, W), 'float64', nan=True) for n in 'xy']
    z = A.symarray('z', (H, W), 'float32', nan=True)
    i0, x0, y0, z0 = [q.snap() for q in (img, x, y, z)]
    seen = []

    def w2p(xyz):
        seen.append(xyz.snap())
        n = xyz.shape[1]
        J = [A.Fn(lambda ix, k=k: S.apply(f'w2p{k}', *[S.SReal.of(xyz0((c, ix[0]))) for c in range(3)])) for k in (0, 1)]
        xyz0 = xyz.snap()
        return A.stack([A.SArray.make((n,), f, 'float64') for f in J], 0)
    cam = type('Cam', (L.camera.Camera,), dict(__init__=lambda self: None, world_to_pixel=lambda self, q: w2p(q), pixel_to_world_z=lambda self, *a: None))()
    cam._im_size = (sw, sh)
    # -1 is outside the source
    ins = S.ufn('remap_inside', 5, [S._R, S._R, S._I, S._I, S._I], z3.BoolSort())
    q, w_, h_, m_ = z3.Real('q'), z3.Int('w_'), z3.Int('h_'), z3.Int('m_')
    X.assume(z3.ForAll([q, w_, h_, m_], z3.And(z3.Not(ins(z3.RealVal(-1), q, w_, h_, m_)), z3.Not(ins(q, z3.RealVal(-1), w_, h_, m_)))))
    X.assume(S.zb(S.rnd32(S.SReal(z3.RealVal(-1))) == -1))  # exact in float32
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out, mask = cam.remap(img, x, y, z, nodata=nodata, interp=L.enums.Interp[interp])
    nd = NODATA[dtype] if nodata is None else nodata
    X.require('output-shape-and-type', z3.And(z3.BoolVal(out.shape[0] == bands and str(out.dtype) == dtype and mask.dtype == bool and len(out.shape) == 3), *[S.zb(a == b) for a, b in zip(out.shape[1:] + mask.shape, (H, W, H, W))]))
    r, c = A.generic_idx((H, W), 'p')
    j, i = [S.apply(f'w2p{k}', *[S.SReal.of(v((r, c))) for v in (x0, y0, z0)]) for k in (0, 1)]
    bad = z3.Or(S.zb(j.nan), S.zb(i.nan))
    mode = getattr(cv2, {'nearest': 'INTER_NEAREST', 'average': 'INTER_AREA', 'bilinear': 'INTER_LINEAR', 'cubic': 'INTER_CUBIC', 'lanczos': 'INTER_LANCZOS4'}[interp])
    allnd = []
    for b in range(bands):
        inside, v = SH.remap_value(img[b], S.rnd32(S.SReal(j.z)), S.rnd32(S.SReal(i.z)), mode)
        g = out.at(b, r, c)
        fill = z3.And(z3.Not(bad), S.zb(inside))
        X.require('inside-is-interpolated-source', z3.Implies(fill, same(g, v)))
        X.require('outside-is-nodata', z3.Implies(z3.Not(fill), isnd(g, nd)))
        allnd.append(isnd(g, nd))
    X.require('mask-is-all-bands-nodata', S.zb(mask.at(r, c)) == z3.And(*allnd))
    b, p, q = A.generic_idx((bands, sh, sw), 's')
    X.require('source-not-modified', same(img.at(b, p, q), i0((b, p, q))))
    X.require('coordinates-not-modified', z3.And(*[same(u.at(r, c), v((r, c))) for u, v in ((x, x0), (y, y0), (z, z0))]))


EXP = ['output-shape-and-type', 'inside-is-interpolated-source', 'outside-is-nodata', 'mask-is-all-bands-nodata', 'source-not-modified']
CASES = [(1, 'uint8', 0, 'nearest'), (3, 'uint8', None, 'bilinear'), (2, 'uint16', 0, 'cubic'), (2, 'uint16', 65535, 'average'), (1, 'uint16', None, 'lanczos'),
         (2, 'int16', -32768, 'cubic'), (1, 'int16', None, 'nearest'), (1, 'int16', 7, 'average'),
         (2, 'float32', float('nan'), 'cubic'), (2, 'float32', None, 'bilinear'), (1, 'float32', -9999., 'nearest'), (3, 'float64', float('nan'), 'lanczos'), (1, 'float64', None, 'average'), (4, 'float64', 0., 'cubic')]
for cs in CASES:
    prop.case('remap[{} bands,{},nodata={},{}]'.format(*cs), [FR, 'orthority/common.py:nan_equals'], expect=EXP, replay=lambda R, d, cs=cs: sweep(R, cs),
              bound='band count fixed; image sizes, pixel values, coordinates and NaN patterns arbitrary')(lambda L, X, cs=cs: remap_case(L, X, *cs))


# ------------------------------------------------------------------------------ nodata dilation
def frame_case(L, X, cls, distort, dtype, nodata, interp, ks):
    H, W, B = S.integer('H', 1), S.integer('W', 1), S.integer('B', 1)
    nd = NODATA[dtype] if nodata is None else nodata
    base = A.symarray('base', (B, H, W), dtype, **({'nan': True} if dtype[0] == 'f' else {}))
    m0 = A.symarray('mask', (H, W), 'bool')
    b0, mm = base.snap(), m0.snap()
    args = []

    def parent(self, *a, **k):
        args.append((a, k))
        return base, m0
    L.camera.Camera.remap = parent
    dil = A.symarray('dil', (H, W), 'uint8')
    kern = []

    def dilate(m, k, *a, **kw):
        if a or set(kw) - {'iterations'} or kw.get('iterations', 1) != 1:
            raise S.Unsupported('cv2.dilate arguments')
        kern.append((m, k))
        return dil
    L.cv2.dilate = dilate
    cam = object.__new__(getattr(L.camera, cls))
    cam._distort, cam._im_size = distort, (5, 5)
    img = types.SimpleNamespace(dtype=np.dtype(dtype), shape=(2, 5, 5), ndim=3)
    tok = [object(), object(), object()]
    kw = {} if ks is None else dict(kernel_size=ks)
    out, mask = cam.remap(img, *tok, nodata=nodata, interp=interp, **kw)
    X.require('arguments-passed-on', z3.BoolVal(len(args) == 1 and [args[0][1].get(n, args[0][0][k] if k < len(args[0][0]) else None) for k, n in enumerate(('im_array', 'x', 'y', 'z'))] == [img, *tok]
              and L.enums.Interp[args[0][1].get('interp', args[0][0][5] if len(args[0][0]) > 5 else 'cubic')] == L.enums.Interp[interp]
              and (lambda q: q is nodata or q == nd or (q is not None and q != q and nd != nd))(args[0][1].get('nodata', args[0][0][4] if len(args[0][0]) > 4 else None))))
    apply = not distort and cls != 'PinholeCamera' and L.enums.Interp[interp] != L.enums.Interp.nearest and nd == nd
    b, r, c = A.generic_idx((B, H, W), 'p')
    got, gm = out.at(b, r, c), mask.at(r, c)
    if not apply:
        X.require('not-dilated', z3.And(S.zb(gm) == S.zb(mm((r, c))), same(got, b0((b, r, c)))))
        return
    w, h = ks or (3, 3)
    X.require('dilated-with-kernel', z3.BoolVal(len(kern) == 1 and tuple(kern[0][1].shape) == (h, w) and bool((np.array([[float(kern[0][1].at(p, q) if hasattr(kern[0][1], 'at') else kern[0][1][p, q]) for q in range(w)] for p in range(h)]) == 1).all())))
    X.require('mask-passed-to-dilation', S.zb(kern[0][0].at(r, c) != 0) == S.zb(mm((r, c))))
    D = S.zb(dil.at(r, c) != 0)
    X.require('mask-is-dilated-mask', S.zb(gm) == D)
    X.require('dilated-pixels-are-nodata', z3.Implies(D, isnd(got, nd)))
    X.require('other-pixels-unchanged', z3.Implies(z3.Not(D), same(got, b0((b, r, c)))))


n = 0
for cls, distort, (dtype, nodata), interp in itertools.product(('PinholeCamera', 'BrownCamera', 'FisheyeCamera', 'OpenCVCamera'), (False, True),
                                                              (('uint8', 0), ('uint8', None), ('uint16', 0), ('int16', -32768), ('int16', None), ('float32', float('nan')), ('float64', None), ('float64', -1.)), ('nearest', 'cubic')):
    n += 1
    ks = [None, (3, 5), (1, 1), (7, 3)][n % 4]
    exp = ['dilated-with-kernel', 'mask-is-dilated-mask', 'dilated-pixels-are-nodata', 'other-pixels-unchanged'] if (not distort and cls != 'PinholeCamera' and interp != 'nearest' and dtype[:5] != 'float') or (
        not distort and cls != 'PinholeCamera' and interp != 'nearest' and nodata == -1.) else ['not-dilated']
    prop.case(f'dilation[{cls},distort={distort},{dtype},nodata={nodata},{interp},{ks}]', [FF], expect=exp + ['arguments-passed-on'], replay=lambda R, d: sweep2(R))(
        lambda L, X, a=(cls, distort, dtype, nodata, interp, ks): frame_case(L, X, *a))


# ------------------------------------------------------------------------------------ run time
def sweep(R, cs):
    import random
    for i in range(60):
        one_remap(R, random.Random(i), dict(bands=cs[0], dtype=cs[1], nodata=cs[2], interp=cs[3]))


def sweep2(R):
    import random
    for i in range(120):
        f_frame(R, random.Random(i), i)


def mk_cam(R, rng, cls=None, distort=True):
    w, h = rng.randint(8, 26), rng.randint(8, 26)
    cls = cls or rng.choice(['pinhole', 'brown', 'fisheye', 'opencv'])
    co = dict(brown=dict(k1=rng.uniform(-.05, .05)), fisheye=dict(k1=rng.uniform(-.03, .03)), opencv=dict(k1=.01, k2=.01)).get(cls, {})
    return call(R.camera.create_camera, cls, im_size=(w, h), focal_len=rng.uniform(.7, 1.5), sensor_size=(1., h / w), xyz=(10., 20., 100.), opk=[rng.uniform(-.1, .1), rng.uniform(-.1, .1), rng.uniform(-3, 3)], distort=distort, **co), w, h


def grids(rng, n=14):
    rs = np.random.default_rng(rng.randrange(2 ** 32))
    H, W = rng.randint(3, n), rng.randint(3, n)
    s = rng.choice([60, 120, 240])
    x, y = np.meshgrid(10 + np.linspace(-s / 2, s / 2, W), 20 - np.linspace(-s / 2, s / 2, H))
    z = (rs.random((H, W)) * 10).astype(rng.choice(['float32', 'float64']))
    for q in (x, y, z):
        if rng.random() < .4:
            q[rs.random((H, W)) < .1] = np.nan
    return x, y, z, rs


def image(rng, rs, bands, dtype, h, w, nd):
    if dtype[0] == 'f':
        im = (rs.random((bands, h, w)) * 400 - 100).astype(dtype)
    else:
        ii = np.iinfo(dtype)
        im = rs.integers(max(ii.min, -3000), min(ii.max, 9000) + 1, (bands, h, w)).astype(dtype)
    k = rng.random()
    if k < .4 and (dtype[0] == 'f' or nd == nd):
        im[rs.random((bands, h, w)) < .2] = nd
        im[:, rs.random((h, w)) < .1] = nd
    return im


def eq(a, b):
    return (np.isnan(a) & np.isnan(b)) | (a == b) if a.dtype.kind == 'f' else a == b


def one_remap(R, rng, cfg, cam=None):
    cam, w, h = cam or mk_cam(R, rng)
    x, y, z, rs = grids(rng)
    dt, nodata = cfg['dtype'], cfg['nodata']
    nd = NODATA[dt] if nodata is None else nodata
    im = image(rng, rs, cfg['bands'], dt, h, w, nd)
    cp = [q.copy() for q in (im, x, y, z)]
    kw = {} if nodata is None and rng.random() < .5 else dict(nodata=nodata)
    desc = f'{type(cam).__name__} {cfg} grid {x.shape} image {im.shape}'
    ip = cfg['interp'] if rng.random() < .5 else R.enums.Interp[cfg['interp']]
    out, mask = call(R.camera.Camera.remap, cam, im, x, y, z, interp=ip, **kw)
    for a, b in zip((im, x, y, z), cp):
        if not eq(a, b).all():
            raise Fail(f'remap changed its input: {desc}')
    if out.shape != (cfg['bands'],) + x.shape or mask.shape != x.shape or out.dtype != dt or mask.dtype != bool:
        raise Fail(f'remap returned {out.shape} {out.dtype}, {mask.shape} {mask.dtype}: {desc}')
    isn = np.isnan(out) if nd != nd else out == nd
    bad = mask != isn.all(0)
    if bad.any():
        r, c = np.argwhere(bad)[0]
        raise Fail(f'mask is {mask[r, c]} where the values are {out[:, r, c].tolist()} (nodata {nd}): {desc}')
    ji = call(cam.world_to_pixel, np.stack([q.ravel() for q in (x, y, z)]).astype(float)).reshape(2, *x.shape)
    nan = np.isnan(ji).any(0) | np.isnan(x) | np.isnan(y) | np.isnan(z)
    j, i = np.where(nan, -9, ji)
    outside = nan | (j < -.75) | (j > w - .01) | (i < -.75) | (i > h - .01)
    bad = ~isn & outside
    if bad.any():
        b, r, c = np.argwhere(bad)[0]
        raise Fail(f'row {r} col {c} projects to {j[r, c], i[r, c]} (NaN: {nan[r, c]}), outside the image, but is {out[b, r, c]}: {desc}')
    ins = (j > .02) & (j < w - 1.02) & (i > .02) & (i < h - 1.02)
    if cfg['interp'] == 'nearest':
        ok = ins & (np.abs(j % 1 - .5) > .02) & (np.abs(i % 1 - .5) > .02)
        exp = im[:, np.clip(np.rint(i), 0, h - 1).astype(int), np.clip(np.rint(j), 0, w - 1).astype(int)]
        bad = ~eq(out, exp) & ok
    elif cfg['interp'] in ('bilinear', 'average'):
        ok = ins
        i0, j0 = np.clip(np.floor(i), 0, h - 2).astype(int), np.clip(np.floor(j), 0, w - 2).astype(int)
        fi, fj = i - i0, j - j0
        f = im.astype(float)
        exp = (f[:, i0, j0] * (1 - fi) * (1 - fj) + f[:, i0, j0 + 1] * (1 - fi) * fj + f[:, i0 + 1, j0] * fi * (1 - fj) + f[:, i0 + 1, j0 + 1] * fi * fj)
        rngv = np.nanmax(np.abs(f)) if np.isfinite(f).any() else 0
        bad = ok & (np.abs(out - exp) > 1 + rngv * .09) & ~np.isnan(exp)
    else:
        return
    if bad.any():
        b, r, c = np.argwhere(bad)[0]
        raise Fail(f'band {b + 1} row {r} col {c} projects to {j[r, c], i[r, c]} and should be {exp[b, r, c]}, is {out[b, r, c]}: {desc}')


def rand_cfg(rng):
    dt = rng.choice(list(NODATA))
    nodata = rng.choice([None, NODATA[dt], NODATA[dt], rng.choice([5, 255, 0]) if dt[0] != 'f' else rng.choice([-9999., 0., float('nan')])])
    return dict(bands=rng.choice([1, 2, 3, 5]), dtype=dt, nodata=nodata, interp=rng.choice(['nearest', 'bilinear', 'average', 'cubic', 'lanczos']))


@prop.fuzz('remap-against-numpy', 800, 20000, 40, [FR])
def f_remap(R, rng, i):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        one_remap(R, rng, rand_cfg(rng))


def dilate_np(m, w, h):
    out = np.zeros_like(m)
    ay, ax = h // 2, w // 2
    for dy in range(h):
        for dx in range(w):
            sy, sx = dy - ay, dx - ax
            src = np.zeros_like(m)
            ys, xs = np.arange(m.shape[0]) + sy, np.arange(m.shape[1]) + sx
            oky, okx = (ys >= 0) & (ys < m.shape[0]), (xs >= 0) & (xs < m.shape[1])
            src[np.ix_(oky, okx)] = m[np.ix_(ys[oky], xs[okx])]
            out |= src
    return out


@prop.fuzz('frame-remap-dilation', 800, 20000, 40, [FF, FU, P + 'FrameCamera.read'])
def f_frame(R, rng, i):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cls = rng.choice(['pinhole', 'brown', 'fisheye', 'opencv'])
        cam, w, h = mk_cam(R, rng, cls, rng.random() < .3)
        cfg = rand_cfg(rng)
        x, y, z, rs = grids(rng, 30)
        dt, nodata = cfg['dtype'], cfg['nodata']
        nd = NODATA[dt] if nodata is None else nodata
        im = image(rng, rs, cfg['bands'], dt, h, w, nd)
        kw = dict(nodata=nd, interp=cfg['interp'])
        b_out, b_mask = call(R.camera.Camera.remap, cam, im, x, y, z, **kw)
        if nodata is None:
            kw.pop('nodata')
        ks = rng.choice([None, (3, 3), (5, 3), (1, 7)])
        if ks:
            kw['kernel_size'] = ks
        out, mask = call(cam.remap, im, x, y, z, **kw)
        desc = f'{cls} distort={cam.distort} {cfg} kernel {ks}'
        if not cam.distort and cls != 'pinhole' and cfg['interp'] != 'nearest' and nd == nd:
            em = dilate_np(b_mask, *(ks or (3, 3)))
            eo = b_out.copy()
            eo[:, em] = nd
        else:
            em, eo = b_mask, b_out
        if (mask != em).any():
            r, c = np.argwhere(mask != em)[0]
            raise Fail(f'mask at row {r} col {c} is {mask[r, c]}, expected {em[r, c]}: {desc}')
        if not eq(out, eo).all():
            b, r, c = np.argwhere(~eq(out, eo))[0]
            raise Fail(f'band {b + 1} row {r} col {c} is {out[b, r, c]}, expected {eo[b, r, c]} (mask {mask[r, c]}, nodata {nd}): {desc}')


@prop.fuzz('read-with-default-nodata', 150, 3000, 20, [FU, P + 'FrameCamera.read', P + 'Camera.read'])
def f_read(R, rng, i):
    """Undistorted images are nodata outside the source, and equal to it in the middle for small distortion."""
    import os
    import rasterio
    from .c06 import Tmp
    with Tmp() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cls = rng.choice(['pinhole', 'brown', 'fisheye', 'opencv'])
        cam, w, h = mk_cam(R, rng, cls, rng.random() < .3)
        cfg = rand_cfg(rng)
        dt, nodata = cfg['dtype'], cfg['nodata']
        nd = NODATA[dt] if nodata is None else nodata
        rs = np.random.default_rng(rng.randrange(2 ** 32))
        im = rs.integers(1, 120, (cfg['bands'], h, w)).astype(dt)
        p = os.path.join(d, 'a.tif')
        with rasterio.open(p, 'w', driver='GTiff', width=w, height=h, count=cfg['bands'], dtype=dt) as f:
            f.write(im)
        idx = rng.choice([None, [1], list(range(cfg['bands'], 0, -1)), 1])
        kw = dict(indexes=idx, interp='nearest')
        if nodata is not None:
            kw['nodata'] = nodata
        if rng.random() < .3:
            kw['dtype'] = dt
        out = call(cam.read, p, **kw)
        src = im if idx is None else im[np.array(idx).ravel() - 1]
        desc = f'{cls} distort={cam.distort} {cfg} indexes {idx}'
        if out.shape != src.shape or out.dtype != dt:
            raise Fail(f'read gives {out.shape} {out.dtype}: {desc}')
        if cam.distort or cls == 'pinhole':
            if not eq(out, src).all():
                raise Fail(f'read of a distorted image is not the image: {desc}')
            return
        # each undistorted pixel comes from its distorted position
        jj, ii = np.meshgrid(np.arange(w, dtype=float), np.arange(h, dtype=float))
        und = np.stack([jj.ravel(), ii.ravel()])
        xyz = cam.pixel_to_world_z(und, 0.)   # distort is False: undistorted pixel to world
        cam.distort = True
        ji = cam.world_to_pixel(xyz).reshape(2, h, w)
        cam.distort = False
        j, i2 = ji
        isn = np.isnan(out) if nd != nd else out == nd
        outside = (j < -.75) | (j > w - .2) | (i2 < -.75) | (i2 > h - .2)
        ok = (j > .02) & (j < w - 1.02) & (i2 > .02) & (i2 < h - 1.02) & (np.abs(j % 1 - .5) > .03) & (np.abs(i2 % 1 - .5) > .03)
        exp = src[:, np.clip(np.rint(i2), 0, h - 1).astype(int), np.clip(np.rint(j), 0, w - 1).astype(int)]
        if (~isn & outside).any():
            b, r, c = np.argwhere(~isn & outside)[0]
            raise Fail(f'undistorted pixel row {r} col {c} is from {j[r, c], i2[r, c]}, but is {out[b, r, c]}: {desc}')
        bad = ok & (out != exp)
        if bad.any():
            b, r, c = np.argwhere(bad)[0]
            raise Fail(f'undistorted pixel row {r} col {c} is {out[b, r, c]}, expected {exp[b, r, c]}: {desc}')


@prop.fuzz('assumed-remap-contract', 1, 1, 20)
def f_contract(R, rng, i):
    """The assumed part of the cv2.remap contract."""
    for dt, ip in itertools.product(NODATA, (cv2.INTER_NEAREST, cv2.INTER_LINEAR, cv2.INTER_CUBIC, cv2.INTER_AREA, cv2.INTER_LANCZOS4)):
        im = np.arange(1, 31).reshape(5, 6).astype(dt)
        m = np.float32([[-1, -1, 2, 2], [2, -1, -1, 3]])
        dst = np.full((1, 4), 77, dt)
        cv2.remap(im, m[:1], m[1:], ip, dst=dst, borderMode=cv2.BORDER_TRANSPARENT)
        if dst[0, :3].tolist() != [77] * 3 or dst[0, 3] != im[3, 2]:
            raise RuntimeError(f'cv2.remap does not meet its contract: {dt} {ip} {dst}')
