"""C22: footprints are the projected image boundary; horizon views are rejected."""
import itertools
import math
import random
import types
import warnings

import numpy as np
import z3

from .. import arr as A
from .. import shims as H
from .. import sym as S
from ..runner import Fail, Prop, Skip, call
from . import c19
from .c01 import rand_cam, spec_pixel, sym_cam
from .c02 import rand_lens
from .c03 import rand_rpc

prop = Prop('C22')
P = 'orthority/camera.py:'
prop.assume('pixel_to_world_z() is the back-projection of pixels to a height (C01, C02, C04) and _undistort_pixel() the undistorted pixel (C02)',
            'cv2.remap(..., BORDER_TRANSPARENT) writes the interpolated DEM height (NaN next to NaN cells) to points inside the DEM and leaves the others',
            'axis aligned DEM transforms; real arithmetic for coordinates except that DEM coordinates are rounded to float32',
            'rows and columns of the DEM number less than 32767')
PB, WB, PS, HF = P + 'Camera.pixel_boundary', P + 'Camera.world_boundary', P + 'Camera._pixel_to_world_surf', P + 'FrameCamera._horizon_fov'
FPB, FWB = P + 'FrameCamera.pixel_boundary', P + 'FrameCamera.world_boundary'
DEFAULT = [(0, 0), (.5, 0), (1, 0), (1, .5), (1, 1), (.5, 1), (0, 1), (0, .5)]


class Aff(c19.Aff):
    def __mul__(self, o):
        r = super().__mul__(o)
        return Aff(r.a, r.e, r.c, r.f) if isinstance(r, c19.Aff) else r

    @staticmethod
    def translation(x, y):
        return Aff(1.0, 1.0, x, y)

    def __invert__(self):
        return Aff(1 / self.a, 1 / self.e, -self.c / self.a, -self.f / self.e)


def ray(k, j, i, z):
    """Coordinate k of the point at height z on the ray of pixel (j, i)."""
    return S.SReal.of(z) if k == 2 else S.apply(f'ray{k}', S.SReal.of(j), S.SReal.of(i), S.SReal.of(z))


def back_project(self, ji, z):
    ji = A.asarr(ji)
    if ji.ndim != 2:
        raise ValueError('ji should be 2D')
    if isinstance(z, A.SArray):
        S.ctx().__dict__.setdefault('samples', []).append((z.shape[0], z.snap()))
    zf = A.asarr(z).snap() if isinstance(z, A.SArray) else (lambda ix: z)
    f = ji.snap()
    n, m = ji.shape[1], (z.shape[0] if isinstance(z, A.SArray) else 1)
    one = isinstance(n, int) and n == 1
    if isinstance(z, A.SArray) and not one and not A.dim_same(n, m):
        raise ValueError('heights and pixels differ in number')
    out = m if one else n

    def fn(k, ix):
        p = 0 if one else ix[0]
        return ray(k, f((0, p)), f((1, p)), zf((ix[0],)))

    return A.stack([A.SArray.make((out,), A.Fn(lambda ix, k=k: fn(k, ix)), 'float64') for k in range(3)], 0)


def base_cam(L, X, size):
    cam = type('Cam', (L.camera.Camera,), dict(__init__=lambda self: None, world_to_pixel=lambda self, q: None, pixel_to_world_z=back_project))()
    cam._im_size = size
    return cam


def frame_cam(L, X, size, distort=True):
    C = L.camera.FrameCamera
    cam = type('Cam', (C,), dict(__init__=lambda self: None, pixel_to_world_z=back_project, _camera_to_pixel=lambda self, q: None, _pixel_to_camera=lambda self, q: None,
                                 _test_init=lambda self: None))()
    cam._im_size, cam._distort = size, distort
    return cam


def size(X):
    W, Hh = S.integer('W', 1), S.integer('H', 1)
    X.input('W', W), X.input('H', Hh)
    return W, Hh


# ------------------------------------------------------------------------------- pixel boundary
@prop.case('default pixel boundary', [PB], expect=['points', 'number'], replay=lambda R, d: boundary_real(R, int(d['W']), int(d['H']), None))
def default(L, X):
    W, Hh = size(X)
    for none in (None, 0):
        ji = base_cam(L, X, (W, Hh)).pixel_boundary(none) if none is not None else base_cam(L, X, (W, Hh)).pixel_boundary()
        X.require('number', z3.BoolVal(tuple(ji.shape) == (2, 8)))
        for k, (a, b) in enumerate(DEFAULT):
            X.require('points', z3.And(S.SReal.of(ji.at(0, k)).z == a * (S.SReal.of(W).z - 1), S.SReal.of(ji.at(1, k)).z == b * (S.SReal.of(Hh).z - 1)))


@prop.case('pixel boundary', [PB], expect=['evenly-spaced', 'number'], max_secs=200, replay=lambda R, d: boundary_real(R, int(d['W']), int(d['H']), int(d['n'])))
def counted(L, X):
    W, Hh = size(X)
    n = X.input('n', S.integer('n', 1))
    X.assume(S.zb(W + Hh >= 3))
    cnt = []

    def rnd(v, *a, **k):
        if not S.is_sym(v) or a or k:
            raise S.Unsupported('rounding')
        c = S.fresh_int('count', 0)
        X.assume(z3.And(z3.ToReal(c.z) - S.SReal.of(v).z <= z3.Q(1, 2), S.SReal.of(v).z - z3.ToReal(c.z) <= z3.Q(1, 2)))
        cnt.append((S.SReal.of(v), c))
        return S.SReal.mk(z3.ToReal(c.z), False)

    for nm in ('round', 'rint', 'around'):
        setattr(L.np, nm, rnd)
    L.camera.__dict__['round'] = rnd
    ji = base_cam(L, X, (W, Hh)).pixel_boundary(n)
    w, h = S.SReal.of(W) - 1, S.SReal.of(Hh) - 1
    if len(cnt) != 4:
        raise S.Unsupported('rounding of the number of points per side')
    # round(n * side / perimeter) points on each side, evenly spaced from its first corner
    for (v, c), side in zip(cnt, (w, h, w, h)):
        X.require_eq('number', v, S.SReal.of(n) * side / (2 * (w + h)))
    a, b, a2, b2 = [c for v, c in cnt]
    X.assume(z3.And(a.z == a2.z, b.z == b2.z))  # the same value rounded
    X.require('number', z3.And(z3.BoolVal(len(ji.shape) == 2 and ji.shape[0] == 2), S.SInt.of(ji.shape[1]).z == 2 * a.z + 2 * b.z))
    side = X.choose(4)
    lo, m = ((0, a), (a, b), (a + b, a), (a * 2 + b, b))[side]
    p = S.fresh_int('p', 0)
    X.assume(S.zb(p < m))
    j, i = [S.SReal.of(ji.at(k, p + lo)) for k in (0, 1)]
    f = S.SReal.of(p) / S.SReal.of(m)
    e = [(w * f, 0), (w, h * f), (w * (1 - f), h), (0, h * (1 - f))][side]
    X.require_eq('evenly-spaced', j, S.SReal.of(e[0]))
    X.require_eq('evenly-spaced', i, S.SReal.of(e[1]))


@prop.case('frame camera pixel boundary', [FPB], expect=['points'])
def frame_boundary(L, X):
    W, Hh = size(X)
    for distort, n in itertools.product((True, False), (None, 8)):
        cam = frame_cam(L, X, (W, Hh), distort)
        seen = []
        cam._undistort_pixel = lambda ji, clip=False: seen.append((ji, clip)) or 'undistorted'
        ji = cam.pixel_boundary(num_pts=n) if n is None else None
        if n is not None:
            # the base class boundary with the same number of points
            asked = []
            L.camera.Camera.pixel_boundary, old = (lambda self, num_pts=None: asked.append(num_pts) or 'base'), L.camera.Camera.pixel_boundary
            try:
                ji = cam.pixel_boundary(num_pts=n)
            finally:
                L.camera.Camera.pixel_boundary = old
            X.require('points', z3.BoolVal(asked == [n] and (ji == 'base' if distort else ji == 'undistorted' and seen == [('base', True)])))
            continue
        if not distort:
            X.require('points', z3.BoolVal(isinstance(ji, str) and ji == 'undistorted' and len(seen) == 1 and seen[0][1] is True))
            ji = seen[0][0]
        for k, (a, b) in enumerate(DEFAULT):
            X.require('points', z3.And(S.SReal.of(ji.at(0, k)).z == a * (S.SReal.of(W).z - 1), S.SReal.of(ji.at(1, k)).z == b * (S.SReal.of(Hh).z - 1)))


# ------------------------------------------------------------------------------- at a height
def err(f):
    try:
        return None, f()
    except Exception as ex:
        if type(ex).__name__ in ('ValueError', 'OrthorityError'):
            return type(ex).__name__, None
        raise


def corners(X, nm, xyz, size, z):
    W, Hh = [S.SReal.of(v) for v in size]
    X.require(nm, z3.BoolVal(tuple(xyz.shape) == (3, 8)))
    for k, (a, b) in enumerate(DEFAULT):
        for c in range(3):
            X.require(nm, S.SReal.of(xyz.at(c, k)).z == ray(c, a * (W - 1), b * (Hh - 1), z).z)


REAL = lambda R, d: [world_real(R, random.Random(i)) for i in range(12)] + [surf_real(R, random.Random(i)) for i in range(12)]


@prop.case('world boundary', [WB, FWB], expect=['back-projection', 'horizon', 'invalid-z'], replay=REAL)
def world(L, X):
    sz = size(X)
    z, cz = S.real('z'), S.real('camera_z')
    corners(X, 'back-projection', base_cam(L, X, sz).world_boundary(z), sz, z)
    for clip, hor in itertools.product((None, True, False), (True, False)):
        cam = frame_cam(L, X, sz)
        cam._horizon_fov = lambda: hor
        cam._C = A.array([[S.real('camera_x')], [S.real('camera_y')], [cz]])
        pos = (S.real('camera_x'), S.real('camera_y'), cz)
        type(cam).pos = property(lambda self: pos)
        e, xyz = err(lambda: cam.world_boundary(z) if clip is None else cam.world_boundary(z, clip=clip))
        if hor:
            X.require('horizon', z3.BoolVal(e == 'OrthorityError'))
            continue
        if e:
            X.require('back-projection', z3.BoolVal(False))
            continue
        corners(X, 'back-projection', xyz, sz, z if clip is False else S.SReal(z3.If(z.z <= cz.z, z.z, cz.z)))
        for bad in (A.symarray('z1', (S.integer('n', 1),)), A.symarray('z3', (2, S.integer('n', 1), 3)), None):
            X.require('invalid-z', z3.BoolVal(err(lambda: cam.world_boundary(bad, transform=Aff(S.real('ta'), S.real('te'), 0., 0.)))[0] == 'ValueError'))
        X.require('invalid-z', z3.BoolVal(err(lambda: cam.world_boundary(A.symarray('z2', (S.integer('n', 1), S.integer('m', 1)))))[0] == 'ValueError'))


@prop.case('world boundary on a DEM', [FWB, WB], expect=['surface', 'too-high', 'horizon'], replay=REAL)
def world_dem(L, X):
    sz = size(X)
    cz = S.real('camera_z')
    h, w = S.integer('h', 1), S.integer('w', 1)
    dem = A.symarray('dem', (h, w), 'float32', nan=True)
    T = Aff(S.real('ta'), S.real('te'), S.real('tc'), S.real('tf'))
    for clip, kind in itertools.product((True, False), ('frame', 'frame horizon', 'base')):
        cam = frame_cam(L, X, sz) if kind != 'base' else base_cam(L, X, sz)
        cam._horizon_fov = lambda: kind == 'frame horizon'
        type(cam).pos = property(lambda self: (S.real('camera_x'), S.real('camera_y'), cz))
        seen = []
        cam._pixel_to_world_surf = lambda ji, z, transform, interp=None, min_z=None, max_z=None: seen.append((ji, z, transform, interp, min_z, max_z)) or 'surface'
        e, xyz = err(lambda: cam.world_boundary(dem, transform=T, interp='bilinear', **({} if kind == 'base' else dict(clip=clip))))
        if kind == 'frame horizon':
            X.require('horizon', z3.BoolVal(e == 'OrthorityError' and not seen))
            continue
        i, j = A.generic_idx((h, w), 'q')
        v = dem.at(i, j)
        if e:
            # only when all heights are above the camera
            X.require('too-high', z3.And(z3.BoolVal(e == 'ValueError' and kind != 'base'), z3.Implies(z3.Not(S.zb(v.nan)), v.z > cz.z)))
            continue
        X.require('surface', z3.BoolVal(xyz == 'surface' and len(seen) == 1))
        ji, z, tr, ip, lo, hi = seen[0]
        X.require('surface', z3.BoolVal(z is dem and tr is T and ip == 'bilinear'))
        for k, (a, b) in enumerate(DEFAULT):
            X.require('surface', z3.And(S.SReal.of(ji.at(0, k)).z == a * (S.SReal.of(sz[0]).z - 1), S.SReal.of(ji.at(1, k)).z == b * (S.SReal.of(sz[1]).z - 1)))
        if kind == 'frame':
            # the range is that of the heights (limited to the camera height)
            top = S.SReal.of(hi).z
            X.require('surface', z3.Implies(z3.Not(S.zb(v.nan)), z3.And(S.SReal.of(lo).z <= v.z, z3.Or(v.z <= top, z3.And(z3.BoolVal(clip), top == cz.z)))))
            X.require('surface', S.SReal.of(lo).z <= cz.z)


# ------------------------------------------------------------------------------- on a DEM
def surface_case(L, X, n, given, dtype, interp):
    X.__dict__['samples'], X.__dict__['witness'] = [], []
    L.camera.rio = types.SimpleNamespace(Affine=Aff)
    h, w = S.integer('h', 1), S.integer('w', 1)
    X.assume(z3.And(h.z <= 32767, w.z <= 32767))
    flt = dtype[0] == 'f'
    dem = A.symarray('dem', (h, w), dtype, **(dict(nan=True) if flt else {}))
    ta, te, tc, tf = [S.real(v) for v in ('ta', 'te', 'tc', 'tf')]
    X.assume(z3.And(ta.z != 0, te.z != 0))
    T = Aff(ta, te, tc, tf)
    cam = base_cam(L, X, (S.integer('W', 1), S.integer('H', 1)))
    N = n or S.integer('N', 1)
    ji = A.symarray('ji', (2, N))
    lo = hi = None
    if given:
        lo, hi = S.real('min_z'), S.real('max_z')
        X.assume(lo.z <= hi.z)
    ins = S.ufn('dem_inside', 2, [S._R, S._R], z3.BoolSort())
    isn = S.ufn('dem_nan', 2, [S._R, S._R], z3.BoolSort())
    val = S.ufn('dem_value', 2, [S._R, S._R], S._R)
    srcs = []

    def surf(x, y):
        x, y = S.SReal.of(x).z, S.SReal.of(y).z
        return S.SReal(val(x, y), z3.Or(z3.Not(ins(x, y)), isn(x, y)) if flt else z3.Not(ins(x, y)))

    def remap(src, m1, m2, mode, dst=None, borderMode=0, **k):
        src, m1, m2 = A.asarr(src), A.asarr(m1), A.asarr(m2)
        srcs.append((src, mode))
        fx, fy, old = m1.snap(), m2.snap(), dst.snap()
        if str(m1.dtype) != 'float32' or str(m2.dtype) != 'float32' or borderMode != cv2.BORDER_TRANSPARENT:
            raise S.Unsupported('cv2.remap options')
        if not A.dim_same(dst.shape[0], m1.shape[0]):
            raise S.Unsupported('cv2.remap sizes')

        def fn(ix):
            x, y = S.SReal.of(fx(ix)), S.SReal.of(fy(ix))
            v = surf(x, y)
            inside = S.SBool(ins(x.z, y.z))
            if str(dst.dtype)[0] != 'f':
                return S.ite(inside, S.SInt(S.ufn('dem_int', 2, [S._R, S._R], S._I)(x.z, y.z)), old(ix))
            return S.ite(inside, S.SReal(v.z, isn(x.z, y.z) if flt else False), old(ix))

        dst[...] = A.SArray.make(dst.shape, A.Fn(fn), dst.dtype)
        return dst

    import cv2

    L.cv2.remap = remap
    rounds = []
    done = []
    if n is None:
        def gen(rs, tup=False):
            p = A.generic_idx([rs[0].n])[0]
            done.append(p)
            yield rs[0].at(p)

        X.generic = gen
    e, xyz = err(lambda: cam._pixel_to_world_surf(ji, dem, T, interp=interp if isinstance(interp, str) else L.enums.Interp[interp[0]], min_z=lo, max_z=hi))
    X.generic = None
    if e:
        X.require('first-at-or-below-surface', z3.BoolVal(False))
        return
    nm = interp if isinstance(interp, str) else interp[0]
    mode = getattr(cv2, {'nearest': 'INTER_NEAREST', 'bilinear': 'INTER_LINEAR', 'cubic': 'INTER_CUBIC'}[nm])
    X.require('shape', z3.And(z3.BoolVal(len(xyz.shape) == 2 and xyz.shape[0] == 3), S.zb(xyz.shape[1] == N)))
    p = done[0] if done else None
    for q in ([p] if n is None else range(n)):
        j, i = ji.at(0, q), ji.at(1, q)
        got = [S.SReal.of(xyz.at(c, q)) for c in range(3)]
        zz = got[2]
        X.assume(z3.And(*[z3.Not(S.zb(r.nan)) for r in (ji.at(0, q), ji.at(1, q))]))
        X.require('on-the-ray', z3.And(*[got[c].z == ray(c, j, i, zz).z for c in range(3)], *[z3.Not(S.zb(g.nan)) for g in got]))
        if not given:
            a, b = A.generic_idx((h, w), 'q')
            v = S.SReal.of(dem.at(a, b))
        # samples: the first and last heights and their number
        first, last = (hi, lo) if given else (None, None)
        dj = lambda x: S.rnd32((S.SReal.of(x) - tc) / ta - .5)
        di = lambda y: S.rnd32((S.SReal.of(y) - tf) / te - .5)
        s = surf(dj(got[0]), di(got[1]))
        below = z3.And(z3.Not(S.zb(s.nan)), zz.z <= s.z)
        if given:
            X.require('in-height-range', z3.And(zz.z >= lo.z, zz.z <= hi.z))
            # the samples before the result are above the surface: heights from max_z to min_z with (x, y) steps of a DEM pixel or less, and at least 2 points
            dx = (ray(0, j, i, lo) - ray(0, j, i, hi)) / ta
            dy = (ray(1, j, i, lo) - ray(1, j, i, hi)) / te
            mx = S.smax(abs(dx), abs(dy))
            m = S.ite(mx <= 0, 1, S.ceil(mx))
            m = S.SReal.of(m)
            X.assume(m.z <= 32766)
            sam = X.__dict__.get('samples', [])
            wit = [(o, f) for o, f in X.__dict__.get('witness', [])]
            if len(sam) != (n or 1):
                raise S.Unsupported('another way to sample rays')
            num, fz = sam[q if n else 0]
            X.require_eq('sampling', S.SReal.of(num) - 1, m)
            M = S.SReal.of(num) - 1
            k = S.fresh_int('k', 0)
            zk = S.SReal.of(fz((k,)))
            X.require('sampling', z3.Implies(S.zb(k < num), zk.z == hi.z + (lo.z - hi.z) * z3.ToReal(k.z) / M.z))
            sk = surf(dj(ray(0, j, i, zk)), di(ray(1, j, i, zk)))
            above = z3.Or(S.zb(sk.nan), zk.z > sk.z)
            f = [f for o, f in wit]
            if n and n > 1 and len(wit) != n:
                continue  # mixed results: covered by the single point case
            X.instantiate(k.z)
            if f:
                f = f[q] if n else f[0]
                X.require('first-at-or-below-surface', z3.And(S.zb(f < num), zz.z == S.SReal.of(fz((f,))).z))
                X.require('first-at-or-below-surface', below)
                X.require('first-at-or-below-surface', z3.Implies(S.zb(k < f), above))
            else:
                X.require('first-at-or-below-surface', zz.z == lo.z)
                X.require('first-at-or-below-surface', z3.Implies(S.zb(k < num), above))
        else:
            X.require('first-at-or-below-surface', z3.Or(below, z3.Implies(z3.Not(S.zb(v.nan)), zz.z <= v.z)))
    for src, md in srcs:
        X.require('interpolation', z3.BoolVal(md == mode))
        a, b = A.generic_idx((h, w), 'q')
        X.require('interpolation', z3.And(S.SReal.of(src.at(a, b)).z == S.SReal.of(dem.at(a, b)).z, S.zb(src.shape[0] == h), S.zb(src.shape[1] == w)))


for _c in ((1, True, 'float32', 'bilinear'), (2, True, 'float32', ('cubic',)), (None, True, 'float32', ('nearest',)), (1, False, 'float64', ('bilinear',)), (1, True, 'int16', 'cubic'), (1, True, 'uint8', ('bilinear',))):
    prop.case('surface intersection[{} points,{} range,{},{}]'.format(_c[0] or 'any number of', 'given' if _c[1] else 'DEM', _c[2], _c[3]), [PS], expect=['on-the-ray', 'first-at-or-below-surface', 'shape', 'interpolation'], max_secs=250, tier='thorough' if _c[0] == 2 else 'quick',
              replay=REAL)(lambda L, X, c=_c: surface_case(L, X, *c))


@prop.case('surface types', [PS], expect=['rejected'])
def types_(L, X):
    L.camera.rio = types.SimpleNamespace(Affine=Aff)
    cam = base_cam(L, X, (10, 8))
    h, w = S.integer('h', 1), S.integer('w', 1)
    T = Aff(S.real('ta'), S.real('te'), 0., 0.)
    ji = A.symarray('ji', (2, 1))
    for dt in ('int32', 'uint32', 'int64', 'float16'):
        X.require('rejected', z3.BoolVal(err(lambda: cam._pixel_to_world_surf(ji, A.symarray('dem', (4, 4), dt), T))[0] == 'ValueError'))
    for sh in ((32768, w), (h, 32768)):
        X.require('rejected', z3.BoolVal(err(lambda: cam._pixel_to_world_surf(ji, A.symarray('dem', sh, 'float32'), T))[0] == 'ValueError'))


# ------------------------------------------------------------------------------- horizon
@prop.case('horizon', [HF, P + 'FrameCamera._pixel_to_camera', P + 'FrameCamera._get_extrinsic'], expect=['any-boundary-ray', 'number-of-rays'], max_secs=200, replay=lambda R, d: [horizon_real(R, random.Random(i)) for i in range(200)])
def horizon(L, X):
    W, Hh = size(X)
    for up in [None] + list(range(8)):
        cam = frame_cam(L, X, (W, Hh))
        rot = A.symarray('R', (3, 3))
        cam._R = rot
        pts = []

        def p2c(ji):
            pts.append(ji)
            return A.symarray('dir', (3, ji.shape[1]))

        cam._pixel_to_camera = p2c
        r = cam._horizon_fov()
        X.require('number-of-rays', z3.BoolVal(len(pts) == 1 and tuple(pts[0].shape) == (2, 8)))
        for k, (a, b) in enumerate(DEFAULT):
            X.require('number-of-rays', z3.And(S.SReal.of(pts[0].at(0, k)).z == a * (S.SReal.of(W).z - 1), S.SReal.of(pts[0].at(1, k)).z == b * (S.SReal.of(Hh).z - 1)))
        d = A.symarray('dir', (3, 8))
        z = [z3.Sum([S.SReal.of(rot.at(2, c)).z * S.SReal.of(d.at(c, k)).z for c in range(3)]) for k in range(8)]
        X.require('any-boundary-ray', S.zb(r) == z3.Or([v >= 0 for v in z]))
        break


for _fk, _sk in (('pair', True), ('scalar', False)):
    @prop.case(f'no ray above the horizon[pinhole,{_fk}-focal]', [HF, FWB, P + 'FrameCamera._pixel_to_camera'], expect=['every-pixel-looks-down', 'height-affine'], max_secs=250,
               replay=lambda R, d: [horizon_real(R, random.Random(i)) for i in range(200)])
    def looks_down(L, X, fk=_fk, sk=_sk):
        cam, d = sym_cam(L, X, fk, sk, False, False)
        hor = cam._horizon_fov()
        if bool(hor if isinstance(hor, bool) else S.SBool(S.zb(hor))):
            X.require('height-affine', z3.BoolVal(True))
            return
        # any pixel of the image, as a combination of the corners
        s, t = S.real('s'), S.real('t')
        X.assume(z3.And(s.z >= 0, s.z <= 1, t.z >= 0, t.z <= 1))
        ji = A.array([[0, d['W'] - 1, d['W'] - 1, 0, s * (d['W'] - 1)], [0, 0, d['H'] - 1, d['H'] - 1, t * (d['H'] - 1)]])
        c = cam._pixel_to_camera(ji)
        z = [S.SReal.of(cam._R.dot(c).at(2, k)) for k in range(5)]
        mix = (1 - s) * (1 - t) * z[0] + s * (1 - t) * z[1] + s * t * z[2] + (1 - s) * t * z[3]
        X.require_eq('every-pixel-is-a-mix', z[4], mix)
        neg = [z3.Real(f'zc{k}') for k in range(4)]
        m = (1 - s.z) * (1 - t.z) * neg[0] + s.z * (1 - t.z) * neg[1] + s.z * t.z * neg[2] + (1 - s.z) * t.z * neg[3]
        # lemma: a mix of negative numbers is negative
        lem = z3.Implies(z3.And(*[v < 0 for v in neg]), m < 0)
        X.require('every-pixel-looks-down', lem)
        for k in range(4):
            X.require('corners-look-down', z[k].z < 0)
        # each point of the boundary moves affinely with the height
        n = A.generic_idx([5])[0]
        za, zb_ = S.real('za'), S.real('zb')
        lam = S.real('lam')
        X.assume(z3.And(za.z != d['xyz'][2].z, zb_.z != d['xyz'][2].z))
        q = A.array([[S.real('j')], [S.real('i')]])
        pa, pb, pm = [cam.pixel_to_world_z(q, v) for v in (za, zb_, lam * za + (1 - lam) * zb_)]
        for k in range(2):
            X.require_eq('height-affine', pm.at(k, 0), lam * pa.at(k, 0) + (1 - lam) * pb.at(k, 0))


# ------------------------------------------------------------------------------- run time
def on_border(ji, W, Hh):
    j, i = ji
    return (-1e-9 <= j <= W - 1 + 1e-9 and -1e-9 <= i <= Hh - 1 + 1e-9 and min(abs(j), abs(j - W + 1), abs(i), abs(i - Hh + 1)) < 1e-9)


def boundary_real(R, W, Hh, n):
    cam = R.camera.PinholeCamera((W, Hh), 1., sensor_size=(1., 1.))
    ji = call(cam.pixel_boundary) if n is None else call(cam.pixel_boundary, n)
    if n is None:
        exp = np.array([(a * (W - 1), b * (Hh - 1)) for a, b in DEFAULT], float).T
        if ji.shape != exp.shape or not np.allclose(ji, exp):
            raise Fail(f'default boundary of a {W} x {Hh} image is {ji.T.tolist()}')
        return
    w, h = W - 1, Hh - 1
    c = [n * v / (2 * (w + h)) for v in (w, h)]
    alts = []
    for a, b in itertools.product(*[{math.floor(v + .5), math.ceil(v - .5)} for v in c]):
        alts.append([(w * k / a, 0) for k in range(a)] + [(w, h * k / b) for k in range(b)] + [(w - w * k / a, h) for k in range(a)] + [(0, h - h * k / b) for k in range(b)])
    if not any(len(e) == ji.shape[1] and (not e or np.allclose(np.array(e).T, ji)) for e in alts):
        raise Fail(f'boundary of a {W} x {Hh} image with {n} points is {ji.T.tolist()}, not evenly spaced points on the border')


@prop.fuzz('pixel-boundary', 600, 8000, 30, [PB])
def f_boundary(R, rng, i):
    W, Hh = [rng.choice([1, 2, 3, rng.randrange(1, 50), rng.randrange(1, 5000)]) for _ in range(2)]
    n = rng.choice([None, None, rng.randrange(1, 12), rng.randrange(1, 300)])
    if n is not None and W + Hh < 3:
        raise Skip()
    boundary_real(R, W, Hh, n)


def mk_cam(R, rng, distort=True, tilt=.25, W=None, Hh=None):
    W, Hh = W or rng.randrange(60, 300), Hh or rng.randrange(60, 300)
    ct = rng.choice(['pinhole', 'brown', 'opencv', 'fisheye'])
    kw = {}
    if ct in ('brown', 'opencv'):
        kw = dict(k1=rng.uniform(-.04, .04), k2=rng.uniform(-.01, .01), p1=rng.uniform(-.003, .003), p2=rng.uniform(-.003, .003))
    elif ct == 'fisheye':
        kw = dict(k1=rng.uniform(-.03, .03), k2=rng.uniform(-.01, .01))
    xyz = (rng.uniform(-100, 100), rng.uniform(-100, 100), rng.uniform(80, 200))
    opk = (rng.uniform(-tilt, tilt), rng.uniform(-tilt, tilt), rng.uniform(-3.1, 3.1))
    return R.camera.create_camera(ct, (W, Hh), rng.uniform(.9, 1.6), sensor_size=(1., Hh / W), xyz=xyz, opk=opk, distort=distort, **kw)


def horizon_real(R, rng):
    """A camera raises an error if and only if one of its 8 boundary rays is level or looks up."""
    W, Hh = rng.randrange(20, 300), rng.randrange(20, 300)
    f = rng.uniform(.4, 1.6)
    opk = [rng.choice([rng.uniform(-.4, .4), rng.uniform(-2., 2.), 0., math.pi / 2]) for _ in range(2)] + [rng.uniform(-3, 3)]
    cx, cy = rng.uniform(-.1, .1), rng.uniform(-.1, .1)
    xyz = (rng.uniform(-9, 9), rng.uniform(-9, 9), rng.uniform(50, 100))
    cam = R.camera.PinholeCamera((W, Hh), f, sensor_size=(1., Hh / W), cx=cx, cy=cy, xyz=xyz, opk=opk)
    from .c05 import opk_mat

    Rm = np.array(opk_mat(*opk), float)
    fp, mx = f * W, max(W, Hh)
    zz = []
    for a, b in DEFAULT:
        j, i = a * (W - 1), b * (Hh - 1)
        dirc = np.array([(j - (W - 1) / 2 - cx * mx) / fp, -(i - (Hh - 1) / 2 - cy * mx) / fp, -1.])
        zz.append(float((Rm @ dirc)[2]))
    if min(abs(v) for v in zz) < 1e-6:
        raise Skip()
    want = max(zz) >= 0
    try:
        call(cam.world_boundary, 0., allow_=(R.errors.OrthorityError,))
        got = False
    except R.errors.OrthorityError:
        got = True
    if got != want:
        raise Fail(f'camera with boundary ray slopes {np.round(zz, 3).tolist()} {"is rejected" if got else "is not rejected"}', dict(opk=opk, f=f, im_size=(W, Hh)))


@prop.fuzz('horizon-real', 500, 6000, 30, [HF, FWB])
def f_horizon(R, rng, i):
    horizon_real(R, rng)


def world_real(R, rng):
    rpc = rng.random() < .2
    if rpc:
        r = rand_rpc(rng, cubic_terms=False)
        r = r[0] if isinstance(r, tuple) else r
        cam = R.camera.RpcCamera((500, 400), r)
        ji = np.array([(a * 499, b * 399) for a, b in DEFAULT], float).T
        z = r['height_off'] + rng.uniform(-.5, .5) * r['height_scale']
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            got = call(cam.world_boundary, z)
            exp = cam.pixel_to_world_z(ji, z)
        if got.shape != (3, 8) or not np.allclose(got, exp, rtol=0, atol=1e-7, equal_nan=True):
            raise Fail('RPC world boundary is not the back-projected boundary')
        return
    cam = mk_cam(R, rng, distort=rng.random() < .6)
    z = rng.choice([rng.uniform(-50, 70), cam.pos[2] + rng.uniform(.1, 50), cam.pos[2] - .01, 0, 7])
    clip = rng.choice([None, True, False])
    if clip is False and z >= cam.pos[2]:
        raise Skip()
    n = rng.choice([None, 16])
    try:
        got = call(cam.world_boundary, z, **({} if n is None else dict(num_pts=n)), **({} if clip is None else dict(clip=clip)), allow_=(R.errors.OrthorityError,))
    except R.errors.OrthorityError:
        raise Skip()
    zz = min(z, cam.pos[2])
    ji = cam.pixel_boundary(n) if n else cam.pixel_boundary()
    exp = cam.pixel_to_world_z(ji, zz)
    if not np.allclose(got, exp, rtol=0, atol=1e-6):
        raise Fail(f'world boundary at z={z} for a camera at {cam.pos[2]} is not the boundary at {zz}')


@prop.fuzz('world-boundary', 300, 4000, 30, [FWB, WB])
def f_world(R, rng, i):
    world_real(R, rng)


def bilinear(z, c, r):
    h, w = z.shape
    if not (0 <= c <= w - 1 and 0 <= r <= h - 1):
        return math.nan
    c0, r0 = min(int(c), w - 2) if w > 1 else 0, min(int(r), h - 2) if h > 1 else 0
    c1, r1 = min(c0 + 1, w - 1), min(r0 + 1, h - 1)
    a, b = c - c0, r - r0
    return float((1 - b) * ((1 - a) * z[r0, c0] + a * z[r0, c1]) + b * ((1 - a) * z[r1, c0] + a * z[r1, c1]))


def surf_real(R, rng):
    import rasterio as rio

    cam = mk_cam(R, rng, distort=rng.random() < .7, tilt=rng.choice([0., .05, .25, .5]))
    if rng.random() < .3:
        cam = R.camera.PinholeCamera((101, 81), 1., sensor_size=(1., .8), xyz=(rng.uniform(-9, 9), rng.uniform(-9, 9), 100.), opk=(0., 0., rng.uniform(-3, 3)))
    res = rng.choice([2., 5., 10.])
    ext = rng.choice([150., 400.])
    n = int(2 * ext / res)
    yy, xx = np.mgrid[:n, :n] * res
    kind = rng.choice(['flat', 'slope', 'hills', 'steps', 'holes', 'tower'])
    z = np.zeros((n, n)) + rng.uniform(-20, 20)
    if kind == 'slope':
        z = z + xx * rng.uniform(-.05, .05) + yy * rng.uniform(-.05, .05)
    elif kind in ('hills', 'holes'):
        z = z + 10 * np.sin(xx / rng.uniform(20, 60)) * np.cos(yy / rng.uniform(20, 60))
    elif kind == 'steps':
        z = z + 15. * ((xx // 40 + yy // 60) % 2)
    elif kind == 'tower':
        z[rng.randrange(n), rng.randrange(n)] += 40
    dt = rng.choice(['float32', 'float32', 'float64', 'int16'])
    z = np.round(z).astype(dt) if dt == 'int16' else z.astype(dt)
    if kind == 'holes' and dt != 'int16':
        z[rng.randrange(n - 8):, rng.randrange(n - 8):] = math.nan
    tr = rio.Affine(res, 0, cam.pos[0] - ext + rng.uniform(-60, 60), 0, -res, cam.pos[1] + ext + rng.uniform(-60, 60))
    kw = rng.choice([dict(interp='bilinear'), dict(interp=R.enums.Interp.bilinear)])
    z0 = z.copy()
    direct = rng.random() < .4
    if direct:
        ji = np.array([[rng.uniform(0, cam.im_size[0] - 1) for _ in range(4)] + [(cam.im_size[0] - 1) / 2], [rng.uniform(0, cam.im_size[1] - 1) for _ in range(4)] + [(cam.im_size[1] - 1) / 2]])
        f = getattr(cam, '_pixel_to_world_surf', None)
        if f is None:
            raise Skip()
    try:
        if direct:
            got = call(f, ji, z, tr, **kw)
        else:
            got = call(cam.world_boundary, z, transform=tr, **kw, allow_=(R.errors.OrthorityError,))
            ji = cam.pixel_boundary()
    except R.errors.OrthorityError:
        raise Skip()
    if not np.array_equal(z, z0, equal_nan=True):
        raise Fail('the DEM was modified')
    zf = z.astype(float)
    lo, hi = float(np.nanmin(zf)), float(np.nanmax(zf))
    if not direct:
        hi = min(hi, cam.pos[2])
    for p in range(ji.shape[1]):
        q = ji[:, p:p + 1]
        a, b = cam.pixel_to_world_z(q, hi)[:2, 0], cam.pixel_to_world_z(q, lo)[:2, 0]
        m = max(int(math.ceil(np.abs((b - a) / res).max() - 1e-9)), 1)
        ok = []
        for mm in {m, max(int(math.ceil(np.abs((b - a) / res).max() + 1e-9)), 1)}:
            ray_ = cam.pixel_to_world_z(q, np.linspace(hi, lo, mm + 1))
            s = [bilinear(zf, *(~(tr * rio.Affine.translation(.5, .5)) * ray_[:2, k])) for k in range(mm + 1)]
            tol = .05 + .1 * (np.nanmax(zf) - np.nanmin(zf)) * (1 if kind in ('steps', 'tower', 'holes') else .2)
            for k in range(mm + 1):
                # ambiguous at the edge of the DEM and of holes, and within the precision of cv2.remap()
                c, r_ = ~(tr * rio.Affine.translation(.5, .5)) * ray_[:2, k]
                if k == mm or (s[k] is not math.nan or -1 < c < n and -1 < r_ < n) and not ray_[2, k] > s[k] + tol:
                    ok.append(ray_[:, k])
                if s[k] == s[k] and ray_[2, k] <= s[k] - tol and .01 < c < n - 1.01 and .01 < r_ < n - 1.01:
                    break
        if not any(np.allclose(got[:, p], e, rtol=0, atol=1e-4) for e in ok):
            raise Fail(f'pixel {ji[:, p].tolist()} meets the {kind} DEM at {got[:, p].tolist()}, expected one of {[np.round(e, 3).tolist() for e in ok[:3]]}', dict(res=res, kind=kind, dtype=dt, pos=list(map(float, cam.pos))))


@prop.fuzz('surface', 250, 3000, 60, [PS, FWB])
def f_surf(R, rng, i):
    surf_real(R, rng)


def wall_real(R, rng):
    """A wall, or the edge of a plateau, across the rays is found within one DEM pixel, on rays of any length."""
    import rasterio as rio

    rx, ry = rng.choice([(1., 1.), (1., 4.), (5., 1.), (2., 3.)])
    axis = rng.randrange(2)     # the wall is crossed along x or y
    top = rng.choice([30., 200., 900., rng.uniform(20, 60)])
    W, Hh = 60, 50
    opk = [0., 0., 0.]
    sgn = rng.choice([-1, 1])
    opk[1 - axis] = sgn * rng.uniform(.55, .8)
    hgt = top + rng.uniform(20, 100)
    cam = R.camera.PinholeCamera((W, Hh), 1.6, sensor_size=(1., Hh / W), xyz=(0., 0., hgt), opk=tuple(opk))
    ji = cam.pixel_boundary()
    a, b = cam.pixel_to_world_z(ji, top), cam.pixel_to_world_z(ji, 0.)
    res = (rx, ry)
    n = np.abs((b - a)[:2] / np.array(res)[:, None])
    lo, hi = np.minimum(a, b).min(axis=1), np.maximum(a, b).max(axis=1)
    org = [lo[0] - 20 * rx, hi[1] + 20 * ry]
    w, h = int((hi[0] - lo[0]) / rx) + 40, int((hi[1] - lo[1]) / ry) + 40
    if w > 3000 or h > 3000 or w * h > 4e6:
        raise Skip()
    tr = rio.Affine(rx, 0, org[0], 0, -ry, org[1])
    px = lambda p: np.array([(p[0] - org[0]) / rx, (org[1] - p[1]) / ry])
    pa, pb = px(a), px(b)
    # a wall between where the rays start and where they end
    s, e = (pa[axis].max(), pb[axis].min()) if pb[axis, 0] > pa[axis, 0] else (pb[axis].max(), pa[axis].min())
    if e - s < 12:
        raise Skip()
    at = int(rng.uniform(s + 4, e - 5))
    up = pb[axis, 0] > pa[axis, 0]
    thick = rng.choice([1, 1, 3, None])
    z = np.zeros((h, w), rng.choice(['float32', 'float64', 'int16', 'uint8']))
    if z.dtype.kind in 'iu':
        top_ = math.floor(top)
        if top_ > np.iinfo(z.dtype).max or top_ != top:
            raise Skip()
    sl = slice(at, at + thick) if thick else slice(at, None) if up else slice(0, at + 1)
    z[(slice(None), sl) if axis == 0 else (sl, slice(None))] = top
    z[2, 2] = top   # the maximum is part of the DEM wherever the wall is
    top = float(z.max())
    got = call(cam.world_boundary, z, transform=tr, interp='nearest')
    pg = px(got)
    for k in range(8):
        steps = max(n[0, k], n[1, k])
        if steps < 3 or math.ceil(steps) / steps < 1.04 and thick == 1 or n[axis, k] < .9 * steps:
            continue
        first = at if up else (at + 1 if thick is None else at + thick)   # the edge that the ray meets
        past = (pg[axis, k] - first) * (1 if up else -1)
        if not -.1 <= past <= 1.1:
            raise Fail(f'ray {k} over {steps:.1f} DEM pixels meets the wall at {first} (axis {axis}) but the footprint is at {pg[axis, k]:.2f}', dict(res=res, top=top, opk=opk, thick=thick))


@prop.fuzz('walls', 900, 9000, 60, [PS, FWB])
def f_wall(R, rng, i):
    wall_real(R, rng)
