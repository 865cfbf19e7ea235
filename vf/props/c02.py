"""C02: lens distortion models."""
import math

import cv2
import numpy as np
import z3

from .. import arr as A
from .. import shims as SH
from .. import sym as S
from ..runner import Fail, Prop, Skip, call
from . import c01

prop = Prop('C02')
P = 'orthority/camera.py:'
FN = [P + f for f in ('BrownCamera.__init__', 'BrownCamera._camera_to_pixel', 'OpenCVCamera.__init__', 'OpenCVCamera._camera_to_pixel',
                      'OpenCVCamera._pixel_to_camera', 'FisheyeCamera.__init__', 'FisheyeCamera._camera_to_pixel', 'FisheyeCamera._pixel_to_camera',
                      'FrameCamera.world_to_pixel', 'FrameCamera.pixel_to_world_z')]
FU = [P + f for f in ('FrameCamera.alpha', 'FrameCamera.distort', 'FrameCamera._camera_to_pixel', 'FrameCamera._pixel_to_camera')]
FM = [P + f for f in ('FrameCamera._undistort_im', 'OpenCVCamera._get_undistort_maps', 'FisheyeCamera._get_undistort_maps', 'FrameCamera._distort_pixel')]
FP = [P + f for f in ('FrameCamera._undistort_pixel', 'FrameCamera._distort_pixel')]

NAMES = dict(
    OpenCVCamera=['k1', 'k2', 'p1', 'p2', 'k3', 'k4', 'k5', 'k6', 's1', 's2', 's3', 's4', 'tx', 'ty'],
    BrownCamera=['k1', 'k2', 'p1', 'p2', 'k3'],
    FisheyeCamera=['k1', 'k2', 'k3', 'k4'],
)


# ------------------------------------------------------------------------------------- specification
def distort(cls, x, y, d, sin, cos, atan, sqrt):
    """Published distortion equations; d maps coefficient names to values."""
    if cls == 'FisheyeCamera':
        r = sqrt(x * x + y * y)
        t = atan(r)
        t2 = t * t
        td = t + d['k1'] * t * t2 + d['k2'] * t * t2 * t2 + d['k3'] * t * t2 * t2 * t2 + d['k4'] * t * t2 * t2 * t2 * t2
        return x * td / r, y * td / r
    if cls == 'BrownCamera':
        r2 = x * x + y * y
        rad = 1 + d['k1'] * r2 + d['k2'] * r2 * r2 + d['k3'] * r2 * r2 * r2
        return (x * rad + 2 * d['p1'] * x * y + d['p2'] * (r2 + 2 * x * x), y * rad + d['p1'] * (r2 + 2 * y * y) + 2 * d['p2'] * x * y)
    return SH.opencv_distort(x, y, [d[n] for n in NAMES[cls]], sin, cos)


def cam_xy(X, T, opk, sin, cos):
    """Ray of a world point in normalised camera axes: x right, y down, z forwards."""
    u, v, w = c01.spec_uvw(X, T, opk, sin, cos)
    return u / (-w), v / w, -w


def sym_coeffs(X, cls, nz):
    """Coefficients; nz: how many leading ones may be other than zero."""
    return {n: (S.real(n) if k < nz else 0.0) for k, n in enumerate(NAMES[cls])}


def stub_undistort(L, X, record=None):
    """Contract of _get_undistort_intrinsic used by its callers: an upper triangular matrix that depends on
    the interior parameters (fixed here) and alpha."""

    def f(self, alpha):
        a = S.SReal.of(alpha)
        if record is not None:
            record.append(a)
        e = und_k(alpha)
        K = A.array([[e[0], 0, e[2]], [0, e[1], e[3]], [0, 0, 1]])
        return K, A.inv(K)

    L.camera.FrameCamera._get_undistort_intrinsic = f


def und_k(alpha):
    e = [S.apply(n, S.SReal.of(alpha)) for n in ('ufx', 'ufy', 'ucx', 'ucy')]
    for v in e[:2]:
        S.ctx().assume(v > 0)
    return e


def make(L, X, cls, nz, **kw):
    stub_undistort(L, X)
    L.camera.cv2.remaps.clear()
    d = sym_coeffs(X, cls, nz)
    if nz == 14:
        X.assume(z3.Or(d['tx'].z != 0, d['ty'].z != 0))
    cam, g = c01.sym_cam(L, X, 'pair', True, cls=cls, **d, **kw)
    # C01 has the pose; here the camera looks down from the origin, and world points are at z = -1
    cam.update((0.0, 0.0, 0.0), (0.0, 0.0, 0.0))
    X.assume(z3.And(g['W'].z < 32767, g['H'].z < 32767))
    return cam, g, d


def K_of(g):
    return g['fp'], ((g['W'] - 1) / 2 + g['mx'] * g['cxy'][0], (g['H'] - 1) / 2 + g['mx'] * g['cxy'][1])


def rays(N, n):
    xy = A.symarray('xy', (2, N))
    xyz = A.stack([xy[0], -xy[1], A.full((N,), -1.0, 'float64')])
    return xyz, xy.at(0, n), xy.at(1, n)


def mk(cls, nz):
    tag = f'{cls},{nz} coefficients'

    @prop.case(f'distort[{tag}]', FN, expect=['column', 'row'], max_secs=200)
    def project(L, X):
        cam, g, d = make(L, X, cls, nz)
        N = S.integer('N', 1)
        n = A.generic_idx([N])[0]
        xyz, x, y = rays(N, n)
        if cls == 'FisheyeCamera':
            X.assume(z3.Or(x.z != 0, y.z != 0))
        u, v = distort(cls, x, y, d, S.sin, S.cos, S.arctan, S.sqrt)
        (fx, fy), (cx, cy) = K_of(g)
        ji = cam.world_to_pixel(xyz)
        X.require_eq('column', ji.at(0, n), fx * u + cx, defined=True)
        X.require_eq('row', ji.at(1, n), fy * v + cy, defined=True)

    if nz == len(NAMES[cls]):
        @prop.case(f'undistort-ray[{tag}]', FN, expect=['x', 'y', 'height'])
        def ray(L, X):
            cam, g, d = make(L, X, cls, nz)
            N = S.integer('N', 2)
            ji = A.symarray('ji', (2, N))
            n = A.generic_idx([N])[0]
            xyz = cam.pixel_to_world_z(ji, -1.0)
            x, y = xyz.at(0, n), -xyz.at(1, n)
            (fx, fy), (cx, cy) = K_of(g)
            fam = 'fe' if cls == 'FisheyeCamera' else 'cv'
            dd = [d[k] for k in NAMES[cls]]
            if fam == 'cv':
                dd = dd + [0] * (14 - len(dd))
            a = [ji.at(0, n), ji.at(1, n), fx, fy, cx, cy] + dd
            X.require_eq('x', x, S.apply(fam + '_undist_x', *a), defined=True)
            X.require_eq('y', y, S.apply(fam + '_undist_y', *a), defined=True)
            X.require_eq('height', xyz.at(2, n), S.SReal.of(-1.0), defined=True)


for _c, _ns in (('BrownCamera', (0, 5)), ('FisheyeCamera', (0, 2, 4)), ('OpenCVCamera', (0, 4, 5, 8, 12, 14))):
    for _n in _ns:
        mk(_c, _n)


def mk2(cls):
    nz = len(NAMES[cls]) if cls != 'OpenCVCamera' else 4

    for hist in ('init', 'set-alpha', 'set-distort', 'set-both'):
        @prop.case(f'no-distort[{cls},{hist}]', FN + FU, expect=['column', 'row', 'round-trip-column', 'round-trip-row', 'alpha'])
        def nd(L, X, hist=hist):
            a0, a1 = S.real('alpha'), S.real('alpha2')
            cam, g, d = make(L, X, cls, nz, distort=hist in ('set-distort', 'set-both'), alpha=a0)
            alpha = a0
            if hist in ('set-distort', 'set-both'):
                cam.distort = False
            if hist in ('set-alpha', 'set-both'):
                cam.alpha = a1
                alpha = a1
            X.require_eq('alpha', cam.alpha, alpha)
            fx, fy, cx, cy = und_k(alpha)
            N = S.integer('N', 2)
            n = A.generic_idx([N])[0]
            xyz, x, y = rays(N, n)
            ji = cam.world_to_pixel(xyz)
            X.require_eq('column', ji.at(0, n), fx * x + cx)
            X.require_eq('row', ji.at(1, n), fy * y + cy)
            pj = A.symarray('ji', (2, N))
            back = cam.world_to_pixel(cam.pixel_to_world_z(pj, -1.0))
            X.require_eq('round-trip-column', back.at(0, n), pj.at(0, n), defined=True)
            X.require_eq('round-trip-row', back.at(1, n), pj.at(1, n), defined=True)

    for clip in (False, True):
        @prop.case(f'undistort-pixel[{cls},{"clipped" if clip else "not clipped"}]', FP, expect=['column', 'row', 'distorted-column', 'distorted-row'])
        def up(L, X, clip=clip):
            alpha = S.real('alpha')
            cam, g, d = make(L, X, cls, nz, alpha=alpha)
            fx, fy, cx, cy = und_k(alpha)
            N = S.integer('N', 2)
            n = A.generic_idx([N])[0]
            ji = A.symarray('ji', (2, N))
            # contracts of the two callees (proved by the cases above): pointwise
            cam._pixel_to_camera = lambda q: A.stack([*(A.ew(lambda a, b, k=k: S.apply('ray_' + k, a, b), q[0], q[1], dt='float64') for k in 'xy'), A.full((q.shape[1],), 1.0, 'float64')])
            cam._camera_to_pixel = lambda r: A.stack([A.ew(lambda a, b, k=k: S.apply('pix_' + k, a, b), r[0], r[1], dt='float64') for k in 'ji'])
            x, y = (S.apply('ray_' + k, ji.at(0, n), ji.at(1, n)) for k in 'xy')

            def limit(v, m):
                v, m = S.SReal.of(v).z, S.SReal.of(m).z
                return S.SReal.mk(z3.If(v < 0, z3.RealVal(0), z3.If(v > m - 1, m - 1, v)), False) if clip else S.SReal.mk(v, False)

            und = cam._undistort_pixel(ji, clip=clip)
            X.require_eq('column', und.at(0, n), limit(fx * x + cx, g['W']))
            X.require_eq('row', und.at(1, n), limit(fy * y + cy, g['H']))
            x, y = (S.SReal.of(ji.at(0, n)) - cx) / fx, (S.SReal.of(ji.at(1, n)) - cy) / fy
            dis = cam._distort_pixel(ji, clip=clip)
            X.require_eq('distorted-column', dis.at(0, n), limit(S.apply('pix_j', x, y), g['W']))
            X.require_eq('distorted-row', dis.at(1, n), limit(S.apply('pix_i', x, y), g['H']))

    for hist in ('fresh', 'alpha-changed'):
        @prop.case(f'undistort-image[{cls},{hist}]', FM + FU, expect=['map-column', 'map-row', 'filled', 'unfilled', 'frame', 'source-unchanged'])
        def im(L, X, hist=hist):
            a0, a1 = S.real('alpha'), S.real('alpha2')
            cam, g, d = make(L, X, cls, nz, distort=False, alpha=a0)
            B = S.integer('B', 1)
            img = A.symarray('im', (B, g['H'], g['W']), 'uint16')
            b = A.generic_idx([B])[0]

            def gen(rs, tup=False):
                X.assume(S.zb(b < rs[0].n))
                yield rs[0].at(b)

            X.generic = gen
            alpha = a0
            src0 = img.snap()
            if hist != 'fresh':
                cam._undistort_im(img, nodata=0, interp='cubic')
                cam.alpha = a1
                alpha = a1
            und = cam._undistort_im(img, nodata=0, interp='cubic')
            X.generic = None
            fx, fy, cx, cy = und_k(alpha)
            i, j = A.generic_idx([g['H'], g['W']])
            x, y = (S.SReal.of(j) - cx) / fx, (S.SReal.of(i) - cy) / fy
            if cls == 'FisheyeCamera':
                X.assume(z3.Or(x.z != 0, y.z != 0))
            u, v = distort(cls, x, y, d, S.sin, S.cos, S.arctan, S.sqrt)
            (kx, ky), (px, py) = K_of(g)
            mj, mi = S.rnd32(kx * u + px), S.rnd32(ky * v + py)
            # the maps that filled band b
            src, fj, fi, mode = L.camera.cv2.remaps[-1]
            X.require_eq('map-column', fj((i, j)), mj, defined=True)
            X.require_eq('map-row', fi((i, j)), mi, defined=True)
            ins, val = SH.remap_value(img[b], fj((i, j)), fi((i, j)), cv2.INTER_CUBIC)
            got = und.at(b, i, j)
            X.require('filled', z3.Implies(S.zb(ins), S.SInt.of(got).z == val.z))
            X.require('unfilled', z3.Implies(z3.Not(S.zb(ins)), S.SInt.of(got).z == 0))
            b2 = A.generic_idx([B])[0]
            X.assume(b2.z != b.z)
            X.require('frame', S.zb(und.at(b2, i, j) == 0))
            X.require('source-unchanged', S.zb(img.at(b, i, j) == src0((b, i, j))))


for _c in NAMES:
    mk2(_c)


# ------------------------------------------------------------------------------------------ run time
def rand_coeffs(rng, cls):
    d = {}
    for k in NAMES[cls]:
        s = dict(t=0.05, p=0.02, s=0.02).get(k[0], 0.08)
        if cls == 'OpenCVCamera' and k in ('k4', 'k5', 'k6'):
            s = 0.05
        d[k] = rng.uniform(-s, s) if rng.random() < 0.6 else 0.0
    if rng.random() < 0.3:  # all trailing zero
        n = rng.choice(range(len(NAMES[cls]) + 1))
        for k in NAMES[cls][n:]:
            d[k] = 0.0
    elif rng.random() < 0.4:  # small ones, all or from some point on
        n = rng.choice([0, *range(len(NAMES[cls]))])
        for k in NAMES[cls][n:]:
            d[k] *= 10 ** rng.uniform(-4.5, -0.5)
    return d


def rand_lens(R, rng, cls=None, **kw):
    cls = cls or rng.choice(list(NAMES))
    p = c01.rand_cam(rng)
    W = rng.randint(300, 5000)
    H = int(W * rng.uniform(0.5, 1.5))
    p['im_size'] = (W, H)
    f = rng.uniform(0.9, 2.0)
    p['focal_len'] = f if rng.random() < 0.5 else (f, f * rng.uniform(0.9, 1.1))
    p['sensor_size'] = None if rng.random() < 0.5 else (1.0, H / W * rng.uniform(0.95, 1.05))
    p['cx'], p['cy'] = (rng.uniform(-0.03, 0.03) for _ in range(2))
    p['opk'] = (rng.uniform(-0.2, 0.2), rng.uniform(-0.2, 0.2), rng.uniform(-3, 3))
    p['xyz'] = (rng.uniform(-1e3, 1e3), rng.uniform(-1e3, 1e3), rng.uniform(100, 900))
    d = rand_coeffs(rng, cls)
    return cls, p, d, call(getattr(R.camera, cls), **p, **d, **kw)


def pix(p, d, cls, x, y):
    fx, fy = c01.f_pix(p)
    W, H = p['im_size']
    cx, cy = (W - 1) / 2 + p['cx'] * max(W, H), (H - 1) / 2 + p['cy'] * max(W, H)
    if cls == 'FisheyeCamera' and x == 0 and y == 0:
        return cx, cy
    u, v = distort(cls, x, y, d, math.sin, math.cos, math.atan, math.sqrt)
    return fx * u + cx, fy * v + cy


def world(p, x, y, dist):
    """The world point at camera coordinates (x, y) and distance dist along the viewing axis."""
    o, f, k = p['opk']
    rx = np.array([[1, 0, 0], [0, math.cos(o), -math.sin(o)], [0, math.sin(o), math.cos(o)]])
    ry = np.array([[math.cos(f), 0, math.sin(f)], [0, 1, 0], [-math.sin(f), 0, math.cos(f)]])
    rz = np.array([[math.cos(k), -math.sin(k), 0], [math.sin(k), math.cos(k), 0], [0, 0, 1]])
    return np.array(p['xyz']) + rx @ ry @ rz @ (np.array([x, -y, -1.0]) * dist)


@prop.fuzz('distortion', n=1500, secs=40, fns=FN)
def _dist(R, rng, i):
    cls, p, d, cam = rand_lens(R, rng)
    data = dict(cls=cls, **p, **d)
    n = rng.choice([1, 3])
    W, H = p['im_size']
    fx, fy = c01.f_pix(p)
    xy = [(0.0, 0.0) if rng.random() < 0.15 else (rng.uniform(-0.5, 0.5) * W / fx, rng.uniform(-0.5, 0.5) * H / fy) for _ in range(n)]
    pts = np.array([world(p, x, y, rng.uniform(20, 500)) for x, y in xy]).T
    if (0.0, 0.0) in xy and rng.random() < 0.7:
        # exactly on the optical axis of a nadir camera
        p = dict(p, opk=(0.0, 0.0, 0.0), xyz=(100.0, 200.0, 500.0))
        cam = call(getattr(R.camera, cls), **p, **d)
        pts = np.array([world(p, x, y, 256.0) for x, y in xy]).T
        data.update(p)
    ref = np.array([pix(p, d, cls, x, y) for x, y in xy]).T
    keep = pts.copy()
    ji = call(cam.world_to_pixel, pts)
    if not np.array_equal(keep, pts):
        raise Fail('world coordinates passed in were modified', data)
    if not (ji.shape == ref.shape and np.abs(ji - ref).max() < 1e-4):
        raise Fail(f'{cls} maps rays {xy} to {ji.tolist()}, its equations give {ref.tolist()}', data)
    ji = np.array([[rng.uniform(0, W - 1) for _ in range(n)], [rng.uniform(0, H - 1) for _ in range(n)]])
    z = p['xyz'][2] - rng.uniform(50, 400)
    w = call(cam.pixel_to_world_z, ji, z)
    x, y, zc = cam_xy(w, p['xyz'], p['opk'], math.sin, math.cos)
    if np.abs(w[2] - z).max() > 1e-5:
        raise Fail('height is not the one requested', data)
    # oracle for the inverse: OpenCV, from the interior parameters
    K = np.array([[fx, 0, (W - 1) / 2 + p['cx'] * max(W, H)], [0, fy, (H - 1) / 2 + p['cy'] * max(W, H)], [0, 0, 1.0]])
    dd = np.array([d[k] for k in NAMES[cls]])
    if cls == 'FisheyeCamera':
        o = cv2.fisheye.undistortPoints(ji.T[None], K, dd)[0].T
    else:
        o = cv2.undistortPoints(ji.T.copy(), K, dd)[:, 0].T
    if np.abs(o - np.array([x, y])).max() > 1e-4:
        raise Fail(f'{cls} pixel {ji.tolist()} has ray {np.array([x, y]).tolist()}, expected {o.tolist()}', data)


@prop.fuzz('round-trip', n=500, secs=30, fns=FN)
def _rt(R, rng, i):
    cls, p, d, _ = rand_lens(R, rng)
    # mild coefficients, for which OpenCV's 5 fixed-point iterations converge
    d = {k: v * 0.05 for k, v in d.items()}
    cam = call(getattr(R.camera, cls), **p, **d, distort=bool(rng.randrange(2)))
    W, H = p['im_size']
    ji = np.array([[rng.uniform(0, W - 1) for _ in range(5)], [rng.uniform(0, H - 1) for _ in range(5)]])
    back = call(cam.world_to_pixel, call(cam.pixel_to_world_z, ji, p['xyz'][2] - 100.0))
    if np.abs(back - ji).max() > 0.05:
        raise Fail(f'{cls} pixel {ji.tolist()} round trips to {back.tolist()}', dict(cls=cls, **p, **d))


def ref_und_K(p, d, cls, alpha):
    """9 x 9 grid inner / outer rectangles of the undistorted image."""
    W, H = p['im_size']
    fx, fy = c01.f_pix(p)
    K = np.array([[fx, 0, (W - 1) / 2 + p['cx'] * max(W, H)], [0, fy, (H - 1) / 2 + p['cy'] * max(W, H)], [0, 0, 1.0]])
    gj, gi = np.meshgrid(np.linspace(0, W - 1, 9), np.linspace(0, H - 1, 9))
    ji = np.stack([gj.ravel(), gi.ravel()])
    dd = np.array([d[k] for k in NAMES[cls]])
    o = cv2.fisheye.undistortPoints(ji.T[None], K, dd)[0].T if cls == 'FisheyeCamera' else cv2.undistortPoints(ji.T.copy(), K, dd)[:, 0].T
    gx, gy = o[0].reshape(9, 9), o[1].reshape(9, 9)
    a = min(max(alpha, 0.0), 1.0)
    out = []
    for g, first, last, n in ((gx, gx[:, 0], gx[:, -1], W), (gy, gy[0], gy[-1], H)):
        i0, i1 = first.max(), last.min()
        o0, o1 = g.min(), g.max()
        fi, fo = (n - 1) / (i1 - i0), (n - 1) / (o1 - o0)
        out.append((fi * (1 - a) + fo * a, -fi * i0 * (1 - a) - fo * o0 * a))
    return out


@prop.fuzz('undistorted-intrinsics', n=800, secs=40, fns=FU + [P + 'FrameCamera._get_undistort_intrinsic'])
def _und(R, rng, i):
    alphas = [0.0, 1.0, 0.5, rng.random(), -0.5, 1.5, 0.52, 0.51, 0.98]
    a = rng.choice(alphas)
    cls, p, d, cam = rand_lens(R, rng, alpha=a, distort=bool(rng.randrange(2)))
    hist = [('init', a)]
    for _ in range(rng.randrange(4)):
        op = rng.choice(['alpha', 'distort', 'update', 'use'])
        if op == 'alpha':
            a = rng.choice(alphas)
            cam.alpha = a
        elif op == 'distort':
            cam.distort = bool(rng.randrange(2))
        elif op == 'update':
            call(cam.update, p['xyz'], p['opk'])
        else:
            call(cam.pixel_boundary)
        hist.append((op, a))
    cam.distort = False
    data = dict(cls=cls, history=hist, **p, **d)
    if cam.alpha != a or cam.distort is not False:
        raise Fail('alpha or distort does not read back as set', data)
    (fx, cx), (fy, cy) = ref_und_K(p, d, cls, a)
    if not all(map(math.isfinite, (fx, cx, fy, cy))) or fx <= 0 or fy <= 0:
        raise Skip()
    xy = [(rng.uniform(-0.3, 0.3), rng.uniform(-0.3, 0.3)) for _ in range(3)]
    pts = np.array([world(p, x, y, 200.0) for x, y in xy]).T
    ref = np.array([(fx * x + cx, fy * y + cy) for x, y in xy]).T
    ji = call(cam.world_to_pixel, pts)
    if np.abs(ji - ref).max() > 1e-4 * max(1, np.abs(ref).max() / 1e3):
        raise Fail(f'undistorted {cls} with alpha {a} maps rays {xy} to {ji.tolist()}, expected {ref.tolist()}', data)
    W, H = p['im_size']
    cnr = np.array([[0, 0, W - 1, W - 1], [0, H - 1, H - 1, 0]], float)
    free, lim = call(cam._undistort_pixel, cnr), call(cam._undistort_pixel, cnr, clip=True)
    if not np.array_equal(lim, np.clip(free.T, 0, (W - 1, H - 1)).T):
        raise Fail(f'undistorted corner pixels {free.tolist()} are limited to {lim.tolist()} in an image of {W} x {H}', data)
    if rng.random() < 0.3:
        und = call(cam._undistort_pixel, np.array([[0.0, 10.0], [0.0, 20.0]]))
        dist = call(cam._distort_pixel, und)
        if np.abs(dist - np.array([[0.0, 10.0], [0.0, 20.0]])).max() > 30:
            raise Fail('_distort_pixel does not undo _undistort_pixel', data)


@prop.fuzz('undistort-image', n=150, secs=40, fns=FM)
def _unim(R, rng, i):
    cls = rng.choice(list(NAMES))
    p = c01.rand_cam(rng)
    W, H = rng.randint(40, 90), rng.randint(40, 90)
    p.update(im_size=(W, H), focal_len=1.1, sensor_size=None, cx=rng.uniform(-0.02, 0.02), cy=rng.uniform(-0.02, 0.02))
    d = rand_coeffs(rng, cls)
    a = rng.choice([0.0, 1.0, 0.4])
    cam = call(getattr(R.camera, cls), **p, **d, distort=False, alpha=a)
    nb = rng.choice([1, 3])
    im = np.random.RandomState(i).randint(1, 255, (nb, H, W)).astype(rng.choice(['uint8', 'float32']))
    if rng.random() < 0.4:
        # another camera, with all but one of the interior parameters the same
        k = rng.choice(['focal_len', 'cx', 'cy', 'alpha', *d])
        o = dict(p, **d, distort=False, alpha=a)
        o[k] = rng.choice([v for v in (0.0, 0.3, 0.8, 1.0) if v != a]) if k == 'alpha' else o[k] * 0.8 + 0.01
        call(call(getattr(R.camera, cls), **o)._undistort_im, im, nodata=0, interp='nearest')
    if rng.random() < 0.5:
        call(cam._undistort_im, im, nodata=0, interp='nearest')
        a = rng.choice([0.0, 1.0, 0.7])
        cam.alpha = a
    und = call(cam._undistort_im, im, nodata=0, interp='nearest')
    (fx, cx), (fy, cy) = ref_und_K(p, d, cls, a)
    if not all(map(math.isfinite, (fx, cx, fy, cy))) or fx <= 0 or fy <= 0:
        raise Skip()
    bad = 0
    n = 0
    for _ in range(150):
        r, c = rng.randrange(H), rng.randrange(W)
        j, k = pix(p, d, cls, (c - cx) / fx, (r - cy) / fy)
        if min(abs(j % 1 - 0.5), abs(k % 1 - 0.5)) < 0.02:
            continue
        sj, si = round(j), round(k)
        n += 1
        for b in range(nb):
            e = im[b, si, sj] if 0 <= si < H and 0 <= sj < W else 0
            if und[b, r, c] != e:
                bad += 1
    if bad > 0.02 * n * nb + 1:
        raise Fail(f'{bad} of {n * nb} undistorted pixels are not from the position the {cls} camera maps them to', dict(cls=cls, alpha=a, **p, **d))


prop.assume('cv2.projectPoints, undistortPoints, fisheye.undistortPoints and initUndistortRectifyMap are pointwise functions given by the OpenCV equations of their arguments; '
            'undistortPoints inverts them up to its 5 iterations (checked at run time against cv2 on random coefficients)',
            'real arithmetic in place of IEEE doubles; sin, cos, arctan, sqrt as functions with their algebraic identities',
            'callers of _get_undistort_intrinsic are proved against its contract (a function of alpha); its body is a bounded run-time check')
