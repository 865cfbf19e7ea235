"""C23: GCPs keep their pixel/world correspondence through reading and fitting."""
import itertools
import math
import random
import types
import warnings

import numpy as np
import z3

from .. import arr as A
from .. import shims as H
from .. import sym as S
from ..runner import Fail, Prop, Skip, call
from . import c03, c08
from .c07 import COEFF

prop = Prop('C23')
FF, FP = 'orthority/fit.py:', 'orthority/param_io.py:'
prop.assume('cv2.solvePnP() and cv2.calibrateCamera() / cv2.fisheye.calibrate() return a pose, intrinsic matrix and coefficients with which the points they are given project to the pixels they are given; '
            'cv2.fisheye.undistortPoints() inverts the fisheye model',
            'np.linalg.lstsq() solves the normal equations',
            '_cv_ext_to_oty_ext() is the conversion of an OpenCV pose (C05); FrameCamera.__init__ and RpcCamera.world_to_pixel are the camera models of C01, C02 and C03',
            'real arithmetic, except that the points passed to OpenCV are rounded to float32')
DIST = dict(pinhole=[], brown=['k1', 'k2', 'p1', 'p2', 'k3'], fisheye=['k1', 'k2', 'k3', 'k4'],
            opencv=['k1', 'k2', 'p1', 'p2', 'k3', 'k4', 'k5', 'k6', 's1', 's2', 's3', 's4', 'tx', 'ty'])
CLS = dict(pinhole='PinholeCamera', brown='BrownCamera', fisheye='FisheyeCamera', opencv='OpenCVCamera')


def gcps(k, crs=None, src=None, lo=1):
    """(list of n GCPs, n, pixel function, world function) of image k; n is any number."""
    n = S.integer(f'n{k}', lo)
    J = lambda i, c: S.apply(f'gcp_j{k}_{c}', S.SInt.of(i))
    Xw = lambda i, c: S.apply(f'gcp_x{k}_{c}', S.SInt.of(i))
    item = dict(ji=A.Rows(n, [lambda i, c=c: J(i, c) for c in range(2)]), xyz=A.Rows(n, [lambda i, c=c: Xw(i, c) for c in range(3)]), id=None, info=None)
    return A.RowList(n, item), n, J, Xw


def world(Xw, crs):
    """World coordinates of a GCP in crs."""
    if crs is None:
        return Xw
    return lambda i, c: H.warp_value(H.FakeCrs('4979'), crs, Xw(i, 0), Xw(i, 1), Xw(i, 2), c)


def crs_stub(L):
    """CRS class stub: EPSG:4979 and one world CRS, which is made from the string 'W'."""
    W, G = H.FakeCrs('W'), H.FakeCrs('4979')

    def bad(*a):
        raise S.Unsupported('another CRS')

    class CRS:
        from_string = staticmethod(lambda s: W if s == 'W' else bad())
        from_epsg = staticmethod(lambda n: G if n == 4979 else bad())
        from_user_input = staticmethod(lambda s: W if s == 'W' else s if isinstance(s, H.FakeCrs) else bad())
    L.fit.CRS = CRS
    L.fit.transform = H.transform
    return W


def close32(a, b):
    """a is b rounded to float32, or b."""
    return S.SBool.mk(z3.Or(S.SReal.of(a).z == S.SReal.of(b).z, S.SReal.of(a).z == S.rnd32(S.SReal.of(b)).z))


def points(X, nm, pts, n, exp, cols):
    """pts has n rows, row i is exp(i, .)."""
    pts = A.asarr(pts)
    while pts.ndim > 2:
        if isinstance(pts.shape[0], int) and pts.shape[0] == 1:
            pts = pts[0]
        elif isinstance(pts.shape[1], int) and pts.shape[1] == 1:
            pts = pts[:, 0]
        else:
            raise S.Unsupported('layout of points')
    X.require('number', S.SInt.of(pts.shape[0]) == S.SInt.of(n))
    X.require('number', z3.BoolVal(pts.shape[1] == cols))
    i = S.fresh_int('i', 0)
    X.assume(i < n)
    for c in range(cols):
        X.require(nm, close32(pts.at(i, c), exp(i, c)))


for _m in (1, 2, 3):
    for _crs in (None, 'str', 'CRS'):
        @prop.case(f'OpenCV coordinates[{_m} images,{_crs} CRS]', [FF + '_gcps_to_cv_coords'], expect=['pixel', 'world', 'number', 'images', 'unchanged'],
                   bound=f'{_m} images, any number of GCPs')
        def cv_coords(L, X, m=_m, kind=_crs):
            W = crs_stub(L)
            arg = None if kind is None else 'W' if kind == 'str' else W
            G = [gcps(k) for k in range(m)]
            d = {f'im{k}': g[0] for k, g in enumerate(G)}
            items = [dict(list.__getitem__(g[0], 0)) for g in G]
            jis, xyzs, ref = L.fit._gcps_to_cv_coords(d, crs=arg)
            X.require('images', z3.BoolVal(len(jis) == m and len(xyzs) == m))
            ref = [S.SReal.of(v) for v in (A.asarr(ref).elems())]
            X.require('images', z3.BoolVal(len(ref) == 3))
            for (g, n, J, Xw), ji, xyz in zip(G, jis, xyzs):
                w = world(Xw, W if kind else None)
                points(X, 'pixel', ji, n, J, 2)
                points(X, 'world', xyz, n, lambda i, c: w(i, c) - ref[c], 3)
            X.require('unchanged', z3.BoolVal(list(d) == [f'im{k}' for k in range(m)] and all(set(list.__getitem__(g[0], 0)) == set(it) and all(list.__getitem__(g[0], 0)[q] is it[q] for q in it) for g, it in zip(G, items))))


# ------------------------------------------------------------------------------------ frame cameras
def interior(X, t, sensor, foc2, opt):
    """Any interior parameters of a camera type: with or without optional items."""
    W, Hh = S.integer('W', 1), S.integer('H', 1)
    p = dict(cam_type=t, im_size=(W, Hh), focal_len=tuple(S.real(f'f{a}') for a in 'xy') if foc2 else S.real('f'))
    for f in p['focal_len'] if foc2 else [p['focal_len']]:
        X.assume(f > 0)
    if sensor:
        p['sensor_size'] = (S.real('sw'), S.real('sh'))
        for v in p['sensor_size']:
            X.assume(v > 0)
    if opt:
        p.update(cx=S.real('cx'), cy=S.real('cy'), **{k: S.real(k) for k in COEFF[t]})
    return p


class Und:
    """Contracts of the undistortion and pose functions: ``ray`` is the undistorted normalised position of a GCP pixel."""

    def __init__(self, L, X, t, K, dist):
        self.X, self.t, self.K, self.dist, self.calls, self.poses = X, t, K, dist, [], []
        me = self

        class Fe(H.Fisheye):
            @staticmethod
            def undistortPoints(pts, K, D, R=None, P=None, **k):
                return me.undistort(pts, K, D, R, P, k, 'fisheye')

        class Cv(H.Cv2Shim):
            @staticmethod
            def undistortPoints(pts, K, D, R=None, P=None, **k):
                return me.undistort(pts, K, D, R, P, k, 'opencv')

            @staticmethod
            def solvePnP(xyz, ji, K, D=None, **k):
                return me.solve(xyz, ji, K, D, k)

            @property
            def fisheye(self):
                return Fe(self._real)
        L.fit.cv2 = Cv(L.cv2._real)

    def ray(self, j, i, c):
        return S.apply('ray_' + 'xy'[c], S.SReal.of(j), S.SReal.of(i))

    def model(self, K, D, kind):
        """K and D are those of the camera."""
        K = A.asarr(K)
        for a in range(3):
            for b in range(3):
                self.X.require_eq('intrinsic', S.SReal.of(K.at(a, b)), S.SReal.of(self.K.at(a, b)))
        d = [] if D is None else list(A.asarr(D).reshape(-1).elems())
        fish = self.t == 'fisheye'
        self.X.require('model', z3.BoolVal(fish == (kind == 'fisheye')))
        for q in range(14):
            self.X.require_eq('coefficients', S.SReal.of(d[q] if q < len(d) else 0.0), S.SReal.of(self.dist[q] if q < len(self.dist) else 0.0))

    def undistort(self, pts, K, D, R, P, k, kind):
        if R is not None or k:
            raise S.Unsupported('undistortPoints options')
        self.model(K, D, kind)
        pts = A.asarr(pts)
        if pts.ndim != 3 or not any(isinstance(v, int) and v == 1 for v in pts.shape[:2]):
            raise S.Unsupported('layout of points')
        f, P = pts.snap(), A.asarr(P) if P is not None else None

        def fn(i):
            c = i[2]
            r = self.ray(f((i[0], i[1], 0)), f((i[0], i[1], 1)), c)
            return r if P is None else P.at(c, c) * r + P.at(c, 2)

        return A.SArray.make(pts.shape, H._last(fn), pts.dtype)

    def solve(self, xyz, ji, K, D, k):
        if k.get('useExtrinsicGuess') or k.get('rvec') is not None:
            raise S.Unsupported('solvePnP with a guess')
        K, ji = A.asarr(K), A.asarr(ji)
        while ji.ndim == 3:
            ji = ji[:, 0] if isinstance(ji.shape[1], int) and ji.shape[1] == 1 else ji[0]
        f = ji.snap()
        if D is not None and len(A.asarr(D).reshape(-1).elems()):
            self.model(K, D, 'opencv')
            ray = lambda i, c: self.ray(f((i, 0)), f((i, 1)), c)
        else:
            ray = lambda i, c: (f((i, c)) - K.at(c, 2)) / K.at(c, c)
        n = len(self.calls)
        r, t = (A.array([[S.real(f'{v}{n}_{c}')] for c in range(3)]) for v in 'rt')
        self.calls.append((A.asarr(xyz), ji.shape[0], ray))
        self.poses.append((r, t))
        return True, r, t


def camera(L, t, p, ext=True):
    """The camera that create_camera() makes of interior parameters."""
    return getattr(L.camera, CLS[t])(**{k: v for k, v in p.items() if k != 'cam_type'}, xyz=(0.0, 0.0, 0.0), opk=(0.0, 0.0, 0.0))


def cam_dist(cam):
    d = getattr(cam, '_dist_param', None)
    return [] if d is None else list(A.asarr(d).reshape(-1).elems())


def ext_stub(L):
    """_cv_ext_to_oty_ext() by its contract: an opaque function of its arguments."""
    seen = []

    def conv(t, r, ref_xyz=None):
        n = len(seen)
        seen.append((t, r, ref_xyz))
        return tuple(S.real(f'ext_x{n}{c}') for c in range(3)), tuple(S.real(f'ext_o{n}{c}') for c in range(3))
    L.param_io._cv_ext_to_oty_ext = conv
    return seen


def exts(X, out, names, poses, seen, calls, ref_check, cam_id):
    """Every image has the pose fitted to its own GCPs, relative to the reference its GCPs were offset by."""
    X.require('images', z3.BoolVal(list(out) == names))
    for q, nm in enumerate(names):
        e = out[nm]
        X.require('images', z3.BoolVal(set(e) == {'xyz', 'opk', 'camera'} and e['camera'] == cam_id))
        at = [k for k in range(len(seen)) if len(e['xyz']) == 3 and S.is_sym(e['xyz'][0]) and e['xyz'][0].z.eq(z3.Real(f'ext_x{k}0'))]
        if len(at) != 1:
            raise S.Unsupported('pose is not that of _cv_ext_to_oty_ext()')
        t, r, ref = seen[at[0]]
        for v, w in zip((e['xyz'], e['opk']), 'xo'):
            for c in range(3):
                X.require_eq('pose', S.SReal.of(v[c]), S.real(f'ext_{w}{at[0]}{c}'))
        which = [k for k, (r_, t_) in enumerate(poses) if S.SReal.of(A.asarr(r).reshape(-1).at(0)).z.eq(S.SReal.of(r_.reshape(-1).at(0)).z)]
        if len(which) != 1:
            raise S.Unsupported('rotation is not that of the fit')
        k = which[0]
        for c in range(3):
            X.require_eq('pose', S.SReal.of(A.asarr(r).reshape(-1).at(c)), S.SReal.of(poses[k][0].reshape(-1).at(c)))
            X.require_eq('pose', S.SReal.of(A.asarr(t).reshape(-1).at(c)), S.SReal.of(poses[k][1].reshape(-1).at(c)))
        ref_check(q, calls[k], [0.0] * 3 if ref is None else [S.SReal.of(v) for v in A.asarr(ref).reshape(-1).elems()])


for _t in COEFF:
    for _sensor, _f2, _opt in itertools.product((True, False), repeat=3):
        for _crs in ((None, 'str') if (_sensor and _f2 and _opt) else (None,)):
            @prop.case(f'exterior[{_t}{",sensor size" if _sensor else ""}{",2 focal lengths" if _f2 else ""}{",optional values" if _opt else ""}{",CRS" if _crs else ""}]', [FF + 'fit_frame_exterior', FF + '_gcps_to_cv_coords'],
                       expect=['pixel', 'world', 'number', 'images', 'pose'], bound='2 images, any number of GCPs')
            def exterior(L, X, t=_t, sensor=_sensor, f2=_f2, opt=_opt, kind=_crs):
                W = crs_stub(L)
                p = interior(X, t, sensor, f2, opt)
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    cam = camera(L, t, p)
                    cv = Und(L, X, t, A.asarr(cam._K), cam_dist(cam))
                    seen = ext_stub(L)
                    G = [gcps(k, lo=3) for k in range(2)]
                    keep = dict(p)
                    out = L.fit.fit_frame_exterior({'cam 1': p}, {'b': G[0][0], 'a': G[1][0]}, crs='W' if kind else None)
                X.require('unchanged', z3.BoolVal(set(p) == set(keep) and all(p[k] is keep[k] for k in p)))

                def check(q, c, ref):
                    (_, n, J, Xw), (xyz, m, ray) = G[q], c
                    w = world(Xw, W if kind else None)
                    points(X, 'world', xyz, n, lambda i, c: w(i, c) - ref[c], 3)
                    X.require('number', S.SInt.of(m) == n)
                    i = S.fresh_int('i', 0)
                    X.assume(i < n)
                    r32 = [S.rnd32(J(i, c)) for c in range(2)]
                    for c in range(2):
                        K = cv.K
                        a, b = [(cv.ray(*v, c) if cv.dist else (v[c] - K.at(c, 2)) / K.at(c, c)) for v in (r32, [J(i, c) for c in range(2)])]
                        X.require('pixel', S.SBool.mk(z3.Or(S.SReal.of(ray(i, c)).z == S.SReal.of(a).z, S.SReal.of(ray(i, c)).z == S.SReal.of(b).z)))
                exts(X, out, ['b', 'a'], cv.poses, seen, cv.calls, check, 'cam 1')


for _nm, _fn, _lo in (('exterior', 'fit_frame_exterior', 3), ('frame', '_fit_frame', 4)):
    @prop.case(f'number of GCPs[{_nm}]', [FF + _fn], expect=['too few', 'enough'], bound='2 images, any number of GCPs')
    def too_few(L, X, fn=_fn, lo=_lo, nm=_nm):
        crs_stub(L)
        G = [gcps(k, lo=0) for k in range(2)]
        p = dict(cam_type='pinhole', im_size=(100, 200), focal_len=50.0, sensor_size=(100.0, 200.0))
        cv = Und(L, X, 'pinhole', A.asarr(camera(L, 'pinhole', p)._K), [])
        ext_stub(L)

        class Reached(BaseException):
            pass

        def stop(*a, **k):
            raise Reached()
        L.fit._gcps_to_cv_coords = stop
        d = {'b': G[0][0], 'a': G[1][0]}
        few = S.SBool.mk(z3.Or(G[0][1].z < lo, G[1][1].z < lo))
        try:
            L.fit.fit_frame_exterior({'c': p}, d) if nm == 'exterior' else L.fit._fit_frame(L.enums.CameraType.pinhole, (100, 200), d)
            raise S.Unsupported('GCPs are not converted with _gcps_to_cv_coords()')
        except Reached:
            X.require('enough', ~few)
        except ValueError:
            X.require('too few', few)


FLAGS = ('CALIB_FIX_K1', 'CALIB_FIX_K2', 'CALIB_FIX_K3', 'CALIB_ZERO_TANGENT_DIST')
for _t in COEFF:
    @prop.case(f'frame[{_t}]', [FF + '_fit_frame', FF + '_gcps_to_cv_coords'], expect=['pixel', 'world', 'number', 'images', 'pose', 'intrinsic', 'coefficients', 'image size'], bound='2 images, any number of GCPs', max_secs=120)
    def frame(L, X, t=_t):
        crs_stub(L)
        T = L.enums.CameraType(t)
        Wd, Hh = S.integer('W', 2), S.integer('H', 2)
        G = [gcps(k, lo=4) for k in range(2)]
        cv = Und(L, X, t, None, [])
        seen, calls, poses, model = ext_stub(L), [], [], {}
        real = L.cv2._real

        def calibrate(kind):
            def f(xyzs, jis, im_size, K, D, flags=0, criteria=None, **k):
                if K is not None or D is not None or k:
                    raise S.Unsupported('calibration with initial values')
                X.require('model', z3.BoolVal((kind == 'fisheye') == (t == 'fisheye')))
                X.require('image size', (S.SInt.of(im_size[0]) == Wd) & (S.SInt.of(im_size[1]) == Hh))
                K = A.array([[S.real('Kfx'), 0.0, S.real('Kcx')], [0.0, S.real('Kfy'), S.real('Kcy')], [0.0, 0.0, 1.0]])
                if kind == 'fisheye':
                    d = [S.real(f'd{q}') for q in range(4)]
                    if not flags & real.fisheye.CALIB_FIX_SKEW:
                        K[0, 1] = S.real('skew')
                else:
                    big = [flags & getattr(real, 'CALIB_' + v) for v in ('RATIONAL_MODEL', 'THIN_PRISM_MODEL', 'TILTED_MODEL')]
                    n = 14 if big[2] else 12 if big[1] else 8 if big[0] else 5
                    d = [S.real(f'd{q}') for q in range(n)]
                    fixed = {2: ['ZERO_TANGENT_DIST'], 3: ['ZERO_TANGENT_DIST'], 0: ['FIX_K1'], 1: ['FIX_K2'], 4: ['FIX_K3']}
                    fixed.update({q: ['FIX_K4', 'FIX_K5', 'FIX_K6'][q - 5:q - 4] for q in (5, 6, 7)})
                    for q in range(n):
                        free = {5: big[0], 6: big[0], 7: big[0], 8: big[1], 9: big[1], 10: big[1], 11: big[1], 12: big[2], 13: big[2]}.get(q, True)
                        if not free or any(flags & getattr(real, 'CALIB_' + v) for v in fixed.get(q, [])):
                            d[q] = 0.0
                model.update(K=K, d=d)
                for xyz, ji in zip(xyzs, jis):
                    n = len(calls)
                    ji = A.asarr(ji)
                    while ji.ndim == 3:
                        ji = ji[:, 0] if isinstance(ji.shape[1], int) and ji.shape[1] == 1 else ji[0]
                    calls.append((A.asarr(xyz), ji))
                    poses.append(tuple(A.array([[S.real(f'{v}{n}_{c}')] for c in range(3)]) for v in 'rt'))
                rs, ts = ([p[q] for p in poses] for q in range(2))
                return 0.0, K, A.array([d]), rs, ts
            return f
        C = type(L.fit.cv2)
        F = type(L.fit.cv2.fisheye)
        F.calibrate, C.calibrateCamera = staticmethod(calibrate('fisheye')), staticmethod(calibrate('opencv'))
        L.fit.logger = types.SimpleNamespace(debug=lambda *a, **k: None)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                ints, out = L.fit._fit_frame(T, (Wd, Hh), {'b': G[0][0], 'a': G[1][0]})
            except ValueError:
                X.require('error', z3.BoolVal(not calls))
                return
            X.require('images', z3.BoolVal(len(ints) == 1))
            (cam_id, p), = ints.items()
            X.require('model', z3.BoolVal(p['cam_type'] == T))
            X.require('image size', (S.SInt.of(p['im_size'][0]) == Wd) & (S.SInt.of(p['im_size'][1]) == Hh))
            for v in ('Kfx', 'Kfy'):
                X.assume(S.real(v) > 0)
            cam = camera(L, t, p)
        K = A.asarr(cam._K)
        for a in range(3):
            for b in range(3):
                X.require_eq('intrinsic', S.SReal.of(K.at(a, b)), S.SReal.of(model['K'].at(a, b)))
        d = cam_dist(cam)
        for q in range(max(len(d), len(model['d']))):
            X.require_eq('coefficients', S.SReal.of(d[q] if q < len(d) else 0.0), S.SReal.of(model['d'][q] if q < len(model['d']) else 0.0))

        def check(q, c, ref):
            (_, n, J, Xw), (xyz, ji) = G[q], c
            points(X, 'world', xyz, n, lambda i, c: Xw(i, c) - ref[c], 3)
            points(X, 'pixel', ji, n, J, 2)
        exts(X, out, ['b', 'a'], poses, seen, calls, check, cam_id)


# ------------------------------------------------------------------------------------ RPC refinement
class RpcCam:
    """Contract of RpcCamera.world_to_pixel (C03): a pointwise function of the world point (the RPC it was made with is kept)."""
    made = None

    def __init__(self, im_size, rpc, *a, **k):
        if a or k:
            raise S.Unsupported('camera options')
        type(self).made = rpc

    def world_to_pixel(self, xyz):
        xyz = A.asarr(xyz)
        f = xyz.snap()
        return A.SArray.make((2, xyz.shape[1]), lambda i: A.sel(lambda q: S.apply('rpc_px' + str(q[0]), *(f((c, q[1])) for c in range(3))), i, 0, 2) if not isinstance(i[0], int) else S.apply('rpc_px' + str(i[0]), *(f((c, i[1])) for c in range(3))), 'float64')


def mk_rpc(X, L, obj):
    rpc = c03.sym_rpc(X)
    rpc.update(err_bias=None, err_rand=S.real('err_rand'))
    if not obj:
        return rpc, rpc, rpc
    mine = {k: list(v) if isinstance(v, list) else v for k, v in rpc.items()}

    class RPC:
        def to_dict(self):
            return mine
    L.fit.RPC = RPC
    return RPC(), mine, rpc


def refined(X, rpc, out, axis, m, c):
    """Any world point has normalised pixel coordinate m v + c in the refined model where it had v."""
    nm = ('samp', 'line')[axis]
    t = [S.real(f'term{k}') for k in range(20)]   # the values of the polynomial terms at any point
    dot = lambda q: sum(S.SReal.of(a) * b for a, b in zip(q, t))
    den = dot(rpc[nm + '_den_coeff'])
    X.assume(S.SBool.mk(den.z != 0))
    old = dot(rpc[nm + '_num_coeff']) / den
    den_ = dot(out[nm + '_den_coeff'])
    new = dot(out[nm + '_num_coeff']) / den_
    px = lambda r, v: r[nm + '_off'] + r[nm + '_scale'] * v
    X.require('defined', S.SBool.mk(S.SReal.of(den_).z != 0))
    X.require_eq('pixel', px(out, new), px(rpc, m * old + c))


def frame_rpc(X, rpc, out, keep, arg):
    X.require('unchanged', z3.BoolVal(set(arg) == set(keep) and all((len(arg[k]) == len(keep[k]) and all(a is b for a, b in zip(arg[k], keep[k]))) if isinstance(keep[k], list) else arg[k] is keep[k] for k in keep)))
    X.require('items', z3.BoolVal(set(out) == set(keep)))
    for k in keep:
        if k.startswith(('lat', 'long', 'height', 'err')):
            X.require('items', z3.BoolVal(out[k] is keep[k])) if not S.is_sym(keep[k]) else X.require_eq('items', S.SReal.of(out[k]), keep[k])
        if isinstance(keep[k], list):
            X.require('items', z3.BoolVal(isinstance(out[k], list) and len(out[k]) == 20))


RF = [FF + 'refine_rpc']
for _obj in (False, True):
    for _meth in ('default', 'shift', 'str'):
        @prop.case(f'refine[shift,{_meth},{"RPC" if _obj else "dict"}]', RF, expect=['pixel', 'items', 'unchanged', 'defined'])
        def shift(L, X, obj=_obj, meth=_meth):
            arg, d, rpc = mk_rpc(X, L, obj)
            keep = {k: list(v) if isinstance(v, list) else v for k, v in rpc.items()}
            L.fit.RpcCamera = RpcCam
            G, n, J, Xw = gcps(0)
            kw = {} if meth == 'default' else dict(method='shift' if meth == 'str' else L.enums.RpcRefine.shift)
            out = L.fit.refine_rpc(arg, G, **kw)
            X.require('unchanged', z3.BoolVal(RpcCam.made is arg or RpcCam.made is d))
            frame_rpc(X, rpc, out, keep, d)
            for axis, nm in enumerate(('samp', 'line')):
                # the shift is the mean of the GCP residuals, in pixels
                off = A.bigsum([n], lambda i: J(i[0], axis) - S.apply(f'rpc_px{axis}', *(Xw(i[0], c) for c in range(3)))) / S.SReal.of(n)
                refined(X, rpc, out, axis, 1, off / rpc[nm + '_scale'])

    @prop.case(f'refine[shift and scale,{"RPC" if _obj else "dict"}]', RF, expect=['pixel', 'items', 'unchanged', 'defined', 'least squares'], max_secs=240)
    def scale(L, X, obj=_obj):
        """GCPs that are exactly a scaled and shifted image of the model, with at least two different pixel coordinates per axis."""
        arg, d, rpc = mk_rpc(X, L, obj)
        keep = {k: list(v) if isinstance(v, list) else v for k, v in rpc.items()}
        L.fit.RpcCamera = RpcCam
        n = S.integer('n', 2)
        m, c = ([S.real(f'{v}{a}') for a in range(2)] for v in 'mc')
        Xw = lambda i, q: S.apply(f'gcp_x_{q}', S.SInt.of(i))
        px = lambda i, a: S.apply(f'rpc_px{a}', *(Xw(i, q) for q in range(3)))
        nms = ('samp', 'line')
        J = lambda i, a: rpc[nms[a] + '_off'] + rpc[nms[a] + '_scale'] * (m[a] * ((px(i, a) - rpc[nms[a] + '_off']) / rpc[nms[a] + '_scale']) + c[a])
        G = A.RowList(n, dict(ji=A.Rows(n, [lambda i, a=a: J(i, a) for a in range(2)]), xyz=A.Rows(n, [lambda i, a=a: Xw(i, a) for a in range(3)])))
        out = L.fit.refine_rpc(arg, G, L.enums.RpcRefine.shift_drift)
        frame_rpc(X, rpc, out, keep, d)
        if len(X.lsq) != 2:
            raise S.Unsupported('number of least squares problems')
        for a, (lhs, rhs, x) in enumerate(X.lsq):
            xs = [S.SReal.of(v) for v in A.asarr(x).reshape(-1).elems()]
            norm = lambda i: (px(i, a) - rpc[nms[a] + '_off']) / rpc[nms[a] + '_scale']
            s1, s2 = A.bigsum([n], lambda i: norm(i[0])), A.bigsum([n], lambda i: norm(i[0]) * norm(i[0]))
            N = S.SReal.of(n)
            X.assume(S.SBool.mk((N * s2 - s1 * s1).z != 0))
            # lemma: the normal equations have one solution, (m, c); the refined model uses it
            u, v = xs[::-1] if not S.is_sym(A.asarr(lhs).at(0, 0)) else xs
            X.require('least squares', S.SBool.mk(z3.And(u.z == m[a].z, v.z == c[a].z)))
            refined(X, rpc, out, a, u, v)


@prop.case('refine[number of GCPs]', RF, expect=['too few', 'enough'])
def few_rpc(L, X):
    arg, d, rpc = mk_rpc(X, L, False)
    L.fit.RpcCamera = RpcCam
    for meth, lo in (('shift', 1), ('shift-drift', 2)):
        for k in range(4):
            G = [dict(ji=(1.0 + q, 2.0 * q), xyz=(S.real('a'), S.real('b'), S.real('c'))) for q in range(k)]
            try:
                L.fit.refine_rpc(arg, G, meth)
                X.require('enough', z3.BoolVal(k >= lo))
            except ValueError:
                X.require('too few', z3.BoolVal(k < lo))


# ------------------------------------------------------------------------------------ reading
class ImGcp:
    def __init__(self, k, q):
        self.row, self.col = S.real(f'row{k}{q}'), S.real(f'col{k}{q}')
        self.x, self.y, self.z = (S.real(f'{v}{k}{q}') for v in 'xyz')
        self.id, self.info = f'id{k}{q}', ['', 'info', None][q % 3]


READ = FP + 'read_im_gcps'
for _ns in ((1,), (4,), (2, 3), (1, 5, 2)):
    for _same in itertools.product((True, False), repeat=len(_ns)) if len(_ns) < 3 else ((True, False, True), (False, False, False)):
        @prop.case(f'image GCPs{list(_ns)}[{",".join("EPSG:4979" if s else "other CRS" for s in _same)}]', [READ], expect=['pixel', 'world', 'order', 'text'], bound=f'{len(_ns)} images with {list(_ns)} GCPs')
        def im_gcps(L, X, ns=_ns, same=_same):
            G = H.FakeCrs('4979')
            L.param_io._default_lla_crs = G
            L.param_io.transform = H.transform
            names = ['z.tif', 'a.tif', 'm.tif'][:len(ns)]
            crs = [G if s else H.FakeCrs(f'C{k}') for k, s in enumerate(same)]
            data = {nm: ([ImGcp(k, q) for q in range(n)], crs[k]) for k, (nm, n) in enumerate(zip(names, ns))}

            class Open:
                def __init__(self, file, mode='r', **k):
                    self.gcps = data[file]

                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    return False
            L.common.OpenRaster, L.common.get_filename, L.common.suppress_no_georef = Open, (lambda f: f), H.NullCtx
            out = L.param_io.read_im_gcps(names)
            X.require('order', z3.BoolVal(list(out) == names and [len(out[n]) for n in names] == list(ns)))
            for k, nm in enumerate(names):
                for g, o in zip(data[nm][0], out[nm]):
                    X.require('text', z3.BoolVal(o['id'] == g.id and o['info'] == g.info and len(o['ji']) == 2 and len(o['xyz']) == 3))
                    X.require_eq('pixel', S.SReal.of(o['ji'][0]), g.col)
                    X.require_eq('pixel', S.SReal.of(o['ji'][1]), g.row)
                    for c in range(3):
                        X.require_eq('world', S.SReal.of(o['xyz'][c]), (g.x, g.y, g.z)[c] if same[k] else H.warp_value(crs[k], G, g.x, g.y, g.z, c))


@prop.case('image without GCPs', [READ], expect=['error'])
def no_gcps(L, X):
    for val in ([], None):
        for pos in range(2):
            class Open:
                def __init__(self, file, mode='r', **k):
                    self.gcps = (val, None) if file == f'f{pos}' else ([ImGcp(0, 0)], H.FakeCrs('4979'))

                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    return False
            L.param_io._default_lla_crs = H.FakeCrs('4979')
            L.common.OpenRaster, L.common.get_filename, L.common.suppress_no_georef = Open, (lambda f: f), H.NullCtx
            try:
                L.param_io.read_im_gcps(['f0', 'f1'])
                X.require('error', z3.BoolVal(False))
            except L.errors.ParamError:
                X.require('error', z3.BoolVal(True))


for _w in ('a', 'ab', 'aba', 'abba', 'abcabca'):
    @prop.case(f'GCP file[{_w}]', [FP + 'read_oty_gcps'], expect=['value', 'order'], bound=f'{len(_w)} GCPs of {len(set(_w))} images')
    def oty_gcps(L, X, w=_w):
        """GCPs of several images in any order in the file are grouped by image, in the order of the file."""
        d = c08.Disk(L)
        real = [dict(ji=[S.real(f'j{q}{a}') for a in range(2)], xyz=[S.real(f'x{q}{a}') for a in range(3)]) for q in range(len(w))]
        d.data['f'] = dict(type='FeatureCollection', features=[
            dict(type='Feature', properties=dict(ji=r['ji'], filename=nm, **([{}, dict(id=f'i{q}'), dict(info=f'n{q}'), dict(id=f'i{q}', info=None)][q % 4])), geometry=dict(type='Point', coordinates=r['xyz']))
            for q, (nm, r) in enumerate(zip(w, real))])
        out = L.param_io.read_oty_gcps('f')
        X.require('order', z3.BoolVal(list(out) == list(dict.fromkeys(w))))
        for nm in out:
            at = [q for q in range(len(w)) if w[q] == nm]
            X.require('order', z3.BoolVal(len(out[nm]) == len(at)))
            for o, q in zip(out[nm], at):
                ident = [(None, None), (f'i{q}', None), (None, f'n{q}'), (f'i{q}', None)][q % 4]
                X.require('value', z3.BoolVal((o['id'], o['info']) == ident and len(o['ji']) == 2 and len(o['xyz']) == 3))
                for a, b in zip(list(o['ji']) + list(o['xyz']), real[q]['ji'] + real[q]['xyz']):
                    X.require_eq('value', S.SReal.of(a), b)


# ------------------------------------------------------------------------------------ run time
RCO = dict(pinhole={}, brown=dict(k1=-.1, k2=.02, p1=.001, p2=-.002, k3=.01), fisheye=dict(k1=-.05, k2=.02, k3=.01, k4=-.01),
           opencv=dict(k1=-.1, k2=.02, p1=.001, p2=-.002, k3=.01, k4=.01, k5=.01, k6=.003, s1=.001, s2=.001, s3=.001, s4=.001, tx=.01, ty=-.01))


@prop.fuzz('exterior-real', 200, 800, 40, [FF + 'fit_frame_exterior', FF + '_gcps_to_cv_coords'])
def exterior_real(R, rng, i):
    t = list(RCO)[i % 4]
    W, Hh = rng.randint(200, 1000), rng.randint(200, 1000)
    f = rng.uniform(.8, 1.5) * max(W, Hh)
    p = dict(cam_type=R.enums.CameraType(t), im_size=(W, Hh), focal_len=(f, f * rng.uniform(.9, 1.1)), sensor_size=(float(W), float(Hh)), cx=rng.uniform(-.05, .05), cy=rng.uniform(-.05, .05),
             **{k: v * rng.uniform(-1, 1) for k, v in RCO[t].items()})
    org = rng.choice([(0., 0., 0.), (5e5, 6.25e6, 100.), (-3e5, -4e6, -50.)])
    gd, cams = {}, {}
    crs = None
    if rng.random() < .5:
        import rasterio as rio
        from rasterio.warp import transform
        crs, org = rio.CRS.from_epsg(32735), (5e5 + rng.uniform(-1e5, 1e5), 6.25e6 + rng.uniform(-2e5, 2e5), rng.choice([0., 300.]))
    for k in range(rng.choice([1, 2, 3, 3, 8])):
        nm, n = f'{rng.choice("zmab")}{rng.randint(0, 20)}_{k}.tif', rng.randint(6, 12)
        pos = tuple(o + rng.uniform(-300, 300) for o in org[:2]) + (org[2] + rng.uniform(300, 500),)
        cam = getattr(R.camera, CLS[t])(**{q: v for q, v in p.items() if q != 'cam_type'}, xyz=pos, opk=tuple(rng.uniform(-.2, .2) for _ in range(2)) + (rng.uniform(-3, 3),))
        ji = np.array([[rng.uniform(.1, .9) * W for _ in range(n)], [rng.uniform(.1, .9) * Hh for _ in range(n)]])
        z = np.array([org[2] + rng.uniform(0, 100) for _ in range(n)])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            xyz = np.hstack([cam.pixel_to_world_z(ji[:, [q]], z[q]) for q in range(n)])
        if np.any(np.abs(cam.world_to_pixel(xyz) - ji) > 1e-3):
            raise Skip()
        w = np.array(transform(crs, rio.CRS.from_epsg(4979), *xyz)) if crs else xyz
        gd[nm], cams[nm] = [dict(ji=tuple(ji[:, q]), xyz=tuple(w[:, q])) for q in range(n)], (cam, xyz, ji)
    out = call(R.fit.fit_frame_exterior, {'c': p}, gd, **(dict(crs=crs) if crs else {}))
    if list(out) != list(gd):
        raise Fail(f'images {list(out)} instead of {list(gd)}')
    for nm, e in out.items():
        cam, xyz, ji = cams[nm]
        new = getattr(R.camera, CLS[t])(**{q: v for q, v in p.items() if q != 'cam_type'}, xyz=e['xyz'], opk=e['opk'])
        err = np.abs(new.world_to_pixel(xyz) - ji).max()
        if not err < .05:
            raise Fail(f'GCPs of {nm} project {err} pixels from their pixel coordinates with the fitted {t} exterior', p)


@prop.fuzz('fit-real', 60, 400, 40, [FF + '_fit_frame', FF + '_gcps_to_cv_coords'])
def fit_real(R, rng, i):
    """Interior and exterior fit: where OpenCV's calibration converges, the parameters reproduce the GCPs."""
    import cv2
    t = list(RCO)[i % 4]
    W, Hh = rng.randint(200, 1000), rng.randint(200, 1000)
    f = rng.uniform(.8, 1.3) * max(W, Hh)
    p = dict(im_size=(W, Hh), focal_len=(f, f), sensor_size=(float(W), float(Hh)), cx=rng.uniform(-.03, .03), cy=rng.uniform(-.03, .03), **{k: v * rng.uniform(-.5, .5) for k, v in RCO[t].items() if t != 'opencv' or k in ('k1', 'k2', 'p1', 'p2')})
    org = rng.choice([(0., 0., 0.), (5e5, 6.25e6, 100.), (-3e5, -4e6, -50.)])
    gd, pts = {}, {}
    for k in range(rng.choice([3, 4, 5])):
        nm, n = f'{rng.choice("zmab")}{rng.randint(0, 20)}_{k}.tif', rng.randint(15, 25)
        pos = tuple(o + rng.uniform(-300, 300) for o in org[:2]) + (org[2] + rng.uniform(300, 500),)
        cam = getattr(R.camera, CLS[t])(**p, xyz=pos, opk=tuple(rng.uniform(-.5, .5) for _ in range(2)) + (rng.uniform(-3, 3),))
        ji = np.array([[rng.uniform(.05, .95) * W for _ in range(n)], [rng.uniform(.05, .95) * Hh for _ in range(n)]])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            xyz = cam.pixel_to_world_z(ji, org[2])
        if np.any(np.abs(cam.world_to_pixel(xyz) - ji) > 1e-3):
            raise Skip()
        gd[nm], pts[nm] = [dict(ji=tuple(ji[:, q]), xyz=tuple(xyz[:, q])) for q in range(n)], (xyz, ji)
    errs = []

    def wrap(fn):
        def g(*a, **k):
            r = fn(*a, **k)
            errs.append(r[0])
            return r
        return g
    keep = cv2.calibrateCamera, cv2.fisheye.calibrate
    try:
        cv2.calibrateCamera, cv2.fisheye.calibrate = [wrap(q) for q in keep]
        inn, ext = R.fit._fit_frame(R.enums.CameraType(t), (W, Hh), gd)
    except cv2.error:
        raise Skip()
    finally:
        cv2.calibrateCamera, cv2.fisheye.calibrate = keep
    if not errs or errs[-1] > .02:
        raise Skip()
    (cid, q), = inn.items()
    q = dict(q)
    if q.pop('cam_type') != t or list(ext) != list(gd) or any(e['camera'] != cid for e in ext.values()):
        raise Fail(f'fit of a {t} camera to {list(gd)} gives camera {inn} and exteriors {ext}')
    for nm, e in ext.items():
        xyz, ji = pts[nm]
        err = np.sqrt((np.abs(getattr(R.camera, CLS[t])(**q, xyz=e['xyz'], opk=e['opk']).world_to_pixel(xyz) - ji) ** 2).mean())
        if not err < .2:
            raise Fail(f'GCPs of {nm} project {err} pixels from their pixel coordinates with the fitted {t} parameters, calibrated to {errs[-1]} pixels', dict(truth=p, fit=q, exterior=ext))


@prop.fuzz('refine-real', 200, 800, 30, RF)
def refine_real(R, rng, i):
    rpc = c03.rand_rpc(rng)[0]
    cam = R.camera.RpcCamera((1000, 1000), dict(rpc))
    n = rng.randint(3, 12)
    xyz = np.array([[rpc[k + '_off'] + rpc[k + '_scale'] * rng.uniform(-.9, .9) for _ in range(n)] for k in ('long', 'lat', 'height')])
    ji = cam.world_to_pixel(xyz)
    drift = i % 2
    m, c = (np.array([rng.uniform(.9, 1.1) for _ in range(2)]) if drift else np.ones(2)), np.array([rng.uniform(-20, 20) for _ in range(2)])
    ji = ji * m[:, None] + c[:, None]
    import copy
    keep = copy.deepcopy(rpc)
    g = [dict(ji=tuple(ji[:, q]), xyz=tuple(xyz[:, q])) for q in range(n)]
    out = call(R.fit.refine_rpc, rpc, g, 'shift-drift' if drift else 'shift')
    if repr(rpc) != repr(keep):
        raise Fail('refine_rpc() changes the RPC it is given')
    err = np.abs(R.camera.RpcCamera((1000, 1000), out).world_to_pixel(xyz) - ji).max()
    if not err < 1e-3:
        raise Fail(f'GCPs project {err} pixels from their pixel coordinates with the refined RPC')


@prop.fuzz('image-gcps-real', 60, 200, 40, [READ])
def im_gcps_real(R, rng, i):
    import rasterio as rio
    from rasterio.control import GroundControlPoint as GCP
    from rasterio.warp import transform
    from .c06 import Tmp
    with Tmp() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        exp, files = {}, []
        for k in range(rng.randint(1, 3)):
            nm, n = f'f{rng.randint(0, 99)}_{k}.tif', rng.randint(1, 7)
            epsg = rng.choice([4979, 32735, 4222])
            pts = [(rng.uniform(0, 90), rng.uniform(0, 90), *((rng.uniform(20, 21), rng.uniform(-34, -33)) if epsg != 32735 else (rng.uniform(4e5, 5e5), rng.uniform(6.2e6, 6.3e6))), rng.uniform(0, 500)) for _ in range(n)]
            with rio.open(f'{d}/{nm}', 'w', driver='GTiff', width=100, height=100, count=1, dtype='uint8') as im:
                im.gcps = ([GCP(row=p[0], col=p[1], x=p[2], y=p[3], z=p[4], id=str(q), info='') for q, p in enumerate(pts)], rio.CRS.from_epsg(epsg))
            w = np.array([p[2:] for p in pts]).T
            if epsg != 4979:
                w = np.array(transform(rio.CRS.from_epsg(epsg), rio.CRS.from_epsg(4979), *w))
            exp[nm] = [(p[1], p[0], *w[:, q]) for q, p in enumerate(pts)]
            files.append(f'{d}/{nm}')
        out = call(R.param_io.read_im_gcps, files)
        if list(out) != list(exp):
            raise Fail(f'images {list(out)} instead of {list(exp)}')
        for nm in exp:
            got = np.array([(*g['ji'], *g['xyz']) for g in out[nm]])
            if got.shape != np.array(exp[nm]).shape or not np.allclose(got, exp[nm], rtol=1e-9, atol=1e-7):
                raise Fail(f'GCPs of {nm} are {got.tolist()} instead of {exp[nm]}')
