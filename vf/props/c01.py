"""C01: frame camera collinearity, and pixel / world inverse."""
import math

import numpy as np
import z3

from .. import arr as A
from .. import sym as S
from ..runner import Fail, Prop, Skip, call

prop = Prop('C01')
P = 'orthority/camera.py:'
FN = [P + f for f in ('FrameCamera.__init__', 'FrameCamera._get_intrinsic', 'FrameCamera._get_extrinsic', 'FrameCamera.update',
                      'FrameCamera.world_to_pixel', 'FrameCamera.pixel_to_world_z', 'FrameCamera._camera_to_pixel',
                      'FrameCamera._pixel_to_camera', 'FrameCamera.pos', 'Camera._validate_world_coords',
                      'Camera._validate_pixel_coords', 'Camera._validate_z')] + ['orthority/param_io.py:_opk_to_rotation']


# ------------------------------------------------------------------------------------- specification
def spec_uvw(X, T, opk, sin, cos):
    """R^T (X - T): world vector in photogrammetric camera axes (x right, y up, z back)."""
    so, co, sp, cp, sk, ck = sin(opk[0]), cos(opk[0]), sin(opk[1]), cos(opk[1]), sin(opk[2]), cos(opk[2])
    d = [X[k] - T[k] for k in range(3)]
    # columns of R = Rx(omega) Ry(phi) Rz(kappa)
    c0 = (cp * ck, co * sk + so * sp * ck, so * sk - co * sp * ck)
    c1 = (-cp * sk, co * ck - so * sp * sk, so * ck + co * sp * sk)
    c2 = (sp, -so * cp, co * cp)
    return [sum(c[k] * d[k] for k in range(3)) for c in (c0, c1, c2)]


def spec_pixel(X, T, opk, im_size, f_pix, cxy, mx, sin, cos):
    u, v, w = spec_uvw(X, T, opk, sin, cos)
    j = (im_size[0] - 1) / 2 + mx * cxy[0] - f_pix[0] * (u / w)
    i = (im_size[1] - 1) / 2 + mx * cxy[1] + f_pix[1] * (v / w)
    return j, i, w


def sym_cam(L, X, fk, sk, prior=False, upd=False, cls='PinholeCamera', **kw):
    W, H = S.integer('W', 1), S.integer('H', 1)
    f = S.real('f') if fk == 'scalar' else (S.real('fx'), S.real('fy'))
    fs = (f, f) if fk == 'scalar' else f
    for v in fs:
        X.assume(v > 0)
    mx = S.smax(W, H)
    if sk:
        ss = (S.real('sw'), S.real('sh'))
        for v in ss:
            X.assume(v > 0)
        fp = (fs[0] * W / ss[0], fs[1] * H / ss[1])
    else:
        ss = None
        fp = (fs[0] * mx, fs[1] * mx)
    cxy = (S.real('cx'), S.real('cy'))
    xyz = tuple(S.real(n) for n in ('X0', 'Y0', 'Z0'))
    opk = tuple(S.real(n) for n in ('omega', 'phi', 'kappa'))
    C = getattr(L.camera, cls)
    if upd:
        cam = C((W, H), f, sensor_size=ss, cx=cxy[0], cy=cxy[1],
                **(dict(xyz=tuple(S.real('q%d' % k) for k in range(3)), opk=tuple(S.real('r%d' % k) for k in range(3))) if prior else {}), **kw)
        cam.update(xyz, opk)
    else:
        cam = C((W, H), f, sensor_size=ss, cx=cxy[0], cy=cxy[1], xyz=xyz, opk=opk, **kw)
    return cam, dict(W=W, H=H, mx=mx, fp=fp, cxy=cxy, xyz=xyz, opk=opk)


def mk(fk, sk, upd, prior=False, distort=True):
    nm = f"{fk}-focal,{'sensor' if sk else 'no-sensor'}{',update' if upd else ''}{',again' if prior else ''}{'' if distort else ',no-distort'}"

    @prop.case(f'project[{nm}]', FN, expect=['column', 'row', 'shape'])
    def project(L, X):
        cam, d = sym_cam(L, X, fk, sk, prior, upd, distort=distort)
        N = S.integer('N', 1)
        xyz = A.symarray('xyz', (3, N))
        n = A.generic_idx([N])[0]
        pt = [xyz.at(k, n) for k in range(3)]
        j, i, w = spec_pixel(pt, d['xyz'], d['opk'], (d['W'], d['H']), d['fp'], d['cxy'], d['mx'], S.sin, S.cos)
        X.assume(w < 0)
        ji = cam.world_to_pixel(xyz)
        X.require('shape', z3.And(S.zb(ji.shape[0] == 2), S.zb(ji.shape[1] == N), S.zb(len(ji.shape) == 2)))
        X.require_eq('column', ji.at(0, n), j)
        X.require_eq('row', ji.at(1, n), i)

    for zk in ('scalar', 'per-pixel', 'one-pixel'):
        if (upd or not distort) and zk != 'per-pixel':
            continue

        @prop.case(f'round-trip[{nm},z {zk}]', FN, expect=['height', 'column', 'row', 'shape'])
        def round_trip(L, X, zk=zk):
            cam, d = sym_cam(L, X, fk, sk, prior, upd, distort=distort)
            N = S.integer('N', 2)
            n = A.generic_idx([N])[0]
            one = zk == 'one-pixel'
            ji = A.symarray('ji', (2, 1 if one else N))
            z = S.real('z') if zk == 'scalar' else A.symarray('z', (N,))
            zn = z if zk == 'scalar' else z.at(n)
            # precondition: the pixel's ray is not horizontal, and the height not that of the camera
            X.assume(zn.z != d['xyz'][2].z)
            xyz = cam.pixel_to_world_z(ji, z)
            X.require('shape', z3.And(S.zb(xyz.shape[0] == 3), S.zb(xyz.shape[1] == N)))
            X.require_eq('height', xyz.at(2, n), zn, defined=True)
            back = cam.world_to_pixel(xyz)
            X.require_eq('column', back.at(0, n), ji.at(0, 0 if one else n), defined=True)
            X.require_eq('row', back.at(1, n), ji.at(1, 0 if one else n), defined=True)


for fk_ in ('scalar', 'pair'):
    for sk_ in (True, False):
        mk(fk_, sk_, False)
mk('pair', True, True)
mk('pair', True, True, True)
mk('scalar', True, False, distort=False)


# ------------------------------------------------------------------------------------------ run time
def rand_cam(rng):
    W, H = rng.choice([rng.randint(2, 40), rng.randint(300, 9000)]), rng.choice([rng.randint(2, 40), rng.randint(300, 9000)])
    f = rng.uniform(0.2, 3.0)
    if rng.random() < 0.5:
        f = (f, f * rng.uniform(0.6, 1.6))
    sw = rng.uniform(0.3, 2.0)
    ss = (sw, sw * rng.uniform(0.4, 2.2)) if rng.random() < 0.6 else None
    cxy = (rng.uniform(-0.1, 0.1), rng.uniform(-0.1, 0.1)) if rng.random() < 0.8 else (0.0, 0.0)
    if rng.random() < 0.2:
        cxy = rng.choice([(cxy[0], 0.0), (0.0, cxy[1])])
    scale = 10 ** rng.uniform(0, 6)
    xyz = (rng.uniform(-1, 1) * scale, rng.uniform(-1, 1) * scale, rng.uniform(10, 5000))
    lim = rng.choice([0.15, 0.7])
    opk = (rng.uniform(-lim, lim), rng.uniform(-lim, lim), rng.uniform(-math.pi, math.pi))
    return dict(im_size=(W, H), focal_len=f, sensor_size=ss, cx=cxy[0], cy=cxy[1], xyz=xyz, opk=opk)


def f_pix(d):
    f = d['focal_len'] if isinstance(d['focal_len'], tuple) else (d['focal_len'],) * 2
    W, H = d['im_size']
    ss = d['sensor_size']
    return (f[0] * W / ss[0], f[1] * H / ss[1]) if ss else (f[0] * max(W, H), f[1] * max(W, H))


@prop.fuzz('projection', n=2000, secs=40, fns=FN)
def _projection(R, rng, i):
    d = rand_cam(rng)
    C = R.camera.PinholeCamera
    mode = rng.choice(['init', 'update', 'again', 'no-distort'])
    if mode in ('init', 'no-distort'):
        cam = call(C, **d, distort=mode == 'init')
    else:
        e = {k: v for k, v in d.items() if k not in ('xyz', 'opk')}
        o = rand_cam(rng)
        if rng.random() < 0.6:
            # a nearby exterior before the update: part of it the same
            o = dict(d)
            for k, mags in (('xyz', (0.0, 1e-3, 0.5, 20.0)), ('opk', (0.0, 1e-6, 1e-3, 0.1))):
                g = rng.choice(mags)
                o[k] = tuple(v + (g * rng.uniform(-1, 1) if rng.random() < 0.6 else 0.0) for v in d[k])
        cam = call(C, **e, **(dict(xyz=o['xyz'], opk=o['opk']) if mode == 'again' else {}))
        if mode == 'again':
            call(cam.world_to_pixel, np.zeros((3, 1)))
        call(cam.update, d['xyz'], d['opk'])
    if not np.allclose(cam.pos, d['xyz'], rtol=0, atol=0):
        raise Fail('camera position is not the one given', d)
    W, H = d['im_size']
    n = rng.choice([1, 2, 5])
    ji = np.array([[rng.uniform(0, W - 1) for _ in range(n)], [rng.uniform(0, H - 1) for _ in range(n)]])
    z0 = d['xyz'][2] - rng.uniform(5, 2000)
    zk = rng.choice(['scalar', 'array', 'one'])
    if zk == 'scalar':
        z = zz = z0
    elif zk == 'array':
        z = np.array([z0 + rng.uniform(-50, 4) for _ in range(n)])
    else:
        n = 4
        ji = ji[:, :1]
        z = np.array([z0 + rng.uniform(-50, 4) for _ in range(n)])
    if rng.random() < 0.25:
        # whole pixels, as integers or single precision
        ji = np.rint(ji).astype(rng.choice(['int32', 'int64', 'uint16', 'float32']))
    ji0 = ji.copy()
    xyz = call(cam.pixel_to_world_z, ji, z)
    if xyz.shape != (3, n if zk != 'one' else 4):
        raise Fail(f'world coordinates have shape {xyz.shape}', d)
    if not np.array_equal(ji0, ji):
        raise Fail('pixel coordinates passed in were modified', d)
    fp = f_pix(d)
    pj = np.zeros((2, xyz.shape[1]))
    for k in range(xyz.shape[1]):
        pj[0, k], pj[1, k], w = spec_pixel(xyz[:, k], d['xyz'], d['opk'], (W, H), fp, (d['cx'], d['cy']), max(W, H), math.sin, math.cos)
    # conditioning: world error of double rounding, in pixels
    tol = 1e-6 + 1e-9 * max(abs(v) for v in d['xyz']) * max(fp)
    zt = np.broadcast_to(z, (xyz.shape[1],))
    if not np.allclose(xyz[2], zt, rtol=0, atol=1e-6 * (1 + abs(d['xyz'][2]))):
        raise Fail(f'height {xyz[2]} is not the requested {zt}', d)
    if np.abs(xyz[:2]).max() > 1e8:
        raise Skip()
    if not np.abs(pj - ji).max() < tol * 10:
        raise Fail(f'pixel {ji.tolist()} maps to world point {xyz.tolist()} which is on the ray of pixel {pj.tolist()}', d)
    x0 = xyz.copy()
    back = call(cam.world_to_pixel, xyz)
    if not np.array_equal(x0, xyz):
        raise Fail('world coordinates passed in were modified', d)
    if not np.abs(back - pj).max() < tol * 10:
        raise Fail(f'world point {xyz.tolist()} projects to {back.tolist()}, collinearity gives {pj.tolist()}', d)


@prop.fuzz('preconditions', n=40, secs=20, fns=FN)
def _pre(R, rng, i):
    d = rand_cam(rng)
    e = {k: v for k, v in d.items() if k not in ('xyz', 'opk')}
    cam = call(R.camera.PinholeCamera, **e)
    for f, a in ((cam.world_to_pixel, (np.zeros((3, 2)),)), (cam.pixel_to_world_z, (np.zeros((2, 2)), 0.0)), (cam.world_boundary, (0.0,))):
        try:
            f(*a)
        except R.errors.CameraInitError:
            continue
        except Exception as ex:
            raise Fail(f'{f.__name__} without exterior parameters raised {type(ex).__name__}', d)
        raise Fail(f'{f.__name__} without exterior parameters returned a value', d)
    if cam.pos is not None:
        raise Fail('camera position without exterior parameters is not None', d)
    call(cam.update, d['xyz'], d['opk'])
    for f, a in ((cam.world_to_pixel, (np.zeros((2, 4)),)), (cam.world_to_pixel, (np.zeros(3),)), (cam.world_to_pixel, (np.zeros((3, 2), 'float32'),)),
                 (cam.pixel_to_world_z, (np.zeros((3, 2)), 0.0)), (cam.pixel_to_world_z, (np.zeros((2, 2)), np.zeros(3))),
                 (cam.pixel_to_world_z, (np.zeros((2, 2)), np.zeros((2, 1))))):
        try:
            f(*a)
        except ValueError:
            continue
        except Exception as ex:
            raise Fail(f'{f.__name__} with invalid shapes raised {type(ex).__name__}', d)
        raise Fail(f'{f.__name__} accepted invalid shapes', d)


prop.assume('real arithmetic in place of IEEE doubles (run-time checks compare doubles with tolerance)',
            'sin and cos are any functions with sin^2 + cos^2 = 1; points in front of the camera')
