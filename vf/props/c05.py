"""C05: orientation conversions."""
import math

import numpy as np
import z3

from .. import arr as A
from .. import prove as P
from .. import sym as S
from ..runner import Fail, Prop, Skip, call

prop = Prop('C05')
FP = 'orthority/param_io.py:'
FN = [FP + f for f in ('_opk_to_rotation', '_rotation_to_opk', '_aa_to_opk', '_cv_ext_to_oty_ext', '_rpy_to_opk', '_rpy_to_rotation')]


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def tr(a):
    return [list(r) for r in zip(*a)]


def rx(s, c):
    return [[1, 0, 0], [0, c, -s], [0, s, c]]


def ry(s, c):
    return [[c, 0, s], [0, 1, 0], [-s, 0, c]]


def rz(s, c):
    return [[c, -s, 0], [s, c, 0], [0, 0, 1]]


def opk_mat(o, p, k, sin=math.sin, cos=math.cos):
    """x right, y up, z back: rotation about x (omega), then the rotated y (phi), then the rotated z (kappa)."""
    return mm(mm(rx(sin(o), cos(o)), ry(sin(p), cos(p))), rz(sin(k), cos(k)))


def rpy_mat(r, p, y, sin=math.sin, cos=math.cos):
    return mm(mm(rz(sin(y), cos(y)), ry(sin(p), cos(p))), rx(sin(r), cos(r)))


D = [[1, 0, 0], [0, -1, 0], [0, 0, -1]]


def zero(t):
    return P.Ident([]).run(S.SReal.of(t).z, z3.RealVal(0)) is True


class Angles:
    """Contracts of arctan2, arcsin, sqrt and hypot: each returns the angle / root it is proved to be, for the candidate angles."""

    def __init__(self, L, X, cands, b=None):
        self.X, self.c, self.b = X, cands, b
        el = lambda f: lambda *a: A.ew(f, *a, dt='float64') if any(isinstance(v, A.SArray) and v.shape for v in a) else f(*[A.asarr(v).at() if isinstance(v, A.SArray) else v for v in a])
        for m in (L.np, L.math):
            m.arctan2 = el(self.arctan2)
            m.atan2 = el(self.arctan2)
            m.arcsin = el(self.arcsin)
            m.asin = el(self.arcsin)
            m.sqrt = el(self.sqrt)
            m.hypot = el(lambda x, y: self.sqrt(x * x + y * y))

    def positive(self, d):
        return zero(d - 1) or any(zero(d - S.cos(self.b)) or zero(d - S.cos(self.b) * S.cos(self.b)) for _ in [0] if self.b is not None)

    def arctan2(self, y, x):
        if zero(y) and zero(x):
            return 0.0
        for e in self.c:
            if zero(y * S.cos(e) - x * S.sin(e)) and self.positive(y * S.sin(e) + x * S.cos(e)):
                return e
        if zero(x * x + y * y - 1):
            t = S.fresh_real('angle')
            self.X.assume(S.sin(t) == y)
            self.X.assume(S.cos(t) == x)
            return t
        return S.arctan2(y, x)

    def arcsin(self, x):
        if self.b is not None and zero(x - S.sin(self.b)):
            return self.b
        return S.arcsin(x)

    def sqrt(self, v):
        for r in [S.SReal.of(1.0), S.SReal.of(0.0)] + ([S.cos(self.b)] if self.b is not None else []):
            if zero(v - r * r):
                return r
        return S.sqrt(v)


@prop.case('omega-phi-kappa to rotation', FN[:1], expect=['matrix'])
def opk_rot(L, X):
    a = [S.real(n) for n in ('omega', 'phi', 'kappa')]
    M = L.param_io._opk_to_rotation(tuple(a))
    E = opk_mat(*a, S.sin, S.cos)
    for i in range(3):
        for j in range(3):
            X.require_eq('matrix', M.at(i, j), S.SReal.of(E[i][j]))


@prop.case('roll-pitch-yaw to rotation', [FN[5]], expect=['matrix'])
def rpy_rot(L, X):
    a = [S.real(n) for n in ('roll', 'pitch', 'yaw')]
    M = L.param_io._rpy_to_rotation(tuple(a))
    E = rpy_mat(*a, S.sin, S.cos)
    for i in range(3):
        for j in range(3):
            X.require_eq('matrix', M.at(i, j), S.SReal.of(E[i][j]))


def target(L, X, lock):
    """Any rotation, given by its omega, phi, kappa (cos phi >= 0), and the contracts of the inverse functions for it."""
    o, p, k = [S.real(n) for n in ('omega', 'phi', 'kappa')]
    if lock is None:
        X.assume(S.cos(p) > 0)
        Angles(L, X, [o, p, k], p)
        return opk_mat(o, p, k, S.sin, S.cos)
    Angles(L, X, [o, k])
    return mm(mm(rx(S.sin(o), S.cos(o)), ry(lock, 0)), rz(S.sin(k), S.cos(k)))


def check_opk(X, opk, E):
    got = opk_mat(*[S.SReal.of(v) if S.is_sym(v) else v for v in opk], lambda v: S.sin(v), lambda v: S.cos(v))
    for i in range(3):
        for j in range(3):
            X.require_eq('rotation', S.SReal.of(got[i][j]), S.SReal.of(E[i][j]))


def rod(L, E):
    """Contract of cv2.Rodrigues (vector to matrix): some rotation; here the one that makes the camera rotation E."""
    seen = []

    def f(r, *a, **k):
        seen.append(A.asarr(r).elems())
        return A.array(mm(D, tr(E))), None   # R_cv = (E D)^T
    L.cv2.Rodrigues = f
    return seen


for _lk, _nm in ((None, ''), (1, ',phi=90'), (-1, ',phi=-90')):
    @prop.case(f'rotation to omega-phi-kappa[{_nm[1:] or "any"}]', [FN[1]], expect=['rotation'])
    def rot_opk(L, X, lk=_lk):
        E = target(L, X, lk)
        check_opk(X, L.param_io._rotation_to_opk(A.array(E)), E)

    @prop.case(f'angle-axis[{_nm[1:] or "any"}]', FN[1:3], expect=['rotation', 'argument'])
    def aa(L, X, lk=_lk):
        E = target(L, X, lk)
        seen = rod(L, E)
        r = tuple(S.real(f'r{i}') for i in range(3))
        out = L.param_io._aa_to_opk(r)
        if len(seen) != 1:
            raise S.Unsupported('cv2.Rodrigues is not called once')
        for a, b in zip(seen[0], r):
            X.require_eq('argument', S.SReal.of(a), b)
        check_opk(X, out, E)

    for _ref in (True, False):
        @prop.case(f'OpenCV pose[{"reference" if _ref else "no reference"}{_nm}]', [FN[1], FN[3]], expect=['rotation', 'position', 'argument'])
        def pose(L, X, lk=_lk, ref=_ref):
            E = target(L, X, lk)
            seen = rod(L, E)
            r = tuple(S.real(f'r{i}') for i in range(3))
            t = tuple(S.real(f't{i}') for i in range(3))
            xr = tuple(S.real(f'ref{i}') for i in range(3)) if ref else None
            xyz, out = L.param_io._cv_ext_to_oty_ext(t, r, ref_xyz=xr)
            if len(seen) != 1:
                raise S.Unsupported('cv2.Rodrigues is not called once')
            for a, b in zip(seen[0], r):
                X.require_eq('argument', S.SReal.of(a), b)
            # world -> camera is X_cam = R_cv X + t, so the camera is at -R_cv^T t; R_cv^T = E D
            RT = mm(E, D)
            for i in range(3):
                X.require_eq('position', S.SReal.of(xyz[i]), -sum(RT[i][j] * t[j] for j in range(3)) + (xr[i] if ref else 0))
            check_opk(X, out, E)


for _cb in (False, True):
    @prop.case(f'roll-pitch-yaw[{"given" if _cb else "default"} camera to body rotation]', FN[4:], expect=['rotation', 'location'])
    def rpy(L, X, cb=_cb):
        """The rotation that is converted to angles is (navigation to world) (body to navigation) (camera to body)."""
        from ..shims import FakeCrs
        rec = []
        L.param_io._rotation_to_opk = lambda R: rec.append(A.asarr(R)) or (0.0, 0.0, 0.0)
        a = [S.real(n) for n in ('roll', 'pitch', 'yaw')]
        lla = tuple(S.real(n) for n in ('lat', 'lon', 'alt'))
        crs, lcrs = FakeCrs('W'), FakeCrs('G')
        calls = []
        # contract of the CRS transform around the location: it is differentiable there, north maps to (nx, ny, 0)
        nx, ny, scale = S.real('nx'), S.real('ny'), S.real('scale')
        p0 = [S.real(f'p{i}') for i in range(3)]
        X.assume(scale > 0)
        X.assume((nx * nx + ny * ny) == 1)

        def warp(src, dst, xs, ys, zs):
            if src is not lcrs or dst is not crs:
                raise S.Unsupported('transform between other CRSs')
            lon, lat, alt = [A.asarr(v).elems()[0] for v in (xs, ys, zs)]
            calls.append((lon, lat, alt))
            d = (lat - lla[0]) * scale
            return [p0[0] + d * nx], [p0[1] + d * ny], [p0[2]]

        L.param_io.transform = warp
        roots = []

        def sqrt(v):
            roots.append(v)
            r = S.fresh_real('root')
            X.assume(r > 0)
            X.assume(r * r == v)
            return r
        norm0 = L.np.linalg.norm
        L.np.linalg.norm = lambda v, *a, **k: sqrt(sum(e * e for e in A.asarr(v).elems()))
        L.np.sqrt = sqrt
        B = [[S.real(f'b{i}{j}') for j in range(3)] for i in range(3)] if cb else None
        try:
            L.param_io._rpy_to_opk(tuple(a), lla, crs, lcrs, **(dict(C_bB=B) if cb else {}))
        finally:
            L.np.linalg.norm = norm0
        if len(rec) != 1 or len(calls) != 2 or len(roots) != 1:
            raise S.Unsupported('another algorithm')
        for c in calls:
            X.require_eq('location', S.SReal.of(c[0]), lla[1])
            X.require_eq('location', S.SReal.of(c[2]), lla[2])
        d = calls[0][1] - calls[1][1]
        d = S.ite(d > 0, d, -d)
        # |p1 - p2| = scale * d exactly
        X.require('norm', S.zb(roots[0] == (scale * d) * (scale * d)))
        En = [[nx, ny, 0], [ny, -nx, 0], [0, 0, -1]]   # columns: north, east, down
        E = mm(mm(En, rpy_mat(*a, S.sin, S.cos)), B or [[0, 1, 0], [1, 0, 0], [0, 0, -1]])
        M = rec[0]
        # the normalised north vector is (nx, ny, 0): root == scale * d
        root = S.SReal(z3.Real([str(v) for v in [n for n in _vars(M.at(0, 0).z)] if 'root' in str(v)][0])) if any('root' in str(v) for v in _vars(M.at(0, 0).z)) else None
        if root is None:
            raise S.Unsupported('another algorithm')
        X.require('root', S.zb(root == scale * d))
        X.assume(root == scale * d)
        for i in range(3):
            for j in range(3):
                m = S.SReal(z3.substitute(M.at(i, j).z, (root.z, (scale * d).z)))
                X.require_eq('rotation', m, S.SReal.of(E[i][j]))


def _vars(t):
    out, st, seen = [], [t], set()
    while st:
        u = st.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(u)
        st += u.children()
    return out


# ------------------------------------------------------------------------------------------ run time
def ang(rng):
    return rng.choice([rng.uniform(-math.pi, math.pi), rng.gauss(0, 0.05), math.radians(rng.choice([0, 90, -90, 180, -180, 45, 30, 60, -135]))])


def m3(R, opk):
    return np.array(opk_mat(*opk))


def same(a, b, tol=1e-7):
    d = np.abs(np.array(a, dtype=float) - np.array(b, dtype=float)).max()
    return d < tol


@prop.fuzz('omega-phi-kappa', n=4000, secs=20, fns=FN[:2])
def _opk(R, rng, i):
    a = (ang(rng), ang(rng), ang(rng))
    E = np.array(opk_mat(*a))
    M = call(R.param_io._opk_to_rotation, a)
    if not same(M, E, 1e-12):
        raise Fail(f'rotation of omega-phi-kappa {a} is {M.tolist()}, expected {E.tolist()}', dict(opk=a))
    kind = rng.choice(['opk', 'rpy', 'exact', 'cv'])
    if kind == 'rpy':
        E = np.array(rpy_mat(*a))
    elif kind == 'exact':
        # signed permutation matrices: exact zeros
        E = np.eye(3)[rng.sample(range(3), 3)] * np.array([rng.choice([-1, 1]) for _ in range(3)])
        if np.linalg.det(E) < 0:
            E[:, 0] *= -1
    elif kind == 'cv':
        import cv2
        E = cv2.Rodrigues(cv2.Rodrigues(E)[0])[0]
    o = call(R.param_io._rotation_to_opk, E)
    if not all(type(v) is float for v in o) or len(o) != 3:
        raise Fail(f'angles {o} are not three floats', dict(rotation=E.tolist()))
    if not same(opk_mat(*o), E):
        raise Fail(f'rotation {E.tolist()} is converted to angles {o} which describe {opk_mat(*o)}', dict(rotation=E.tolist()))


def rand_pose(rng):
    import cv2
    if rng.random() < 0.6:
        r = cv2.Rodrigues((np.array(opk_mat(ang(rng), ang(rng), ang(rng))) @ np.array(D)).T)[0].ravel()
    else:
        r = np.array([ang(rng) for _ in range(3)])
        if rng.random() < 0.1:
            r = np.zeros(3)
    return tuple(float(v) for v in r)


def rod_oracle(r):
    """Rodrigues' formula: rotation by |r| about r."""
    th = math.sqrt(sum(v * v for v in r))
    if th < 1e-300:
        return np.eye(3)
    k = np.array(r) / th
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(th) * K + (1 - math.cos(th)) * K @ K


@prop.fuzz('angle-axis', n=3000, secs=20, fns=FN[1:4])
def _aa(R, rng, i):
    r = rand_pose(rng)
    E = rod_oracle(r).T @ np.array(D)
    o = call(R.param_io._aa_to_opk, r)
    if not same(opk_mat(*o), E):
        raise Fail(f'angle-axis {r} is converted to {o}: rotation {opk_mat(*o)}, expected {E.tolist()}', dict(r=r))
    t = tuple(rng.uniform(-1, 1) * 10 ** rng.uniform(0, 4) for _ in range(3))
    ref = rng.choice([None, tuple(rng.uniform(-1, 1) * 10 ** rng.uniform(0, 6.5) for _ in range(3)), (0.0, 0.0, 0.0)])
    col = rng.random() < 0.4
    f = (lambda v: np.array(v).reshape(3, 1)) if col else rng.choice([list, tuple, np.array])
    a, b = f(t), f(r)
    a0, b0, ref0 = np.array(a), np.array(b), None if ref is None else tuple(ref)
    xyz, o = call(R.param_io._cv_ext_to_oty_ext, a, b, **({} if ref is None else dict(ref_xyz=ref)))
    if not (np.array_equal(a, a0) and np.array_equal(b, b0) and ref == ref0):
        raise Fail('the pose passed in was modified', dict(t=t, r=r))
    ex = -rod_oracle(r).T @ np.array(t) + (0 if ref is None else np.array(ref))
    tol = 1e-9 * (1 + np.abs(t).max() + (0 if ref is None else np.abs(ref).max()))
    if len(xyz) != 3 or not all(type(v) is float for v in xyz) or not np.abs(np.array(xyz) - ex).max() < tol:
        raise Fail(f'camera position {xyz}, expected {ex.tolist()}', dict(t=t, r=r, ref_xyz=ref))
    if not same(opk_mat(*o), E):
        raise Fail(f'pose rotation {r} is converted to {o}: rotation {opk_mat(*o)}, expected {E.tolist()}', dict(t=t, r=r, ref_xyz=ref))


def utm(lat, lon):
    from rasterio.crs import CRS
    return CRS.from_epsg((32600 if lat >= 0 else 32700) + int((lon + 180) // 6) % 60 + 1)


def nav_to_world(lat, lon, alt, crs, lla_crs):
    """North, east, down as world vectors, from a wider central difference than the code's."""
    from rasterio.warp import transform
    h = 1e-5
    p = np.array(transform(lla_crs, crs, [lon, lon], [lat + h, lat - h], [alt, alt]))
    n = p[:2, 0] - p[:2, 1]
    n = n / np.hypot(*n)
    return np.array([[n[0], n[1], 0], [n[1], -n[0], 0], [0, 0, -1]])


def rpy_oracle(rpy, lla, crs, lla_crs, C=None):
    C = np.array([[0, 1, 0], [1, 0, 0], [0, 0, -1]]) if C is None else np.array(C)
    return nav_to_world(*lla, crs, lla_crs) @ np.array(rpy_mat(*rpy)) @ C


@prop.fuzz('roll-pitch-yaw', n=1200, secs=30, fns=FN[4:])
def _rpy(R, rng, i):
    from rasterio.crs import CRS
    lat, lon = rng.uniform(-80, 80), rng.uniform(-179, 179)
    alt = rng.uniform(0, 3000)
    crs = utm(lat, lon) if rng.random() < 0.7 else CRS.from_string(f'+proj=tmerc +lat_0={lat + rng.uniform(-1, 1):.3f} +lon_0={lon + rng.uniform(-3, 3):.3f} +k=1 +x_0=0 +y_0=0 +datum=WGS84 +units=m +no_defs')
    lla_crs = CRS.from_epsg(rng.choice([4326, 4979]))
    if rng.random() < 0.3:
        # another datum
        lla_crs = CRS.from_string(f'+proj=longlat +ellps=intl +towgs84={rng.randint(-200, 200)},{rng.randint(-200, 200)},{rng.randint(-200, 200)} +no_defs')
        if abs(lon) > 177:
            raise Skip()
    rpy_ = (ang(rng), ang(rng), ang(rng))
    C = None
    if rng.random() < 0.4:
        C = np.array(opk_mat(ang(rng), ang(rng), ang(rng))).tolist()
    E = rpy_oracle(rpy_, (lat, lon, alt), crs, lla_crs, C)
    lla = (lat, lon, alt)
    o = call(R.param_io._rpy_to_opk, rpy_, lla, rng.choice([crs, crs.to_wkt()]) if lla_crs else crs, lla_crs, **({} if C is None else dict(C_bB=C)))
    if not same(opk_mat(*o), E, 2e-5):
        raise Fail(f'roll-pitch-yaw {rpy_} at {lla} is converted to {o}: rotation {opk_mat(*o)}, expected {E.tolist()}',
                   dict(rpy=rpy_, lla=lla, crs=crs.to_string(), C_bB=C))


prop.assume('real arithmetic in place of IEEE doubles (run-time checks compare doubles with tolerance)',
            'every rotation has omega-phi-kappa angles with cos phi >= 0 (mathematical fact used to parametrise the rotations)',
            'cv2.Rodrigues returns a rotation; the CRS transform is differentiable and conformal at the location, and keeps heights')
