"""C03: RPC camera model."""
import math

import numpy as np
import z3

from .. import arr as A
from .. import shims as SH
from .. import sym as S
from ..runner import Fail, Prop, Skip, call

prop = Prop('C03')
P = 'orthority/camera.py:'
FN = [P + f for f in ('RpcCamera.__init__', 'RpcCamera.world_to_pixel', 'RpcCamera.pixel_to_world_z', 'RpcCamera._validate_crs', 'RpcCamera.crs')]


# RPC00B term order: http://geotiff.maptools.org/rpc_prop.html, as exponents of (long, lat, height)
TERMS = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (2, 0, 0), (0, 2, 0), (0, 0, 2),
         (1, 1, 1), (3, 0, 0), (1, 2, 0), (1, 0, 2), (2, 1, 0), (0, 3, 0), (0, 1, 2), (2, 0, 1), (0, 2, 1), (0, 0, 3)]


def cubic(c, x, y, z):
    r = 0
    for k, (a, b, d) in zip(c, TERMS):
        t = k
        for v, n in ((x, a), (y, b), (z, d)):
            for _ in range(n):
                t = t * v
        r = r + t
    return r


def spec(rpc, x, y, z):
    x, y, z = ((v - rpc[n + '_off']) / rpc[n + '_scale'] for v, n in ((x, 'long'), (y, 'lat'), (z, 'height')))
    j = rpc['samp_off'] + rpc['samp_scale'] * (cubic(rpc['samp_num_coeff'], x, y, z) / cubic(rpc['samp_den_coeff'], x, y, z))
    i = rpc['line_off'] + rpc['line_scale'] * (cubic(rpc['line_num_coeff'], x, y, z) / cubic(rpc['line_den_coeff'], x, y, z))
    return j, i


def sym_rpc(X):
    rpc = {}
    for n in ('long', 'lat', 'height', 'samp', 'line'):
        rpc[n + '_off'] = S.real(n + '_off')
        rpc[n + '_scale'] = S.real(n + '_scale')
        X.assume(rpc[n + '_scale'] > 0)
    for n in ('samp_num', 'samp_den', 'line_num', 'line_den'):
        rpc[n + '_coeff'] = [S.real(f'{n}_{k}') for k in range(20)]
    return rpc


class RpcT:
    """Assumed contract of rasterio's RPCTransformer.xy: pointwise; offset 'center' is half a pixel."""

    def __init__(self, rpc, **opts):
        self.rpc = rpc

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def xy(self, rows, cols, zs=None, offset='center'):
        o = {'center': 0.5, 'ul': 0.0}[offset]
        fr, fc, fz = A.asarr(rows), A.asarr(cols), A.asarr(zs)
        return [A.ew(lambda r, c, z, k=k: inv(r + o, c + o, z, k), fr, fc, fz, dt='float64') for k in range(2)]


def inv(r, c, z, k):
    return S.apply('rpc_inv_' + 'xy'[k], r, c, z)


def make(L, X, crs):
    L.camera.RPCTransformer = RpcT
    rpc = sym_rpc(X)
    world = SH.FakeCrs('world')
    try:
        return L.camera.RpcCamera((S.integer('W', 1), S.integer('H', 1)), dict(rpc), crs=world if crs else None), rpc, world
    except L.errors.OrthorityError:
        return None, rpc, world


def mk(crs):
    nm = 'with world CRS' if crs else 'geographic'

    @prop.case(f'forward[{nm}]', FN, expect=['column', 'row', 'shape', 'input-unchanged'])
    def fwd(L, X):
        cam, rpc, world = make(L, X, crs)
        if cam is None:
            return
        N = S.integer('N', 1)
        xyz = A.symarray('xyz', (3, N))
        n = A.generic_idx([N])[0]
        p = [xyz.at(k, n) for k in range(3)]
        before = xyz.snap()
        ji = cam.world_to_pixel(xyz)
        q = [SH.warp_value(world, cam._rpc_crs, *p, k) for k in range(3)] if crs else p
        j, i = spec(rpc, *q)
        X.require('shape', z3.And(S.zb(ji.shape[0] == 2), S.zb(ji.shape[1] == N)))
        X.require_eq('column', ji.at(0, n), j, defined=True)
        X.require_eq('row', ji.at(1, n), i, defined=True)
        for k in range(3):
            X.require_eq('input-unchanged', xyz.at(k, n), before((k, n)))

    @prop.case(f'forward-nan[{nm}]', FN, expect=['nan', 'others'])
    def fnan(L, X):
        cam, rpc, world = make(L, X, crs)
        if cam is None:
            return
        N = S.integer('N', 2)
        xyz = A.symarray('xyz', (3, N), 'float64', nan=True)
        n = A.generic_idx([N])[0]
        p = [xyz.at(k, n) for k in range(3)]
        anynan = S.zor(*[v.nan for v in p])
        ji = cam.world_to_pixel(xyz)
        ref = spec(rpc, *([SH.warp_value(world, cam._rpc_crs, *p, k) for k in range(3)] if crs else p))
        for c in range(2):
            e = ji.at(c, n)
            X.require('nan', z3.Implies(S.zb(anynan), S.zb(S.isnan(e))))
            X.require('others', z3.Implies(z3.Not(S.zb(S.isnan(ref[c]))), z3.Not(S.zb(S.isnan(e)))))

    for zk in ('scalar', 'per-pixel', 'one-pixel', 'one-element'):
        @prop.case(f'inverse[{nm},z {zk}]', FN, expect=['x', 'y', 'height', 'shape'])
        def bwd(L, X, zk=zk):
            cam, rpc, world = make(L, X, crs)
            if cam is None:
                return
            N = S.integer('N', 2)
            n = A.generic_idx([N])[0]
            one = zk == 'one-pixel'
            ji = A.symarray('ji', (2, 1 if one else N))
            z = S.real('z') if zk == 'scalar' else A.symarray('z', (1 if zk == 'one-element' else N,))
            zn = z if zk == 'scalar' else z.at(0 if zk == 'one-element' else n)
            m = 0 if one else n
            xyz = cam.pixel_to_world_z(ji, z)
            X.require('shape', z3.And(S.zb(xyz.shape[0] == 3), S.zb(xyz.shape[1] == N)))
            g = [inv(ji.at(1, m) + 0.5, ji.at(0, m) + 0.5, zn, k) for k in range(2)] + [zn]
            if crs:
                g = [SH.warp_value(cam._rpc_crs, world, *g, k) for k in range(3)]
            X.require_eq('x', xyz.at(0, n), g[0])
            X.require_eq('y', xyz.at(1, n), g[1])
            X.require_eq('height', xyz.at(2, n), g[2])

    @prop.case(f'inverse-nan[{nm}]', FN, expect=['nan', 'others'])
    def bnan(L, X):
        cam, rpc, world = make(L, X, crs)
        if cam is None:
            return
        N = S.integer('N', 2)
        n = A.generic_idx([N])[0]
        ji = A.symarray('ji', (2, N), 'float64', nan=True)
        z = A.symarray('z', (N,), 'float64', nan=True)
        bad = S.zor(ji.at(0, n).nan, ji.at(1, n).nan, z.at(n).nan)
        xyz = cam.pixel_to_world_z(ji, z)
        for c in range(3):
            e = xyz.at(c, n)
            X.require('nan', z3.Implies(S.zb(bad), S.zb(S.isnan(e))))
            X.require('others', z3.Implies(z3.Not(S.zb(bad)), z3.Not(S.zb(S.isnan(e)))))


mk(False)
mk(True)


@prop.case('crs-check', FN, expect=['accepted-only-if-heights-kept'])
def crs_check(L, X):
    cam, rpc, world = make(L, X, True)
    from rasterio.crs import CRS
    g = CRS.from_epsg(4979)
    ok = [S.SReal.of(SH.warp_value(g, world, rpc['long_off'], rpc['lat_off'], h, 2)) == h for h in (0.0, 1.0)]
    ok = z3.And(*[S.zb(c) for c in ok])
    X.require('accepted-only-if-heights-kept', ok if cam is not None else z3.Not(ok))


# ------------------------------------------------------------------------------------------ run time
def rand_rpc(rng, cubic_terms=True, lon=None, lat=None, im=None):
    lon, lat = lon if lon is not None else rng.uniform(-170, 170), lat if lat is not None else rng.uniform(-60, 60)
    W, H = im or (rng.randint(200, 9000), rng.randint(200, 9000))
    r = dict(long_off=lon, lat_off=lat, height_off=rng.uniform(0, 1500), long_scale=rng.uniform(0.01, 0.1), lat_scale=rng.uniform(0.01, 0.1),
             height_scale=rng.uniform(200, 900), samp_off=W / 2 + rng.uniform(-3, 3), line_off=H / 2 + rng.uniform(-3, 3), samp_scale=W / 2, line_scale=H / 2)
    rot = rng.choice([0, 0.2, -0.3])
    s = 0.004 if cubic_terms else 0.0
    sn = [rng.uniform(-s, s) for _ in range(20)]
    ln = [rng.uniform(-s, s) for _ in range(20)]
    sn[1], sn[2], sn[3] = math.cos(rot) * 1.02, math.sin(rot), rng.uniform(-0.03, 0.03)
    ln[1], ln[2], ln[3] = math.sin(rot), -math.cos(rot) * 0.98, rng.uniform(-0.03, 0.03)
    r['samp_num_coeff'], r['line_num_coeff'] = sn, ln
    for n in ('samp_den_coeff', 'line_den_coeff'):
        r[n] = [1.0] + [rng.uniform(-s, s) for _ in range(19)]
    r['err_bias'], r['err_rand'] = rng.choice([(None, None), (0.5, 0.25), (None, None)])
    return r, (W, H)


def utm(lon, lat):
    return f'EPSG:{(32600 if lat >= 0 else 32700) + int((lon + 180) // 6) + 1}'


@prop.fuzz('forward', n=3000, secs=60, fns=FN)
def _fwd(R, rng, i):
    from rasterio.rpc import RPC
    from rasterio.warp import transform
    rpc, im = rand_rpc(rng)
    crs = rng.choice([None, 'utm', 'geographic'])
    crs = utm(rpc['long_off'], rpc['lat_off']) if crs == 'utm' else 'EPSG:4979' if crs else None
    keep = {k: list(v) if isinstance(v, list) else v for k, v in rpc.items()}
    cam = call(R.camera.RpcCamera, im, RPC(**rpc) if rng.random() < 0.5 else rpc, crs=crs)
    n = rng.choice([1, 2, 6])
    g = np.array([[rpc[k + '_off'] + rng.uniform(-1, 1) * rpc[k + '_scale'] for _ in range(n)] for k in ('long', 'lat', 'height')])
    w = np.array(transform('EPSG:4979', crs, *g)) if crs else g.copy()
    nan = np.zeros(n, bool)
    if rng.random() < 0.5:
        k = rng.randrange(n)
        w[rng.randrange(3), k] = np.nan
        nan[k] = True
    w0 = w.copy()
    ji = call(cam.world_to_pixel, w)
    data = dict(rpc=rpc, crs=crs, world=w.tolist())
    if not np.array_equal(w, w0, equal_nan=True):
        raise Fail('world coordinates passed in were modified', data)
    if keep != rpc:
        raise Fail('RPC parameters passed in were modified', data)
    ref = np.array([spec(rpc, *g[:, k]) for k in range(n)]).T
    if ji.shape != (2, n) or not np.isnan(ji[:, nan]).all():
        raise Fail('a point with a NaN coordinate does not give NaN', data)
    if not np.abs((ji - ref)[:, ~nan]).max(initial=0) < (1e-3 if crs and 'utm' not in str(crs) else 1e-2):
        raise Fail(f'projects to {ji.tolist()}, RPC00B gives {ref.tolist()}', data)
    if crs is None and not np.abs((ji - ref)[:, ~nan]).max(initial=0) < 1e-7 * max(im):
        raise Fail(f'projects to {ji.tolist()}, RPC00B gives {ref.tolist()}', data)


@prop.fuzz('inverse', n=1500, secs=60, fns=FN)
def _inv(R, rng, i):
    rpc, im = rand_rpc(rng)
    crs = utm(rpc['long_off'], rpc['lat_off']) if rng.random() < 0.5 else None
    opts = rng.choice([None, None, dict(rpc_max_iterations=30), dict(rpc_pixel_error_threshold=1e-3)])
    cam = call(R.camera.RpcCamera, im, rpc, crs=crs, rpc_options=opts)
    n = rng.choice([1, 2, 5])
    ji = np.array([[rng.uniform(0, im[0] - 1) for _ in range(n)], [rng.uniform(0, im[1] - 1) for _ in range(n)]])
    hz = lambda: rpc['height_off'] + rng.uniform(-1, 1) * rpc['height_scale']
    kind = rng.choice(['scalar', 'array', 'one-pixel', 'one-element'])
    z = hz() if kind == 'scalar' else np.array([hz() for _ in range(1 if kind == 'one-element' else n)])
    if kind == 'one-pixel':
        ji = ji[:, :1]
    nan = np.zeros(n, bool)
    if kind == 'array' and rng.random() < 0.5:
        k = rng.randrange(n)
        nan[k] = True
        if rng.random() < 0.5:
            ji[rng.randrange(2), k] = np.nan
        else:
            z[k] = np.nan
    j0, z0 = ji.copy(), np.array(z, copy=True)
    w = call(cam.pixel_to_world_z, ji, z)
    data = dict(rpc=rpc, crs=crs, ji=ji.tolist(), z=np.asarray(z).tolist())
    if not np.array_equal(ji, j0, equal_nan=True) or not np.array_equal(z, z0, equal_nan=True):
        raise Fail('pixel or height arrays passed in were modified', data)
    if w.shape != (3, n):
        raise Fail(f'world coordinates have shape {w.shape}', data)
    if not np.isnan(w[:, nan]).all() or np.isnan(w[:, ~nan]).any():
        raise Fail('NaN in is not NaN out', data)
    if not np.abs(w[2] - z)[~nan].max(initial=0) < 1e-6:
        raise Fail('height is not the one requested', data)
    if not np.isfinite(w[:, ~nan]).all():
        from rasterio.rpc import RPC
        from rasterio.transform import RPCTransformer
        with RPCTransformer(RPC(**rpc), **(opts or {})) as tf:
            jb, zb = np.broadcast_arrays(ji, z)
            if not np.isfinite(np.array(tf.xy(jb[1], jb[0], zs=zb[0], offset='center'))).all():
                raise Skip()  # GDAL's iteration does not converge
    back = call(cam.world_to_pixel, w)
    if not np.abs((back - ji)[:, ~nan]).max(initial=0) < 0.2:
        raise Fail(f'pixel {ji.tolist()} round trips to {back.tolist()}', data)


@prop.fuzz('crs', n=24, secs=60, fns=FN)
def _crs(R, rng, i):
    rpc, im = rand_rpc(rng, lon=24.4, lat=-33.6)
    good = ['EPSG:4326', 'EPSG:4979', 'EPSG:32735', 'EPSG:2048']
    c = good[i % len(good)]
    call(R.camera.RpcCamera, im, rpc, crs=c)
    # heights in feet are not ellipsoidal metres
    unit = rng.choice(['vunits=us-ft', 'vunits=ft', 'vto_meter=0.5', 'vto_meter=0.9', 'vto_meter=1.1', 'vto_meter=2'])
    bad = f'+proj=utm +zone=35 +south +datum=WGS84 +units=m +{unit} +no_defs +type=crs'
    try:
        R.camera.RpcCamera(im, rpc, crs=bad)
    except R.errors.OrthorityError:
        return
    except Exception as ex:
        raise Fail(f'a CRS with non-ellipsoidal height raised {type(ex).__name__}')
    raise Fail('a CRS with heights in feet was accepted')


prop.assume('PROJ (rasterio.warp.transform) and GDAL (RPCTransformer) are pointwise; the inverse RPC solution is GDAL\'s (its accuracy is checked at run time)',
            'real arithmetic in place of IEEE doubles')
