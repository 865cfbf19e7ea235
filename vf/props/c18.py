"""C18: pan-sharpening is the Gram-Schmidt component substitution."""
import os
import tempfile
import threading

import numpy as np
import z3

from .. import arr as A
from .. import sym as S
from ..runner import Fail, Prop, Skip, call
from .c17 import TileWin, Im, write

prop = Prop('C18')
F = 'orthority/pan_sharp.py:PanSharpen.'
prop.assume('numpy.linalg.lstsq returns the least squares solution (an arbitrary vector in the proofs)',
            'the pan and simulated pan variances are positive; real arithmetic for float64',
            'the MS WarpedVRT with the requested resampling is the upsampled MS image (GDAL)',
            'band counts 1 to 4 (1 to 3 for estimated weights), by cases; the largest of each in the thorough tier only')


def tot(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


def sym_stats(X, nb):
    means = A.symarray('mean', (nb + 1,), 'float64')
    c = [[S.SReal(z3.Real(f'c{min(i, j)}{max(i, j)}')) for j in range(nb + 1)] for i in range(nb + 1)]
    cov = A.array([[c[i][j] for j in range(nb + 1)] for i in range(nb + 1)])
    X.assume(c[0][0].z > 0)
    for i in range(1, nb + 1):
        X.assume(c[i][i].z >= 0)   # variances
    return means, cov, c


def closed(c, means, w, nb, b, pan, ms):
    """Sharpened value of band b (from 0), for normalised weights w."""
    sim_cov = tot([w[i] * c[1 + b][1 + i] for i in range(nb)])
    var = tot([w[i] * w[j] * c[1 + i][1 + j] for i in range(nb) for j in range(nb)])
    sim_mean = tot([w[i] * means.at(1 + i) for i in range(nb)])
    sim = tot([w[i] * ms[i] for i in range(nb)])
    gain = S.sqrt(var) / S.sqrt(c[0][0])
    return ms[b] + sim_cov / var * (gain * (pan - means.at(0)) + sim_mean - sim), var


def sharpen(L, X, nb, means, cov, weights, get_w, tag=''):
    o = object.__new__(L.pan_sharp.PanSharpen)
    params = o._get_params(means, cov, weights)
    w = get_w()
    N = S.integer('N', 1)
    pan, ms = A.symarray('pan', (1, N), 'float64'), A.symarray('ms', (nb, N), 'float64')
    p0, m0 = pan.snap(), ms.snap()
    (n,) = A.generic_idx((N,), 'n')
    out = o._process_tile_array(pan, ms, **params)
    X.require('shape', z3.And(z3.BoolVal(len(out.shape) == 2 and out.shape[0] == nb), S.zb(out.shape[1] == N)))
    return out, w, n, p0, m0


def params_case(L, X, nb, zero):
    """User weights; ``zero`` lists the bands with zero weight."""
    means, cov, c = sym_stats(X, nb)
    u = [0.0 if i in zero else S.SReal(z3.Real(f'u{i}')) for i in range(nb)]
    for x in u:
        if S.is_sym(x):
            X.assume(x.z > 0)
    s = tot(u)
    w = [x / s for x in u]
    X.assume(tot([w[i] * w[j] * c[1 + i][1 + j] for i in range(nb) for j in range(nb)]).z > 0)
    out, w, n, p0, m0 = sharpen(L, X, nb, means, cov, list(u), lambda: w)
    for b in range(nb):
        e, var = closed(c, means, w, nb, b, p0((0, n)), [m0((i, n)) for i in range(nb)])
        X.require_eq('sharpened-band', out.at(b, n), e)


def replay(R, d):
    for i in range(8):
        sharp_real(R, __import__('random').Random(i), i)


for nb, zero in ((1, ()), (2, ()), (2, (0,)), (2, (1,)), (3, ()), (3, (0,)), (3, (1, 2)), (4, ())):
    prop.case(f'user weights[{nb} bands{", zero " + str(zero) if zero else ""}]', [F + '_get_params', F + '_process_tile_array'], expect=['shape', 'sharpened-band'], replay=replay, max_secs=200 if nb < 3 or zero else 700, tier='quick' if nb < 3 or zero else 'thorough')(
        lambda L, X, a=(nb, zero): params_case(L, X, *a))


def lstsq_stub(L, X, c, nb, calls):
    def lstsq(a, b, rcond=None):
        n = a.shape[0]
        if tuple(a.shape) != (n, n):
            raise S.Unsupported('least squares with another system')
        # which bands?
        bands = None
        import itertools
        for sub in itertools.combinations(range(nb), n):
            if all(z3.eq(z3.simplify(S.SReal.of(a.at(i, j)).z), c[1 + sub[i]][1 + sub[j]].z) for i in range(n) for j in range(n)):
                bands = sub
        if bands is None:
            raise S.Unsupported('least squares with another system')
        bb = [b.at(i, 0) if len(b.shape) == 2 else b.at(i) for i in range(n)]
        X.require('least-squares-system', z3.And(*[S.SReal.of(bb[i]).z == c[0][1 + bands[i]].z for i in range(n)]) if n else z3.BoolVal(True))
        k = sum(x[0] == bands for x in calls)
        sol = [S.SReal(z3.Real(f'w{len(calls)}_{i}')) for i in range(n)]
        calls.append((bands, sol))
        out = A.array([[x] for x in sol]) if len(b.shape) == 2 and n else A.array(sol) if n else A.zeros((0, 1))
        return out, None, n, None
    return lstsq


def weights_case(L, X, nb):
    """Estimated weights."""
    from orthority.errors import OrthorityError as _  # noqa: F401  (name check only)
    means, cov, c = sym_stats(X, nb)
    calls = []
    L.np.linalg.lstsq = lstsq_stub(L, X, c, nb, calls)
    o = object.__new__(L.pan_sharp.PanSharpen)
    err = None
    try:
        params = o._get_params(means, cov, None)
    except Exception as ex:
        if type(ex).__name__ != 'OrthorityError':
            raise
        err = ex
    if not calls or calls[0][0] != tuple(range(nb)):
        raise S.Unsupported('weights without least squares')
    w0 = calls[0][1]
    pos = [x.z > 0 for x in w0]
    if err is not None:
        zero = z3.And(*[x.z == 0 for x in calls[1][1]]) if len(calls) > 1 else z3.BoolVal(False)
        X.require('error-only-without-positive-weights', z3.Or(zero, z3.Not(z3.Or(*pos))))
        return
    w = params['weights']
    ws = [S.SReal.of(w.at(i)) for i in range(nb)]
    X.require('weights-non-negative', z3.And(*[x.z >= 0 for x in ws]))
    X.require_eq('weights-sum-to-1', tot(ws), S.SReal(z3.RealVal(1)))
    nonneg = z3.And(*[x.z >= 0 for x in w0])
    if len(calls) == 1:
        X.require('least-squares-weights', nonneg)
        for i in range(nb):
            X.require_eq('least-squares-weights', ws[i] * tot(w0), w0[i])
    else:
        X.require('re-estimated-for-negative-weights', z3.Not(nonneg))
        bands, w1 = calls[1]
        X.require('re-estimated-for-negative-weights', z3.And(*[pos[i] if i in bands else z3.Not(pos[i]) for i in range(nb)]))
        ok = bool(S.SBool(z3.And(*[x.z >= 0 for x in w1])))
        use = {b: x for b, x in zip(bands, w1)} if ok else {b: w0[b] for b in bands}
        s = tot(list(use.values()))
        for i in range(nb):
            X.require_eq('re-estimated-weights', ws[i] * s, use.get(i, S.SReal(z3.RealVal(0))))


for nb in (1, 2, 3):
    prop.case(f'estimated weights[{nb} bands]', [F + '_get_params'], expect=['least-squares-system', 'weights-non-negative', 'weights-sum-to-1', 'least-squares-weights', 'error-only-without-positive-weights'] + (['re-estimated-weights'] if nb > 1 else []),
              replay=replay, max_secs=200 if nb < 3 else 500, tier='quick' if nb < 3 else 'thorough')(lambda L, X, nb=nb: weights_case(L, X, nb))


def est_sharpen(L, X, nb):
    """Estimated weights, sharpened pixels."""
    means, cov, c = sym_stats(X, nb)
    calls = []
    L.np.linalg.lstsq = lstsq_stub(L, X, c, nb, calls)
    w0 = [S.SReal(z3.Real(f'w0_{i}')) for i in range(nb)]
    for x in w0:
        X.assume(x.z > 0)
    s = tot(w0)
    w = [x / s for x in w0]
    X.assume(tot([w[i] * w[j] * c[1 + i][1 + j] for i in range(nb) for j in range(nb)]).z > 0)
    out, w, n, p0, m0 = sharpen(L, X, nb, means, cov, None, lambda: w)
    for b in range(nb):
        e, var = closed(c, means, w, nb, b, p0((0, n)), [m0((i, n)) for i in range(nb)])
        X.require_eq('sharpened-band', out.at(b, n), e)


for nb in (1, 2, 3):
    prop.case(f'estimated weights, sharpened[{nb} bands]', [F + '_get_params', F + '_process_tile_array'], expect=['shape', 'sharpened-band'], replay=replay, max_secs=200 if nb < 3 else 500, tier='quick' if nb < 3 else 'thorough')(lambda L, X, nb=nb: est_sharpen(L, X, nb))


# ------------------------------------------------------------------------------------ tile masks
class Out:
    def __init__(self, dt, nodata):
        self.dtypes, self.nodata = (dt,) * 4, nodata
        self.writes, self.masks = [], []

    def write(self, a, indexes=None, window=None, **k):
        if indexes is not None or k:
            raise S.Unsupported('write() of selected bands')
        self.writes.append((a, window))

    def write_mask(self, m, window=None, **k):
        self.masks.append((m, window))


def tile_case(L, X, order, dt, nodata, mask):
    nb = len(order)
    win = TileWin(0)
    pan, ms, out = Im('pan', 2), Im('ms', max(order)), Out(dt, nodata)
    o = object.__new__(L.pan_sharp.PanSharpen)
    for k in ('_pan_lock', '_ms_lock', '_out_lock'):
        setattr(o, k, threading.Lock())

    class Opaque:
        pass
    # contract of _process_tile_array: some function of the pan and MS values of the pixel
    def tile_array(p, m, **k):
        if k != dict(tag=1):
            raise S.Unsupported('other parameters')
        ps, mz = p.snap(), m.snap()
        two = len(p.shape) == 2
        shp = tuple(m.shape)
        return A.SArray.make(shp, lambda i: S.apply(f'gs{i[0]}', *[S.SReal(ps(((0,) if two else ()) + tuple(i[1:])).z)] + [S.SReal(mz((b,) + tuple(i[1:])).z) for b in range(nb)]), np.dtype('float64'))

    o._process_tile_array = tile_array
    o._process_tile(pan, ms, win, 2, list(order), out, mask, tag=1)
    X.require('written-once', z3.BoolVal(len(out.writes) == 1 and out.writes[0][1] is win and len(out.masks) == (1 if mask else 0)))
    a = out.writes[0][0]
    X.require('shape', z3.And(z3.BoolVal(len(a.shape) == 3 and a.shape[0] == nb and str(a.dtype) == dt), S.zb(a.shape[1] == win.height), S.zb(a.shape[2] == win.width)))
    i, j = A.generic_idx((win.height, win.width), 'p')
    pv = pan.band(2, win).at(i, j)
    mv = [ms.band(b, win).at(i, j) for b in order]
    ok = z3.And(*[z3.Not(S.zb(S.isnan(v))) for v in [pv] + mv])
    for b in range(nb):
        g = a.at(b, i, j)
        fill = nodata if nodata is not None else 0
        if fill != fill:
            X.require('nodata-where-an-input-is-nodata', z3.Or(ok, S.zb(S.isnan(g))))
        else:
            X.require('nodata-where-an-input-is-nodata', z3.Or(ok, z3.And(z3.Not(S.zb(S.isnan(g))), S.SReal.of(g).z == S.SReal.of(fill).z)))
        v = S.apply(f'gs{b}', S.SReal(pv.z), *[S.SReal(x.z) for x in mv])
        e = v if dt == 'float64' else S.rnd32(v) if dt == 'float32' else None
        if e is not None:
            X.require('sharpened-where-valid', z3.Implies(ok, z3.And(z3.Not(S.zb(S.isnan(g))), S.SReal.of(g).z == S.SReal.of(e).z)))
        else:
            ii = np.iinfo(dt)
            G, V, h = S.SReal.of(g).z, v.z, z3.RealVal('1/2')
            lo, hi = z3.RealVal(int(ii.min)), z3.RealVal(int(ii.max))
            X.require('sharpened-where-valid', z3.Implies(ok, z3.And(z3.Implies(V > hi, G == hi), z3.Implies(V < lo, G == lo), z3.Implies(z3.And(V >= lo, V <= hi), z3.And(G - V <= h, V - G <= h)))))
    if mask:
        m = out.masks[0][0]
        v = m.at(i, j)
        X.require('mask-of-valid-pixels', S.zb(v if isinstance(v, (bool, S.SBool)) else A._ne0(v)) == ok)


for order, dt, nodata, mask in (((1,), 'uint8', 0, False), ((2, 1), 'uint8', None, True), ((1, 2, 3), 'float32', float('nan'), False), ((3, 1), 'float64', float('nan'), True), ((1, 2), 'int16', -32768, False), ((1, 1), 'uint16', 0, True)):
    prop.case(f'tile[{order} {dt} nodata {nodata} mask {mask}]', [F + '_process_tile', 'orthority/common.py:convert_array_dtype'], replay=replay, max_secs=100,
              expect=['written-once', 'shape', 'nodata-where-an-input-is-nodata', 'sharpened-where-valid'] + (['mask-of-valid-pixels'] if mask else []))(lambda L, X, a=(order, dt, nodata, mask): tile_case(L, X, *a))


# ------------------------------------------------------------------------------------ run time
def oracle(pan, low, vp, ms, vm, k, weights):
    """Expected sharpened image (float64) and validity, for nearest upsampled MS bands."""
    h, w = ms.shape[1:]
    m = vm & ~np.isnan(low)
    X = np.vstack([low[m]] + [b[m] for b in ms])
    mean, cov = X.mean(1), np.atleast_2d(np.cov(X))
    if weights is None:
        w_ = np.linalg.lstsq(cov[1:, 1:], cov[0, 1:], rcond=None)[0]
        if (w_ < 1e-6).any():
            return None
        weights = w_
    wt = np.array(weights, float) / np.sum(weights)
    var = wt @ cov[1:, 1:] @ wt
    if var <= 0 or cov[0, 0] <= 0:
        return None
    g = cov[1:, 1:] @ wt / var
    up = np.stack([np.kron(b, np.ones((k, k))) for b in ms])
    sim = np.tensordot(wt, up, 1)
    pn = (pan - mean[0]) * np.sqrt(var / cov[0, 0]) + wt @ mean[1:]
    out = up + g[:, None, None] * (pn - sim)[None]
    return out, vp & np.kron(vm, np.ones((k, k), bool)), wt


def sharp_real(R, rng, i):
    import rasterio
    rs = np.random.default_rng(rng.randrange(10 ** 9))
    nb, k = rng.choice([1, 2, 3, 4]), rng.choice([2, 3, 4])
    h, w = rng.randrange(5, 30), rng.randrange(5, 30)
    dt = rng.choice(['uint8', 'uint16', 'float32'])
    odt = rng.choice([None, 'uint8', 'int16', 'float32', 'float64'])
    base = rs.uniform(40, 180, (h, w))
    ms = np.stack([np.clip(base * rs.uniform(.4, 1.1) + rs.normal(0, 25, (h, w)) + 10 * b, 1, 250) for b in range(nb)]).astype(dt)
    mix = rs.uniform(.1, 1, nb)
    pan = np.clip(np.kron(np.tensordot(mix / mix.sum(), ms.astype(float), 1), np.ones((k, k))) + rs.normal(0, 8, (h * k, w * k)), 1, 250).astype(dt)[None]
    sc = 1.
    if dt == 'float32' and odt not in ('uint8', 'int16') and rng.random() < .6:
        # the same scene in other units (e.g. reflectance)
        sc = 10. ** rng.choice([-4, -3, -2, 2, 4])
        ms, pan = (ms * np.float32(sc)), (pan * np.float32(sc))
    psc = sc
    if dt == 'float32' and rng.random() < .4:
        # a pan band in other units than the MS bands
        psc = sc * 10. ** rng.choice([-3, -2, 2, 3])
        pan = pan * np.float32(psc / sc)
    nodata = 0 if rng.random() < .7 else None
    if nodata is not None:
        ms[:, rs.random((h, w)) < .1] = 0
        if rng.random() < .4:
            ms[:, :, : w // 2] = 0
        if rng.random() < .4:
            # nodata in one of the bands
            ms[rng.randrange(nb), rs.random((h, w)) < .1] = 0
        if rng.random() < .5:
            pan[0][rs.random(pan[0].shape) < .2] = 0
    vp = pan[0] != 0 if nodata is not None else np.ones(pan[0].shape, bool)
    cnt = vp.reshape(h, k, w, k).sum((1, 3))
    low = np.where(vp, pan[0].astype(float), 0).reshape(h, k, w, k).sum((1, 3)) / np.where(cnt, cnt, np.nan)
    idx = [rng.randrange(1, nb + 1) for _ in range(rng.randrange(1, 5))] if rng.random() < .4 else list(range(1, nb + 1))
    sel = ms[[b - 1 for b in idx]].astype(float)
    vm = (sel != 0).all(0) if nodata is not None else np.ones((h, w), bool)
    if (vm & (cnt > 0)).sum() < 8:
        raise Skip()
    dup = len(set(idx)) < len(idx)
    weights = None if rng.random() < .4 else [round(rng.uniform(.05, 3), 2) if rng.random() < .8 else 0 for _ in idx]
    if weights is not None and sum(weights) == 0:
        weights[0] = 1
    e = oracle(pan[0].astype(float), low, vp, sel, vm, k, weights)
    if e is None:
        raise Skip()
    E, valid, wt = e
    two = rng.random() < .3
    with tempfile.TemporaryDirectory() as d:
        pf, mf, of = (os.path.join(d, n) for n in ('pan.tif', 'ms.tif', 'o.tif'))
        write(pf, np.concatenate([np.where(pan > 0, 251 * psc - pan, 0).astype(dt), pan]) if two else pan, 1., nodata)
        write(mf, ms, float(k), nodata)
        mask = rng.random() < .4
        ps = call(R.pan_sharp.PanSharpen, pf, mf)
        call(ps.process, of, ms_indexes=idx if idx != list(range(1, nb + 1)) or rng.random() < .5 else None, pan_index=2 if two else 1, weights=weights, interp='nearest', dtype=odt, write_mask=mask, compress='deflate')
        with rasterio.open(of) as im:
            out, dm, on = im.read(), im.dataset_mask(), im.nodata
    t = str(out.dtype)
    if t != (odt or dt) or out.shape != E.shape:
        raise Fail(f'output is {t} {out.shape}, expected {odt or dt} {E.shape}')
    if np.dtype(t).kind in 'iu':
        ii = np.iinfo(t)
        D = np.abs(out.astype(float) - np.clip(E, ii.min, ii.max))
        tol = .5 + 1e-3
    else:
        D, tol = np.abs(out.astype(float) - E), 2e-3 * sc
    D = np.where(valid[None], D, 0)
    if not (D <= tol).all():
        b, r, c = np.unravel_index(np.nanargmax(np.where(np.isnan(D), 1e9, D)), D.shape)
        raise Fail(f'band {b + 1} at ({r}, {c}) is {out[b, r, c]}, expected {E[b, r, c]:.4f} (weights {weights}, indexes {idx})', dict(weights=weights, indexes=idx))
    if mask:
        if ((dm > 0) != valid).any():
            raise Fail('mask differs from the pixels valid in the pan and MS', dict(indexes=idx))
    elif on is not None:
        bad = ~(np.isnan(out) if on != on else out == on)[:, ~valid]
        if bad.any():
            raise Fail(f'{int(bad.sum())} values of pixels without pan or MS data are not nodata', dict(indexes=idx))


@prop.fuzz('sharpened-real', 80, 2500, 60, [F + 'process', F + '_process_tile', F + '_get_params', F + '_process_tile_array'])
def f_sharp(R, rng, i):
    sharp_real(R, rng, i)


@prop.fuzz('weights-real', 400, 8000, 30, [F + '_get_params'])
def f_weights(R, rng, i):
    """Weights are non-negative and sum to 1, or there is an error, for any covariance."""
    import warnings
    rs = np.random.default_rng(rng.randrange(10 ** 9))
    nb = rng.choice([1, 2, 3, 4, 6])
    M = rs.normal(0, 1, (nb + 1, nb + 1 + rng.randrange(3)))
    cov = M @ M.T * 10 ** rng.uniform(-3, 5)
    means = rs.uniform(0, 200, nb + 1)
    PS = R.pan_sharp.PanSharpen
    if not hasattr(PS, '_get_params'):
        raise Skip()
    user = None if rng.random() < .7 else [float(x) for x in rs.uniform(0, 5, nb)]
    w0 = np.linalg.lstsq(cov[1:, 1:], cov[0, 1:], rcond=None)[0]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            p = call(PS._get_params, object.__new__(PS), means, cov, user, allow_=(R.errors.OrthorityError,))
    except R.errors.OrthorityError:
        if user is not None or (w0 > 1e-9 * np.abs(w0).max()).any():
            raise Fail(f'error for least squares weights {w0.tolist()}')
        return
    w = np.asarray(p['weights'], float)
    if w.shape != (nb,) or not (w >= 0).all() or abs(w.sum() - 1) > 1e-9:
        raise Fail(f'weights {w.tolist()} (least squares {w0.tolist()})', dict(cov=cov.tolist()))
    ref = np.array(user) if user is not None else w0
    if (ref < 0).any():
        keep = np.nonzero(w0 > 0)[0]
        w1 = np.linalg.lstsq(cov[1:, 1:][np.ix_(keep, keep)], cov[0, 1:][keep], rcond=None)[0]
        if np.abs(w0).min() < 1e-6 * np.abs(w0).max() or (len(w1) and np.abs(w1).min() < 1e-6 * np.abs(w1).max()):
            raise Skip()
        ref = w0.clip(0, None)
        if (w1 >= 0).all():
            ref[keep] = w1
    if ref is not None and not np.allclose(w, ref / ref.sum(), rtol=1e-6, atol=1e-9):
        raise Fail(f'weights {w.tolist()}, expected {(ref / ref.sum()).tolist()}', dict(cov=cov.tolist()))
