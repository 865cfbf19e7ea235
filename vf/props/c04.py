"""C04: RPC refinement."""
import copy

import numpy as np
import z3

from .. import arr as A
from .. import sym as S
from ..runner import Fail, Prop, Skip, call
from . import c03

prop = Prop('C04')
FN = ['orthority/fit.py:refine_rpc']


class Cam:
    """Contract of RpcCamera.world_to_pixel used by its caller: a pointwise function of the ground coordinates (C03)."""

    def __init__(self, im_size, rpc, **k):
        self.rpc = rpc

    def world_to_pixel(self, xyz):
        f = A.asarr(xyz).snap()
        n = A.asarr(xyz).shape[1]
        return A.SArray.make((2, n), lambda i: A.sel(lambda q: pred(q[0], *[f((k, q[1])) for k in range(3)]), i, 0, 2)
                             if not isinstance(i[0], int) else pred(i[0], *[f((k, i[1])) for k in range(3)]), 'float64')


def pred(axis, x, y, z):
    return S.apply('rpc_' + 'ji'[axis], x, y, z)


def gcps_(n):
    return [dict(ji=tuple(S.real(f'{c}{k}') for c in 'ji'), xyz=tuple(S.real(f'{c}{k}') for c in 'xyz'), id=str(k), info=None) for k in range(n)]


def mk(method, n, as_obj):
    @prop.case(f'coefficients[{method},{n} GCPs{",RPC object" if as_obj else ""}]', FN, expect=['numerator', 'other-parameters', 'inputs-unchanged', 'stationary'],
               bound=f'{n} GCPs (any positions and model)')
    def coeffs(L, X):
        from rasterio.rpc import RPC
        L.fit.RpcCamera = Cam
        rpc = c03.sym_rpc(X)
        rpc.update(err_bias=0.5, err_rand=0.25)
        keep = {k: list(v) if isinstance(v, list) else v for k, v in rpc.items()}
        gcps = gcps_(n)
        gk = copy.copy([dict(g) for g in gcps])
        X.lsq = []
        arg = RPC(**rpc) if as_obj else rpc
        out = L.fit.refine_rpc(arg, gcps, method=method)
        names = ('samp', 'line')
        for ax in range(2):
            nm = names[ax]
            off, sc = keep[nm + '_off'], keep[nm + '_scale']
            y = [(g['ji'][ax] - off) / sc for g in gk]
            x = [(pred(ax, *g['xyz']) - off) / sc for g in gk]
            if method == 'shift':
                m, c = 1.0, sum(b - a for a, b in zip(x, y)) / n
                X.require_eq('stationary', sum(b - (a + c) for a, b in zip(x, y)), S.SReal.of(0.0))
            else:
                if len(X.lsq) != 2:
                    raise S.Unsupported('least squares is not solved per axis')
                m, c = X.lsq[ax][2].at(0), X.lsq[ax][2].at(1)
                r = [m * a + c - b for a, b in zip(x, y)]
                X.require_eq('stationary', sum(r), S.SReal.of(0.0))
                X.require_eq('stationary', sum(q * a for q, a in zip(r, x)), S.SReal.of(0.0))
            num, num0, den0 = out[nm + '_num_coeff'], keep[nm + '_num_coeff'], keep[nm + '_den_coeff']
            if len(num) != 20:
                raise S.Unsupported('number of coefficients')
            for k in range(20):
                X.require_eq('numerator', S.SReal.of(num[k]), m * num0[k] + c * den0[k])
        ok = set(out) == set(keep)
        for k, v in keep.items():
            if k.endswith('num_coeff'):
                continue
            for a, b in (zip(out[k], v) if isinstance(v, list) else [(out[k], v)]):
                e = a == b
                ok = ok and (e if isinstance(e, bool) else z3.is_true(z3.simplify(S.zb(e))))
        X.require('other-parameters', z3.BoolVal(bool(ok)))
        same = all(a is b or (not isinstance(a, list) and S.is_sym(a) and z3.is_true(z3.simplify(S.zb(a == b)))) for k, v in keep.items()
                   for a, b in (zip(rpc[k], v) if isinstance(v, list) else [(rpc[k], v)]))
        same = same and all(len(rpc[k]) == 20 for k in rpc if k.endswith('coeff'))
        same = same and len(gcps) == n and all(g[k] is h[k] for g, h in zip(gcps, gk) for k in h)
        X.require('inputs-unchanged', z3.BoolVal(bool(same)))


for _n in (1, 2, 3):
    mk('shift', _n, False)
for _n in (2, 3, 4):
    mk('shift-drift', _n, False)
mk('shift', 2, True)


def mkany(method, as_obj):
    @prop.case(f'coefficients[{method},any number of GCPs{",RPC object" if as_obj else ""}]', FN,
               expect=['numerator', 'other-parameters', 'inputs-unchanged', 'stationary'], max_secs=240)
    def coeffs(L, X):
        """The same contract for a list of GCPs of symbolic length."""
        from rasterio.rpc import RPC
        L.fit.RpcCamera = Cam
        rpc = c03.sym_rpc(X)
        rpc.update(err_bias=0.5, err_rand=0.25)
        keep = {k: list(v) if isinstance(v, list) else v for k, v in rpc.items()}
        n = S.integer('n', 1 if method == 'shift' else 2)
        J = lambda i, a: S.apply(f'gcp_j_{a}', S.SInt.of(i))
        W = lambda i, a: S.apply(f'gcp_x_{a}', S.SInt.of(i))
        item = dict(ji=A.Rows(n, [lambda i, a=a: J(i, a) for a in range(2)]), xyz=A.Rows(n, [lambda i, a=a: W(i, a) for a in range(3)]), id='', info=None)
        ik = dict(item)
        gcps = A.RowList(n, item)
        X.lsq = []
        out = L.fit.refine_rpc(RPC(**rpc) if as_obj else rpc, gcps, method=method)
        N = S.SReal.of(n)
        for ax, nm in enumerate(('samp', 'line')):
            off, sc = keep[nm + '_off'], keep[nm + '_scale']
            y = lambda i: (J(i[0], ax) - off) / sc
            x = lambda i: (pred(ax, *[W(i[0], q) for q in range(3)]) - off) / sc
            if method == 'shift':
                m, c = 1.0, A.bigsum([n], lambda i: y(i) - x(i)) / N
                X.require_eq('stationary', A.bigsum([n], lambda i: y(i) - (x(i) + c)), S.SReal.of(0.0))
            else:
                if len(X.lsq) != 2:
                    raise S.Unsupported('least squares is not solved per axis')
                v = [S.SReal.of(e) for e in A.asarr(X.lsq[ax][2]).reshape(-1).elems()]
                m, c = v if S.is_sym(A.asarr(X.lsq[ax][0]).at(0, 0)) else v[::-1]
                X.require_eq('stationary', A.bigsum([n], lambda i: m * x(i) + c - y(i)), S.SReal.of(0.0))
                X.require_eq('stationary', A.bigsum([n], lambda i: (m * x(i) + c - y(i)) * x(i)), S.SReal.of(0.0))
            num, num0, den0 = out[nm + '_num_coeff'], keep[nm + '_num_coeff'], keep[nm + '_den_coeff']
            if len(num) != 20:
                raise S.Unsupported('number of coefficients')
            for k in range(20):
                X.require_eq('numerator', S.SReal.of(num[k]), m * num0[k] + c * den0[k])
        ok = set(out) == set(keep)
        for k, v in keep.items():
            if k.endswith('num_coeff'):
                continue
            for a, b in (zip(out[k], v) if isinstance(v, list) else [(out[k], v)]):
                e = a == b
                ok = ok and (e if isinstance(e, bool) else z3.is_true(z3.simplify(S.zb(e))))
        X.require('other-parameters', z3.BoolVal(bool(ok)))
        same = all(a is b for k, v in keep.items() for a, b in (zip(rpc[k], v) if isinstance(v, list) else [(rpc[k], v)]))
        same = same and set(item) == set(ik) and all(item[k] is ik[k] for k in ik)
        X.require('inputs-unchanged', z3.BoolVal(bool(same)))


for _m in ('shift', 'shift-drift'):
    for _o in (False, True):
        mkany(_m, _o)


@prop.case('lemma: prediction is transformed', ['vf/props/c03.py:spec'], expect=['column', 'row'])
def lemma(L, X):
    """num' = m num + c den  =>  normalised prediction' = m prediction + c, for every ground point."""
    rpc = c03.sym_rpc(X)
    new = dict(rpc)
    mc = {n: (S.real('m_' + n), S.real('c_' + n)) for n in ('samp', 'line')}
    for n, (m, c) in mc.items():
        new[n + '_num_coeff'] = [m * a + c * b for a, b in zip(rpc[n + '_num_coeff'], rpc[n + '_den_coeff'])]
    p = [S.real(v) for v in 'xyz']
    old, ref = c03.spec(rpc, *p), c03.spec(new, *p)
    for nm, n, a, b in (('column', 'samp', old[0], ref[0]), ('row', 'line', old[1], ref[1])):
        m, c = mc[n]
        X.require_eq(nm, (b - rpc[n + '_off']) / rpc[n + '_scale'], m * ((a - rpc[n + '_off']) / rpc[n + '_scale']) + c, defined=True)


def mkfew(method, need):
    @prop.case(f'too-few[{method}]', FN, expect=['raises'])
    def few(L, X):
        L.fit.RpcCamera = Cam
        rpc = c03.sym_rpc(X)
        for n in range(need):
            try:
                L.fit.refine_rpc(rpc, gcps_(n), method=method)
                X.require('raises', z3.BoolVal(False))
            except ValueError:
                X.require('raises', z3.BoolVal(True))


mkfew('shift', 1)
mkfew('shift-drift', 2)


# ------------------------------------------------------------------------------------------ run time
@prop.fuzz('refine', n=900, secs=60, fns=FN)
def _refine(R, rng, i):
    from rasterio.rpc import RPC
    rpc, im = c03.rand_rpc(rng)
    if rng.random() < 0.3:
        rpc['samp_off'] += rng.uniform(-500, 500)
        rpc['line_scale'] *= rng.uniform(0.3, 3)
    method = rng.choice(['shift', 'shift-drift'])
    n = rng.choice([1, 2, 3, 7, 20])
    if method == 'shift-drift':
        n = max(n, 2)
    xyz = [tuple(rpc[k + '_off'] + rng.uniform(-1, 1) * rpc[k + '_scale'] for k in ('long', 'lat', 'height')) for _ in range(n)]
    p = np.array([c03.spec(rpc, *q) for q in xyz]).T
    mag = rng.choice([0.0, 5.0, 300.0])
    ji = p * rng.choice([1.0, 1.01]) + np.array([[rng.uniform(-mag, mag)], [rng.uniform(-mag, mag)]])
    ji = ji + np.array([[rng.gauss(0, rng.choice([0, 2.0])) for _ in range(n)] for _ in range(2)])
    if rng.random() < 0.2:
        ji = np.round(ji)
    gcps = [dict(ji=(int(a), int(b)) if float(a).is_integer() and rng.random() < 0.5 else (float(a), float(b)), xyz=q, id=str(k), info='') for k, ((a, b), q) in enumerate(zip(ji.T, xyz))]
    g0, r0 = copy.deepcopy(gcps), copy.deepcopy(rpc)
    obj = RPC(**rpc) if rng.random() < 0.4 else rpc
    out = call(R.fit.refine_rpc, obj, gcps, method=rng.choice([method, R.enums.RpcRefine(method)]))
    data = dict(rpc=r0, gcps=g0, method=method)
    if gcps != g0 or rpc != r0 or (isinstance(obj, RPC) and obj.to_dict() != r0):
        raise Fail('the model or GCPs passed in were modified', data)
    if set(out) != set(r0) or any(out[k] != r0[k] for k in r0 if not k.endswith('num_coeff')):
        raise Fail('parameters other than numerator coefficients changed', data)
    if not all(isinstance(out[k], list) and len(out[k]) == 20 for k in r0 if k.endswith('coeff')):
        raise Fail('coefficients are not lists of 20 values', data)
    exp = []
    for ax in range(2):
        if method == 'shift':
            exp.append((1.0, float(np.mean(ji[ax] - p[ax]))))
        else:
            x, y = p[ax] - p[ax].mean(), ji[ax] - ji[ax].mean()
            if (x ** 2).sum() < 1e-2 * n:
                raise Skip()
            m = float((x * y).sum() / (x * x).sum())
            exp.append((m, float(ji[ax].mean() - m * p[ax].mean())))
    for _ in range(4):
        q = [r0[k + '_off'] + rng.uniform(-1, 1) * r0[k + '_scale'] for k in ('long', 'lat', 'height')]
        a, b = c03.spec(r0, *q), c03.spec(out, *q)
        for ax in range(2):
            e = exp[ax][0] * a[ax] + exp[ax][1]
            if not abs(b[ax] - e) < 1e-4 * (1 + abs(e) / 1e3):
                raise Fail(f'axis {ax}: {a[ax]} is refined to {b[ax]}, least squares gives {e}', data)


@prop.fuzz('too-few', n=6, secs=10, fns=FN)
def _few(R, rng, i):
    rpc, im = c03.rand_rpc(rng)
    g = dict(ji=(1.0, 2.0), xyz=(rpc['long_off'], rpc['lat_off'], 0.0), id='', info='')
    for m, n in (('shift', 0), ('shift-drift', 0), ('shift-drift', 1)):
        try:
            R.fit.refine_rpc(rpc, [g] * n, method=m)
        except ValueError:
            continue
        except Exception as ex:
            raise Fail(f'{n} GCPs with {m} raised {type(ex).__name__}')
        raise Fail(f'{n} GCPs accepted for {m}')


prop.assume('numpy.linalg.lstsq returns a solution of the normal equations', 'real arithmetic in place of IEEE doubles')
