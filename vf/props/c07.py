"""C07: interior parameter readers."""
import math
import json
import os
import types

import numpy as np
import z3

from .. import arr as A
from .. import sym as S
from ..runner import Fail, Prop, Skip, call
from . import c06
from .c06 import FakeExif, Tmp

prop = Prop('C07')
FP = 'orthority/param_io.py:'
OTY, OSFM, EXIF = [FP + 'read_oty_int_param'], [FP + '_read_osfm_int_param', FP + 'read_osfm_int_param', 'orthority/enums.py:CameraType.from_odm'], \
    [FP + '_read_exif_int_param', FP + '_create_exif_cam_id'] + ['orthority/exif.py:Exif.' + f for f in ('_get_tag_im_size', '_get_sensor_size', '_get_focal_len', '_get_xmp_dewarp', '_get_exif_float', '_get_make_model_serial')]

# published parameter lists (documentation, oty_int.rst)
COEFF = dict(pinhole=[], brown=['k1', 'k2', 'p1', 'p2', 'k3'], fisheye=['k1', 'k2', 'k3', 'k4'],
             opencv=['k1', 'k2', 'p1', 'p2', 'k3', 'k4', 'k5', 'k6', 's1', 's2', 's3', 's4', 'tx', 'ty'])
ODM = dict(perspective='brown', simple_radial='brown', radial='brown', brown='brown', fisheye='fisheye')
ALL = sorted({c for v in COEFF.values() for c in v}) + ['p3', 'K1', 'zz']


class Ctx:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def load(L, data):
    """Contract of opening and parsing: the parsed content is ``data``."""
    L.common.Open = Ctx
    L.common.get_filename = lambda f: 'file'
    L.param_io.yaml = types.SimpleNamespace(safe_load=lambda f: data)
    L.param_io.json = types.SimpleNamespace(load=lambda f: data)


def subsets(keys):
    yield []
    yield list(keys)
    for k in keys:
        yield [k]
        yield [q for q in keys if q != k]


def same(X, nm, got, exp):
    """Nested equality of dictionaries with symbolic leaves."""
    if set(got) != set(exp):
        X.require(nm, z3.BoolVal(False))
        return
    for k, e in exp.items():
        g = got[k]
        if isinstance(e, tuple):
            X.require(nm, z3.BoolVal(isinstance(g, tuple) and len(g) == len(e)))
            for a, b in zip(g, e):
                X.require_eq(nm, S.SReal.of(a), S.SReal.of(b)) if not (a is b) else X.require(nm, z3.BoolVal(True))
        elif S.is_sym(e):
            X.require_eq(nm, S.SReal.of(g), S.SReal.of(e)) if not (g is e) else X.require(nm, z3.BoolVal(True))
        else:
            X.require(nm, z3.BoolVal(bool(g == e)))


for _t in COEFF:
    @prop.case(f'Orthority[{_t}]', OTY, expect=['value', 'camera', 'rejected'], max_secs=120,
               bound='presence of optional values: none, all, each alone, all but each (values unbounded)')
    def oty(L, X, t=_t):
        CT = L.enums.CameraType
        opt = ['sensor_size', 'cx', 'cy'] + COEFF[t]
        for sub in subsets(opt):
            for pair in (False, True):
                for flat in ((False, True) if len(sub) in (0, len(opt)) else (False,)):
                    W, H = S.integer('W', 1), S.integer('H', 1)
                    f = [S.real('fx'), S.real('fy')] if pair else S.real('f')
                    y = dict(type=t.upper() if pair else t, im_size=[W, H], focal_len=f)
                    e = dict(cam_type=CT(t), im_size=(W, H), focal_len=tuple(f) if pair else f)
                    for k in sub:
                        v = [S.real('sw'), S.real('sh')] if k == 'sensor_size' else S.real(k)
                        y[k] = v
                        e[k] = tuple(v) if isinstance(v, list) else v
                    W2 = S.integer('W2', 1)
                    y2 = dict(type='pinhole', im_size=[W2, H], focal_len=S.real('f2'), cx=S.real('cx2'))
                    e2 = dict(cam_type=CT('pinhole'), im_size=(W2, H), focal_len=y2['focal_len'], cx=y2['cx'])
                    if flat:
                        y['name'] = 'cam A'
                    load(L, y if flat else {'cam A': y, 'B': y2})
                    out = L.param_io.read_oty_int_param('f.yaml')
                    X.require('camera', z3.BoolVal(list(out) == (['cam A'] if flat else ['cam A', 'B'])))
                    same(X, 'value', out['cam A'], e)
                    if not flat:
                        same(X, 'value', out['B'], e2)
        ok = True
        for bad in [dict(drop=k) for k in ('type', 'im_size', 'focal_len')] + [dict(type=v) for v in ('rpc', 'x', 'brown2', '')] + [dict(add=k) for k in ALL if k not in opt]:
            y = dict(type=t, im_size=[S.integer('W', 1), S.integer('H', 1)], focal_len=S.real('f'))
            y.pop(bad.get('drop'), None)
            if 'type' in bad:
                y['type'] = bad['type']
            if 'add' in bad:
                y[bad['add']] = S.real('v')
            load(L, {'cam A': y})
            try:
                L.param_io.read_oty_int_param('f.yaml')
                ok = False
            except L.errors.ParamError:
                pass
            X.require('rejected', z3.BoolVal(ok))


for _p, _t in ODM.items():
    @prop.case(f'OpenSfM[{_p}]', OSFM, expect=['value', 'camera', 'rejected', 'source-unchanged'], max_secs=120,
               bound='presence of optional values: none, all, each alone, all but each (values unbounded)')
    def osfm(L, X, p=_p, t=_t):
        CT = L.enums.CameraType
        opt = ['c_x', 'c_y'] + COEFF[t]
        for sub in subsets(opt):
            for pair in (False, True):
                W, H = S.integer('W', 1), S.integer('H', 1)
                j = dict(projection_type=p.upper() if pair else p, width=W, height=H)
                e = dict(cam_type=CT(t), im_size=(W, H))
                if pair:
                    j['focal_x'], j['focal_y'] = S.real('fx'), S.real('fy')
                else:
                    j['focal'] = e['focal_len'] = S.real('f')
                for k in sub:
                    j[k] = S.real(k)
                    e[k.replace('_', '')] = j[k]
                keep = dict(j)
                js = {rename: d for rename, d in (('v2 2cam v2 1', j), ('B', dict(projection_type='brown', width=W, height=H, focal=S.real('f2'))))}
                load(L, js if pair else [dict(cameras=js, shots={})])
                out = L.param_io.read_osfm_int_param('f.json')
                X.require('camera', z3.BoolVal(list(out) == ['2cam v2 1', 'B']))
                o = dict(out['2cam v2 1'])
                if pair:
                    g = o.pop('focal_len')
                    g = g if isinstance(g, tuple) else (g, g)
                    for a, b in zip(g, (keep['focal_x'], keep['focal_y'])):
                        X.require_eq('value', S.SReal.of(a), b)
                same(X, 'value', o, e)
                X.require('source-unchanged', z3.BoolVal(set(j) == set(keep) and all(j[k] is keep[k] for k in keep)))
        ok = True
        for bad in [dict(drop=k) for k in ('projection_type', 'width', 'height', 'focal')] + [dict(type=v) for v in ('rpc', 'x', 'dual', 'spherical')] + [dict(add=k) for k in ALL if k not in opt]:
            y = dict(projection_type=p, width=S.integer('W', 1), height=S.integer('H', 1), focal=S.real('f'))
            y.pop(bad.get('drop'), None)
            if 'type' in bad:
                y['projection_type'] = bad['type']
            if 'add' in bad:
                y[bad['add']] = S.real('v')
            load(L, {'cam A': y})
            try:
                L.param_io.read_osfm_int_param('f.json')
                ok = False
            except L.errors.ParamError:
                pass
            X.require('rejected', z3.BoolVal(ok))


def size(X, nm):
    w, h = S.integer(nm + 'W', 1), S.integer(nm + 'H', 1)
    return w, h


@prop.case('EXIF[dewarp]', EXIF[:1], expect=['value', 'camera'])
def dewarp(L, X):
    im, tag = size(X, 'i'), size(X, 't')
    d = [S.real(f'd{k}') for k in range(9)]
    X.assume(S.znot(S.zb(d[0] == 0)))
    out = L.param_io._read_exif_int_param(FakeExif(im_size=im, tag_im_size=tag, dewarp=d, focal_len=S.real('f'), sensor_size=(S.real('sw'), S.real('sh')), focal_len_35=S.real('f35'),
                                                   make='a', model=None, serial='S'))
    X.require('camera', z3.BoolVal(list(out) == ['a S']))
    mx = S.smax(*tag)
    e = dict(cam_type=L.enums.CameraType.brown, im_size=im, focal_len=(d[0], d[1]), sensor_size=tag, cx=d[2] / mx, cy=d[3] / mx, k1=d[4], k2=d[5], p1=d[6], p2=d[7], k3=d[8])
    same(X, 'value', out['a S'], e)


for _why in ('none', 'length', 'no tagged size'):
    for _kind in ('focal', 'focal and 35', '35 and sensor', '35', 'missing'):
        @prop.case(f'EXIF[{_kind},dewarp {_why}]', EXIF[:2], expect=['value' if _kind != 'missing' else 'rejected'])
        def pin(L, X, why=_why, kind=_kind):
            im, tag = size(X, 'i'), size(X, 't')
            f, f35, ss = S.real('f'), S.real('f35'), (S.real('sw'), S.real('sh'))
            for v in (f, f35, *ss):
                X.assume(v > 0)
            ex = FakeExif(im_size=im, tag_im_size=None if why == 'no tagged size' else tag,
                          dewarp=None if why == 'none' else [S.real(f'd{k}') for k in range(8 if why == 'length' else 9)])
            if 'focal' in kind:
                ex.focal_len = f
            if '35' in kind:
                ex.focal_len_35 = f35
            if 'sensor' in kind or 'focal' in kind:
                ex.sensor_size = ss
            if kind == 'missing':
                ex.focal_len = f
                try:
                    L.param_io._read_exif_int_param(ex)
                    X.require('rejected', z3.BoolVal(False))
                except L.errors.ParamError:
                    X.require('rejected', z3.BoolVal(True))
                return
            e = dict(cam_type=L.enums.CameraType.pinhole, im_size=im)
            if 'focal' in kind:
                e.update(focal_len=f, sensor_size=ss)
            elif 'sensor' in kind:
                e.update(focal_len=f35 * S.smax(*ss) / 36, sensor_size=ss)
            else:
                e.update(focal_len=f35 / 36)
            out = L.param_io._read_exif_int_param(ex)
            X.require('camera', z3.BoolVal(list(out) == ['unknown']))
            same(X, 'value', out['unknown'], e)


@prop.case('EXIF sensor size', [EXIF[3]], expect=['value'])
def sensor(L, X):
    im = size(X, 'i')
    xr, yr = S.real('xr'), S.real('yr')
    X.assume(xr > 0)
    X.assume(yr > 0)
    tags = dict(EXIF_FocalPlaneXResolution=xr, EXIF_FocalPlaneYResolution=yr)
    E = L.exif.Exif
    E._get_exif_float = staticmethod(lambda d, k: tags.get(k) if k in d else None)
    for code, mm in ((2, S.SReal(z3.Q(254, 10))), (3, 10), (4, 1), (5, S.SReal(z3.Q(1, 1000)))):
        d = dict.fromkeys(tags, '')
        d['EXIF_FocalPlaneResolutionUnit'] = str(code)
        out = E._get_sensor_size(d, im)
        X.require('value', z3.BoolVal(len(out) == 2))
        for k, r in enumerate((xr, yr)):
            # literals such as 25.4 are the nearest doubles
            X.require('value', S.zb(abs(S.SReal.of(out[k]) - mm * im[k] / r) * r <= im[k] * S.SReal(z3.Q(1, 10 ** 12))))


# ------------------------------------------------------------------------------------------ run time
IDS = ['a', 'cam 1', 'v2 x', 'v2 vivo 2', 'v2 22', 'v2x', 'x v2 ', '2 2', 'dji fc6310r 5472 3648', 'Üñ', '5', 'null', 'a: b', "it's", 'true']


def val(rng):
    return rng.choice([0.0, rng.uniform(-1, 1), rng.uniform(-1, 1) * 1e-7, 0, 1])


@prop.fuzz('Orthority', n=500, secs=30, fns=OTY)
def _oty(R, rng, i):
    import yaml
    CT = R.enums.CameraType
    y, e = {}, {}
    for cid in rng.sample(IDS, rng.choice([1, 2, 4])):
        t = rng.choice(list(COEFF))
        d = dict(type=rng.choice([t, t.upper()]), im_size=[rng.randint(1, 9000), rng.randint(1, 9000)])
        f = rng.choice([rng.uniform(0.1, 200), 100, [rng.uniform(0.1, 2), 1.5]])
        d['focal_len'] = f
        x = dict(cam_type=CT(t), im_size=tuple(d['im_size']), focal_len=tuple(f) if isinstance(f, list) else f)
        for k in ['sensor_size', 'cx', 'cy'] + COEFF[t]:
            if rng.random() < 0.6:
                d[k] = [rng.uniform(1, 40), rng.randint(1, 9)] if k == 'sensor_size' else val(rng)
                x[k] = tuple(d[k]) if k == 'sensor_size' else d[k]
        items = list(d.items())
        rng.shuffle(items)
        y[cid] = dict(items)
        e[cid] = x
    bad = None
    if rng.random() < 0.4:
        cid = rng.choice(list(y))
        t = e[cid]['cam_type'].value
        bad = rng.choice(['drop', 'type', 'add'])
        if bad == 'drop':
            y[cid].pop(rng.choice(['type', 'im_size', 'focal_len']))
        elif bad == 'type':
            y[cid]['type'] = rng.choice(['rpc', 'odm', 'perspective', 'browns', ''])
        else:
            y[cid][rng.choice([k for k in ALL + ['xyz', 'distort'] if k not in COEFF[t]])] = 0.0
    with Tmp() as dd:
        p = os.path.join(dd, 'int.yaml')
        with open(p, 'w') as f:
            yaml.safe_dump(y, f, sort_keys=False, allow_unicode=rng.random() < .5)
        if bad:
            try:
                out = R.param_io.read_oty_int_param(p)
            except R.errors.ParamError:
                return
            except Exception as ex:
                raise Fail(f'{type(ex).__name__} for a camera with a bad value ({bad}): {ex}', y)
            raise Fail(f'camera with a bad value ({bad}) was read as {out}', y)
        out = call(R.param_io.read_oty_int_param, p)
    if out != e or list(out) != list(e) or any(type(out[c][k]) is not type(e[c][k]) for c in e for k in e[c]):
        raise Fail(f'interior parameters are {out}, expected {e}', y)


@prop.fuzz('OpenSfM', n=400, secs=30, fns=OSFM)
def _osfm(R, rng, i):
    CT = R.enums.CameraType
    js, e = {}, {}
    for cid in rng.sample(IDS, rng.choice([1, 2, 3])):
        p = rng.choice(list(ODM))
        t = ODM[p]
        w, h = rng.randint(1, 9000), rng.randint(1, 9000)
        d = dict(projection_type=p, width=w, height=h)
        x = dict(cam_type=CT(t), im_size=(w, h))
        if rng.random() < 0.5:
            d['focal'] = x['focal_len'] = rng.uniform(.2, 2)
        else:
            fx = rng.uniform(.2, 2)
            d['focal_x'], d['focal_y'] = fx, rng.choice([fx, rng.uniform(.2, 2), fx * (1 + 10 ** rng.uniform(-9, -2)), math.nextafter(fx, 9)])
            x['focal_len'] = (d['focal_x'], d['focal_y'])
        for k in ['c_x', 'c_y'] + COEFF[t]:
            if rng.random() < 0.6:
                d[k] = val(rng)
                x[k.replace('c_x', 'cx').replace('c_y', 'cy')] = d[k]
        items = list(d.items())
        rng.shuffle(items)
        js[cid] = dict(items)
        e[cid[3:] if cid[:3] == 'v2 ' else cid] = x
    bad = rng.random() < 0.3
    if bad:
        cid = rng.choice(list(js))
        t = ODM[js[cid]['projection_type']]
        b = rng.choice(['drop', 'type', 'add'])
        if b == 'drop':
            js[cid].pop(rng.choice([k for k in ('projection_type', 'width', 'height', 'focal', 'focal_x', 'focal_y') if k in js[cid]]))
        elif b == 'type':
            js[cid]['projection_type'] = rng.choice(['rpc', 'spherical', 'dual', 'fisheye62'])
        else:
            js[cid][rng.choice([k for k in ALL if k not in COEFF[t]])] = 0.0
    whole = rng.random() < 0.4
    with Tmp() as dd:
        p = os.path.join(dd, 'cameras.json')
        with open(p, 'w') as f:
            json.dump([dict(cameras=js, shots={})] if whole else js, f)
        if bad:
            try:
                out = R.param_io.read_osfm_int_param(p)
            except R.errors.ParamError:
                return
            except Exception as ex:
                raise Fail(f'{type(ex).__name__} for a camera with a bad value: {ex}', js)
            raise Fail(f'camera with a bad value was read as {out}', js)
        out = call(R.param_io.read_osfm_int_param, p)
    g = {c: dict(o, focal_len=(o['focal_len'],) * 2 if isinstance(e[c]['focal_len'], tuple) and not isinstance(o['focal_len'], tuple) else o['focal_len']) if c in e else o for c, o in out.items()}
    if g != e or list(g) != list(e):
        raise Fail(f'interior parameters are {out}, expected {e}', js)


@prop.fuzz('EXIF', n=250, secs=40, fns=EXIF)
def _exif(R, rng, i):
    CT = R.enums.CameraType
    tags = {}
    for t, v in (('EXIF_Make', 'DJI'), ('EXIF_Model', 'FC 7'), ('EXIF_BodySerialNumber', 'Xy')):
        if rng.random() < 0.6:
            tags[t] = v
    cid = ' '.join([v.lower() if 'Serial' not in t else v for t, v in tags.items()]) or 'unknown'
    im = (rng.randint(1, 30), rng.randint(1, 30))
    tag = rng.choice([None, im, (rng.randint(100, 9000), rng.randint(100, 9000))])
    if tag:
        tags['EXIF_PixelXDimension'], tags['EXIF_PixelYDimension'] = map(str, tag)
    f = f35 = ss = None
    if rng.random() < 0.6:
        f = round(rng.uniform(1, 80), 2)
        tags['EXIF_FocalLength'] = f'({f})'
    if rng.random() < 0.6:
        f35 = rng.randint(8, 200)
        tags['EXIF_FocalLengthIn35mmFilm'] = str(f35)
    if rng.random() < 0.5:
        u = rng.choice([2, 3, 4, 5])
        mm = {2: 25.4, 3: 10.0, 4: 1.0, 5: 0.001}[u]
        r = (rng.uniform(100, 9000), rng.uniform(100, 9000))
        tags.update(EXIF_FocalPlaneResolutionUnit=str(u), EXIF_FocalPlaneXResolution=f'({r[0]!r})', EXIF_FocalPlaneYResolution=f'({r[1]!r})')
        ss = (im[0] / r[0] * mm, im[1] / r[1] * mm)
    xml, dw = '', None
    if rng.random() < 0.5:
        dw = [rng.uniform(500, 4000), rng.uniform(500, 4000)] + [rng.uniform(-30, 30), rng.uniform(-30, 30)] + [rng.uniform(-.3, .3) for _ in range(5)]
        q = rng.random()
        if q < 0.2:
            dw = dw[:rng.choice([1, 5, 8])]
        elif q < 0.3:
            dw = [0.0] * 9
        xml = c06.xmp('dji', dict(DewarpData='2018-01-01;' + ','.join(map(repr, dw)) if rng.random() < 0.7 else ','.join(map(repr, dw))), rng)[0]
    if dw and len(dw) == 9 and any(dw) and tag:
        e = dict(cam_type=CT.brown, im_size=im, focal_len=tuple(dw[:2]), sensor_size=(float(tag[0]), float(tag[1])), cx=dw[2] / max(tag), cy=dw[3] / max(tag),
                 k1=dw[4], k2=dw[5], p1=dw[6], p2=dw[7], k3=dw[8])
    elif f and ss:
        e = dict(cam_type=CT.pinhole, im_size=im, focal_len=f, sensor_size=ss)
    elif f35 and ss:
        e = dict(cam_type=CT.pinhole, im_size=im, focal_len=f35 * max(ss) / 36, sensor_size=ss)
    elif f35:
        e = dict(cam_type=CT.pinhole, im_size=im, focal_len=f35 / 36)
    else:
        e = None
    data = dict(tags=tags, xmp=xml, im_size=im)
    with Tmp() as d:
        p = os.path.join(d, 'a.tif')
        c06.write_im(p, tags, xml, im)
        if e is None:
            try:
                out = R.param_io.read_exif_int_param(p)
            except R.errors.ParamError:
                return
            except Exception as ex:
                raise Fail(f'{type(ex).__name__} for an image without focal length: {ex}', data)
            raise Fail(f'image without focal length was read as {out}', data)
        out = call(R.param_io.read_exif_int_param, p)
    if list(out) != [cid] or set(out[cid]) != set(e):
        raise Fail(f'interior parameters are {out}, expected {({cid: e})}', data)
    for k, v in e.items():
        g = out[cid][k]
        if k == 'cam_type' and g is not v or k != 'cam_type' and (np.shape(g) != np.shape(v) or not np.allclose(g, v, rtol=1e-12, atol=0)):
            raise Fail(f'{k} is {g}, expected {v}', data)


prop.assume('YAML, JSON and XML parsing and GDAL tag reading of the libraries')
