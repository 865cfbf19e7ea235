"""C06: exterior parameter readers."""
import csv
import io
import json
import math
import os
import shutil
import tempfile
import warnings

import numpy as np
import z3

from .. import arr as A
from .. import sym as S
from ..runner import Fail, Prop, Skip, call
from ..shims import FakeCrs, warp_value
from . import c05

prop = Prop('C06')
FP = 'orthority/param_io.py:'
CSV = [FP + 'CsvReader._convert', FP + 'CsvReader.read_ext_param', FP + 'CsvReader._parse_file', FP + 'CsvReader._parse_fieldnames', FP + 'CsvReader._get_crs', FP + 'CsvReader._find_lla_rpy_crs']
OSFM = [FP + 'OsfmReader.read_ext_param', FP + 'OsfmReader._find_utm_crs', FP + 'OsfmReader._read_json_dict']
EXIF = [FP + '_read_exif_ext_param', FP + '_create_exif_cam_id', FP + 'ExifReader.read_ext_param', FP + 'ExifReader._read_exif', FP + 'ExifReader._find_utm_crs'] + \
       ['orthority/exif.py:Exif.' + f for f in ('__init__', '_get_lla', '_get_xmp_lla', '_get_xmp_rpy', '_get_exif_float')]
OTY = [FP + 'OtyReader.read_ext_param', FP + 'OtyReader._read_json_dict']


# ------------------------------------------------------------------------------------------ contracts of callees
def opk_of(rpy, lla, crs, lla_crs):
    """Contract of _rpy_to_opk (C05): a function of its arguments."""
    k = f'{crs.sym_key}_{lla_crs.sym_key}'
    return tuple(S.apply(f'opk{i}_{k}', *[S.SReal.of(v) for v in rpy], *[S.SReal.of(v) for v in lla]) for i in range(3))


def stub_rpy(L):
    def f(rpy, lla, crs, lla_crs=None, C_bB=None):
        if C_bB is not None:
            raise S.Unsupported('camera to body rotation')
        return opk_of(tuple(rpy), tuple(lla), crs, lla_crs)
    L.param_io._rpy_to_opk = f


def pose_of(t, r, ref):
    a = [S.SReal.of(v) for v in (*t, *r, *ref)]
    return tuple(S.apply(f'pose_xyz{i}', *a) for i in range(3)), tuple(S.apply(f'pose_opk{i}', *a) for i in range(3))


def eqs(X, nm, got, exp):
    got = list(got)
    X.require(nm, z3.BoolVal(len(got) == len(exp)))
    for a, b in zip(got, exp):
        X.require_eq(nm, S.SReal.of(a), S.SReal.of(b))


for _xyz in (True, False):
    for _opk in (True, False):
        for _rad in (True, False):
            @prop.case(f'CSV row[{"xyz" if _xyz else "lla"},{"opk" if _opk else "rpy"},{"radians" if _rad else "degrees"}]', CSV[:1], expect=['position', 'orientation'])
            def row(L, X, hx=_xyz, ho=_opk, rad=_rad):
                stub_rpy(L)
                W, G = FakeCrs('W'), FakeCrs('G')
                rd = L.param_io.CsvReader.__new__(L.param_io.CsvReader)
                rd._crs, rd._lla_crs = W, G
                rd._format = L.param_io.CsvReader._parse_fieldnames(['filename'] + (['x', 'y', 'z'] if hx else ['latitude', 'longitude', 'altitude'])
                                                                   + (['omega', 'phi', 'kappa'] if ho else ['roll', 'pitch', 'yaw']))
                r = {k: S.real(k) for k in ('x', 'y', 'z', 'latitude', 'longitude', 'altitude', 'omega', 'phi', 'kappa', 'roll', 'pitch', 'yaw')}
                if hx:
                    for k in ('latitude', 'longitude', 'altitude'):
                        r.pop(k)
                else:
                    for k in 'xyz':
                        r.pop(k)
                for k in (('roll', 'pitch', 'yaw') if ho else ('omega', 'phi', 'kappa')):
                    r.pop(k)
                xyz, opk = rd._convert(r, radians=rad)
                conv = (lambda v: v) if rad else S.radians
                if hx:
                    E = (r['x'], r['y'], r['z'])
                    w = [warp_value(W, G, *E, k) for k in range(3)]
                    lla = (w[1], w[0], w[2])
                else:
                    lla = (r['latitude'], r['longitude'], r['altitude'])
                    E = [warp_value(G, W, lla[1], lla[0], lla[2], k) for k in range(3)]
                O = [conv(r[k]) for k in ('omega', 'phi', 'kappa')] if ho else opk_of([conv(r[k]) for k in ('roll', 'pitch', 'yaw')], lla, W, G)
                eqs(X, 'position', xyz, E)
                eqs(X, 'orientation', opk, O)


for _n in (1, 2):
    @prop.case(f'OpenSfM shots[{_n}]', OSFM[:1], expect=['position', 'orientation', 'entries'], bound=f'{_n} shots (the loop body does not depend on other shots)')
    def osfm(L, X, n=_n):
        L.param_io._cv_ext_to_oty_ext = lambda t, r, ref_xyz=None: pose_of(t, r, ref_xyz)
        W, G = FakeCrs('W'), FakeCrs('G')
        rd = L.param_io.OsfmReader.__new__(L.param_io.OsfmReader)
        rd._crs, rd._lla_crs = W, G
        ref = dict(longitude=S.real('lon'), latitude=S.real('lat'), altitude=S.real('alt'))
        cams = ['v2 v2cam v2 ', 'plain', 'v2x']
        shots = {f'im {k}.tif': dict(rotation=[S.real(f'r{k}{j}') for j in range(3)], translation=[S.real(f't{k}{j}') for j in range(3)], camera=cams[k]) for k in range(n)}
        rd._json_dict = dict(reference_lla=ref, shots=shots, cameras={})
        rx = [warp_value(G, W, ref['longitude'], ref['latitude'], ref['altitude'], k) for k in range(3)]
        for rep in range(2):
            out = rd.read_ext_param()
            X.require('entries', z3.BoolVal(list(out) == list(shots) and [out[k]['camera'] for k in out] == ['v2cam v2 ', 'plain', 'v2x'][:n]))
            for k, s in shots.items():
                xyz, opk = pose_of(s['translation'], s['rotation'], rx)
                eqs(X, 'position', out[k]['xyz'], xyz)
                eqs(X, 'orientation', out[k]['opk'], opk)


class FakeExif:
    def __init__(self, **k):
        for n in ('make', 'model', 'serial', 'lla', 'rpy', 'dewarp', 'im_size', 'tag_im_size', 'sensor_size', 'focal_len', 'focal_len_35', 'orientation'):
            setattr(self, n, None)
        self.filename = 'im.tif'
        self.__dict__.update(k)


@prop.case('EXIF exterior', EXIF[:1], expect=['position', 'orientation', 'entries'])
def exif_ext(L, X):
    stub_rpy(L)
    W, G = FakeCrs('W'), FakeCrs('G')
    lla = tuple(S.real(k) for k in ('lat', 'lon', 'alt'))
    rpy = tuple(S.real(k) for k in ('roll', 'pitch', 'yaw'))
    out = L.param_io._read_exif_ext_param(FakeExif(lla=lla, rpy=rpy, make='a', model='b', serial='c'), W, G)
    X.require('entries', z3.BoolVal(list(out) == ['im.tif'] and out['im.tif']['camera'] == 'a b c' and set(out['im.tif']) == {'xyz', 'opk', 'camera'}))
    o = out['im.tif']
    eqs(X, 'position', o['xyz'], [warp_value(G, W, lla[1], lla[0], lla[2], k) for k in range(3)])
    eqs(X, 'orientation', o['opk'], opk_of([S.radians(v) for v in rpy], lla, W, G))


@prop.case('Orthority exterior', OTY[:1], expect=['position', 'orientation', 'entries'], bound='2 features (the loop body does not depend on other features)')
def oty(L, X):
    rd = L.param_io.OtyReader.__new__(L.param_io.OtyReader)
    fs = [dict(properties=dict(filename=f'f{k}', camera=[None, 'c 1'][k], xyz=[S.real(f'x{k}{j}') for j in range(3)], opk=[S.real(f'o{k}{j}') for j in range(3)]),
               geometry=dict(type='Point', coordinates=[S.real(f'g{k}{j}') for j in range(3)])) for k in range(2)]
    rd._json_dict = dict(features=fs)
    out = rd.read_ext_param()
    X.require('entries', z3.BoolVal(list(out) == ['f0', 'f1'] and out['f0']['camera'] is None and out['f1']['camera'] == 'c 1'))
    for k in range(2):
        eqs(X, 'position', out[f'f{k}']['xyz'], fs[k]['properties']['xyz'])
        eqs(X, 'orientation', out[f'f{k}']['opk'], fs[k]['properties']['opk'])


@prop.case('GPS tags', [EXIF[6]], expect=['latitude', 'longitude', 'altitude'])
def gps(L, X):
    """Degrees-minutes-seconds tags, with hemisphere and sea level references."""
    dms = {k: tuple(S.real(f'{k}{j}') for j in range(3)) for k in ('lat', 'lon')}
    alt = S.real('alt')
    X.assume(S.znot(S.zb(alt == 0)))
    tags = dict(EXIF_GPSLatitude=dms['lat'], EXIF_GPSLongitude=dms['lon'], EXIF_GPSAltitude=alt)
    E = L.exif.Exif
    E._get_exif_float = staticmethod(lambda d, k: tags.get(k) if k in d else None)
    for la, sa in (('N', 1), ('S', -1)):
        for lo, so in (('E', 1), ('W', -1)):
            for ref, sz in ((None, 1), ('0x00', 1), ('0x01', -1), ('0', 1), ('1', -1)):
                d = dict.fromkeys(tags, '')
                d.update(EXIF_GPSLatitudeRef=la, EXIF_GPSLongitudeRef=lo)
                if ref is not None:
                    d['EXIF_GPSAltitudeRef'] = ref
                out = E._get_lla(d)
                for nm, k, s, got in (('latitude', 'lat', sa, out[0]), ('longitude', 'lon', so, out[1])):
                    X.require_eq(nm, S.SReal.of(got), s * (dms[k][0] + dms[k][1] / 60 + dms[k][2] / 3600))
                X.require_eq('altitude', S.SReal.of(out[2]), sz * alt)


# ------------------------------------------------------------------------------------------ run time
class Tmp:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vf_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


NAMES = ['img.tif', 'DJI 0001.JPG', 'a.b.c.tif', 'Ünï.tif', 'x-1_2', 'IMG_0001.JPG']


def num(rng, lo, hi):
    v = rng.uniform(lo, hi)
    return rng.choice([v, round(v, 3), float(round(v))])


def close(a, b, tol):
    return len(a) == len(b) and all(abs(float(p) - float(q)) <= tol for p, q in zip(a, b))


def rand_loc(rng):
    lat, lon = rng.uniform(-70, 70), rng.uniform(-175, 175)
    return lat, lon


def check_ext(out, exp, data, tolx=1e-6, tolr=2e-5):
    if list(out) != list(exp):
        raise Fail(f'images read {list(out)}, expected {list(exp)}', data)
    for k, (xyz, Rm, opk, cam) in exp.items():
        o = out[k]
        if o['camera'] != cam:
            raise Fail(f'camera of {k} is {o["camera"]!r}, expected {cam!r}', data)
        if not close(o['xyz'], xyz, tolx * (1 + max(map(abs, xyz)) * 1e-4)):
            raise Fail(f'position of {k} is {o["xyz"]}, expected {tuple(xyz)}', data)
        if opk is not None and not close(o['opk'], opk, 1e-12):
            raise Fail(f'omega-phi-kappa of {k} is {o["opk"]}, expected {opk}', data)
        if Rm is not None and not c05.same(c05.opk_mat(*o['opk']), Rm, tolr):
            raise Fail(f'orientation of {k} is {o["opk"]}, expected the rotation {np.array(Rm).tolist()}', data)


@prop.fuzz('CSV', n=700, secs=60, fns=CSV)
def _csv(R, rng, i):
    from rasterio.crs import CRS
    from rasterio.warp import transform
    lat0, lon0 = rand_loc(rng)
    G = CRS.from_epsg(4979)
    if rng.random() < 0.2:
        m = rng.choice([200, 3000])
        G = CRS.from_string(f'+proj=longlat +ellps=intl +towgs84={rng.randint(-m, m)},{rng.randint(-m, m)},{rng.randint(-m, m)} +no_defs')
    W = c05.utm(lat0, lon0)
    hx, ho, rad = rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.4
    n = rng.choice([3, 3, 4, 6, 12, 250 if rng.random() < 0.3 else 5])
    delim = rng.choice(',;: \t')
    hascam = rng.choice(['no', 'some', 'all'])
    rows = []
    for k in range(n):
        nm = rng.choice(NAMES)
        nm = f'{k:04d}_{nm}' if rng.random() < 0.8 else f'{nm}{k}'
        pth = rng.choice(['', 'a/', '/x/y/'])
        lat, lon, alt = num(rng, lat0 - 0.01, lat0 + 0.01), num(rng, lon0 - 0.01, lon0 + 0.01), num(rng, 1, 3000)
        x, y, z = [v[0] for v in transform(G, W, [lon], [lat], [alt])]
        if hx:
            x, y, z = round(x, rng.choice([0, 2, 7])), round(y, 3), round(z, 2)
        a = [num(rng, -90, 90), num(rng, -85, 85), num(rng, -180, 180)]
        if rad:
            a = [math.radians(v) for v in a]
        cam = None if hascam == 'no' else (f'cam {rng.choice(["A", "B", "C", "C "])}' if hascam == 'all' or rng.random() < 0.5 else '')
        rows.append(dict(path=pth + nm, name=nm, x=x, y=y, z=z, latitude=lat, longitude=lon, altitude=alt, a=a, camera=cam))
    pf = ['x', 'y', 'z'] if hx else ['latitude', 'longitude', 'altitude']
    of = ['omega', 'phi', 'kappa'] if ho else ['roll', 'pitch', 'yaw']
    legacy = hx and ho and hascam == 'no' and rng.random() < 0.25
    fields = ['filename'] + pf + of
    if not legacy:
        rng.shuffle(fields) if rng.random() < 0.5 else None
        if hascam != 'no':
            fields.insert(rng.randint(0, len(fields)), 'camera')
        if rng.random() < 0.3:
            fields.insert(rng.randint(0, len(fields)), 'extra')
    header = not legacy and rng.random() < 0.8
    given = not legacy and (not header or rng.random() < 0.2)
    if given and rng.random() < 0.3 and not header:
        pass
    buf = io.StringIO()
    quoting = rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL, csv.QUOTE_NONNUMERIC])
    quote = rng.choice('"\'')
    nl = rng.choice(['\n', '\r\n'])
    w = csv.writer(buf, delimiter=delim, quoting=quoting, quotechar=quote, lineterminator=nl)
    if header:
        pad = rng.random() < 0.3
        w.writerow([rng.choice([f, f.upper(), f.capitalize()]) if not pad else rng.choice([f, f + ' ', ' ' + f, f' {f.upper()}  ']) for f in fields])
    for r in rows:
        w.writerow([r['path'] if f == 'filename' else r['a'][of.index(f)] if f in of else (r['camera'] or '') if f == 'camera' else 1.5 if f == 'extra' else r[f] for f in fields])
    text = buf.getvalue()
    class dia(csv.Dialect):
        delimiter, quotechar, doublequote, skipinitialspace, lineterminator = delim, quote, True, False, nl
        quoting = csv.QUOTE_MINIMAL
    # Automatic detection is heuristic: judge with the dialect given, except in the plain layouts the documentation shows.
    auto = quoting == csv.QUOTE_ALL and delim in ',;\t' and header and n < 200 or legacy and quoting == csv.QUOTE_ALL and delim == ','
    kw = dict(radians=rad)
    if given:
        kw['fieldnames'] = [f if rng.random() < 0.5 else f.upper() for f in fields]
    if not auto:
        kw['dialect'] = dia
    if G != CRS.from_epsg(4979):
        kw['lla_crs'] = rng.choice([G, G.to_wkt()])
    elif rng.random() < 0.3:
        kw['lla_crs'] = 'EPSG:4979'
    crs_mode = rng.choice(['given', 'string', 'prj', 'none'])
    if hx and crs_mode == 'none' and not ho:
        crs_mode = 'prj'
    if not hx and (ho or crs_mode == 'prj'):
        crs_mode = 'given' if ho else 'none'
    if crs_mode in ('given', 'string'):
        kw['crs'] = W if crs_mode == 'given' else W.to_wkt()
    with Tmp() as d:
        p = os.path.join(d, rng.choice(['e.csv', 'my.ext.csv']))
        with open(p, 'w', newline='', encoding='utf-8') as f:
            f.write(text)
        if crs_mode == 'prj':
            with open(p[:-4] + '.prj', 'w') as f:
                f.write(rng.choice([W.to_wkt(), W.to_string()]))
        # the reader's own header detection decides whether the first row is data
        sniff = csv.Sniffer()
        try:
            hh = sniff.has_header(text.replace('\r\n', '\n')[:10000])
        except csv.Error:
            raise Skip()
        if hh != header:
            raise Skip()
        rd = call(R.param_io.CsvReader, p, **kw)
        outs = [call(rd.read_ext_param) for _ in range(2)]
    if outs[0] != outs[1]:
        raise Fail('second read differs', text)
    if crs_mode == 'none' and hx:
        if rd.crs is not None:
            raise Fail(f'CRS {rd.crs} appeared from nowhere', text)
    else:
        Wx = W if crs_mode != 'none' else c05.utm(np.mean([r['latitude'] for r in rows]), np.mean([r['longitude'] for r in rows]))
        if rd.crs != Wx:
            raise Fail(f'CRS is {rd.crs}, expected {Wx}', text)
        W = Wx
    exp = {}
    for r in rows:
        a = r['a'] if rad else [math.radians(v) for v in r['a']]
        if hx:
            xyz = (r['x'], r['y'], r['z'])
        else:
            xyz = [v[0] for v in transform(G, W, [r['longitude']], [r['latitude']], [r['altitude']])]
        Rm = None
        if not ho:
            if hx:
                lo, la, al = [v[0] for v in transform(W, G, [xyz[0]], [xyz[1]], [xyz[2]])]
            else:
                la, lo, al = r['latitude'], r['longitude'], r['altitude']
            Rm = c05.rpy_oracle(a, (la, lo, al), W, G)
        exp[r['name']] = (xyz, Rm, a if ho else None, r['camera'] if r['camera'] is not None else None)
    check_ext(outs[0], exp, dict(csv=text[:1500], options={k: v.to_wkt() if hasattr(v, 'to_wkt') else str(v) for k, v in kw.items()}))


@prop.fuzz('OpenSfM', n=300, secs=40, fns=OSFM)
def _osfm(R, rng, i):
    from rasterio.crs import CRS
    from rasterio.warp import transform
    lat, lon = rand_loc(rng)
    alt = rng.choice([0.0, rng.uniform(-10, 1500)])
    W = c05.utm(lat, lon)
    n = rng.choice([1, 2, 5])
    cams = {}
    for k in range(rng.choice([1, 2])):
        cams[rng.choice(['v2 ', '']) + f'{rng.choice(["dji", "dji", "vivo v2", "2x", "v2v", "22", "unknown v2 "])} fc{k} 5472 3648 brown 0.6666'] = dict(projection_type='perspective', width=100, height=80, focal=0.85, k1=0.1, k2=0.0)
    shots = {}
    tmax = rng.choice([50, 500, 500, 2e4])
    for k in range(n):
        shots[f'{rng.choice(NAMES)}{k}'] = dict(rotation=list(c05.rand_pose(rng)), translation=[rng.uniform(-1, 1) * tmax for _ in range(3)], camera=rng.choice(list(cams)), extra=[1])
    rec = [dict(cameras=cams, shots=shots, reference_lla=dict(latitude=lat, longitude=lon, altitude=alt), points={})]
    lla_crs = CRS.from_epsg(4326)
    kw = rng.choice([{}, dict(crs=W), dict(crs=W.to_wkt())])
    if rng.random() < 0.3:
        lla_crs = CRS.from_epsg(4979)
        kw['lla_crs'] = 'EPSG:4979'
    elif rng.random() < 0.3:
        m = rng.choice([200, 3000])
        lla_crs = CRS.from_string(f'+proj=longlat +ellps=intl +towgs84={rng.randint(-m, m)},{rng.randint(-m, m)},{rng.randint(-m, m)} +no_defs')
        kw['lla_crs'] = rng.choice([lla_crs, lla_crs.to_wkt()])
    with Tmp() as d:
        p = os.path.join(d, 'reconstruction.json')
        with open(p, 'w') as f:
            json.dump(rec, f)
        rd = call(R.param_io.OsfmReader, p, **kw)
    a = call(rd.read_ext_param)
    call(rd.read_int_param)
    b = call(rd.read_ext_param)
    data = dict(reconstruction=rec, options={k: v.to_wkt() if hasattr(v, 'to_wkt') else str(v) for k, v in kw.items()})
    if a != b:
        raise Fail('second read differs', data)
    if rd.crs != W:
        raise Fail(f'CRS is {rd.crs}, expected {W}', data)
    ref = np.array([v[0] for v in transform(lla_crs, W, [lon], [lat], [alt])])
    exp = {}
    for k, s in shots.items():
        Rt = c05.rod_oracle(s['rotation']).T
        c = s['camera']
        exp[k] = (-Rt @ np.array(s['translation']) + ref, Rt @ np.array(c05.D), None, c[3:] if c[:3] == 'v2 ' else c)
    check_ext(a, exp, data, tolr=1e-7)


NS = {'dji': ('http://www.dji.com/drone-dji/1.0/', ('GimbalRollDegree', 'GimbalPitchDegree', 'GimbalYawDegree'), 90.0),
      'sensefly': ('http://ns.sensefly.com/Camera/1.0/', ('Roll', 'Pitch', 'Yaw'), 0.0),
      'pix4d': ('http://pix4d.com/camera/1.0/', ('Roll', 'Pitch', 'Yaw'), 0.0)}


def dms(v):
    v = abs(v)
    d = int(v)
    m = int((v - d) * 60)
    return d, m, ((v - d) * 60 - m) * 60


def xmp(ns, tags, rng):
    uri = NS[ns][0]
    at = {k: (f'{v:+.6f}' if rng.random() < 0.5 else repr(v)) if isinstance(v, float) else str(v) for k, v in tags.items()}
    if rng.random() < 0.5:
        body = f'<rdf:Description rdf:about="" xmlns:q="{uri}" ' + ' '.join(f'q:{k}="{v}"' for k, v in at.items()) + '/>'
    else:
        body = f'<rdf:Description rdf:about="" xmlns:q="{uri}">' + ''.join(f'<q:{k}>{v}</q:{k}>' for k, v in at.items()) + '</rdf:Description>'
    return ('<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">' + body + '</rdf:RDF></x:xmpmeta>'), at


def write_im(p, tags, xml, size=(8, 6)):
    import rasterio as rio
    from rasterio.errors import NotGeoreferencedWarning
    with warnings.catch_warnings():
        warnings.simplefilter('ignore', NotGeoreferencedWarning)
        with rio.open(p, 'w', driver='GTiff', width=size[0], height=size[1], count=1, dtype='uint8') as im:
            im.write(np.zeros((1, size[1], size[0]), 'uint8'))
            im.update_tags(**tags)
            if xml:
                im.update_tags(ns='xml:XMP', **{'xml:XMP': xml})


@prop.fuzz('EXIF', n=150, secs=60, fns=EXIF)
def _exif(R, rng, i):
    from rasterio.crs import CRS
    from rasterio.warp import transform
    lat0, lon0 = rand_loc(rng)
    if rng.random() < 0.3:
        lat0, lon0 = lat0 / 1000, lon0 / 1000
    G = CRS.from_epsg(4979)
    n = rng.choice([1, 2, 3])
    exp0, llas = {}, []
    ims = {}
    order = []
    with Tmp() as d:
        for k in range(n):
            nm = f'{rng.choice(["b", "a", "c"])}{k}.tif'
            ns = rng.choice(list(NS))
            lat, lon, alt = lat0 + rng.uniform(-.01, .01), lon0 + rng.uniform(-.01, .01), rng.uniform(-20, 900)
            rpy = [round(rng.uniform(-30, 30), 3), round(rng.uniform(-170, 40), 3), round(rng.uniform(-180, 180), 3)]
            xt = dict(zip(NS[ns][1], rpy))
            tags = {}
            cam = []
            for t, v in (('EXIF_Make', 'DJI'), ('EXIF_Model', f'FC{k % 2}'), ('EXIF_BodySerialNumber', 'Ab1')):
                if rng.random() < 0.7:
                    tags[t] = v
                    cam.append(v.lower() if t != 'EXIF_BodySerialNumber' else v)
            gps_ = rng.random() < 0.8
            useX = ns == 'dji' and (not gps_ or rng.random() < 0.5)
            if not useX:
                gps_ = True
            if gps_:
                # the EXIF position differs from the XMP one, which is preferred
                e = (lat, lon, alt) if not useX else (lat + 1, lon + 1, alt + 50)
                for key, v, refs in (('Latitude', e[0], 'NS'), ('Longitude', e[1], 'EW')):
                    tags[f'EXIF_GPS{key}'] = ' '.join(f'({q!r})' for q in dms(v))
                    tags[f'EXIF_GPS{key}Ref'] = refs[0] if v >= 0 else refs[1]
                tags['EXIF_GPSAltitude'] = f'({abs(e[2])!r})'
                if e[2] < 0 or rng.random() < 0.5:
                    tags['EXIF_GPSAltitudeRef'] = '0x01' if e[2] < 0 else '0x00'
            if useX:
                xt.update(GpsLatitude=lat, GpsLongtitude=lon, AbsoluteAltitude=alt)
            xml, at = xmp(ns, xt, rng)
            if useX:
                lat, lon, alt = float(at['GpsLatitude']), float(at['GpsLongtitude']), float(at['AbsoluteAltitude'])
            p = os.path.join(d, nm)
            write_im(p, tags, xml)
            ims[nm] = dict(tags=tags, xmp=xml)
            order.append(p)
            llas.append((lat, lon))
            exp0[nm] = ((lat, lon, alt), (rpy[0], rpy[1] + NS[ns][2], rpy[2]), ' '.join(cam) or 'unknown')
        ml = np.mean(llas, axis=0)
        W = c05.utm(*ml)
        kw = dict(crs=rng.choice([W, W.to_wkt()])) if rng.random() < 0.5 else {}
        if rng.random() < 0.3:
            m = rng.choice([200, 3000])
            G = CRS.from_string(f'+proj=longlat +ellps=intl +towgs84={rng.randint(-m, m)},{rng.randint(-m, m)},{rng.randint(-m, m)} +no_defs')
            kw['lla_crs'] = rng.choice([G, G.to_wkt()])
        rd = call(R.param_io.ExifReader, order, **kw)
        out = call(rd.read_ext_param)
        out2 = call(rd.read_ext_param)
    data = dict(images=ims)
    if out != out2:
        raise Fail('second read differs', data)
    if rd.crs != W:
        raise Fail(f'CRS is {rd.crs}, expected {W}', data)
    exp = {}
    for k, (lla, rpy, cam) in exp0.items():
        exp[k] = ([v[0] for v in transform(G, W, [lla[1]], [lla[0]], [lla[2]])], c05.rpy_oracle([math.radians(v) for v in rpy], lla, W, G), None, cam)
    check_ext(out, exp, data, tolx=1e-5)


@prop.fuzz('Orthority', n=200, secs=20, fns=OTY)
def _oty(R, rng, i):
    W = c05.utm(*rand_loc(rng))
    feats, exp = [], {}
    for k in range(rng.choice([1, 2, 4])):
        nm = f'{rng.choice(NAMES)}{k}'
        xyz = [rng.choice([rng.uniform(-1e6, 1e7), rng.randint(-10, 1000)]) for _ in range(3)]
        opk = [rng.choice([rng.uniform(-4, 4), 0]) for _ in range(3)]
        cam = rng.choice([None, 'v2 x', 'cam'])
        feats.append(dict(type='Feature', properties=dict(filename=nm, camera=cam, xyz=xyz, opk=opk, more=1), geometry=dict(type='Point', coordinates=[1.0, 2.0, 3.0])))
        exp[nm] = dict(xyz=tuple(xyz), opk=tuple(opk), camera=cam)
    js = dict(type='FeatureCollection', world_crs=rng.choice([W.to_string(), W.to_wkt()]), features=feats, other=[])
    with Tmp() as d:
        p = os.path.join(d, 'e.geojson')
        with open(p, 'w') as f:
            json.dump(js, f)
        rd = call(R.param_io.OtyReader, p)
    for _ in range(2):
        out = call(rd.read_ext_param)
        if out != exp or list(out) != list(exp):
            raise Fail(f'exterior parameters are {out}, expected {exp}', js)
    if rd.crs != W:
        raise Fail(f'CRS is {rd.crs}, expected {W}', js)


prop.assume('csv, json, XML parsing and PROJ transforms of the libraries', 'CSV dialect and header detection (csv.Sniffer) are heuristic: checked only where it detects the header, with the dialect given or all values quoted')
