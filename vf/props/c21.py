"""C21: world CRS resolution follows the documented precedence."""
import io
import itertools
import json
import types
from pathlib import Path

import numpy as np
import z3

from .. import shims as H
from .. import sym as S
from ..runner import Fail, Prop, Skip, call
from .c06 import FakeExif, Tmp

prop = Prop('C21')
P, CM, FA, OR = ('orthority/%s.py:' % n for n in ('param_io', 'common', 'factory', 'ortho'))
prop.assume('CRS.from_string() / from_epsg() make the CRS they name or raise CRSError; CRS.is_projected and is_geographic are its kind (rasterio / PROJ)',
            'camera positions of one dataset lie within 180 degrees of longitude of each other; real arithmetic for the mean position',
            'the exterior file of the Orthority format defines the world CRS of its positions itself (its reader has no CRS argument)')


def zone_ok(epsg, lat, lon):
    """The EPSG code is the UTM zone of (lat, lon): 6 degree steps east of 180 W, hemisphere by sign of latitude."""
    cs = []
    for z in range(1, 61):
        lo = -180 + 6 * (z - 1)
        for k in (-1, 0, 1):
            cs.append(z3.And(lon >= lo + 360 * k, lon < lo + 6 + 360 * k, epsg == z3.If(lat >= 0, 32600 + z, 32700 + z)))
    return z3.Or(cs)


@prop.case('UTM zone', [CM + 'utm_crs_from_latlon'], expect=['zone'], replay=lambda R, d: [f_utm_at(R, float(d['lat']), float(d['lon']))])
def utm(L, X):
    got = []
    L.common.CRS = types.SimpleNamespace(from_epsg=lambda n: got.append(n) or 'utm')
    lat, lon = X.input('lat', S.real('lat')), X.input('lon', S.real('lon'))
    X.assume(z3.And(lat.z >= -90, lat.z <= 90, lon.z >= -540, lon.z < 540))
    r = L.common.utm_crs_from_latlon(lat, lon)
    X.require('zone', z3.And(z3.BoolVal(r == 'utm' and len(got) == 1), zone_ok(S.SInt.of(got[-1]).z, lat.z, lon.z)))


# ---------------------------------------------------------------------------------- mean positions
def floats(table):
    class M(type(H.Float)):
        def __call__(cls, *a, **k):
            if len(a) == 1 and isinstance(a[0], str) and a[0].strip() in table:
                return table[a[0].strip()]
            return super().__call__(*a, **k)

        def __instancecheck__(cls, o):
            return isinstance(o, H.Float)

        def __subclasscheck__(cls, o):
            return issubclass(o, float)

    return M('float', (), {})


def positions(X, n, ref=False):
    lat = [S.real(f'lat{i}') for i in range(n)]
    lon = [S.real(f'lon{i}') for i in range(n)]
    for i in range(n):
        X.input(f'lat{i}', lat[i])
        X.input(f'lon{i}', lon[i])
        X.assume(z3.And(lat[i].z >= -90, lat[i].z <= 90, lon[i].z >= -180, lon[i].z <= 180))
    k = [0] + [X.choose(3) - 1 for i in range(1, n)]
    u = [lon[i].z + 360 * k[i] for i in range(n)]
    for a, b in itertools.combinations(u, 2):
        X.assume(z3.And(a - b < 180, b - a < 180))
    return lat, lon, [z3.Sum([v.z for v in lat]) / n, z3.Sum(u) / n]


class Got(list):
    def __call__(self, lat, lon):
        self.append((S.SReal.of(lat).z, S.SReal.of(lon).z))
        return H.FakeCrs('auto UTM')


def log(c):
    c.to_proj4 = c.to_string = lambda: str(c.sym_key)
    return c


def stub_utm(L):
    got = Got()
    L.common.utm_crs_from_latlon = lambda lat, lon: log(got(lat, lon))
    return got


def mean_req(X, got, m):
    X.require('one-zone', z3.BoolVal(len(got) == 1))
    for lat, lon in got:
        X.require('mean-latitude', lat == m[0])
        X.require('mean-longitude', z3.Or([lon - m[1] == 360 * j for j in (-1, 0, 1)]))


def mean_replay(kind, n):
    def f(R, d):
        ll = [(float(d[f'lat{i}']), float(d[f'lon{i}'])) for i in range(n)]
        mean_real(R, kind, ll)

    return f


for _n in (1, 2, 3):
    @prop.case(f'CSV mean position[{_n}]', [P + 'CsvReader._find_lla_rpy_crs', P + 'CsvReader._get_crs', P + 'CsvReader.__init__'], expect=['one-zone', 'mean-latitude', 'mean-longitude', 'crs'],
               bound=f'{_n} positions', replay=mean_replay('csv', _n), max_secs=100)
    def csv_mean(L, X, n=_n):
        lat, lon, m = positions(X, n)
        L.builtins['float'] = floats({**{f'1{i}.5': lat[i] for i in range(n)}, **{f'2{i}.5': lon[i] for i in range(n)}})
        got = stub_utm(L)
        txt = 'filename,latitude,longitude,altitude,roll,pitch,yaw\n' + ''.join(f'im{i}.tif,1{i}.5,2{i}.5,100.5,0.5,0.25,0.125\n' for i in range(n))
        rd = L.param_io.CsvReader(io.StringIO(txt))
        mean_req(X, got, m)
        X.require('crs', z3.BoolVal(rd.crs == H.FakeCrs('auto UTM')))

    @prop.case(f'EXIF mean position[{_n}]', [P + 'ExifReader._find_utm_crs', P + 'ExifReader.__init__'], expect=['one-zone', 'mean-latitude', 'mean-longitude', 'crs'], bound=f'{_n} positions',
               replay=mean_replay('exif', _n), max_secs=100)
    def exif_mean(L, X, n=_n):
        lat, lon, m = positions(X, n)
        got = stub_utm(L)
        L.param_io.Exif = lambda f: FakeExif(lla=(lat[f], lon[f], S.real(f'alt{f}')), filename=f'im{f}')
        rd = L.param_io.ExifReader(list(range(n)))
        mean_req(X, got, m)
        X.require('crs', z3.BoolVal(rd.crs == H.FakeCrs('auto UTM')))


OSFM = {'shots': {}, 'cameras': {'c': dict(projection_type='perspective', width=100, height=80, focal=.9, k1=0., k2=0.)}}


@prop.case('OpenSfM reference', [P + 'OsfmReader.__init__', P + 'OsfmReader._find_utm_crs'], expect=['one-zone', 'mean-latitude', 'mean-longitude', 'crs'],
           replay=mean_replay('osfm', 1))
def osfm_ref(L, X):
    lat, lon, m = positions(X, 1)
    got = stub_utm(L)
    pi = L.param_io
    pi.json = types.SimpleNamespace(load=lambda f: [dict(OSFM, reference_lla=dict(latitude=lat[0], longitude=lon[0], altitude=S.real('alt')))])
    rd = pi.OsfmReader(io.StringIO(''))
    mean_req(X, got, m)
    X.require('crs', z3.BoolVal(rd.crs == H.FakeCrs('auto UTM')))


@prop.case('EXIF without position', [P + 'ExifReader._find_utm_crs'], expect=['rejected'])
def exif_none(L, X):
    L.param_io.Exif = lambda f: FakeExif(lla=(S.real('lat'), S.real('lon'), S.real('alt')) if f else None, filename=f'im{f}')
    for fs in ([0], [1, 0], [0, 1]):
        X.require('rejected', z3.BoolVal(raises(L, lambda: L.param_io.ExifReader(fs)) == 'ParamError'))


# -------------------------------------------------------------------------------------- precedence
class Bad(Exception):
    pass


class Crs:
    """A CRS by its text, with an arbitrary kind."""

    def __init__(self, text):
        self.text = text
        self.is_projected = S.SBool(z3.Bool(f'projected_{text}'))
        self.is_geographic = S.SBool(z3.Bool(f'geographic_{text}'))

    @classmethod
    def from_string(cls, s):
        if s.strip() == 'bad':
            raise Bad('bad crs')
        return cls(s.strip())

    def __eq__(self, o):
        return isinstance(o, Crs) and o.text == self.text

    def __hash__(self):
        return hash(self.text)

    def to_string(self):
        return self.text

    to_proj4 = to_wkt = to_string


def raises(L, f):
    try:
        f()
    except Exception as ex:
        n = type(ex).__name__
        if n in ('ParamError', 'CrsError', 'CrsMissingError', 'CRSError', 'Bad'):
            return n
        raise
    return None


def is_crs(c, text):
    return z3.BoolVal(isinstance(c, Crs) and c.text == text)


def fake(L):
    pi = L.param_io
    pi.CRS, pi.RioCrsError = Crs, Bad
    L.common.utm_crs_from_latlon = lambda lat, lon: Crs('auto')
    return pi


USER = [None, 'user', Crs('user'), 'bad']
G = Crs('lla')


def judge(X, L, make, exp, user):
    """Construct a reader.  exp(): text of the CRS when the user gives none, or the error."""
    got = {}

    def f():
        got['r'] = make()

    err = raises(L, f)
    if user == 'bad':
        X.require('user-invalid', z3.BoolVal(err == 'CrsError'))
        return
    if user is not None:
        pr = z3.Bool('projected_user')
        X.require('user-crs', z3.If(pr, z3.BoolVal(err is None) if err else is_crs(got['r'].crs, 'user'), z3.BoolVal(err == 'CrsError')))
        return
    e = exp()
    if e is None:
        X.require('no-crs', z3.BoolVal(err is None and got['r'].crs is None))
    elif isinstance(e, tuple):
        X.require('missing-or-invalid', z3.BoolVal(err in e))
    else:
        X.require('resolved', is_crs(got['r'].crs, e) if err is None else z3.BoolVal(False))


FMT = {'xyz_opk': ('x,y,z', 'omega,phi,kappa'), 'xyz_rpy': ('x,y,z', 'roll,pitch,yaw'), 'lla_opk': ('latitude,longitude,altitude', 'omega,phi,kappa'),
       'lla_rpy': ('latitude,longitude,altitude', 'roll,pitch,yaw')}


def csv_text(f):
    return f'filename,{FMT[f][0]},{FMT[f][1]}\nim1.tif,20.5,-30.25,100.5,0.5,0.25,0.125\nim2.tif,20.75,-30.5,101.5,0.5,0.25,0.5\n'


def csv_case(L, X, fmt):
    pi = fake(L)
    for how, prj, user in itertools.product(['path', 'ofile', 'object', 'no suffix', 'dots'], [None, 'file', 'bad'], USER):
        with Tmp() as d:
            p = Path(d) / {'no suffix': 'ext', 'dots': 'a.b.c.csv'}.get(how, 'ext.csv')
            if how == 'no suffix':
                p = Path(d) / 'x.y' / 'ext'
                p.parent.mkdir()
            p.write_text(csv_text(fmt))
            if prj:
                p.with_suffix('.prj').write_text(prj)

            def make():
                import fsspec

                f = str(p) if how in ('path', 'no suffix', 'dots') else fsspec.open(str(p), 'rt') if how == 'ofile' else io.StringIO(p.read_text())
                return pi.CsvReader(f, crs=user, lla_crs=G)

            def exp():
                if fmt == 'lla_opk':
                    return ('CrsMissingError',)
                if fmt == 'lla_rpy':
                    return 'auto'
                if prj and how != 'object':
                    if prj == 'bad' or not bool(S.SBool(z3.Bool('projected_file'))):
                        return ('ParamError',)
                    return 'file'
                return None if fmt == 'xyz_opk' else ('CrsMissingError',)

            X.assume(z3.Bool('geographic_lla'))
            judge(X, L, make, exp, user)


for _f in FMT:
    prop.case(f'CSV[{_f}]', [P + 'CsvReader._get_crs', P + 'CsvReader.__init__', P + 'FrameReader._parse_crss'], expect=['user-crs', 'user-invalid', 'missing-or-invalid' if _f != 'lla_rpy' else 'resolved'],
              bound='all patterns of user CRS (none, text, object, invalid; projected or not), sidecar (none, valid, invalid; projected or not) and kind of file', max_secs=100,
              replay=lambda R, d: [prec_real(R, __import__('random').Random(i)) for i in range(250)])(lambda L, X, f=_f: csv_case(L, X, f))


@prop.case('OpenSfM and EXIF', [P + 'OsfmReader.__init__', P + 'ExifReader.__init__', P + 'FrameReader._parse_crss'], expect=['user-crs', 'user-invalid', 'resolved', 'no-crs'],
           bound='all patterns of user CRS', replay=lambda R, d: [prec_real(R, __import__('random').Random(i)) for i in range(250)])
def others(L, X):
    pi = fake(L)
    X.assume(z3.Bool('geographic_lla'))
    pi.json = types.SimpleNamespace(load=lambda f: [dict(OSFM, reference_lla=dict(latitude=1., longitude=2., altitude=3.))])
    pi.Exif = lambda f: FakeExif(lla=(1., 2., 3.), filename=f'im{f}')
    for user in USER:
        judge(X, L, lambda: pi.OsfmReader(io.StringIO(''), crs=user, lla_crs=G), lambda: 'auto', user)
        judge(X, L, lambda: pi.ExifReader([1, 2], crs=user, lla_crs=G), lambda: 'auto', user)
        judge(X, L, lambda: pi.ExifReader([], crs=user, lla_crs=G), lambda: None, user)


@prop.case('geographic CRS', [P + 'FrameReader._parse_crss'], expect=['lla-invalid', 'lla-kind'], bound='all patterns of lla CRS for every reader')
def lla(L, X):
    pi = fake(L)
    pi.json = types.SimpleNamespace(load=lambda f: [dict(OSFM, reference_lla=dict(latitude=1., longitude=2., altitude=3.))])
    pi.Exif = lambda f: FakeExif(lla=(1., 2., 3.), filename=f'im{f}')
    for g in ('lla', Crs('lla'), 'bad'):
        for mk in (lambda: pi.OsfmReader(io.StringIO(''), lla_crs=g), lambda: pi.ExifReader([1], lla_crs=g), lambda: pi.CsvReader(io.StringIO(csv_text('lla_rpy')), lla_crs=g)):
            err = raises(L, mk)
            if g == 'bad':
                X.require('lla-invalid', z3.BoolVal(err == 'CrsError'))
            else:
                X.require('lla-kind', z3.BoolVal(err is None) == z3.Bool('geographic_lla') if err in (None, 'CrsError') else z3.BoolVal(False))


@prop.case('Orthority file', [P + 'OtyReader.__init__', P + 'OtyReader._read_json_dict', FA + 'FrameCameras._read_param'], expect=['file-crs', 'invalid'],
           bound='with and without a CRS from the user', replay=lambda R, d: [prec_real(R, __import__('random').Random(i)) for i in range(250)])
def oty(L, X):
    pi = fake(L)
    for c in ('file', 'bad'):
        doc = dict(type='FeatureCollection', world_crs=c, features=[dict(type='Feature', properties=dict(filename='a', camera='c', xyz=[1., 2., 3.], opk=[.1, .2, .3]),
                                                                         geometry=dict(type='Point', coordinates=[1., 2., 3.]))])
        r = {}
        err = raises(L, lambda: r.update(r=pi.OtyReader(io.StringIO(json.dumps(doc)))))
        if c == 'bad':
            X.require('invalid', z3.BoolVal(err == 'ParamError'))
        else:
            X.require('file-crs', is_crs(r['r'].crs, 'file') if err is None else z3.BoolVal(False))


@prop.case('camera collections', [FA + 'FrameCameras._read_param', FA + 'FrameCameras.from_images', FA + 'FrameCameras.crs'], expect=['crs'],
           bound='all patterns of reader and user CRS, exterior file kinds and CRS types', replay=lambda R, d: [prec_real(R, __import__('random').Random(i)) for i in range(250)])
def collections(L, X):
    fa = L.factory
    fa.rio = types.SimpleNamespace(CRS=Crs, DatasetReader=object)
    passed = []

    def reader(name, own):
        class R:
            def __init__(self, file, crs=None, **k):
                passed.append((name, crs, k))
                self.crs = (Crs.from_string(crs) if isinstance(crs, str) else crs) or (Crs(own) if own else None)

            def read_int_param(self):
                return {}

            def read_ext_param(self):
                return {}

        return R

    pi = L.param_io
    for own in (None, 'own'):
        pi.CsvReader, pi.OsfmReader, pi.OtyReader, pi.ExifReader = (reader(n, own) for n in ('csv', 'osfm', 'oty', 'exif'))
        for user in (None, 'user', Crs('user')):
            io_ = dict(crs=user, lla_crs=G, radians=True) if user is not None else dict(radians=True)
            for ext in ('e.csv', 'e.txt', 'e.json', 'E.CSV'):
                c = fa.FrameCameras({'cam': dict()}, ext, io_kwargs=dict(io_))
                want = 'user' if user is not None else own
                X.require('crs', z3.And(is_crs(c.crs, want) if want else z3.BoolVal(c.crs is None), z3.BoolVal(passed[-1][1] == user and passed[-1][0] == ('osfm' if 'json' in ext else 'csv'))))
                X.require('options', z3.BoolVal(passed[-1][2] == {k: v for k, v in io_.items() if k != 'crs'}))
            c = fa.FrameCameras({'cam': dict()}, 'e.geojson', io_kwargs=dict(io_))
            # the file defines the world CRS
            X.require('crs', is_crs(c.crs, own or 'user') if own or user is not None else z3.BoolVal(c.crs is None))
            c = fa.FrameCameras({'cam': dict()}, {'im': dict()}, io_kwargs=dict(io_))
            X.require('crs', is_crs(c.crs, 'user') if user is not None else z3.BoolVal(c.crs is None))
            c = fa.FrameCameras.from_images(['a.tif'], io_kwargs=dict(io_))
            want = 'user' if user is not None else own
            X.require('crs', is_crs(c.crs, want) if want else z3.BoolVal(c.crs is None))


@prop.case('Ortho', [OR + 'Ortho._parse_crs'], expect=['crs', 'missing'], bound='all patterns of user and image CRS', replay=lambda R, d: [ortho_real(R, __import__('random').Random(i)) for i in range(10)])
def ortho(L, X):
    om = L.ortho
    om.CRS = Crs

    class Open:
        def __init__(self, f, mode='r', **k):
            self.f = f

        def __enter__(self):
            return types.SimpleNamespace(crs=self.f)

        def __exit__(self, *a):
            return False

    L.common.OpenRaster = Open
    for im, user in itertools.product((None, Crs('image')), (None, 'user', Crs('user'))):
        o = om.Ortho.__new__(om.Ortho)
        o._src_file, o._src_name = im, 'im.tif'
        got = {}
        err = raises(L, lambda: got.update(c=o._parse_crs(user)))
        want = 'user' if user is not None else 'image' if im is not None else None
        if want is None:
            X.require('missing', z3.BoolVal(err == 'CrsMissingError'))
        else:
            X.require('crs', is_crs(got['c'], want) if err is None else z3.BoolVal(False))


# ---------------------------------------------------------------------------------------- run time
def py_zone(lat, lon):
    lon = (lon + 180) % 360 - 180
    z = int((lon + 180) // 6) % 60 + 1
    return (32600 if lat >= 0 else 32700) + z


def f_utm_at(R, lat, lon):
    c = call(R.common.utm_crs_from_latlon, lat, lon)
    if c.to_epsg() != py_zone(lat, lon):
        raise Fail(f'zone for latitude {lat}, longitude {lon} is {c.to_epsg()}, expected {py_zone(lat, lon)}')


@prop.fuzz('UTM', 1500, 20000, 20, [CM + 'utm_crs_from_latlon'])
def f_utm(R, rng, i):
    lat = rng.choice([0., -0., 1e-9, -1e-9, rng.uniform(-90, 90), float(rng.randrange(-90, 91))])
    lon = rng.choice([180., -180., rng.uniform(-180, 180), float(6 * rng.randrange(-30, 31)), 6 * rng.randrange(-30, 30) + rng.choice([1e-7, 6 - 1e-7]), rng.uniform(-360, 360)])
    f_utm_at(R, lat, lon)


def mean_real(R, kind, ll):
    lons = np.array([v[1] for v in ll])
    d = (lons - lons[0] + 180) % 360 - 180
    mlat, mlon = float(np.mean([v[0] for v in ll])), float(lons[0] + d.mean())
    if np.ptp(d) > 179 or abs(mlat) < 1e-9 or min((mlon % 6), 6 - mlon % 6) < 1e-6:
        raise Skip()
    if kind == 'csv':
        txt = 'filename,latitude,longitude,altitude,roll,pitch,yaw\n' + ''.join(f'im{i}.tif,{a!r},{o!r},100.5,0.5,0.25,0.125\n' for i, (a, o) in enumerate(ll))
        c = call(R.param_io.CsvReader, io.StringIO(txt)).crs
    elif kind == 'osfm':
        c = call(R.param_io.OsfmReader, io.StringIO(json.dumps([dict(OSFM, reference_lla=dict(latitude=ll[0][0], longitude=ll[0][1], altitude=1.))]))).crs
    else:
        old = R.param_io.Exif
        try:
            R.param_io.Exif = lambda f: FakeExif(lla=(*ll[f], 10.), filename=f'im{f}')
            c = call(R.param_io.ExifReader, list(range(len(ll)))).crs
        finally:
            R.param_io.Exif = old
    if c.to_epsg() != py_zone(mlat, mlon):
        raise Fail(f'{kind} CRS {c.to_epsg()} is not the UTM zone {py_zone(mlat, mlon)} of the mean position', dict(positions=ll))


@prop.fuzz('mean position', 400, 5000, 40, [P + 'CsvReader._find_lla_rpy_crs', P + 'ExifReader._find_utm_crs', P + 'OsfmReader._find_utm_crs'])
def f_mean(R, rng, i):
    n = rng.choice([1, 2, 3, 10])
    c = rng.uniform(-90, 90), rng.choice([rng.uniform(-180, 180), 180., -180., rng.uniform(175, 185)])
    w = rng.choice([1e-3, .5, 5., 40.])
    ll = [(max(-90., min(90., c[0] + rng.uniform(-w, w))), (c[1] + rng.uniform(-w, w) + 180) % 360 - 180) for _ in range(n)]
    mean_real(R, rng.choice(['csv', 'osfm', 'exif']) if n == 1 else rng.choice(['csv', 'exif']), ll)


PROJ, GEOG = ['EPSG:32651', 'EPSG:2053', '+proj=tmerc +lat_0=0 +lon_0=21 +k=1 +datum=WGS84 +units=m +no_defs', 'EPSG:32735+5773'], ['EPSG:4326', 'EPSG:4979']


def prec_real(R, rng):
    """Reader and collection CRS against the documented precedence, with real files and CRSs."""
    from rasterio.crs import CRS

    C = lambda s: CRS.from_string(s)
    user = rng.choice([None, None, None, PROJ[rng.randrange(len(PROJ))], PROJ[0], GEOG[0], 'EPSG:4978', 'not a crs'])
    as_obj = user not in (None, 'not a crs') and rng.random() < .5
    own = rng.choice([None, None, None, PROJ[rng.randrange(len(PROJ))], PROJ[1], GEOG[0], 'EPSG:4978', 'not a crs'])
    kind = rng.choice(['csv', 'csv', 'csv', 'csv', 'osfm', 'oty', 'dict', 'exif'])
    glla = rng.choice([None, None, None, 'EPSG:4326', 'EPSG:4978', PROJ[0], 'not a crs'])
    fmt = rng.choice(list(FMT))
    E = R.errors
    io_ = {} if user is None else dict(crs=C(user) if as_obj else user)
    if glla and kind not in ('oty', 'dict'):
        io_['lla_crs'] = glla
    with Tmp() as d:
        inn = {'cam': dict(cam_type='pinhole', im_size=(10, 8), focal_len=1., sensor_size=(1., .8))}
        auto = None
        if kind == 'csv':
            ext = Path(d) / rng.choice(['ext.csv', 'ext.txt', 'e.x.t.csv'])
            ext.write_text(csv_text(fmt))
            if own:
                ext.with_suffix('.prj').write_text(own)
            if fmt == 'lla_opk':
                auto = E.CrsMissingError
            elif fmt == 'lla_rpy':
                auto = 'EPSG:32625'
            else:
                auto = own if own in PROJ else E.ParamError if own else E.CrsMissingError if fmt == 'xyz_rpy' else None
        elif kind == 'osfm':
            ext = Path(d) / 'reconstruction.json'
            ext.write_text(json.dumps([dict(OSFM, shots={'a': dict(rotation=[.1, .2, .3], translation=[1., 2., 3.], camera='c')}, reference_lla=dict(latitude=-33., longitude=21.5, altitude=0.))]))
            auto = 'EPSG:32734'
        elif kind == 'oty':
            own = own if own in PROJ else PROJ[0]
            ext = Path(d) / 'ext.geojson'
            ext.write_text(json.dumps(dict(type='FeatureCollection', world_crs=own, features=[dict(type='Feature', properties=dict(filename='a', camera='cam', xyz=[1., 2., 3.], opk=[0., 0., 0.]),
                                                                                                    geometry=dict(type='Point', coordinates=[1., 2., 3.]))])))
            auto = own
        elif kind == 'exif':
            ext, auto = ['a', 'b'], 'EPSG:32734'
        else:
            ext = {'a': dict(xyz=(1., 2., 3.), opk=(0., 0., 0.))}
        # what the documentation promises
        if kind == 'oty':
            want, user = auto, None
            io_ = {} if rng.random() < .5 else io_ if io_.get('crs') != 'not a crs' else {}
        elif kind == 'dict':
            if user == 'not a crs':
                raise Skip()
            want = user
        elif user is not None:
            want = user if user in PROJ else E.CrsError
        else:
            want = auto
        if 'lla_crs' in io_ and glla != 'EPSG:4326' and want is not E.CrsError:
            want = E.CrsError
        data = dict(kind=kind, format=fmt, user=user, file=own, lla=glla)
        errs = (E.ParamError, E.CrsError, E.CrsMissingError)
        try:
            if kind == 'exif':
                old = R.param_io.Exif
                try:
                    R.param_io.Exif = lambda f: FakeExif(lla=(-33., 21.5, 10.), rpy=(0., 0., 0.), filename=f, make='m', model='n', im_size=(10, 8), focal_len_35=20.)
                    c = call(R.factory.FrameCameras.from_images, ext, io_kwargs=io_, allow_=errs).crs
                finally:
                    R.param_io.Exif = old
            else:
                c = call(R.factory.FrameCameras, inn, ext if isinstance(ext, dict) else str(ext), io_kwargs=io_, allow_=errs).crs
        except errs as ex:
            if not isinstance(want, type) or not isinstance(ex, want):
                raise Fail(f'{type(ex).__name__} raised for {kind} with CRS {user} and file CRS {own}', data)
            return
        if isinstance(want, type):
            raise Fail(f'no {want.__name__} for {kind} with CRS {user} and file CRS {own}', data)
        if (c is None) != (want is None) or (want is not None and c != C(want)):
            raise Fail(f'CRS is {c} but {want} was expected for {kind} with CRS {user} and file CRS {own}', data)


@prop.fuzz('precedence', 400, 4000, 60, [P + 'CsvReader._get_crs', P + 'FrameReader._parse_crss', FA + 'FrameCameras._read_param', P + 'OtyReader._read_json_dict'])
def f_prec(R, rng, i):
    prec_real(R, rng)


def ortho_real(R, rng):
    from rasterio.crs import CRS

    from .c10 import mk_scene

    with Tmp() as d:
        import rasterio as rio

        own = rng.choice([None, PROJ[0]])
        user = rng.choice([None, PROJ[1], GEOG[0]])
        with rio.open(f'{d}/im.tif', 'w', driver='GTiff', width=8, height=6, count=1, dtype='uint8', crs=own, transform=rio.transform.from_origin(0, 0, 1, 1)) as im:
            im.write(np.ones((1, 6, 8), 'uint8'))
        dem = f'{d}/dem.tif'
        want = user or own
        with rio.open(dem, 'w', driver='GTiff', width=40, height=40, count=1, dtype='float32', crs=want or PROJ[0], transform=rio.transform.from_origin(-20, 20, 1, 1)) as im:
            im.write(np.zeros((1, 40, 40), 'float32'))
        cam = R.camera.PinholeCamera((8, 6), 1., sensor_size=(1., .75), xyz=(0., 0., 10.), opk=(0., 0., 0.))
        try:
            o = call(R.ortho.Ortho, f'{d}/im.tif', dem, cam, crs=rng.choice([user, CRS.from_string(user)]) if user else None, allow_=(R.errors.CrsMissingError,))
        except R.errors.CrsMissingError:
            if want:
                raise Fail(f'CrsMissingError with CRS {user} and image CRS {own}')
            return
        if not want:
            raise Fail('no error without any CRS')
        call(o.process, f'{d}/ortho.tif', resolution=(1., 1.))
        with rio.open(f'{d}/ortho.tif') as im:
            if im.crs != CRS.from_string(want):
                raise Fail(f'ortho CRS is {im.crs} but {want} was expected', dict(user=user, image=own))


@prop.fuzz('ortho', 20, 60, 60, [OR + 'Ortho._parse_crs'])
def f_ortho(R, rng, i):
    ortho_real(R, rng)
