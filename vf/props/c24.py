"""C24: command line options reach the library as given."""
import contextlib
import inspect
import itertools
import os
import random
import types
import warnings
from pathlib import Path

import numpy as np
import z3

from .. import sym as S
from ..runner import Fail, Prop, Skip, call
from .c06 import Tmp

prop = Prop('C24')
F = 'orthority/cli.py:'
prop.assume('Click parses the command line into the parameters of the commands as they are declared (the declarations are exercised by the run-time contract checks)',
            'FrameCameras, RpcCameras, Ortho, PanSharpen and OpenRaster are stand-ins that record their arguments, bound to the signatures of the current source; what they do with them is C01 to C23',
            'option values other than booleans and numbers are opaque objects: code that inspects one is outside of what is decided',
            'creation options are not case sensitive, as in rasterio')

# option: Ortho.process() / PanSharpen.process() argument
OUT = {'--write-mask': 'write_mask', '--dtype': 'dtype', '--compress': 'compress', '--build-ovw': 'build_ovw',
       '--creation-option': 'creation_options', '--driver': 'driver', '--overwrite': 'overwrite', '--interp': 'interp'}
ORTHO = dict(OUT, **{'--res': 'resolution', '--dem-interp': 'dem_interp', '--per-band': 'per_band'})
SHARP = dict(OUT, **{'--out-file': 'out_file', '--pan-index': 'pan_index', '--ms-index': 'ms_indexes', '--weight': 'weights'})
BOOLS = {'--write-mask', '--build-ovw', '--overwrite', '--per-band', '--full-remap', '--radians'}


class Tok:
    """Option value about which nothing is known."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<{self.name}>'

    def __bool__(self):
        raise S.Unsupported(f'truth value of {self.name}')

    def __eq__(self, o):
        if self is o:
            return True
        raise S.Unsupported(f'comparison of {self.name}')

    __hash__ = object.__hash__


class Obj(Tok):
    """Object of which only the truth value is known."""

    def __bool__(self):
        return True

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


class Crs(Obj):
    is_geographic = False


class Ras:
    """Open raster."""

    def __init__(self, file, count=1, crs=None):
        self.file, self.count, self.crs = file, count, crs
        self.name = str(getattr(file, 'path', file))

    def __fspath__(self):
        return self.name


class Cam:
    def __init__(self):
        self.image = None


def path(f):
    """Path of a file argument."""
    f = f.file if isinstance(f, Ras) else f
    p = getattr(f, 'path', f)
    return os.path.normpath(os.fspath(p)) if isinstance(p, (str, os.PathLike)) else p


def install(mods, log, info):
    """Replace the library by recorders.  info: path -> (number of bands, crs)."""
    fa, ort, ps, com = mods.factory, mods.ortho, mods.pan_sharp, mods.common

    def bind(fn, a, k):
        b = inspect.signature(fn).bind(*a, **k)
        b.apply_defaults()
        return dict(b.arguments)

    def cams(real):
        class Cams(real):
            def __init__(self, *a, **k):
                d = bind(real.__init__, (self,) + a, k)
                d.pop('self')
                log.append(('create', real.__name__, 'files', d))
                self._cam = Cam()

            @classmethod
            def from_images(cls, *a, **k):
                self = cls.__new__(cls)
                self._cam = Cam()
                log.append(('create', real.__name__, 'images', bind(real.from_images.__func__, (cls,) + a, k)))
                return self

            crs = property(lambda self: log.crs)
            filenames = property(lambda self: set())

            def get(self, filename):
                self._cam.image = path(filename)
                log.append(('get', path(filename)))
                return self._cam

            def write_param(self, *a, **k):
                log.append(('write', bind(real.write_param, (self,) + a, k)))

            def refine(self, *a, **k):
                log.append(('refine', bind(real.refine, (self,) + a, k)))
        Cams.__name__ = real.__name__
        return Cams

    def proc(real, what):
        class Proc(real):
            def __init__(self, *a, **k):
                self._args = bind(real.__init__, (self,) + a, k)

            def process(self, *a, **k):
                d = bind(real.process, (self,) + a, k)
                d.pop('self')
                i = dict(self._args)
                i.pop('self')
                if 'camera' in i:
                    i['camera'] = getattr(i['camera'], 'image', None)
                log.append((what, i, d))
        Proc.__name__ = real.__name__
        return Proc

    class OpenRaster:
        def __init__(self, file, mode='r', **k):
            if file is None:
                raise TypeError('expected a file, not None')
            self.r = file if isinstance(file, Ras) else Ras(file, *info(path(file)))

        def __enter__(self):
            return self.r

        def __exit__(self, *a):
            return None

    return {(fa, 'FrameCameras'): cams(fa.FrameCameras), (fa, 'RpcCameras'): cams(fa.RpcCameras), (ort, 'Ortho'): proc(ort.Ortho, 'ortho'),
            (ps, 'PanSharpen'): proc(ps.PanSharpen, 'sharpen'), (com, 'OpenRaster'): OpenRaster}


class Log(list):
    crs = None


def start(L, info):
    """cli module of L, with recorders; and the log."""
    log = Log()
    for (m, n), v in install(L, log, lambda p: info(p)).items():
        setattr(m, n, v)
    c = L.cli
    return c, log


def opts(cmd):
    """long option: click parameter."""
    out = {}
    for p in cmd.params:
        if p.param_type_name == 'argument':
            out['SOURCE'] = p
        for o in p.opts:
            if o.startswith('--'):
                out[o] = p
    return out


def values(cmd):
    """Symbolic / opaque value of each option of the command."""
    v = {}
    for o in opts(cmd):
        if o in BOOLS or o == '--export-params':
            v[o] = S.boolean('o' + o)
        elif o in ('--dem-band', '--pan-index'):
            v[o] = S.integer('o' + o)
        elif o == '--alpha':
            v[o] = S.real('o' + o)
        else:
            v[o] = Tok(o)
    return v


def invoke(cli, cmd, v):
    """Run a command with the given option values; returns the click error, if any."""
    import click
    ps = opts(cmd)
    params = {ps[o].name: v[o] for o in ps}
    try:
        with click.Context(cmd, info_name=cmd.name) as ctx:
            ctx.params.update(params)
            ctx.invoke(cmd.callback, **params)
    except click.ClickException as ex:
        return ex
    return None


def is_(a, b):
    """a is the value b, as a formula."""
    if isinstance(b, S.SBool):
        return b.z == a.z if isinstance(a, S.SBool) else z3.BoolVal(False)
    if S.is_sym(b):
        return S.SReal.of(a).z == S.SReal.of(b).z if S.is_sym(a) else z3.BoolVal(False)
    return z3.BoolVal(a is b)


def ofile(p, mode='rb'):
    import fsspec
    return fsspec.open(p, mode)


def less(d, *names):
    return {k: v for k, v in (d or {}).items() if k not in names}


def kw(X, name, got, want):
    """The keyword dictionary has exactly the wanted values."""
    got = less(got, 'progress')
    X.require(name, z3.And(z3.BoolVal(set(got) == set(want)), *[is_(got[k], want[k]) for k in set(got) & set(want)]))


FILES = ['/s1/a.tif', '/s2/b.JPG', '/s1/c.d.tiff']
OUTD, DEM = '/out/dir', '/d/dem.tif'


def check_ortho(X, log, v, files, crs, err, dem=DEM, count=None, out=OUTD):
    """Postcondition of all orthorectification commands, except for the creation of the cameras."""
    exp = v['--export-params']
    runs = [e for e in log if e[0] == 'ortho']
    writes = [e for e in log if e[0] == 'write']
    if bool(exp):
        X.require('export-only-writes-parameters', z3.BoolVal(len(writes) == 1 and not runs and err is None))
        if writes:
            d = writes[0][1]
            X.require('export-directory', z3.BoolVal(path(d['out_dir']) == out))
            X.require('export-overwrite', is_(d['overwrite'], v['--overwrite']))
        return
    X.require('no-export-without-option', z3.BoolVal(not writes))
    if v.get('--dem', 1) is None:
        X.require('missing-dem-is-an-error', z3.BoolVal(err is not None and not runs))
        return
    band = v.get('--dem-band', 1)
    ok = z3.BoolVal(True) if count is None else z3.And(S.SInt.of(band).z >= 1, S.SInt.of(band).z <= count.z)
    ncrs = [crs(f) for f in files]
    if err is not None:
        k = len(runs)
        X.require('error-only-for-invalid-options', z3.Or(z3.Not(ok), z3.BoolVal(k < len(files) and ncrs[k] is None)))
    else:
        X.require('invalid-dem-band-is-an-error', ok)
        X.require('missing-crs-is-an-error', z3.BoolVal(all(c is not None for c in ncrs)))
        X.require('one-ortho-for-each-source', z3.BoolVal(len(runs) == len(files)))
    for f, c, (_, i, d) in zip(files, ncrs, runs):
        X.require('source-file', z3.BoolVal(path(i['src_file']) == f))
        X.require('dem-file', z3.BoolVal(path(i['dem_file']) == dem))
        X.require('camera-of-source', z3.BoolVal(i['camera'] == f))
        X.require('crs', z3.BoolVal(i['crs'] is c or (i['crs'] == c)))
        X.require('dem-band', S.SInt.of(i['dem_band']).z == S.SInt.of(band).z)
        X.require('ortho-file', z3.BoolVal(path(d['ortho_file']) == f'{out}/{Path(f).stem}_ORTHO.tif'))
        for o, n in ORTHO.items():
            X.require(n, is_(d[n], v[o]))


def scenes(n):
    """Number of source files, whether each has a CRS, whether --crs is given, whether the cameras have a CRS, whether there is a DEM."""
    for k in range(1, n + 1):
        for has in itertools.product([True, False], repeat=k):
            for crs, ccrs in itertools.product([True, False], repeat=2):
                yield k, has, crs, ccrs, True
    yield 1, (True,), True, True, False


def choose(items):
    """Any one of the items."""
    items = list(items)
    c = S.fresh_int('choice', 0, len(items) - 1)
    for i, it in enumerate(items[:-1]):
        if bool(c == i):
            return it
    return items[-1]


def setup(L, X):
    if 'c24_state' not in L.__dict__:
        st = types.SimpleNamespace(info=None)
        L.__dict__['c24_state'] = (st, *start(L, lambda p: st.info(p)))
    return L.__dict__['c24_state']


def run_cmd(L, X, name, sc, special=None):
    k, has, gcrs, ccrs, gdem = sc
    st, cli, log = setup(L, X)
    log.clear()
    cmd = getattr(cli, name)
    v = values(cmd)
    files = FILES[:k]
    ic = {f: Crs('crs of ' + f) if h else None for f, h in zip(files, has)}
    log.crs = Crs('crs of cameras') if ccrs else None
    count = S.integer('count', 1)
    dcrs = Crs('crs of dem')
    st.info = lambda p: (count, dcrs) if p.endswith('dsm.tif') or p == DEM else (3, ic.get(p))
    v['--crs'] = Crs('--crs') if gcrs else None
    v['--out-dir'] = ofile(OUTD)
    if '--dem' in v:
        v['--dem'] = ofile(DEM) if gdem else None
    if 'SOURCE' in v:
        v['SOURCE'] = [ofile(f) for f in files]
    if special:
        special(v)
    err = invoke(cli, cmd, v)
    made = [e for e in log if e[0] == 'create']
    X.require('one-camera-collection', z3.BoolVal(len(made) == 1))
    return v, files, ic, log, err, made, count


def replay(name):
    def f(R, d):
        for i in range(40):
            parse_case(R, random.Random(i), name)
    return f


FR = [F + '_ortho']
for _name in ('frame', 'exif'):
    @prop.case(_name, FR + [F + _name], bound='1 to 3 source files, of fixed names', replay=replay(_name))
    def c_frame(L, X, name=_name):
        for sc in [choose(scenes(3))]:
            v, files, ic, log, err, made, count = run_cmd(L, X, name, sc)
            if made:
                _, cls, how, d = made[0]
                X.require('frame-cameras', z3.BoolVal(cls == 'FrameCameras'))
                io = {'crs': v['--crs'], 'lla_crs': v['--lla-crs']}
                if name == 'frame':
                    io['radians'] = v['--radians']
                    X.require('parameter-files', z3.BoolVal(how == 'files' and d['int_param'] is v['--int-param'] and d['ext_param'] is v['--ext-param']))
                else:
                    X.require('parameters-of-all-sources', z3.BoolVal(how == 'images' and [path(f) for f in d['files']] == files))
                kw(X, 'reading-options', d['io_kwargs'], io)
                kw(X, 'camera-options', d['cam_kwargs'], {'distort': v['--full-remap'], 'alpha': v['--alpha']})
            check_ortho(X, log, v, files, lambda f: v['--crs'] or log.crs or ic[f], err, count=count)


@prop.case('odm', FR + [F + 'odm'], bound='2 source files, of fixed names', replay=replay('odm'))
def c_odm(L, X):
    from fsspec.core import OpenFile
    from fsspec.implementations.memory import MemoryFileSystem
    names = ['a.tif', 'b.JPG', 'skip.txt', 'c.jpeg']

    class Fs(MemoryFileSystem):
        cachable = False

        def find(self, p, *a, **k):
            return [os.path.join(p.rstrip('/'), n) for n in names]

        def ls(self, p, detail=True, **k):
            out = self.find(p)
            return [dict(name=n, type='file', size=1) for n in out] if detail else out
    fs = Fs()
    want = ['/ds/images/' + n for n in names if n != 'skip.txt']
    for sc in [choose(list(scenes(1))[:-1])]:

        def special(v):
            v['--dataset-dir'] = OpenFile(fs, '/ds', 'rb')
        v, _, ic, log, err, made, count = run_cmd(L, X, 'odm', sc, special)
        if made:
            _, cls, how, d = made[0]
            X.require('frame-cameras', z3.BoolVal(cls == 'FrameCameras' and how == 'files'))
            X.require('reconstruction-file', z3.BoolVal(path(d['int_param']) == path(d['ext_param']) == '/ds/opensfm/reconstruction.json'))
            io = less(d['io_kwargs'], 'progress')
            dem_crs = io.get('crs')
            X.require('reading-options', z3.BoolVal(set(io) == {'crs'} and (io['crs'] is v['--crs'] if v['--crs'] else repr(io['crs']) == '<crs of dem>')))
            kw(X, 'camera-options', d['cam_kwargs'], {'distort': v['--full-remap'], 'alpha': v['--alpha']})
            check_ortho(X, log, v, want, lambda f: dem_crs, err, dem='/ds/odm_dem/dsm.tif')


@prop.case('rpc', FR + [F + 'rpc'], bound='1 to 2 source files, of fixed names', replay=replay('rpc'))
def c_rpc(L, X):
    import rasterio
    for sc in [choose(scenes(2))]:
        for prm, ref in [choose(itertools.product([True, False], [None, 'tags', 'TAGS', 'file']))]:
            gf = ofile('/g/gcps.geojson', 'rt') if ref == 'file' else ref

            def special(v):
                v['--rpc-param'] = ofile('/p/rpc.yaml', 'rt') if prm else None
                v['--gcp-refine'] = gf
            v, files, ic, log, err, made, count = run_cmd(L, X, 'rpc', sc, special)
            if made:
                _, cls, how, d = made[0]
                X.require('rpc-cameras', z3.BoolVal(cls == 'RpcCameras'))
                if prm:
                    X.require('parameter-file', z3.BoolVal(how == 'files' and d['rpc_param'] is v['--rpc-param']))
                else:
                    X.require('parameters-of-all-sources', z3.BoolVal(how == 'images' and [path(f) for f in d['files']] == files))
                    X.require('no-reading-options', z3.BoolVal(not less(d['io_kwargs'], 'progress')))
                ck = less(d['cam_kwargs'])
                c = ck.pop('crs', None)
                X.require('camera-crs', z3.BoolVal(not ck and (c is v['--crs'] or (v['--crs'] is None and c == rasterio.CRS.from_epsg(4979)))))
            refs = [(i, e) for i, e in enumerate(log) if e[0] == 'refine']
            X.require('refined-once-if-asked', z3.BoolVal(len(refs) == (ref is not None)))
            if refs:
                i, (_, d) = refs[0]
                X.require('refined-first', z3.BoolVal(all(e[0] == 'create' for e in log[:i])))
                g = d['gcps']
                X.require('refined-with-the-gcps-given', z3.BoolVal(g is gf if ref == 'file' else isinstance(g, (list, tuple)) and [path(f) for f in g] == files))
                kw(X, 'refine-options', d['fit_kwargs'], {'method': v['--refine-method']})
                X.require('no-refine-reading-options', z3.BoolVal(not less(d['io_kwargs'], 'progress')))
            g4979 = rasterio.CRS.from_epsg(4979)
            check_ortho(X, log, v, files, lambda f: v['--crs'] or g4979, err, count=count)


@prop.case('sharpen', [F + 'sharpen'], bound='0 to 3 multispectral indexes', replay=replay('sharpen'))
def c_sharpen(L, X):
    st, cli, log = setup(L, X)
    cmd = cli.sharpen
    for k in [choose(range(4))]:
        log.clear()
        pc, mc = S.integer('pan_count', 1), S.integer('ms_count', 1)
        st.info = lambda p: (pc if p == '/p/pan.tif' else mc, None)
        v = values(cmd)
        v['--pan'], v['--multispectral'] = ofile('/p/pan.tif'), ofile('/m/ms.tif')
        ix = tuple(S.integer(f'ms_index{i}') for i in range(k))
        v['--ms-index'] = ix
        err = invoke(cli, cmd, v)
        runs = [e for e in log if e[0] == 'sharpen']
        pi = v['--pan-index'].z
        ok = z3.And(pi >= 1, pi <= pc.z, *[z3.And(i.z >= 1, i.z <= mc.z) for i in ix])
        if err is not None:
            X.require('error-only-for-invalid-indexes', z3.Not(ok))
            X.require('nothing-done-on-error', z3.BoolVal(not runs))
            continue
        X.require('invalid-indexes-are-an-error', ok)
        X.require('pan-sharpened-once', z3.BoolVal(len(runs) == 1))
        for _, i, d in runs[:1]:
            X.require('pan-and-ms-files', z3.BoolVal(path(i['pan_file']) == '/p/pan.tif' and path(i['ms_file']) == '/m/ms.tif'))
            for o, n in SHARP.items():
                if n == 'ms_indexes':
                    got = d[n]
                    X.require(n, z3.And(z3.BoolVal(len(got or ()) == k), *[is_(a, b) for a, b in zip(got or (), ix)]))
                else:
                    X.require(n, is_(d[n], v[o]))


@prop.case('option-callbacks', [F + '_resolution_cb', F + '_weights_cb', F + '_file_cb', F + '_crs_cb', F + '_lla_crs_cb'],
           bound='up to 3 weights', replay=lambda R, d: replay('frame')(R, d))
def c_callbacks(L, X):
    import click
    st, cli, log = setup(L, X)

    def cb(cmd, o, val):
        p = opts(getattr(cli, cmd))[o]
        with click.Context(getattr(cli, cmd)) as ctx:
            return p.callback(ctx, p, val)
    for cmd in ('frame', 'exif', 'odm', 'rpc'):
        r = [S.real(f'r{i}') for i in range(3)]
        X.require('no-resolution', z3.BoolVal(not cb(cmd, '--res', ())))
        a = cb(cmd, '--res', (r[0],))
        X.require('square-resolution', z3.And(z3.BoolVal(len(a) == 2), a[0].z == r[0].z, a[1].z == r[0].z))
        a = cb(cmd, '--res', (r[0], r[1]))
        X.require('resolution', z3.And(z3.BoolVal(len(a) == 2), a[0].z == r[0].z, a[1].z == r[1].z))
        try:
            cb(cmd, '--res', tuple(r))
            X.require('three-resolutions-are-an-error', z3.BoolVal(False))
        except click.BadParameter:
            pass
        X.require('no-crs', z3.BoolVal(cb(cmd, '--crs', None) is None))
    for k in range(4):
        w = tuple(S.real(f'w{i}') for i in range(k))
        neg = z3.Or(*[x.z < 0 for x in w]) if w else z3.BoolVal(False)
        try:
            got = cb('sharpen', '--weight', w)
            X.require('negative-weight-is-an-error', z3.Not(neg))
            X.require('weights', z3.And(z3.BoolVal(len(got) == k), *[a.z == b.z for a, b in zip(got, w)]))
        except click.BadParameter:
            X.require('error-only-for-negative-weight', neg)


# ------------------------------------------------------------------------ run-time contract checks
VALS = {'--interp': ['nearest', 'bilinear', 'cubic', 'lanczos', 'average'], '--dem-interp': ['nearest', 'bilinear', 'cubic', 'lanczos'],
        '--dtype': ['uint8', 'uint16', 'int16', 'float32', 'float64'], '--compress': ['jpeg', 'deflate', 'lzw'],
        '--driver': ['gtiff', 'cog'], '--refine-method': ['shift', 'shift-drift'], '--crs': ['EPSG:32735', 'EPSG:3857', '+proj=utm +zone=34 +south +datum=WGS84'],
        '--lla-crs': ['EPSG:4979', 'EPSG:4326']}
FLAGS = {'--write-mask': ('-wm', '-nwm', '--no-write-mask'), '--build-ovw': ('-bo', '-nbo', '--no-build-ovw'), '--per-band': ('-pb', '-npb', '--no-per-band'),
         '--full-remap': ('-fr', '-nfr', '--no-full-remap'), '--radians': ('-rd', '-dg', '--degrees')}
SHORT = {'--interp': '-i', '--dem-interp': '-di', '--dtype': '-dt', '--compress': '-cm', '--driver': '-dv', '--refine-method': '-rm', '--crs': '-c', '--lla-crs': '-lc', '--res': '-r',
         '--dem-band': '-db', '--alpha': '-a', '--out-dir': '-od', '--overwrite': '-o', '--export-params': '-e', '--dem': '-d', '--int-param': '-ip', '--ext-param': '-ep',
         '--creation-option': '-co', '--rpc-param': '-rp', '--gcp-refine': '-gr', '--pan': '-p', '--multispectral': '-ms', '--out-file': '-of', '--pan-index': '-pi', '--ms-index': '-mi',
         '--weight': '-w', '--dataset-dir': '-dd'}
DEFAULT = {'--interp': 'cubic', '--dem-interp': 'cubic', '--dtype': None, '--compress': None, '--driver': 'gtiff', '--refine-method': 'shift', '--crs': None, '--lla-crs': 'EPSG:4979',
           '--write-mask': None, '--build-ovw': True, '--per-band': False, '--full-remap': True, '--radians': False, '--res': None, '--dem-band': 1, '--alpha': 1., '--overwrite': False,
           '--export-params': False, '--creation-option': None, '--pan-index': 1, '--ms-index': None, '--weight': None}
COMMON = ['--crs', '--res', '--interp', '--dem-interp', '--per-band', '--write-mask', '--dtype', '--compress', '--build-ovw', '--creation-option', '--driver', '--export-params', '--out-dir', '--overwrite']
CMDS = {'frame': COMMON + ['--dem-band', '--full-remap', '--alpha', '--lla-crs', '--radians'], 'exif': COMMON + ['--dem-band', '--full-remap', '--alpha', '--lla-crs'],
        'odm': COMMON + ['--full-remap', '--alpha'], 'rpc': COMMON + ['--dem-band', '--refine-method'],
        'sharpen': ['--pan-index', '--ms-index', '--weight', '--interp', '--write-mask', '--dtype', '--compress', '--build-ovw', '--creation-option', '--driver', '--overwrite']}


@contextlib.contextmanager
def patched(R, log, info):
    import sys
    R.cli, R.factory, R.ortho, R.pan_sharp, R.common
    saved = []
    for (m, n), new in install(R, log, info).items():
        old = getattr(m, n)
        for mod in [m for k, m in list(sys.modules.items()) if k == 'orthority' or k.startswith('orthority.')]:
            if mod.__dict__.get(n) is old:
                saved.append((mod, n, old))
                setattr(mod, n, new)
    try:
        yield
    finally:
        for mod, n, old in saved:
            setattr(mod, n, old)


def pick(rng, o):
    """(arguments, value) for a random use of option o."""
    s = rng.choice([o, SHORT.get(o, o)])
    if o in VALS:
        v = rng.choice(VALS[o])
        return [s, v], v
    if o in FLAGS:
        a, b, c = FLAGS[o]
        v = rng.random() < .5
        return [rng.choice([o, a] if v else [b, c])], v
    if o in ('--overwrite', '--export-params'):
        return [s], True
    if o == '--res':
        v = [round(rng.uniform(.01, 9), 3) for _ in range(rng.choice([1, 2]))]
        return [x for r in v for x in (rng.choice([o, '-r']), str(r))], tuple(v * 2)[:2]
    if o in ('--dem-band', '--pan-index'):
        v = rng.randrange(1, 4)
        return [s, str(v)], v
    if o == '--alpha':
        v = rng.choice([0., 1., round(rng.random(), 3)])
        return [s, str(v)], v
    if o == '--ms-index':
        v = [rng.randrange(1, 4) for _ in range(rng.randrange(1, 4))]
        return [x for r in v for x in (s, str(r))], v
    if o == '--weight':
        v = [rng.choice([0., round(rng.random(), 3)]) for _ in range(rng.randrange(1, 4))]
        return [x for r in v for x in (s, str(r))], v
    if o == '--creation-option':
        d, a = {}, []
        for k, val in rng.sample([('compress', 'deflate'), ('TILED', 'YES'), ('Quality', 75), ('predictor', 2), ('bigtiff', 'if_safer'), ('photometric', 'None'), ('x', 0.5), ('desc', 'a=b')], rng.randrange(1, 4)):
            a += [s, rng.choice([f'{k}={val}', f' {k} = {val}'])]
            d[k.lower()] = {'YES': True, 'None': None}.get(val, val)
        return a, d
    raise KeyError(o)


def as_crs(s):
    import rasterio
    return None if s is None else rasterio.CRS.from_string(s)


def eq(o, got, want):
    if o in ('--res', '--ms-index', '--weight', '--creation-option') and not want:
        return got is None or len(got) == 0
    if o in ('--res', '--ms-index', '--weight'):
        return got is not None and list(got) == list(want)
    if isinstance(want, bool) or want is None:
        return got is want
    return got == want


def parse_case(R, rng, name):
    """A random command line, run by Click, with the library replaced by recorders."""
    import click
    cmd_opts = CMDS[name]
    with Tmp() as tmp:
        tmp = Path(tmp)
        out = tmp / 'out'
        out.mkdir()
        args, want = [], {}
        for o in cmd_opts:
            if o == '--out-dir':
                continue
            if rng.random() < .45 and not (o == '--export-params' and rng.random() < .7):
                a, v = pick(rng, o)
                args.append(a)
                want[o] = v
            else:
                want[o] = DEFAULT[o]
        gout = rng.random() < .7
        if gout and name != 'sharpen':
            args.append([rng.choice(['-od', '--out-dir']), str(out) + rng.choice(['', '/'])])
        if rng.random() < .3 and want.get('--crs'):
            # CRS in a text file
            (tmp / 'crs.txt').write_text(want['--crs'])
            args = [[a[0], str(tmp / 'crs.txt')] if a[0] in ('-c', '--crs') else a for a in args]
        names = rng.sample(['a.tif', 'b.tif', 'c.d.JPG', 'DJI_1.jpg'], rng.randrange(1, 4))
        src = [tmp / f's{rng.randrange(2)}' / n for n in names]
        if name == 'odm':
            src = [tmp / 'ds' / 'images' / n for n in names]
            (tmp / 'ds' / 'images').mkdir(parents=True)
            for s in src + [tmp / 'ds' / 'images' / 'x.txt']:
                s.write_bytes(b'')
            src = sorted(src)
            args.append([rng.choice(['-dd', '--dataset-dir']), str(tmp / 'ds')])
        ccrs = as_crs(rng.choice([None, 'EPSG:32736']))
        icrs = {str(s): as_crs(f'EPSG:{32701 + k}') for k, s in enumerate(src)}
        dcrs = as_crs('EPSG:32730')
        files = {}

        def give(o, p, prob=1.):
            if rng.random() < prob:
                files[o] = str(tmp / p)
                args.append([rng.choice([o, SHORT[o]]), files[o]])
        ref = None
        if name in ('frame', 'exif', 'rpc'):
            give('--dem', 'dem.tif')
        if name == 'frame':
            give('--int-param', 'i.yaml')
            give('--ext-param', 'e.csv')
        if name == 'rpc':
            give('--rpc-param', 'r.yaml', .5)
            ref = rng.choice([None, 'tags', 'g.geojson'])
            if ref:
                args.append([rng.choice(['--gcp-refine', '-gr']), ref if ref == 'tags' else str(tmp / ref)])
        if name == 'sharpen':
            give('--pan', 'p.tif')
            give('--multispectral', 'm.tif')
            give('--out-file', 'o.tif')
        if name in ('frame', 'exif', 'rpc'):
            args.append([str(s) for s in src])
        rng.shuffle(args)
        argv = [name] + [x for a in args for x in a]
        log = Log()
        log.crs = ccrs
        info = lambda p: (3, icrs.get(p, dcrs))
        cwd = os.getcwd()
        import logging
        lg = logging.getLogger('orthority')
        hs, show = list(lg.handlers), warnings.showwarning
        data = dict(argv=argv)
        try:
            with patched(R, log, info), open(os.devnull, 'w') as null, contextlib.redirect_stderr(null):
                R.cli.cli.main(args=argv, standalone_mode=False, prog_name='oty')
        except (click.ClickException, click.exceptions.Exit, SystemExit) as ex:
            raise Fail(f'{type(ex).__name__}: {getattr(ex, "message", ex)}', data)
        except Exception as ex:
            raise Fail(f'{type(ex).__name__}: {str(ex)[:200]}', data)
        finally:
            lg.handlers[:] = hs
            warnings.showwarning = show
        if gout:
            outd = str(out)
        elif name == 'odm':
            outd = str(tmp / 'ds' / 'orthority')
        else:
            outd = DEFOUT or cwd

        def need(what, ok, got=None):
            if not ok:
                raise Fail(f'{name}: {what} is {got!r}, not as given', data, key=f'{name}:{what}')
        runs = [e for e in log if e[0] in ('ortho', 'sharpen')]
        if name == 'sharpen':
            need('number of runs', len(runs) == 1)
            _, i, d = runs[0]
            need('--pan', path(i['pan_file']) == files['--pan'], i)
            need('--multispectral', path(i['ms_file']) == files['--multispectral'], i)
            need('--out-file', path(d['out_file']) == files['--out-file'], d)
            for o, n in SHARP.items():
                if o in want:
                    need(o, eq(o, d[n], want[o]), d[n])
            return
        crs = as_crs(want['--crs'])
        made = [e for e in log if e[0] == 'create']
        need('number of camera collections', len(made) == 1, len(made))
        _, cls, how, d = made[0]
        ck = dict(d['cam_kwargs'] or {})
        if name == 'rpc':
            need('--rpc-param', path(d['rpc_param']) == files['--rpc-param'] if '--rpc-param' in files else [path(f) for f in d['files']] == [str(s) for s in src], d)
            need('camera --crs', ck.get('crs') == crs or (crs is None and ck.get('crs') == as_crs('EPSG:4979')), ck)
            rs = [e for e in log if e[0] == 'refine']
            need('--gcp-refine', len(rs) == bool(ref), rs)
            if rs:
                r = rs[0][1]
                need('--refine-method', r['fit_kwargs'].get('method') == want['--refine-method'], r)
                need('--gcp-refine', [path(f) for f in r['gcps']] == [str(s) for s in src] if ref == 'tags' else path(r['gcps']) == str(tmp / ref), r)
            crs = crs or as_crs('EPSG:4979')
        else:
            io = dict(d['io_kwargs'] or {})
            need('--full-remap', ck.get('distort') is want['--full-remap'], ck)
            need('--alpha', ck.get('alpha') == want['--alpha'], ck)
            if name == 'odm':
                crs = crs or dcrs
                need('parameter file', path(d['int_param']) == path(d['ext_param']) == str(tmp / 'ds/opensfm/reconstruction.json'), d)
            else:
                need('--lla-crs', io.get('lla_crs') == as_crs(want['--lla-crs']), io)
            need('--crs', io.get('crs') == crs, io)
            if name == 'frame':
                need('--radians', io.get('radians') is want['--radians'], io)
                need('--int-param', path(d['int_param']) == files['--int-param'], d)
                need('--ext-param', path(d['ext_param']) == files['--ext-param'], d)
            if name == 'exif':
                need('SOURCE', [path(f) for f in d['files']] == [str(s) for s in src], d)
            crs = crs or ccrs
        if want['--export-params']:
            ws = [e[1] for e in log if e[0] == 'write']
            need('--export-params', len(ws) == 1 and not runs, log)
            need('--out-dir', path(ws[0]['out_dir']) == outd, ws)
            need('--overwrite', ws[0]['overwrite'] is want['--overwrite'], ws)
            return
        need('--export-params', not [e for e in log if e[0] == 'write'], log)
        need('SOURCE', [path(e[1]['src_file']) for e in runs] == [str(s) for s in src], [path(e[1]['src_file']) for e in runs])
        for s, (_, i, d) in zip(src, runs):
            need('camera', i['camera'] == str(s), i)
            need('--dem', path(i['dem_file']) == (files['--dem'] if name != 'odm' else str(tmp / 'ds/odm_dem/dsm.tif')), i)
            need('--crs', i['crs'] == (crs or icrs[str(s)]), i)
            need('--dem-band', i['dem_band'] == want.get('--dem-band', 1), i)
            need('--out-dir', path(d['ortho_file']) == f'{outd}/{s.stem}_ORTHO.tif', path(d['ortho_file']))
            for o, n in ORTHO.items():
                need(o, eq(o, d[n], want[o]), d[n])


DEFOUT = None
for _name in CMDS:
    @prop.fuzz('parse-' + _name, 120, 2000, 40, [F + _name])
    def f_parse(R, rng, i, name=_name):
        parse_case(R, rng, name)


def errors_case(R, rng, i):
    """Invalid option values are errors, and nothing is processed."""
    import click
    with Tmp() as tmp:
        tmp = Path(tmp)
        base = {'frame': ['-ip', 'i.yaml', '-ep', 'e.csv', '-d', 'dem.tif', '-od', str(tmp), 'a.tif'], 'exif': ['-d', 'dem.tif', '-od', str(tmp), 'a.tif'],
                'rpc': ['-d', 'dem.tif', '-od', str(tmp), 'a.tif'], 'sharpen': ['-p', 'p.tif', '-ms', 'm.tif', '-of', str(tmp / 'o.tif')]}
        name = rng.choice(list(base))
        bad = [['-dt', 'int3'], ['-i', 'x'], ['-cm', 'zip9'], ['-dv', 'png'], ['-co', 'novalue']]
        if name == 'sharpen':
            bad += [['-pi', '0'], ['-pi', '4'], ['-pi', '-1'], ['-mi', '0'], ['-mi', '1', '-mi', '4'], ['-mi', '-2'], ['-w', '-0.1'], ['-w', '1', '-w', '-2']]
        else:
            bad += [['-db', '0'], ['-db', '4'], ['-db', '-1'], ['-r', '1', '-r', '2', '-r', '3'], ['-c', 'xyz'], ['-od', str(tmp / 'none')], ['-c', str(tmp / 'none.tif')]]
        if name in ('frame', 'exif'):
            bad += [['-a', '1.1'], ['-a', '-0.1'], ['-lc', 'EPSG:32735'], ['-lc', 'xyz']]
        args = base[name]
        argv = [name] + (args + rng.choice(bad))
        if name != 'sharpen' and rng.random() < .15:
            argv = [name] + [a for a in args if a not in ('-d', 'dem.tif')]   # no DEM
        elif name == 'frame' and rng.random() < .15:
            k = args.index(rng.choice(['-ip', '-ep']))
            argv = [name] + args[:k] + args[k + 2:]
        log = Log()
        log.crs = as_crs('EPSG:32735')
        try:
            with patched(R, log, lambda p: (3, None) if not p.endswith('none.tif') else (_ for _ in ()).throw(FileNotFoundError(p))):
                R.cli.cli.main(args=argv, standalone_mode=False, prog_name='oty')
        except (click.ClickException, click.Abort):
            if [e for e in log if e[0] in ('ortho', 'sharpen')]:
                raise Fail('processed before the error', dict(argv=argv))
            return
        except Exception as ex:
            raise Fail(f'{type(ex).__name__}: {str(ex)[:200]}', dict(argv=argv))
        raise Fail('invalid option value is not an error', dict(argv=argv))


@prop.fuzz('invalid-options', 120, 1000, 40, [F + '_ortho', F + 'sharpen'])
def f_errors(R, rng, i):
    errors_case(R, rng, i)


# ------------------------------------------------------------------------------- legacy simple-ortho
def simple_case(R, rng, i):
    import rasterio
    import yaml
    with Tmp() as tmp:
        tmp = Path(tmp)
        names = rng.sample(['a.tif', 'b.tif', 'im_1.tif', 'im_2.tif'], rng.randrange(1, 5))
        src = []
        for n in names:
            d = tmp / f's{rng.randrange(2)}'
            d.mkdir(exist_ok=True)
            src.append(d / n)
            with rasterio.open(d / n, 'w', driver='GTiff', width=12, height=8, count=1, dtype='uint8') as im:
                im.write(np.ones((1, 8, 12), 'uint8'))
        (tmp / 'dem.tif').write_bytes(b'x')
        pos = {s.stem: [round(rng.uniform(-1e4, 1e4), 3) for _ in range(3)] + [round(rng.uniform(-180, 180), 4) for _ in range(3)] for s in src}
        extra = {'other': [1.] * 6}
        rows = list(pos.items()) + list(extra.items())
        rng.shuffle(rows)
        (tmp / 'pos.txt').write_text(''.join(' '.join([k] + [str(x) for x in v]) + '\n' for k, v in rows))
        o = {}
        for k, vs in dict(crs=['EPSG:32735'], dem_band=[2, 1], dem_interp=['cubic_spline', 'nearest'], interp=['cubic_spline', 'average'], per_band=[True, False], build_ovw=[True, False], overwrite=[True],
                          write_mask=[True, False], dtype=['uint8', 'float32'], compress=['deflate'], full_remap=[False, True], driver=['GTiff'], tile_size=[[512, 512]], nodata=[0], interleave=['pixel'],
                          photometric=[None], resolution=[[.5, .5]]).items():
            if rng.random() < .5:
                o[k] = rng.choice(vs)
        cam = dict(name='test', type=rng.choice(['pinhole', 'brown']), focal_len=5., im_size=[12, 8], sensor_size=[6., 4.])
        if cam['type'] == 'brown':
            cam.update(k1=-.01, k2=.001)
        (tmp / 'conf.yaml').write_text(yaml.safe_dump(dict(ortho=o, camera=cam)))
        spec, order = [], []
        if rng.random() < .5:
            for d in sorted({s.parent for s in src}):
                spec.append(str(d / '*.tif'))
        else:
            spec = [str(s) for s in src]
        od = rng.choice([None, tmp / 'new'])
        argv = spec + [str(tmp / 'dem.tif'), str(tmp / 'pos.txt'), '-rc', str(tmp / 'conf.yaml')] + (['-od', str(od)] if od else [])
        runs = []

        class Ortho(R.ortho.Ortho):
            def __init__(self, src_file, dem_file, camera, crs=None, dem_band=1):
                self.a = (Path(src_file), dem_file, camera, crs, dem_band)

            def process(self, ortho_file, **k):
                c = self.a[2]
                runs.append((self.a, Path(ortho_file), k, np.array(c._T).ravel().copy(), np.array(c._R).copy(), type(c).__name__, c._distort))
        import logging
        lg = logging.getLogger('orthority')
        hs, show, old, lv = list(lg.handlers), warnings.showwarning, R.cli.Ortho, lg.level
        logging.disable(logging.CRITICAL)
        try:
            R.cli.Ortho = Ortho
            call(R.cli.simple_ortho, argv)
        finally:
            R.cli.Ortho = old
            logging.disable(logging.NOTSET)
            lg.handlers[:] = hs
            lg.setLevel(lv)
            warnings.showwarning = show
        data = dict(argv=argv, ortho=o)
        if sorted(r[0][0] for r in runs) != sorted(src):
            raise Fail(f'simple-ortho processed {[str(r[0][0]) for r in runs]}', data)
        ref = R.camera.create_camera(cam['type'], **{k: v for k, v in cam.items() if k not in ('name', 'type')}, xyz=(0, 0, 0), opk=(0, 0, 0))
        for (s, dem, c, crs, band), out, k, T, Rm, cn, dist in runs:
            p = pos[s.stem]
            ref.update(p[:3], np.radians(p[3:]))
            if not np.allclose(T, np.array(ref._T).ravel()) or not np.allclose(Rm, ref._R):
                raise Fail(f'simple-ortho: the camera of {s.name} has another position or orientation', data)
            if cn != type(ref).__name__ or dist is not o.get('full_remap', True):
                raise Fail('simple-ortho: camera type or full_remap is not as given', data)
            if out != Path(od or s.parent) / (s.stem + '_ORTHO.tif'):
                raise Fail(f'simple-ortho: {s} is written to {out}', data)
            if crs != o.get('crs') or band != o.get('dem_band', 1) or str(dem) != str(tmp / 'dem.tif'):
                raise Fail('simple-ortho: crs, dem_band or DEM is not as given', data)
            w = {n: v for n, v in o.items() if n not in ('crs', 'dem_band', 'full_remap', 'driver', 'tile_size', 'nodata', 'interleave', 'photometric')}
            w = {n: 'cubic' if v == 'cubic_spline' else v for n, v in w.items()}
            if k != w:
                raise Fail(f'simple-ortho: options {k} are not as given', data)


@prop.fuzz('simple-ortho', 40, 500, 40, [F + '_simple_ortho'])
def f_simple(R, rng, i):
    simple_case(R, rng, i)
