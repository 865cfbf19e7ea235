"""C20: camera collections return the camera of the requested image, in any order."""
import copy
import itertools
import os
import tempfile
import types
import warnings
from pathlib import Path

import numpy as np
import z3

from .. import sym as S
from ..runner import Fail, Prop, Skip, call
from .c02 import rand_lens
from .c03 import rand_rpc

prop = Prop('C20')
F = 'orthority/factory.py:'
prop.assume('create_camera() makes a camera from its arguments and update() sets the exterior parameters (C01 to C05)',
            'refine_rpc() returns the refined RPC model without changing its arguments (C23)',
            'the camera returned for an image is the shared camera of its camera id: it has the parameters of that image until the next request')


class Rec:
    """Camera that records its parameters."""

    def __init__(self, **k):
        self.ext = {n: k.pop(n) for n in ('xyz', 'opk') if n in k}
        self.int = k

    def update(self, xyz=None, opk=None):
        self.ext = dict(xyz=xyz, opk=opk)


def vec(tag, n=3):
    return tuple(S.SReal(z3.Real(f'{tag}{i}')) for i in range(n))


def same(a, b):
    """Structural equality, as a formula."""
    if isinstance(a, dict) and isinstance(b, dict):
        return z3.And(z3.BoolVal(set(a) == set(b)), *[same(a[k], b[k]) for k in set(a) & set(b)])
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return z3.And(z3.BoolVal(len(a) == len(b)), *[same(p, q) for p, q in zip(a, b)])
    if S.is_sym(a) or S.is_sym(b):
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            return z3.BoolVal(False)
        return S.SReal.of(a).z == S.SReal.of(b).z
    return z3.BoolVal(a == b)


def lookup(d, q):
    n = Path(q)
    return d.get(n.name, d.get(n.stem))


QUERIES = ['x/a.tif', 'b.tif', 'c.tif', 'a.jpg', 'none.tif', 'b']


def frame_params(ids, cams):
    ext = {n: dict(xyz=vec(f'xyz_{n}'), opk=vec(f'opk_{n}'), **({'camera': c} if c is not None else {})) for n, c in ids.items()}
    inn = {c: dict(cam_type='pinhole', im_size=(S.integer(f'w_{c}', 1), S.integer(f'h_{c}', 1)), focal_len=S.SReal(z3.Real(f'f_{c}')), sensor_size=(1.0, 1.0)) for c in cams}
    return inn, ext


FRAMES = {
    'two cameras': (dict(zip(['a.tif', 'b', 'c.tif', 'a'], ['cam1', 'cam2', 'cam1', 'cam2'])), ['cam1', 'cam2']),
    'no camera ids': (dict(zip(['a.tif', 'b', 'c.tif'], [None] * 3)), ['cam1']),
    'some camera ids': (dict(zip(['a.tif', 'b', 'c.tif'], [None, 'cam1', None])), ['cam1']),
    'missing camera': (dict(zip(['a.tif', 'b', 'c.tif'], ['cam1', 'cam3', 'cam2'])), ['cam1', 'cam2']),
    'missing camera, one interior': (dict(zip(['a.tif', 'b', 'c.tif'], ['cam1', 'cam3', None])), ['cam1']),
    'missing ids': (dict(zip(['a.tif', 'b', 'c.tif'], ['cam1', None, 'cam2'])), ['cam1', 'cam2']),
}


def frozen(d):
    return copy.deepcopy(d) if not isinstance(d, dict) else {k: frozen(v) for k, v in d.items()}


def snap(d):
    """Copy of nested dictionaries (leaves shared)."""
    return {k: snap(v) for k, v in d.items()} if isinstance(d, dict) else d


def frame_case(L, X, cfg, how):
    ids, cams = FRAMES[cfg]
    made = []

    def create(*a, **k):
        if a:
            k = dict(cam_type=a[0], **k)
        made.append(Rec(**k))
        return made[-1]

    fa = L.factory
    fa.create_camera = create
    extra = dict(distort=False) if how == 'kwargs' else {}
    for seq in itertools.product(QUERIES, repeat=3 if cfg == 'two cameras' and how == 'plain' else 2):
        inn, ext = frame_params(ids, cams)
        i0, e0 = snap(inn), snap(ext)
        kw = dict(extra)
        c = fa.FrameCameras(inn, ext, cam_kwargs=kw if extra else None)
        X.require('filenames', z3.BoolVal(c.filenames == set(ids)))
        for q in seq:
            e = lookup(e0, q)
            cid = e.get('camera') if e else None
            if e and cid is None and len(cams) == 1:
                cid = cams[0]
            good = e is not None and cid in cams
            try:
                g = c.get(Path(q) if how == 'path' else q)
            except Exception as ex:
                if type(ex).__name__ != 'ParamError':
                    raise
                X.require('error-only-for-unknown', z3.BoolVal(not good))
                continue
            X.require('unknown-raises', z3.BoolVal(good))
            if not good:
                continue
            X.require('interior-of-camera-id', same(g.int, dict(i0[cid], **extra)))
            X.require('exterior-of-image', same(g.ext, {k: e[k] for k in ('xyz', 'opk')}))
        X.require('inputs-unchanged', z3.And(same(inn, i0), same(ext, e0), z3.BoolVal(kw == extra)))


def replay(R, d):
    for i in range(8):
        frame_real(R, __import__('random').Random(i), i)
        rpc_real(R, __import__('random').Random(i), i)
    images_real(R, __import__('random').Random(0), 0)


for cfg in FRAMES:
    for how in ('plain', 'path', 'kwargs'):
        prop.case(f'frame cameras[{cfg}, {how}]', [F + 'FrameCameras.get', F + 'FrameCameras.__init__'], expect=['filenames', 'exterior-of-image', 'interior-of-camera-id', 'inputs-unchanged', 'error-only-for-unknown'], replay=replay, max_secs=100,
                  bound='all sequences of up to 3 requests over 6 image names, for all parameter values')(lambda L, X, a=(cfg, how): frame_case(L, X, *a))


# ------------------------------------------------------------------------------------ RPC cameras
GCPS = {'both': ['a', 'a.tif', 'b'], 'names': ['a.tif', 'b.tif', 'c.tif'], 'one': ['c']}
OPS = [('get', 'a.tif'), ('get', 'b.tif'), ('get', 'b'), ('get', 'c.tif'), ('get', 'none.tif')] + [('refine', g) for g in GCPS]


def rpc_case(L, X, first):
    fa = L.factory
    fa.create_camera = lambda *a, **k: Rec(**(dict(cam_type=a[0], **k) if a else k))
    fa.refine_rpc = lambda rpc, gcps, **k: ('refined', rpc, gcps, k)
    for seq in itertools.product(OPS, repeat=3):
        if seq[0] != first:
            continue
        par = {n: dict(cam_type='rpc', im_size=(10, 8), rpc=dict(err=S.SReal(z3.Real(f'rpc_{n}')))) for n in ('a', 'a.tif', 'b', 'c.tif')}
        p0 = snap(par)
        st = snap(par)
        ckw = dict(opt='cam option')
        c = fa.RpcCameras(par, cam_kwargs=ckw)
        X.require('filenames', z3.BoolVal(c.filenames == set(par)))
        for op, arg in seq:
            if op == 'refine':
                g = {n: [f'gcp {arg} {n}'] for n in GCPS[arg]}
                g0 = snap(g)
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    c.refine(g, fit_kwargs=dict(method='shift'))
                X.require('gcps-unchanged', z3.BoolVal(g == g0))
                for n in st:
                    q = g0.get(Path(n).name, g0.get(Path(n).stem))
                    if q:
                        st[n]['rpc'] = ('refined', st[n]['rpc'], q, dict(method='shift'))
                continue
            e = lookup(st, arg)
            try:
                cam = c.get(arg)
            except Exception as ex:
                if type(ex).__name__ != 'ParamError':
                    raise
                X.require('error-only-for-unknown', z3.BoolVal(e is None))
                continue
            X.require('unknown-raises', z3.BoolVal(e is not None))
            X.require('rpc-of-image-refined', same(cam.int, dict(e, opt='cam option')))
        X.require('inputs-unchanged', z3.And(same(par, p0), z3.BoolVal(ckw == dict(opt='cam option'))))


for op in OPS:
    prop.case(f'RPC cameras[first {op[0]} {op[1]}]', [F + 'RpcCameras.get', F + 'RpcCameras.refine', F + 'RpcCameras.__init__'], expect=['filenames', 'rpc-of-image-refined', 'inputs-unchanged', 'error-only-for-unknown', 'gcps-unchanged'], replay=replay, max_secs=100,
              bound='all sequences of 3 requests or refinements over 4 image names and 3 GCP sets, for all RPC models')(lambda L, X, op=op: rpc_case(L, X, op))


@prop.case('from_images', [F + 'FrameCameras.from_images'], expect=['io-kwargs-unchanged', 'crs-of-images', 'parameters-of-images'], replay=replay)
def from_images(L, X):
    fa = L.factory
    fa.create_camera = lambda *a, **k: Rec(**(dict(cam_type=a[0], **k) if a else k))
    seen = []

    class Reader:
        def __init__(self, files, crs=None, **k):
            self.files, self.given = files, crs
            seen.append((files, crs, k))
            self.crs = crs if crs is not None else f'crs of {files[0]}'

        def read_int_param(self):
            return {'cam': dict(cam_type='pinhole', focal_len=S.SReal(z3.Real('f')))}

        def read_ext_param(self):
            return {f: dict(xyz=vec('x' + f), opk=vec('o' + f), camera='cam') for f in self.files}

    L.param_io.ExifReader = Reader
    crs = types.SimpleNamespace(from_string=lambda s: s)
    fa.rio = types.SimpleNamespace(CRS=crs, DatasetReader=object)
    io = {}
    for files in (['p.tif'], ['q.tif', 'r.tif']):
        c = fa.FrameCameras.from_images(files, io_kwargs=io)
        X.require('io-kwargs-unchanged', z3.BoolVal(io == {}))
        X.require('crs-of-images', z3.BoolVal(seen[-1][1] is None and c.crs == f'crs of {files[0]}'))
        for f in files:
            X.require('parameters-of-images', same(c.get(f).ext, dict(xyz=vec('x' + f), opk=vec('o' + f))))
    io = dict(crs='EPSG:1', lla_crs='EPSG:2')
    c = fa.FrameCameras.from_images(['p.tif'], io_kwargs=io)
    X.require('io-kwargs-unchanged', z3.BoolVal(io == dict(crs='EPSG:1', lla_crs='EPSG:2')))
    X.require('crs-of-images', z3.BoolVal(c.crs == 'EPSG:1' and seen[-1][1:] == ('EPSG:1', dict(lla_crs='EPSG:2'))))


INT_FORMS = {'dict': None, 'yaml': 'i.yaml', 'YML': 'dir/i.YML', 'json': 'i.json', 'bad': 'i.txt'}
EXT_FORMS = {'dict': None, 'csv': 'e.csv', 'txt': 'e.TXT', 'json': 'e.json', 'json same': None, 'geojson': 'e.GeoJSON', 'bad': 'e.yaml'}


def files_case(L, X, how):
    """Parameters of files are those that the reader of their format gives: interiors from the interior file, exteriors from the exterior file."""
    fa, pio = L.factory, L.param_io
    fa.create_camera = lambda *a, **k: Rec(**(dict(cam_type=a[0], **k) if a else k))
    nm = lambda f: os.fspath(getattr(f, 'path', f))
    log = []

    def intp(tag):
        return {'cam': dict(cam_type='pinhole', focal_len=S.SReal(z3.Real('f ' + tag)))}

    def extp(tag):
        return {n: dict(xyz=vec(f'x {tag} {n}'), opk=vec(f'o {tag} {n}'), camera='cam') for n in ('p.tif', 'q.tif')}

    def fn(kind):
        def f(file):
            log.append((kind, nm(file), {}))
            return intp(f'{kind} {nm(file)}')
        return f

    def reader(kind, crs):
        class Reader:
            def __init__(self, file, **k):
                self.name = nm(file)
                log.append((kind, self.name, k))
                self.crs = k.get('crs') if crs == 'given' else crs

            def read_ext_param(self):
                return extp(f'{kind} {self.name}')

            def read_int_param(self):
                if kind != 'OsfmReader':
                    return {}
                return intp(f'{kind} {self.name}')
        return Reader

    pio.read_oty_int_param, pio.read_osfm_int_param = fn('oty'), fn('osfm')
    own = 'crs of file'
    pio.CsvReader, pio.OsfmReader, pio.OtyReader = reader('CsvReader', 'given'), reader('OsfmReader', 'given'), reader('OtyReader', own)
    fa.rio = types.SimpleNamespace(CRS=types.SimpleNamespace(from_string=lambda s: s), DatasetReader=object)
    import fsspec
    wrap = dict(str=str, path=Path, ofile=lambda s: fsspec.open('/w/' + s, 'rt'))[how]
    for (ik, iv), (ek, ev), kws in itertools.product(INT_FORMS.items(), EXT_FORMS.items(), [None, dict(crs='W'), dict(crs='W', lla_crs='G')]):
        if ek == 'json same' and ik != 'json':
            continue
        i = intp('dict') if ik == 'dict' else wrap(iv)
        e = extp('dict') if ek == 'dict' else i if ek == 'json same' else wrap(ev)
        log.clear()
        k0 = dict(kws) if kws else kws
        bad = 'bad' in (ik, ek)
        try:
            c = fa.FrameCameras(i, e, io_kwargs=kws)
        except Exception as ex:
            if type(ex).__name__ != 'ParamError' or not bad:
                raise
            continue
        X.require('unknown-file-type-is-an-error', z3.BoolVal(not bad))
        if bad:
            continue
        X.require('io-kwargs-unchanged', z3.BoolVal(kws == k0))
        rd = {'csv': 'CsvReader', 'txt': 'CsvReader', 'json': 'OsfmReader', 'json same': 'OsfmReader', 'geojson': 'OtyReader'}.get(ek)
        we = extp('dict') if rd is None else extp(f'{rd} {nm(e)}')
        wi = intp('dict') if ik == 'dict' else intp(f'oty {nm(i)}') if ik in ('yaml', 'YML') else intp(f'osfm {nm(i)}')
        if ek == 'json same':
            alt = [wi, intp(f'OsfmReader {nm(i)}')]
        else:
            alt = [wi]
        for q in ('p.tif', 'dir/q.tif'):
            g = c.get(q)
            X.require('exterior-of-exterior-file', same(g.ext, {k: we[os.path.basename(q)][k] for k in ('xyz', 'opk')}))
            X.require('interior-of-interior-file', z3.Or(*[same(g.int, w['cam']) for w in alt]))
        given = (kws or {}).get('crs')
        X.require('crs', z3.BoolVal(c.crs == (own if ek == 'geojson' else given)))
        for kind, name, k in log:
            if kind in ('CsvReader', 'OsfmReader'):
                X.require('reading-options', z3.BoolVal({a: b for a, b in k.items() if b is not None} == (kws or {})))


for how in ('str', 'path', 'ofile'):
    prop.case(f'parameter files[{how}]', [F + 'FrameCameras._read_param'], expect=['exterior-of-exterior-file', 'interior-of-interior-file', 'crs', 'reading-options'], replay=replay,
              bound='all pairs of interior and exterior file types, for all parameter values')(lambda L, X, h=how: files_case(L, X, h))


# ------------------------------------------------------------------------------------ run time
NM = dict(PinholeCamera='pinhole', BrownCamera='brown', OpenCVCamera='opencv', FisheyeCamera='fisheye')


def rand_int(R, rng):
    p = rand_lens(R, rng)
    cam = p[0] if isinstance(p, tuple) else p
    return cam


def frame_real(R, rng, i):
    nc = rng.choice([1, 2, 3])
    inn = {}
    for c in range(nc):
        ct = rng.choice(['pinhole', 'brown', 'opencv', 'fisheye'])
        W, H = rng.randrange(100, 900), rng.randrange(100, 900)
        inn[f'cam {c}'] = dict(cam_type=ct, im_size=(W, H), focal_len=rng.uniform(.8, 2), sensor_size=(1., H / W), cx=rng.uniform(-.02, .02), cy=rng.uniform(-.02, .02),
                               **({'k1': rng.uniform(-.05, .05)} if ct != 'pinhole' else {}))
    names = sorted({rng.choice(['im{}.tif', 'im{}', 'im.{}.tif', 'im.{}']).format(rng.choice([k, k // 2])) for k in range(rng.randrange(1, 7))})
    ext = {n: dict(xyz=tuple(rng.uniform(-1e4, 1e4) for _ in range(2)) + (rng.uniform(500, 3000),), opk=tuple(rng.uniform(-.3, .3) for _ in range(3)),
                   camera=rng.choice(list(inn)) if nc > 1 or rng.random() < .7 else None) for n in names}
    if rng.random() < .4:
        # images that share their position or orientation, e.g. of a camera rig
        k = rng.choice(['xyz', 'opk'])
        for n in names:
            ext[n][k] = ext[rng.choice(names)][k]
    i0, e0 = copy.deepcopy(inn), copy.deepcopy(ext)
    ckw = rng.choice([None, dict(distort=False)])
    cams = call(R.factory.FrameCameras, inn, ext, cam_kwargs=ckw)
    for _ in range(12):
        n = rng.choice(names)
        q = rng.choice(['/dir/', '']) + (n if rng.random() < .6 else n if '.' in n[3:] else n + rng.choice(['.tif', '.jpg', '.TIF']))
        if rng.random() < .1:
            q = 'missing.tif'
        e = lookup(e0, q)
        try:
            cam = call(cams.get, Path(q) if rng.random() < .5 else q, allow_=(R.errors.ParamError,))
        except R.errors.ParamError:
            if e:
                raise Fail(f'error for {q}, which has exterior parameters', dict(names=names))
            continue
        if not e:
            raise Fail(f'no error for unknown image {q}', dict(names=names))
        ip = i0[e['camera'] or 'cam 0']
        ref = R.camera.create_camera(**ip, xyz=e['xyz'], opk=e['opk'], **(ckw or {}))
        xyz = np.array([[e['xyz'][0] + dx, e['xyz'][1] + dy, 0.] for dx, dy in ((0, 0), (150, -80), (-90, 200))]).T
        a, b = cam.world_to_pixel(xyz), ref.world_to_pixel(xyz)
        if type(cam) is not type(ref) or not np.allclose(a, b, rtol=1e-9, atol=1e-6) or tuple(cam.im_size) != tuple(ip['im_size']):
            raise Fail(f'camera for {q} differs from that of its parameters', dict(names=names))
    if inn != i0 or ext != e0:
        raise Fail('the parameter dictionaries were modified')


@prop.fuzz('frame-cameras-real', 250, 5000, 40, [F + 'FrameCameras.get'])
def f_frame(R, rng, i):
    frame_real(R, rng, i)


def rpc_real(R, rng, i):
    names = sorted({rng.choice(['im{}.tif', 'im{}']).format(rng.choice([k, k // 2])) for k in range(rng.randrange(1, 5))})
    par = {}
    for n in names:
        r = rand_rpc(rng, cubic_terms=False)
        r = r[0] if isinstance(r, tuple) else r
        par[n] = dict(cam_type='rpc', im_size=(500, 400), rpc=r)
    p0 = copy.deepcopy(par)
    st = copy.deepcopy(par)
    cams = call(R.factory.RpcCameras, par)
    for _ in range(8):
        n = rng.choice(names)
        if rng.random() < .3:
            gc = {}
            for m in names:
                if rng.random() < .7:
                    r = st[m]['rpc']
                    cam = R.camera.RpcCamera((500, 400), r)
                    pts = []
                    for _k in range(3):
                        x = [r['long_off'] + rng.uniform(-.5, .5) * r['long_scale'], r['lat_off'] + rng.uniform(-.5, .5) * r['lat_scale'], r['height_off']]
                        ji = cam.world_to_pixel(np.array([x]).T)[:, 0] + [rng.uniform(-9, 9), rng.uniform(-9, 9)]
                        pts.append(dict(ji=tuple(ji), xyz=tuple(x), id='', info=''))
                    gc[rng.choice([m, Path(m).stem])] = pts
            if not gc:
                continue
            g0 = copy.deepcopy(gc)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                call(cams.refine, gc, fit_kwargs=dict(method='shift'))
            if gc != g0:
                raise Fail('the GCPs were modified')
            for m in names:
                g = g0.get(m, g0.get(Path(m).stem))
                if g:
                    st[m]['rpc'] = R.fit.refine_rpc(st[m]['rpc'], g, method='shift')
            continue
        q = n if '.' in n or rng.random() < .3 else n + '.tif'
        cam = call(cams.get, q)
        r = lookup(st, q)['rpc']
        ref = R.camera.RpcCamera((500, 400), r)
        xyz = np.array([[r['long_off'] + dx * r['long_scale'], r['lat_off'] + dy * r['lat_scale'], r['height_off']] for dx, dy in ((0, 0), (.3, -.2))]).T
        if not np.allclose(cam.world_to_pixel(xyz), ref.world_to_pixel(xyz), rtol=1e-9, atol=1e-6):
            raise Fail(f'camera for {q} differs from that of its (refined) RPC model', dict(names=names))
    if par != p0:
        raise Fail('the RPC parameter dictionary was modified')


@prop.fuzz('rpc-cameras-real', 120, 2500, 40, [F + 'RpcCameras.get', F + 'RpcCameras.refine'])
def f_rpc(R, rng, i):
    rpc_real(R, rng, i)


def images_real(R, rng, i):
    """from_images() with real images: io_kwargs unchanged, and the parameters are those read from each image."""
    from .c06 import Tmp  # noqa: F401
    import glob
    from ..loader import REPO
    files = sorted(glob.glob(os.path.join(REPO, 'tests/data/odm/images/*.tif')) or glob.glob(os.path.join(REPO, 'tests/data/**/100_*.tif'), recursive=True))[:3]
    if not files:
        raise Skip()
    io = {}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        c = call(R.factory.FrameCameras.from_images, files, io_kwargs=io)
        rd = R.param_io.ExifReader(files)
        e = rd.read_ext_param()
    if io:
        raise Fail(f'io_kwargs were modified to {io}')
    for f in files:
        cam = call(c.get, f)
        if not np.allclose(np.array(cam.pos if hasattr(cam, 'pos') else e[os.path.basename(f)]['xyz']).ravel(), e[os.path.basename(f)]['xyz']):
            raise Fail(f'camera for {f} has another position')


@prop.fuzz('from-images-real', 3, 6, 40, [F + 'FrameCameras.from_images'])
def f_images(R, rng, i):
    images_real(R, rng, i)


def files_real(R, rng, i):
    """FrameCameras made from real parameter files."""
    import json
    from .c06 import Tmp
    crs = 'EPSG:32735'
    mk = lambda: {f'cam {k}': dict(cam_type=R.enums.CameraType.brown, im_size=(rng.randrange(100, 900), rng.randrange(100, 900)), focal_len=rng.uniform(.8, 2), k1=rng.uniform(-.05, .05)) for k in range(2)}
    with Tmp() as d:
        inn, names = mk(), ['a.tif', 'b.tif', 'c.tif']
        ik, ek = rng.choice(['dict', 'yaml', 'yml', 'json']), rng.choice(['dict', 'csv', 'json', 'geojson', 'same'])
        if ek == 'same':
            ik = 'json'
        ext = {n: dict(xyz=tuple(round(rng.uniform(1e5, 8e5), 3) for _ in range(2)) + (1000.,), opk=tuple(round(rng.uniform(-.3, .3), 6) for _ in range(3)), camera=rng.choice(list(inn))) for n in names}
        p = lambda n: os.path.join(d, n)

        def osfm(f, ip):
            cams = {k: dict(projection_type='simple_radial', width=v['im_size'][0], height=v['im_size'][1], focal=v['focal_len'], k1=v['k1'], k2=0.) for k, v in ip.items()}
            shots = {n: dict(rotation=[3.1, .01, .02], translation=[float(k), 2., 90.], camera=ext[n]['camera']) for k, n in enumerate(names)}
            with open(f, 'w') as o:
                json.dump([dict(cameras=cams, shots=shots, reference_lla=dict(latitude=-33., longitude=27., altitude=0.))], o)
        if ik in ('yaml', 'yml'):
            i_ = p('i.' + ik)
            R.param_io.write_int_param(i_, inn)
        elif ik == 'json':
            i_ = p('i.json')
            osfm(i_, inn)
        else:
            i_ = inn
        e_ = ext
        if ek == 'same':
            e_ = i_
        elif ek == 'json':
            e_ = p('e.json')
            osfm(e_, mk())
        elif ek == 'geojson':
            e_ = p('e.geojson')
            R.param_io.write_ext_param(e_, ext, crs)
        elif ek == 'csv':
            e_ = p('e.csv')
            with open(e_, 'w') as o:
                o.write('filename,x,y,z,omega,phi,kappa,camera\n')
                for n, v in ext.items():
                    o.write(','.join([n] + [repr(float(q)) for q in (*v['xyz'], *np.degrees(v['opk']))] + [v['camera']]) + '\n')
        w = rng.choice([str, Path])
        i_, e_ = [q if isinstance(q, dict) else w(q) for q in (i_, e_)]
        data = dict(interior=ik, exterior=ek)
        c = call(R.factory.FrameCameras, i_, e_, io_kwargs=dict(crs=crs))
        if c.filenames != set(names) or c.crs is None or c.crs.to_epsg() != 32735:
            raise Fail(f'file names or CRS of the collection are {c.filenames}, {c.crs}', data)
        qs = [rng.choice(names) for _ in range(5)]
        for n in qs:
            cam = call(c.get, n)
            e, ip = ext[n], inn[ext[n]['camera']]
            if tuple(cam.im_size) != ip['im_size'] or type(cam).__name__ != 'BrownCamera':
                raise Fail(f'camera of {n} is not that of the interior file', data)
            if ek not in ('json', 'same'):
                ref = R.camera.create_camera(**ip, xyz=e['xyz'], opk=e['opk'])
                x = np.array([[e['xyz'][0] + 30, e['xyz'][1] - 50, 5.]]).T
                if not np.allclose(cam.world_to_pixel(x), ref.world_to_pixel(x), rtol=0, atol=1e-3):
                    raise Fail(f'camera of {n} does not have the exterior parameters of the exterior file', data)


@prop.fuzz('parameter-files-real', 60, 800, 40, [F + 'FrameCameras._read_param'])
def f_files(R, rng, i):
    files_real(R, rng, i)
