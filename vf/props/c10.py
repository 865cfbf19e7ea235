"""C10: existing files are never overwritten unless asked."""
import io
import json
import os
import pathlib
import types

import numpy as np
import z3

from .. import sym as S
from ..runner import Fail, Prop, Skip, call
from .c06 import Tmp

prop = Prop('C10')
FC, FP, FF = 'orthority/common.py:', 'orthority/param_io.py:', 'orthority/factory.py:'
OPEN, OPENR = [FC + 'Open.' + f for f in ('__init__', '__enter__', '__exit__', 'close')], [FC + 'OpenRaster.' + f for f in ('__init__', '__enter__', '__exit__', 'close')]
prop.assume('fsspec: opening an OpenFile truncates or creates its path for w modes and changes nothing for r modes; fs.exists(path) says if the path exists',
            'rasterio.open(path, "w") creates or replaces the file at path and does nothing to other files; the open dataset reports its mode and if it is closed')

T, F = z3.BoolVal(True), z3.BoolVal(False)


class World:
    """A file system in which the existence of each path is an arbitrary Boolean."""

    def __init__(self, X):
        self.X, self.ex, self.events, self.open = X, {}, [], []
        w = self

        class Fs:
            def exists(self, path, **k):
                return w.exists(path)

            isfile = lexists = exists

        class LocalFs(Fs):
            pass

        class Sink(io.StringIO):
            def __init__(self, path, mode):
                super().__init__()
                self.path, self.m = path, mode

        class OFile:
            def __init__(self, fs, path, mode='rb', **k):
                self.fs, self.path, self.mode = fs, str(path), mode

            def open(self):
                return self.__enter__()

            def __enter__(self):
                w.events.append((self.path, self.mode))
                self.f = Sink(self.path, self.mode)
                w.open.append(self.f)
                return self.f

            def __exit__(self, *a):
                self.f.close()

        class Ds:
            def __init__(self, name, mode):
                self.name, self.mode, self.closed = name, mode, False

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.closed = True

            def close(self):
                self.closed = True

        self.Fs, self.LocalFs, self.OFile, self.Ds, self.Sink = Fs, LocalFs, OFile, Ds, Sink

    def exists(self, path):
        path = str(path)
        if path not in self.ex:
            self.ex[path] = S.boolean('exists_' + path)
            self.X.input('exists:' + path, self.ex[path])
        return self.ex[path]

    def rio_open(self, path, mode='r', *a, **k):
        if isinstance(path, self.Sink):
            ds = self.Ds(path.path, mode)
        else:
            self.events.append((str(path), mode))
            ds = self.Ds(str(path), mode)
        self.open.append(ds)
        return ds

    def install(self, L, local=True):
        fs = self.LocalFs() if local else self.Fs()
        L.common.OpenFile = self.OFile
        L.common.DatasetReaderBase = self.Ds
        L.common.LocalFileSystem = self.LocalFs
        L.common.fsspec = types.SimpleNamespace(open=lambda p, mode='rb', **k: self.OFile(fs, p, mode))
        L.common.rio = types.SimpleNamespace(open=self.rio_open)
        L.common.get_filename = lambda f: 'name'
        self.fs = fs
        if 'os' in vars(L.common):
            pass
        return fs


def judge(X, w, over, ex_type, paths, tag=''):
    """Contract of an operation that writes ``paths``: refused exactly when one exists and overwriting was not asked for."""
    o = S.zb(over)
    for p, m in w.events:
        if 'w' in m or 'a' in m or '+' in m or 'x' in m:
            X.require(tag + 'no-unasked-overwrite', z3.Or(o, z3.Not(S.zb(w.exists(p)))))
        else:
            X.require(tag + 'no-unasked-overwrite', T)
    if ex_type is None:
        # every path was written
        X.require(tag + 'written', z3.BoolVal(all(any(p == q and 'w' in m for q, m in w.events) for p in paths)))
        X.require(tag + 'refused-if-exists', z3.And(*[z3.Or(o, z3.Not(S.zb(w.exists(p)))) for p in paths]))
    else:
        X.require(tag + 'error-kind', z3.BoolVal(ex_type is FileExistsError))
        X.require(tag + 'refused-only-if-exists', z3.And(z3.Not(o), z3.Or(*[S.zb(w.exists(p)) for p in paths])))


def attempt(fn):
    try:
        fn()
        return None
    except S.Unsupported:
        raise
    except OSError as ex:
        return type(ex)


def replay(R, d):
    """Replay on real files."""
    for fz in ('open-real',):
        import random
        for i in range(40):
            f_open(R, random.Random(i), i)


for cls, modes, fns in (('Open', ('wt', 'wb', 'w'), OPEN), ('OpenRaster', ('w',), OPENR)):
    for kind in ('str', 'path', 'ofile'):
        for local in (True, False):
            for mode in modes:
                def case(L, X, cls=cls, kind=kind, local=local, mode=mode):
                    w = World(X)
                    fs = w.install(L, local)
                    over = S.boolean('overwrite')
                    X.input('overwrite', over)
                    fm = mode + 'b' if cls == 'OpenRaster' else mode
                    f = dict(str='d/f', path=pathlib.PurePosixPath('d/f'), ofile=w.OFile(fs, 'd/f', fm))[kind]
                    C = getattr(L.common, cls)

                    def run():
                        with C(f, mode, overwrite=over) as h:
                            X.require('open-inside', z3.BoolVal(not h.closed))
                        X.require('closed-after', z3.BoolVal(all(q.closed for q in w.open)))
                    judge(X, w, over, attempt(run), ['d/f'])
                prop.case(f'{cls}-write[{kind},{mode},local={local}]', fns, expect=['no-unasked-overwrite', 'refused-only-if-exists', 'written', 'refused-if-exists'],
                          replay=replay)(case)

                def dflt(L, X, cls=cls, kind=kind, local=local, mode=mode):
                    w = World(X)
                    fs = w.install(L, local)
                    fm = mode + 'b' if cls == 'OpenRaster' else mode
                    f = dict(str='d/f', path=pathlib.PurePosixPath('d/f'), ofile=w.OFile(fs, 'd/f', fm))[kind]

                    def run():
                        getattr(L.common, cls)(f, mode).close()
                    judge(X, w, False, attempt(run), ['d/f'])
                prop.case(f'{cls}-write-default[{kind},{mode},local={local}]', fns, expect=['no-unasked-overwrite', 'refused-only-if-exists', 'written', 'refused-if-exists'],
                          replay=replay)(dflt)

    for kind in ('str', 'path', 'ofile'):
        for local in (True, False):
            for mode in (('rt', 'rb', 'r') if cls == 'Open' else ('r',)):
                def rd(L, X, cls=cls, kind=kind, local=local, mode=mode):
                    w = World(X)
                    fs = w.install(L, local)
                    over = S.boolean('overwrite')
                    fm = mode + 'b' if cls == 'OpenRaster' else mode
                    f = dict(str='d/f', path=pathlib.PurePosixPath('d/f'), ofile=w.OFile(fs, 'd/f', fm))[kind]
                    with getattr(L.common, cls)(f, mode, overwrite=over):
                        pass
                    X.require('read-only', z3.BoolVal(len(w.events) > 0 and all(p == 'd/f' and not set(m) & set('wax+') for p, m in w.events)))
                prop.case(f'{cls}-read[{kind},{mode},local={local}]', fns, expect=['read-only'], replay=replay)(rd)


@prop.case('open-handles-returned-as-they-are', OPEN + OPENR, expect=['same-object', 'not-closed', 'closed-handle-refused', 'mode-mismatch-refused'], replay=replay)
def handles(L, X):
    w = World(X)
    w.install(L)
    over = S.boolean('overwrite')
    for cls, m, other in (('Open', 'rt', 'wt'), ('Open', 'wt', 'rt'), ('Open', 'wb', 'rb'), ('OpenRaster', 'r', 'w'), ('OpenRaster', 'w', 'r'), ('OpenRaster', 'w', None), ('OpenRaster', 'r', None)):
        C = getattr(L.common, cls)
        ds_mode = m if other is not None else 'w+' if m == 'w' else 'r+'

        def mk(mode):
            if cls == 'OpenRaster':
                return w.Ds('x', mode)
            h = w.Sink('x', mode)
            h.mode = mode
            return h
        h = mk(ds_mode)
        with C(h, m, overwrite=over) as g:
            X.require('same-object', z3.BoolVal(g is h))
        X.require('not-closed', z3.BoolVal(not h.closed and not w.events))
        c = C(h, m, overwrite=over)
        c.close()
        X.require('not-closed', z3.BoolVal(not h.closed and not w.events))
        h.close()
        X.require('closed-handle-refused', z3.BoolVal(attempt(lambda: C(h, m)) is not None))
        if other:
            g = mk(other)
            X.require('mode-mismatch-refused', z3.BoolVal(attempt(lambda: C(g, m)) is not None and not g.closed))
            X.require('mode-mismatch-refused', z3.BoolVal(
                attempt(lambda: C(w.OFile(w.fs, 'd/f', other + ('b' if cls == 'OpenRaster' else '')), m, overwrite=True)) is not None and not w.events))


# ------------------------------------------------------------------------------- writers
def INT(L):
    return {'c': dict(cam_type=L.enums.CameraType.pinhole, im_size=(10, 8), focal_len=1.0)}


EXT = {'i': dict(xyz=(1., 2., 3.), opk=(0., 0., 0.), camera='c')}
RPC = {'i': dict(cam_type='rpc', im_size=(10, 8), rpc=dict(err_bias=None, err_rand=None, height_off=1., height_scale=1., lat_off=1., lat_scale=1., line_off=1., line_scale=1., long_off=1.,
       long_scale=1., samp_off=1., samp_scale=1., line_den_coeff=[1.] * 20, line_num_coeff=[1.] * 20, samp_den_coeff=[1.] * 20, samp_num_coeff=[1.] * 20))}
GCPS = {'i': [dict(ji=(1., 2.), xyz=(1., 2., 3.), id='a', info=None)]}


def Crs():
    from rasterio.crs import CRS
    return CRS.from_epsg(32735)


def writers(L):
    crs = Crs()
    P = L.param_io
    P.transform = lambda a, b, x, y, z=None: (x, y, z)
    return dict(
        write_int_param=lambda f, **k: P.write_int_param(f, INT(L), **k),
        write_ext_param=lambda f, **k: P.write_ext_param(f, EXT, crs=crs, **k),
        write_rpc_param=lambda f, **k: P.write_rpc_param(f, RPC, **k),
        write_gcps=lambda f, **k: P.write_gcps(f, GCPS, **k))


for wr in ('write_int_param', 'write_ext_param', 'write_rpc_param', 'write_gcps'):
    for kind in ('str', 'ofile'):
        for dflt in (False, True):
            def wcase(L, X, wr=wr, kind=kind, dflt=dflt):
                w = World(X)
                fs = w.install(L)
                over = False if dflt else S.boolean('overwrite')
                if not dflt:
                    X.input('overwrite', over)
                f = 'd/f' if kind == 'str' else w.OFile(fs, 'd/f', 'wt')
                k = {} if dflt else dict(overwrite=over)
                judge(X, w, over, attempt(lambda: writers(L)[wr](f, **k)), ['d/f'])
            prop.case(f'{wr}[{kind},{"default" if dflt else "any"}]', [FP + wr] + OPEN, expect=['no-unasked-overwrite', 'written', 'refused-only-if-exists', 'refused-if-exists'],
                      replay=lambda R, d: f_write_sweep(R))(wcase)

for which in ('FrameCameras', 'RpcCameras', 'RpcCameras+gcps'):
    for dflt in (False, True):
        def ccase(L, X, which=which, dflt=dflt):
            w = World(X)
            w.install(L)
            over = False if dflt else S.boolean('overwrite')
            cl = which.split('+')[0]
            L.param_io.transform = lambda a, b, x, y, z=None: (x, y, z)
            c = object.__new__(getattr(L.factory, cl))
            c._int_param_dict, c._ext_param_dict, c._crs, c._rpc_param_dict = INT(L), EXT, Crs(), RPC
            c._gcp_dict = GCPS if 'gcps' in which else None
            names = dict(FrameCameras=['int_param.yaml', 'ext_param.geojson']).get(which, ['rpc_param.yaml'] + (['gcps.geojson'] if 'gcps' in which else []))
            k = {} if dflt else dict(overwrite=over)
            judge(X, w, over, attempt(lambda: c.write_param('d', **k)), ['d/' + n for n in names])
        prop.case(f'{which}.write_param[{"default" if dflt else "any"}]', [FF + which.split('+')[0] + '.write_param', FC + 'join_ofile'] + OPEN,
                  expect=['no-unasked-overwrite', 'written', 'refused-only-if-exists', 'refused-if-exists'], replay=lambda R, d: f_write_sweep(R))(ccase)


# Ortho.process and PanSharpen.process against the contract of OpenRaster
class Raster:
    """Contract stub of common.OpenRaster: records how each file was opened."""

    def __init__(self, log):
        self.log = log

    def __call__(self, f, mode='r', overwrite=False, **k):
        self.log.append((f, mode, overwrite))

        class Ds:
            count, shape, dtypes, colorinterp, width, height = 1, (8, 10), ['uint8'], [None], 10, 8

            def __enter__(s):
                return s

            def __exit__(s, *a):
                pass
        return Ds()


def run_process(L, X, which, over, dflt, opts=False):
    log = []
    L.common.OpenRaster = Raster(log)
    L.common.build_overviews = lambda im, **k: None
    L.common.create_profile = lambda **k: (dict(dtype='uint8'), False)
    k = {} if dflt else dict(overwrite=over)
    if opts:
        # every other option away from its default
        k.update(dtype='uint16', interp='nearest', write_mask=True, build_ovw=False, driver='cog', compress='deflate', creation_options={})
    if which == 'Ortho':
        o = object.__new__(L.ortho.Ortho)
        o._src_file, o._src_name, o._gsd, o._crs = 'src', 'src', 1.0, None
        o._camera = types.SimpleNamespace(im_size=(10, 8))
        o._reproject_dem = lambda *a, **k: (np.zeros((4, 4)), None)
        o._mask_dem = lambda *a, **k: (np.zeros((4, 4)), None)
        o._remap = lambda *a, **k: None
        o.process('out', **k)
        srcs = {'src'}
    else:
        o = object.__new__(L.pan_sharp.PanSharpen)
        o._pan_file, o._ms_file = 'pan', 'ms'
        o._profiles = {k: dict(width=10, height=8, crs=None, transform=None) for k in ('pan_to_pan', 'ms_to_pan', 'ms_to_ms', 'pan_to_ms')}
        o._validate_pan_ms_params = lambda *a, **k: ([1], None)
        o._get_stats = lambda *a, **k: (None, None)
        o._get_params = lambda *a, **k: {}
        o._process_tile = lambda *a, **k: None
        L.common.block_windows = lambda *a, **k: iter([])
        L.pan_sharp.WarpedVRT = lambda im, **k: im
        o.process('out', **k)
        srcs = {'pan', 'ms'}
    return log, srcs


for which in ('Ortho', 'PanSharpen'):
    for dflt, opts in ((False, False), (True, False), (False, True), (True, True)):
        def pcase(L, X, which=which, dflt=dflt, opts=opts):
            over = False if dflt else S.boolean('overwrite')
            log, srcs = run_process(L, X, which, over, dflt, opts)
            for f, m, ov in log:
                if f in srcs:
                    X.require('sources-read-only', z3.BoolVal(m == 'r'))
                else:
                    X.require('output-overwrite-as-given', z3.And(z3.BoolVal(f == 'out' and m == 'w'), S.zb(ov) == S.zb(over)))
            X.require('output-opened-once', z3.BoolVal(sum(f == 'out' for f, m, ov in log) == 1))
        prop.case(f'{which}.process[{"default" if dflt else "any"}{", other options" if opts else ""}]', [f'orthority/{"ortho" if which == "Ortho" else "pan_sharp"}.py:{which}.process'],
                  expect=['sources-read-only', 'output-overwrite-as-given', 'output-opened-once'], replay=lambda R, d, w=which: f_process(R, __import__('random').Random(1), 0 if w == 'Ortho' else 1))(pcase)


# ------------------------------------------------------------------------------------ run time
def snap(d):
    return {str(p): p.read_bytes() for p in pathlib.Path(d).rglob('*') if p.is_file()}


@prop.fuzz('open-remote', 120, 1500, 20, OPEN + OPENR)
def f_remote(R, rng, i):
    """A file system other than the local one (fsspec's in-memory one)."""
    import fsspec
    import rasterio
    fs = fsspec.filesystem('memory')
    base = f'/vf-c10-{os.getpid()}'
    try:
        cls = rng.choice(['Open', 'OpenRaster'])
        kind = rng.choice(['str', 'ofile'])
        over = rng.choice([True, False, None])
        exists = rng.random() < 0.7
        mode = rng.choice(['wt', 'wb']) if cls == 'Open' else 'w'
        p = base + ('/a.tif' if cls == 'OpenRaster' else '/a.txt')
        old = b'original' if rng.random() < 0.8 else b''
        fs.pipe_file(base + '/other.txt', b'other')
        if exists:
            fs.pipe_file(p, old)
        kw = dict(driver='GTiff', width=4, height=3, count=1, dtype='uint8') if cls == 'OpenRaster' else {}
        if over is not None:
            kw['overwrite'] = over
        fm = mode + 'b' if cls == 'OpenRaster' else mode
        f = 'memory:/' + p if kind == 'str' else fsspec.open('memory:/' + p, fm)
        desc = f'{cls}({kind} on a memory file system, {mode}, overwrite={over}, exists={exists})'
        try:
            with getattr(R.common, cls)(f, mode, **kw) as h:
                if cls == 'Open':
                    h.write('new' if 't' in mode else b'new')
                else:
                    h.write(np.full((1, 3, 4), 9, 'uint8'))
            raised = False
        except FileExistsError:
            raised = True
        if fs.cat_file(base + '/other.txt') != b'other':
            raise Fail(desc + ' changed another file')
        should = exists and not over
        if raised != should:
            raise Fail(desc + f' raised FileExistsError: {raised}, expected: {should}')
        now = fs.cat_file(p)
        if should:
            if now != old:
                raise Fail(desc + ' was refused but the file changed')
        elif cls == 'Open':
            if now != b'new':
                raise Fail(desc + f' left {now[:30]!r}, not the new content')
        else:
            with rasterio.MemoryFile(now) as mf, mf.open() as im:
                if not (im.read() == 9).all():
                    raise Fail(desc + ' does not hold the new content')
    finally:
        if fs.exists(base):
            fs.rm(base, recursive=True)


@prop.fuzz('open-real', 150, 2000, 40, OPEN + OPENR)
def f_open(R, rng, i):
    import fsspec
    import rasterio
    with Tmp() as d:
        cls = rng.choice(['Open', 'OpenRaster'])
        kind = rng.choice(['str', 'path', 'ofile', 'handle'])
        wr = rng.random() < 0.7
        over = rng.choice([True, False, None])
        exists = rng.random() < 0.7 or not wr
        mode = rng.choice(['wt', 'wb'] if wr else ['rt', 'rb']) if cls == 'Open' else 'w' if wr else 'r'
        p = os.path.join(d, 'a.tif' if cls == 'OpenRaster' else 'a.txt')
        other = os.path.join(d, 'other.txt')
        open(other, 'w').write('other')
        prof = dict(driver='GTiff', width=4, height=3, count=1, dtype='uint8')
        if exists:
            if cls == 'Open':
                open(p, 'wb').write(b'original')
            else:
                with rasterio.open(p, 'w', **prof) as im:
                    im.write(np.full((1, 3, 4), 7, 'uint8'))
        before = snap(d)
        C = getattr(R.common, cls)
        fm = mode + 'b' if cls == 'OpenRaster' else mode
        handle = None
        kw = dict(prof) if cls == 'OpenRaster' and wr else {}
        if over is not None:
            kw['overwrite'] = over
        if kind == 'handle':
            if wr:
                p2 = p + '.new'
                handle = open(p2, mode) if cls == 'Open' else rasterio.open(p2, 'w', **prof)
            else:
                handle = open(p, mode) if cls == 'Open' else rasterio.open(p, 'r')
            f = handle
        else:
            f = dict(str=p, path=pathlib.Path(p), ofile=fsspec.open(p, fm))[kind]
        desc = f'{cls}({kind}, {mode}, overwrite={over}, exists={exists})'
        try:
            with C(f, mode, **kw) as h:
                if handle is not None and h is not handle:
                    raise Fail(desc + ' does not return the open handle')
                if wr and cls == 'Open':
                    h.write('new' if 't' in mode else b'new')
                elif wr:
                    h.write(np.full((1, 3, 4), 9, 'uint8'))
                else:
                    h.read()
            if handle is not None:
                if handle.closed:
                    raise Fail(desc + ' closed the open handle')
                handle.close()
            raised = False
        except FileExistsError:
            raised = True
        after = snap(d)
        if not wr:
            if before != after:
                raise Fail(desc + ' changed files when reading')
            return
        tgt = p if handle is None else p + '.new'
        for q in before:
            if q != tgt and before[q] != after.get(q):
                raise Fail(desc + f' changed {os.path.basename(q)}')
        should = handle is None and exists and not over
        if raised != should:
            raise Fail(desc + f' raised FileExistsError: {raised}, expected: {should}')
        if should:
            if before != after:
                raise Fail(desc + ' was refused but the file changed')
        elif cls == 'Open':
            if after[tgt] != b'new':
                raise Fail(desc + f' left {after[tgt][:30]!r}, not the new content')
        else:
            with rasterio.open(tgt) as im:
                if not (im.read() == 9).all():
                    raise Fail(desc + ' does not hold the new content')


def f_write_sweep(R):
    import random
    for i in range(60):
        f_writers(R, random.Random(i), i)


@prop.fuzz('writers-real', 120, 1500, 40, [FP + 'write_int_param', FP + 'write_ext_param', FP + 'write_rpc_param', FP + 'write_gcps', FF + 'FrameCameras.write_param', FF + 'RpcCameras.write_param'])
def f_writers(R, rng, i):
    import rasterio
    with Tmp() as d:
        which = ['int', 'ext', 'rpc', 'gcps', 'frame', 'rpccams'][i % 6]
        over = rng.choice([True, False, None])
        k = {} if over is None else dict(overwrite=over)
        crs = rasterio.CRS.from_epsg(32735)
        P = R.param_io
        single = dict(int=('f.yaml', lambda p: P.write_int_param(p, INT(R), **k), lambda p: P.read_oty_int_param(p)),
                      ext=('f.geojson', lambda p: P.write_ext_param(p, EXT, crs=crs, **k), lambda p: P.OtyReader(p).read_ext_param()),
                      rpc=('f.yaml', lambda p: P.write_rpc_param(p, RPC, **k), lambda p: P.read_oty_rpc_param(p)),
                      gcps=('f.geojson', lambda p: P.write_gcps(p, GCPS, **k), lambda p: P.read_oty_gcps(p)))
        if which in single:
            name, fn, rd = single[which]
            targets, act = [name], lambda: fn(os.path.join(d, name))
        elif which == 'frame':
            c = R.factory.FrameCameras(INT(R), EXT, io_kwargs=dict(crs=crs))
            targets, act, rd = ['int_param.yaml', 'ext_param.geojson'], lambda: c.write_param(d, **k), None
        else:
            c = R.factory.RpcCameras(RPC)
            c._gcp_dict = GCPS
            targets, act, rd = ['rpc_param.yaml', 'gcps.geojson'], lambda: c.write_param(d, **k), None
        ex = [t for t in targets if rng.random() < 0.6]
        for t in ex:
            open(os.path.join(d, t), 'w').write('x' * rng.choice([3, 20000]))
        before = snap(d)
        desc = f'{which} writer, overwrite={over}, existing: {ex}'
        try:
            act()
            raised = False
        except FileExistsError:
            raised = True
        after = snap(d)
        if raised != bool(ex and not over):
            raise Fail(desc + f': FileExistsError raised: {raised}')
        for t in ex:
            q = os.path.join(d, t)
            if not over and before[q] != after[q]:
                raise Fail(desc + f': {t} was changed')
            if over and b'xxx' in after[q]:
                raise Fail(desc + f': {t} was not replaced')
        if rd and not raised:
            call(rd, os.path.join(d, targets[0]))


def mk_scene(R, d):
    """A small frame camera scene: source, DEM, camera."""
    import rasterio
    from rasterio.transform import from_origin
    crs = 'EPSG:32735'
    src, dem = os.path.join(d, 'src.tif'), os.path.join(d, 'dem.tif')
    rs = np.random.default_rng(1)
    with rasterio.open(src, 'w', driver='GTiff', width=40, height=30, count=2, dtype='uint8') as im:
        im.write(rs.integers(1, 255, (2, 30, 40), dtype='uint8'))
    with rasterio.open(dem, 'w', driver='GTiff', width=60, height=60, count=1, dtype='float32', crs=crs, transform=from_origin(500000 - 300, 6000000 + 300, 10, 10)) as im:
        im.write(rs.uniform(0, 5, (1, 60, 60)).astype('float32'))
    cam = R.camera.create_camera('pinhole', im_size=(40, 30), focal_len=1., sensor_size=(1., .75), xyz=(500000., 6000000., 200.), opk=(0., 0., 0.))
    return src, dem, cam, crs


def mk_pan(d):
    import rasterio
    from rasterio.transform import from_origin
    rs = np.random.default_rng(2)
    pan, ms = os.path.join(d, 'pan.tif'), os.path.join(d, 'ms.tif')
    m = rs.uniform(50, 200, (3, 16, 20))
    with rasterio.open(ms, 'w', driver='GTiff', width=20, height=16, count=3, dtype='uint8', crs='EPSG:32735', transform=from_origin(500000, 6000000, 4, 4)) as im:
        im.write(m.astype('uint8'))
    with rasterio.open(pan, 'w', driver='GTiff', width=80, height=64, count=1, dtype='uint8', crs='EPSG:32735', transform=from_origin(500000, 6000000, 1, 1)) as im:
        im.write(np.clip(np.kron(m.mean(0), np.ones((4, 4))) + rs.normal(0, 5, (64, 80)), 1, 255).astype('uint8')[None])
    return pan, ms


@prop.fuzz('process-real', 40, 200, 60, ['orthority/ortho.py:Ortho.process', 'orthority/pan_sharp.py:PanSharpen.process'])
def f_process(R, rng, i):
    import rasterio
    with Tmp() as d:
        out = os.path.join(d, 'out.tif')
        over, exists = rng.choice([(True, True), (False, True), (None, True), (None, False), (False, False)])
        k = {} if over is None else dict(overwrite=over)
        if i % 2 == 0:
            src, dem, cam, crs = mk_scene(R, d)
            o = call(R.ortho.Ortho, src, dem, cam, crs=crs)
        else:
            pan, ms = mk_pan(d)
            o = call(R.pan_sharp.PanSharpen, pan, ms)
        if exists:
            with rasterio.open(out, 'w', driver='GTiff', width=3, height=3, count=1, dtype='uint8') as im:
                im.write(np.full((1, 3, 3), 5, 'uint8'))
        before = snap(d)
        desc = f'{type(o).__name__}.process, overwrite={over}, exists={exists}'
        try:
            if rng.random() < .5:
                k.update(dtype=rng.choice(['uint8', 'uint16', 'float32']), compress=rng.choice(['deflate', None]), interp=rng.choice(['nearest', 'cubic']))
            o.process(out, driver=rng.choice(['gtiff', 'cog']), write_mask=rng.choice([None, True, False]), build_ovw=rng.random() < .5, **k)
            raised = False
        except FileExistsError:
            raised = True
        after = snap(d)
        if raised != (exists and not over):
            raise Fail(desc + f': FileExistsError raised: {raised}')
        for q in before:
            if q != out and before[q] != after.get(q):
                raise Fail(desc + f': input {os.path.basename(q)} changed')
        if raised and before != after:
            raise Fail(desc + ': files changed')
        if not raised:
            with rasterio.open(out) as im:
                if im.shape == (3, 3):
                    raise Fail(desc + ': not replaced')
