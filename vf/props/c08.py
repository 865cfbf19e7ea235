"""C08: written parameter files read back to the same parameters."""
import io
import json
import os
import types
from pathlib import Path

import numpy as np
import z3

from .. import sym as S
from ..runner import Fail, Prop, Skip, call
from . import c03, c05, c07
from .c06 import Tmp
from .c07 import COEFF

prop = Prop('C08')
FP = 'orthority/param_io.py:'
INT, EXT, RPC, GCP = [FP + 'write_int_param', FP + 'read_oty_int_param'], [FP + 'write_ext_param', FP + 'OtyReader.__init__', FP + 'OtyReader.read_ext_param', FP + 'OtyReader._read_json_dict'], \
    [FP + 'write_rpc_param', FP + 'read_oty_rpc_param'], [FP + 'write_gcps', FP + 'read_oty_gcps']


class Disk:
    """Contract of text files with the json and yaml libraries: what is loaded is what was dumped last, with tuples as lists."""

    def __init__(self, L):
        self.data = {}
        disk = self

        class Open:
            def __init__(self, file, mode='rt', overwrite=False, **k):
                self.file, self.mode = file, mode

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

        def dump(obj, f, **k):
            if not f.mode.startswith('w') or k.get('sort_keys'):
                raise S.Unsupported('writing with other options')
            disk.data[f.file] = plain(obj)

        def load(f):
            if not f.mode.startswith('r'):
                raise S.Unsupported('reading from a file open for writing')
            return plain(disk.data[f.file])

        L.common.Open = Open
        L.common.get_filename = lambda f: 'file'
        L.param_io.yaml = types.SimpleNamespace(safe_dump=dump, safe_load=load)
        L.param_io.json = types.SimpleNamespace(dump=dump, load=load)


def plain(o):
    if isinstance(o, dict):
        if not all(isinstance(k, str) for k in o):
            raise S.Unsupported('keys that are not strings')
        return {k: plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(v) for v in o]
    if o is None or isinstance(o, (str, bool, int, float)) or S.is_sym(o):
        return o
    raise S.Unsupported(f'{type(o).__name__} in a file')


def same(X, nm, got, exp):
    if isinstance(exp, dict):
        X.require(nm, z3.BoolVal(isinstance(got, dict) and list(got) == list(exp)) if nm == 'order' else z3.BoolVal(isinstance(got, dict) and set(got) == set(exp)))
        for k in exp:
            same(X, nm, got[k], exp[k])
    elif isinstance(exp, (list, tuple)):
        X.require(nm, z3.BoolVal(type(got) is type(exp) and len(got) == len(exp)))
        for a, b in zip(got, exp):
            same(X, nm, a, b)
    elif S.is_sym(exp):
        X.require_eq(nm, S.SReal.of(got), S.SReal.of(exp)) if got is not exp else X.require(nm, z3.BoolVal(True))
    else:
        X.require(nm, z3.BoolVal(bool(type(got) is type(exp) and got == exp)))


def copy(o):
    return {k: copy(v) for k, v in o.items()} if isinstance(o, dict) else type(o)(copy(v) for v in o) if isinstance(o, (list, tuple)) else o


def run(X, L, write, read, orig):
    keep = copy(orig)
    write(orig)
    same(X, 'inputs-unchanged', orig, keep)
    out = read()
    X.require('order', z3.BoolVal(list(out) == list(keep)))
    same(X, 'value', out, keep)


EXP = ['value', 'order', 'inputs-unchanged']
for _t in COEFF:
    @prop.case(f'interior[{_t}]', INT, expect=EXP, bound='2 cameras per file; optional values all, none, each alone, all but each')
    def interior(L, X, t=_t):
        Disk(L)
        CT = L.enums.CameraType
        for pair in (False, True):
            for sub in c07.subsets(['sensor_size', 'cx', 'cy'] + COEFF[t]):
                c = dict(cam_type=CT(t), im_size=(S.integer('W', 1), S.integer('H', 1)), focal_len=(S.real('fx'), S.real('fy')) if pair else S.real('f'))
                for k in sub:
                    c[k] = (S.real('sw'), S.real('sh')) if k == 'sensor_size' else S.real(k)
                for ids in (('z cam', 'a'), ('camera', 'b'), ('b', 'camera')):
                    d = {ids[0]: c, ids[1]: dict(cam_type=CT.pinhole, im_size=(S.integer('W', 1), 5), focal_len=S.real('f2'))}
                    run(X, L, lambda o: L.param_io.write_int_param('f', o), lambda: L.param_io.read_oty_int_param('f'), d)
                d = {'camera': c}
                run(X, L, lambda o: L.param_io.write_int_param('f', o), lambda: L.param_io.read_oty_int_param('f'), d)


for _n in (1, 2, 3):
    @prop.case(f'exterior[{_n}]', EXT, expect=EXP + ['crs'], bound=f'{_n} images')
    def exterior(L, X, n=_n):
        Disk(L)
        crs = c05.utm(-33, 21)
        d = {nm: dict(xyz=tuple(S.real(f'x{k}{j}') for j in range(3)), opk=tuple(S.real(f'o{k}{j}') for j in range(3)), camera=[None, '', 'v2 c'][k])
             for k, nm in enumerate(['z.tif', 'a.tif', 'm'][:n])}

        def read():
            rd = L.param_io.OtyReader('f')
            X.require('crs', z3.BoolVal(rd.crs == crs))
            return rd.read_ext_param()
        run(X, L, lambda o: L.param_io.write_ext_param('f', o, crs), read, d)


@prop.case('RPC', RPC, expect=EXP, bound='2 images')
def rpc(L, X):
    Disk(L)
    d = {}
    for k, nm in enumerate(['z.tif', 'a.tif']):
        r = {n: [S.real(f'{n}{k}_{j}') for j in range(20)] if n.endswith('coeff') else S.real(f'{n}{k}') for n in c03.sym_rpc(X)}
        r['err_bias'] = None if k else S.real('eb')
        d[nm] = dict(cam_type=L.enums.CameraType.rpc, im_size=(S.integer(f'W{k}', 1), S.integer(f'H{k}', 1)), rpc=r)
    # the schema check of the reader looks at types: symbolic reals stand for floats
    run(X, L, lambda o: L.param_io.write_rpc_param('f', o), lambda: L.param_io.read_oty_rpc_param('f'), d)


for _n in ((1,), (2, 1), (1, 3, 2)):
    @prop.case(f'GCPs{list(_n)}', GCP, expect=EXP, bound=f'{len(_n)} images with {list(_n)} GCPs')
    def gcps(L, X, n=_n):
        Disk(L)
        d = {nm: [dict(ji=tuple(S.real(f'j{k}{q}{a}') for a in range(2)), xyz=tuple(S.real(f'x{k}{q}{a}') for a in range(3)), id=[None, 'id 1', ''][q], info=['', None, 'x'][q]) for q in range(m)]
             for k, (nm, m) in enumerate(zip(['z.tif', 'a.tif', 'm'], n))}
        run(X, L, lambda o: L.param_io.write_gcps('f', o), lambda: L.param_io.read_oty_gcps('f'), d)


# ------------------------------------------------------------------------------------------ run time
NM = ['a', 'img.tif', 'DJI 0001.JPG', 'Ünï çödé.tif', '漢字.tif', 'null', 'true', '1.0', '5', '- x', '# c', 'a: b', "it's", 'say "x"', '~', 'camera', 'features', 'x' * 140, '@a', '%b', ' lead', 'trail ', 'v2 x', '2020-01-01', '[1]', '{a}', 'no', '0x10', '😀', 'a\tb', '=']


def fl(rng, lo=-1e6, hi=1e6):
    return rng.choice([rng.uniform(lo, hi), rng.uniform(-1, 1) * 10 ** rng.uniform(-300, 300), 0.0, -0.0, 1e-5, 1e16, 1e22, 5e-324, float(rng.randint(-1000, 1000)), 0.1 + 0.2])


def names(rng, ns):
    if rng.random() < 0.06:  # many entries
        return rng.sample([f'im_{k:04d}.tif' for k in range(60)] + NM, rng.choice([11, 33, 70]))
    return rng.sample(NM, rng.choice(ns))


def rt(R, rng, name, write, read, orig, data):
    kw = {}
    with Tmp() as d:
        p = os.path.join(d, rng.choice(['f.yaml', 'my file.json']))
        kind = rng.choice(['str', 'path', 'handle', 'ofile', 'overwrite'])
        if kind == 'overwrite':
            with open(p, 'w') as f:
                f.write('x' * 100000)
            kw['overwrite'] = True
        tgt = Path(p) if kind == 'path' else p
        keep = repr(orig)
        if kind == 'handle':
            with open(p, 'wt') as f:
                call(write, f, orig, **kw)
            if repr(orig) != keep:
                raise Fail('the parameters passed in were modified', data)
            with open(p, 'rt') as f:
                out = call(read, f)
        elif kind == 'ofile':
            import fsspec
            call(write, fsspec.open(p, 'wt'), orig)
            out = call(read, fsspec.open(p, 'rt'))
        else:
            call(write, tgt, orig, **kw)
            out = call(read, tgt)
        if repr(orig) != keep:
            raise Fail('the parameters passed in were modified', data)
    if list(out) != list(orig):
        raise Fail(f'{name}: entries read {list(out)}, written {list(orig)}', data)
    if repr({k: sort(v) for k, v in out.items()}) != repr({k: sort(v) for k, v in orig.items()}):
        raise Fail(f'{name} parameters read back as {out}, written {orig}', data)


def sort(o):
    return {k: sort(o[k]) for k in sorted(o)} if isinstance(o, dict) else type(o)(sort(v) for v in o) if isinstance(o, (list, tuple)) else o


@prop.fuzz('interior', n=400, secs=30, fns=INT)
def _int(R, rng, i):
    CT = R.enums.CameraType
    d = {}
    for cid in names(rng, [1, 1, 2, 5]):
        t = rng.choice(list(COEFF))
        c = dict(cam_type=CT(t), im_size=(rng.randint(1, 20000), rng.randint(1, 20000)))
        c['focal_len'] = rng.choice([fl(rng), (fl(rng), fl(rng)), 24])
        for k in ['sensor_size', 'cx', 'cy'] + COEFF[t]:
            if rng.random() < 0.6:
                c[k] = (fl(rng), fl(rng)) if k == 'sensor_size' else fl(rng)
        items = list(c.items())
        rng.shuffle(items)
        d[cid] = dict(items)
    rt(R, rng, 'interior', R.param_io.write_int_param, R.param_io.read_oty_int_param, d, d)


@prop.fuzz('exterior', n=250, secs=40, fns=EXT)
def _ext(R, rng, i):
    lat, lon = rng.uniform(-70, 70), rng.uniform(-175, 175)
    W = c05.utm(lat, lon)
    if rng.random() < 0.3:
        from rasterio.crs import CRS
        W = CRS.from_string(f'+proj=tmerc +lat_0={lat:.2f} +lon_0={lon:.2f} +k=1 +x_0=0 +y_0=0 +datum=WGS84 +units=m +no_defs')
    elif rng.random() < 0.5:
        # close to, but not, one with an EPSG code
        from rasterio.crs import CRS
        W = CRS.from_string(rng.choice([f'+proj=utm +zone=35 +south +ellps=WGS84 +towgs84={rng.randint(1, 99)},0,5 +units=m +no_defs', '+proj=utm +zone=35 +south +ellps=GRS80 +units=m +no_defs', '+proj=utm +zone=35 +south +datum=WGS84 +units=us-ft +no_defs',
                                        '+proj=tmerc +lat_0=0 +lon_0=27 +k=0.9996 +x_0=500000 +y_0=10000001 +datum=WGS84 +units=m +no_defs', 'EPSG:32735+5773', 'EPSG:32735+4326']))
    d = {nm: dict(xyz=tuple(fl(rng, 3e5, 6e5) if j else rng.uniform(3e5, 6e5) for j in range(3)), opk=tuple(fl(rng, -4, 4) for _ in range(3)), camera=rng.choice([None, ''] + NM)) for nm in names(rng, [1, 2, 6])}
    for v in d.values():
        v['xyz'] = (rng.uniform(3e5, 7e5), rng.uniform(1e5, 9e6), rng.uniform(-100, 9000))
    crs = rng.choice([W, W.to_wkt()])

    def read(f):
        rd = R.param_io.OtyReader(f)
        if rd.crs != W:
            raise Fail(f'CRS read back as {rd.crs.to_wkt()}, written {W.to_wkt()}', d)
        return rd.read_ext_param()
    rt(R, rng, 'exterior', lambda f, o, **k: R.param_io.write_ext_param(f, o, crs, **k), read, d, dict(ext=d, crs=W.to_wkt()))


@prop.fuzz('RPC', n=200, secs=30, fns=RPC)
def _rpc(R, rng, i):
    d = {}
    for nm in names(rng, [1, 2, 4]):
        r, im = c03.rand_rpc(rng)
        r = {k: [float(q) if rng.random() < .8 else fl(rng) for q in v] if isinstance(v, list) else float(v) for k, v in r.items() if v is not None}
        if rng.random() < 0.5:
            r.update(err_bias=None, err_rand=fl(rng))
        d[nm] = dict(cam_type=R.enums.CameraType.rpc, im_size=(rng.randint(1, 40000), rng.randint(1, 40000)), rpc=r)
    rt(R, rng, 'RPC', R.param_io.write_rpc_param, R.param_io.read_oty_rpc_param, d, d)


@prop.fuzz('GCPs', n=400, secs=30, fns=GCP)
def _gcp(R, rng, i):
    d = {}
    for nm in names(rng, [1, 2, 4]):
        d[nm] = [dict(ji=(fl(rng), rng.randint(0, 50)) if rng.random() < .3 else (fl(rng), fl(rng)), xyz=(fl(rng), fl(rng), fl(rng)), id=rng.choice([None, ''] + NM), info=rng.choice([None, ''] + NM))
                 for _ in range(rng.choice([1, 2, 7]) if rng.random() > 0.04 else 65)]
        if rng.random() < 0.2:  # the same point, or the same pixel, more than once
            d[nm] += [dict(g, info='again') for g in d[nm][:2]] + [dict(d[nm][0])]
    rt(R, rng, 'GCP', R.param_io.write_gcps, R.param_io.read_oty_gcps, d, d)


prop.assume('json and yaml libraries: what is loaded is what was dumped (exercised by the run-time checks on real files)')
