"""C15: output image profiles follow the documented configuration rules."""
import itertools
import os
import types
import warnings

import numpy as np
import z3

from .. import arr as A
from .. import sym as S
from ..runner import Fail, Prop, Skip, call
from .c06 import Tmp

prop = Prop('C15')
FP, FO = 'orthority/common.py:create_profile', 'orthority/common.py:build_overviews'
NODATA = dict(uint8=0, uint16=0, int16=-32768, float32=float('nan'), float64=float('nan'))
BAD = ['int8', 'uint32', 'int32', 'int64', 'uint64', 'complex64', 'bool', 'float16']
OPTS = [None, {}, dict(compress='deflate'), dict(COMPRESS='JPEG', tiled=True), dict(compress='jpeg', jpeg_quality=50), dict(tiled=False, interleave='band', blockysize=7), dict(blocksize=64)]
prop.assume('rasterio and GDAL write files with the given profile (checked at run time)',
            'float64 log2 of an integer below 2**32 has the exact integer part')


def expected(driver, shape, dtype, compress, wm, co):
    """Documented configuration: an error, or (profile, write_mask); the photometric value is a function of the count."""
    if dtype not in NODATA:
        return None
    p = dict(driver={'gtiff': 'gtiff', 'cog': 'cog'}[driver], dtype=dtype, width=shape[2], height=shape[1], count=shape[0], bigtiff='if_safer')
    if co:
        p.update(co)
        comp = {k.lower(): str(v).lower() for k, v in co.items()}.get('compress')
    else:
        comp = compress or ('jpeg' if dtype == 'uint8' else 'deflate')
        if comp == 'jpeg' and dtype not in ('uint8', 'uint16'):
            return None
        p['compress'] = comp
        if comp == 'jpeg' and dtype == 'uint16':
            p['nbits'] = 12
        if driver == 'gtiff':
            p.update(tiled=True, blockxsize=512, blockysize=512)
        else:
            p.update(blocksize=512, overviews='force_use_existing')
    mask = wm if wm is not None else comp == 'jpeg'
    p['nodata'] = None if mask else NODATA[dtype]
    ycc = not co and comp == 'jpeg' and driver == 'gtiff'
    return p, mask, ycc


def differs(prof, mask, p, m, ycc3):
    """First difference between the profile and the expected one; ycc3: photometric is expected."""
    p = dict(p)
    if ycc3:
        p['photometric'] = 'ycbcr'
    if set(prof) != set(p):
        return f'keys {sorted(set(prof) ^ set(p))}'
    for k, v in p.items():
        g = prof[k]
        if k in ('width', 'height', 'count'):
            continue
        if not (g == v or (v is not None and g is not None and v != v and g != g)) or (v is None) != (g is None):
            return f'{k}: {g!r}, expected {v!r}'
        if type(g) is not str and isinstance(v, str) and str(g) != v:
            return f'{k}: {g!r}, expected {v!r}'
    if mask is not m:
        return f'write_mask: {mask!r}, expected {m!r}'


CONF = list(itertools.product([None, 'jpeg', 'deflate', 'lzw'], [None, True, False], range(len(OPTS)), [0, 1]))


def profile_case(L, X, driver, dtype):
    comp, wm, oi, enum = CONF[X.choose(len(CONF))]
    co = OPTS[oi]
    if co is not None:
        co = dict(co)
    co0 = None if co is None else dict(co)
    shape = tuple(S.integer(n, 1) for n in ('count', 'height', 'width'))
    dr = L.enums.Driver(driver) if enum else driver
    cm = L.enums.Compress(comp) if enum and comp else comp
    dt = np.dtype(dtype) if enum else dtype
    exp = expected(driver, shape, dtype, comp, wm, co)
    what = f'{driver} {dtype} compress={comp} write_mask={wm} options={co}'
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            prof, mask = L.common.create_profile(dr, shape, dt, compress=cm, write_mask=wm, creation_options=co)
        except L.errors.OrthorityError:
            X.require('error-only-when-unsupported', z3.BoolVal(exp is None))
            return
    if exp is None:
        X.require('unsupported-is-an-error', z3.BoolVal(False))
        return
    p, m, ycc = exp
    X.require('options-not-modified', z3.BoolVal(co == co0))
    X.require('image-size', z3.And(*[S.zb(prof[k] == v) for k, v in zip(('count', 'height', 'width'), shape)]))
    has = 'photometric' in prof
    d = differs(prof, mask, p, m, has and ycc)
    X.require('documented-profile' if d is None else f'documented-profile ({what}: {d})', z3.BoolVal(d is None))
    if ycc:
        X.require('ycbcr-iff-3-bands', S.zb(shape[0] == 3) == z3.BoolVal(has))
    if dtype == 'uint16' and comp == 'jpeg' and not co:
        X.require('12-bit-warning', z3.BoolVal(len(ws) > 0))


for driver in ('gtiff', 'cog'):
    for dtype in list(NODATA) + BAD:
        exp = ['documented-profile', 'image-size'] if dtype in NODATA else ['error-only-when-unsupported']
        prop.case(f'profile[{driver},{dtype}]', [FP], expect=exp + (['ycbcr-iff-3-bands'] if dtype in ('uint8', 'uint16') and driver == 'gtiff' else []),
                  replay=lambda R, d: sweep(R), max_paths=4000, max_secs=120)(lambda L, X, a=(driver, dtype): profile_case(L, X, *a))


# ------------------------------------------------------------------------------ overviews
def ovw_case(L, X):
    H, W = S.integer('H', 1), S.integer('W', 1)
    X.assume(z3.And(S.zb(H < 2 ** 31), S.zb(W < 2 ** 31)))
    real = L.np.log2

    def log2(v):
        """Contract: the integer part of the binary logarithm."""
        if isinstance(v, (tuple, list)) or isinstance(v, A.SArray):
            es = v.elems() if isinstance(v, A.SArray) else v
            return A.array([log2(e) for e in es])
        if not S.is_sym(v):
            return real(v)
        r = S.apply('log2', v)
        for k in range(32):
            X.assume(S.zb(v >= 2 ** k) == S.zb(r >= k))
        return r
    L.np.log2 = log2
    got = []
    im = types.SimpleNamespace(shape=(H, W), height=H, width=W, build_overviews=lambda levels, resampling=None, **k: got.append((levels, resampling)))
    X.input('H', H), X.input('W', W)
    L.common.build_overviews(im)
    m = S.smin(H, W)
    if not got:
        X.require('levels-complete', S.zb(m < 512))
        return
    lv = [int(v) for v in got[0][0]]
    n = len(lv)
    X.require('built-once', z3.BoolVal(len(got) == 1))
    X.require('halving', z3.BoolVal(lv == [2 ** k for k in range(1, n + 1)]))
    X.require('at-most-8', z3.BoolVal(n <= 8))
    X.require('no-smaller-than-256', S.zb(m >= 256 * 2 ** n) if n else z3.BoolVal(True))
    if n < 8:
        X.require('levels-complete', S.zb(m < 256 * 2 ** (n + 1)))


prop.case('overviews', [FO], expect=['halving', 'at-most-8', 'no-smaller-than-256', 'levels-complete'], replay=lambda R, d: ovw_sweep(R),
          bound='image dimensions below 2**31 (GDAL limit)')(ovw_case)


def ovw_sweep(R):
    ms = sorted({m for k in range(0, 31) for m in (2 ** k - 1, 2 ** k, 2 ** k + 1, 3 * 2 ** k // 2) if 1 <= m < 2 ** 31} | set(range(1, 70)) | set(range(200, 2200, 7)))
    for m in ms:
        for o in (m, m + 1, 2 * m, 2 ** 31 - 1):
            for sh in ((m, o), (o, m)):
                got = []
                im = types.SimpleNamespace(shape=sh, height=sh[0], width=sh[1], build_overviews=lambda lv, resampling=None, **k: got.append(list(lv)))
                call(R.common.build_overviews, im)
                n = 0
                while n < 8 and m >= 256 * 2 ** (n + 1):
                    n += 1
                lv = got[0] if got else []
                if [int(v) for v in lv] != [2 ** k for k in range(1, n + 1)]:
                    raise Fail(f'image of shape {sh} gets overviews {lv}, expected {n} levels')


@prop.fuzz('overviews-real', 1, 1, 20, [FO])
def f_ovw(R, rng, i):
    ovw_sweep(R)


# ------------------------------------------------------------------------------------ run time
def sweep(R):
    for driver, dtype, (comp, wm, oi, enum), n in itertools.product(('gtiff', 'cog'), list(NODATA) + BAD, CONF, (1, 2, 3, 4)):
        co = OPTS[oi]
        shape = (n, 100, 200)
        exp = expected(driver, shape, dtype, comp, wm, co)
        what = f'{driver} {dtype} {n} bands compress={comp} write_mask={wm} options={co}'
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                prof, mask = call(R.common.create_profile, R.enums.Driver(driver) if enum else driver, shape, np.dtype(dtype) if enum else dtype, compress=R.enums.Compress(comp) if enum and comp else comp,
                                  write_mask=wm, creation_options=None if co is None else dict(co), allow_=(R.errors.OrthorityError,))
            except R.errors.OrthorityError as ex:
                if exp is not None:
                    raise Fail(f'{what}: {ex!r}')
                continue
        if exp is None:
            raise Fail(f'{what}: no error')
        p, m, ycc = exp
        d = differs(prof, mask, p, m, ycc and n == 3)
        if not d:
            d = next((f'{k}: {prof[k]}' for k in ('width', 'height', 'count') if prof[k] != p[k]), None)
        if d:
            raise Fail(f'{what}: {d}')


@prop.fuzz('all-configurations', 1, 1, 60, [FP])
def f_all(R, rng, i):
    sweep(R)


@prop.fuzz('written-orthos', 60, 800, 60, [FP, 'orthority/ortho.py:Ortho.process'])
def f_written(R, rng, i):
    """Images written with Ortho.process and read back."""
    import rasterio
    from rasterio.transform import from_origin
    with Tmp() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sdt = rng.choice(list(NODATA))
        nb = rng.choice([1, 2, 3, 4])
        src, dem, out = [os.path.join(d, n) for n in ('s.tif', 'd.tif', 'o.tif')]
        n = rng.choice([40, 64])
        rs = np.random.default_rng(i)
        with rasterio.open(src, 'w', driver='GTiff', width=n, height=n, count=nb, dtype=sdt, alpha='unspecified') as im:  # GDAL writes an alpha band to a JPEG COG as its mask
            im.write(rs.integers(20, 240, (nb, n, n)).astype(sdt))
        big = rng.random() < .15
        res = .35 if big else rng.choice([2., 3.])
        N = int(240 / res)
        with rasterio.open(dem, 'w', driver='GTiff', width=N, height=N, count=1, dtype='float32', crs='EPSG:32735', transform=from_origin(499880., 6000120., res, res)) as im:
            im.write(np.zeros((1, N, N), 'float32'))
        cam = call(R.camera.create_camera, 'pinhole', im_size=(n, n), focal_len=.5, sensor_size=(1., 1.), xyz=(500000., 6000000., 100.), opk=(0., 0., rng.uniform(-3, 3)))
        dtype = rng.choice([None, None, 'uint8', 'uint16', 'int16', 'float32', 'float64'])
        comp = rng.choice([None, None, 'jpeg', 'deflate', 'lzw'])
        wm = rng.choice([None, None, True, False])
        driver = rng.choice(['gtiff', 'gtiff', 'cog'])
        co = rng.choice([None, None, dict(compress='deflate', tiled=True, blockxsize=64, blockysize=32)]) if driver == 'gtiff' else None
        ovw = rng.choice([True, False])
        dt = dtype or sdt
        exp = expected(driver, (nb, 1, 1), dt, comp, wm, co)
        if exp and dt == 'uint16' and comp == 'jpeg' and not co:
            raise Skip()  # build dependent
        what = f'source {sdt} {nb} bands, {driver} dtype={dtype} compress={comp} write_mask={wm} options={co} build_ovw={ovw}'
        o = call(R.ortho.Ortho, src, dem, cam, crs='EPSG:32735')
        try:
            call(o.process, out, resolution=(res, res), dtype=dtype, compress=comp, write_mask=wm, driver=driver, creation_options=co, build_ovw=ovw, interp='nearest', allow_=(R.errors.OrthorityError,))
        except R.errors.OrthorityError as ex:
            if exp is not None:
                raise Fail(f'{what}: {ex!r}')
            return
        if exp is None:
            raise Fail(f'{what}: no error')
        p, m, ycc = exp
        with rasterio.open(out) as im:
            g = dict(dtype=set(im.dtypes), count=im.count, compress=(im.compression.value if im.compression else None), nodata=im.nodata, block=im.block_shapes[0], ovw=im.overviews(1),
                     mask=rasterio.enums.MaskFlags.per_dataset in im.mask_flag_enums[0] and rasterio.enums.MaskFlags.alpha not in im.mask_flag_enums[0], driver=im.driver,
                     ph=im.photometric.value if im.photometric else None, shape=im.shape, lay=im.tags(ns='IMAGE_STRUCTURE').get('LAYOUT'))
        e = {}
        if g['dtype'] != {dt} or g['count'] != nb:
            raise Fail(f'{what}: written as {g["dtype"]}, {g["count"]} bands')
        comp_e = (co or p)['compress']
        gc = (g['compress'] or '').lower().replace('ycbcr ', '')
        if gc != comp_e:
            raise Fail(f'{what}: compression is {g["compress"]}, expected {comp_e}')
        if g['mask'] != bool(m):
            raise Fail(f'{what}: internal mask {g["mask"]}, expected {m}')
        nd = p['nodata']
        if (g['nodata'] is None) != (nd is None) or (nd is not None and not (g['nodata'] == nd or (nd != nd and g['nodata'] != g['nodata']))):
            raise Fail(f'{what}: nodata is {g["nodata"]}, expected {nd}')
        blk = (32, 64) if co else (512, 512)
        if g['block'] != blk:
            raise Fail(f'{what}: blocks {g["block"]}, expected {blk}')
        if (driver == 'cog') != (g['lay'] == 'COG'):
            raise Fail(f'{what}: layout is {g["lay"]}')
        if ycc and (g['ph'] == 'YCbCr' or 'ycbcr' in str(g['ph']).lower() or 'ycbcr' in (g['compress'] or '').lower()) != (nb == 3):
            raise Fail(f'{what}: photometric is {g["ph"]}, {g["compress"]}')
        lv, mn = [], min(g['shape'])
        while ovw and len(lv) < 8 and mn >= 256 * 2 ** (len(lv) + 1):
            lv.append(2 ** (len(lv) + 1))
        if g['ovw'] != lv:
            raise Fail(f'{what}: overviews {g["ovw"]} of image {g["shape"]}, expected {lv}')
