"""C11: tiles exactly partition the image."""
import z3
from z3 import z3util

from .. import sym as S
from ..runner import Prop, Fail, call, literals
from ..shims import SymRange

prop = Prop('C11')
FN = ['orthority/common.py:block_windows']


class Im:
    """A dataset: width, height, block shape."""

    def __init__(self, w, h, bs, driver):
        self.width, self.height, self.driver = w, h, driver
        self.shape = (h, w)
        self.block_shapes = [bs]
        self.profile = dict(blocksize=bs[0]) if driver == 'COG' else {}
        self.count = 1


def axis(r):
    """Which tile index a loop range enumerates: the columns if it depends on the width only, else the rows."""
    if not isinstance(r, SymRange):
        raise S.Unsupported('tile loop over a concrete range')
    names = {str(v) for t in (r.start, r.step, r.n) if isinstance(t, S.SNum) for v in z3util.get_vars(t.z)}
    if ('W' in names) == ('H' in names):
        raise S.Unsupported('tile loop over both image dimensions')
    return 0 if 'W' in names else 1


def generic_tiles(X, ks):
    """Loop contract: each pass over the tile loop runs one arbitrary iteration, index given by ks."""

    def gen(rs, tup=False):
        vals = []
        for r in rs:
            k = ks[axis(r)]
            X.doms.append((k, r.n))
            X.assume(S.zb(k >= 0))
            X.assume(S.zb(k < r.n))
            vals.append(r.at(k))
        yield tuple(vals) if tup else vals[0]

    return gen


def _setup(L, X, kind):
    X.doms = []
    W, H = S.integer('W', 1), S.integer('H', 1)
    bh, bw = S.integer('bh', 1), S.integer('bw', 1)
    X.input('W', W), X.input('H', H), X.input('bh', bh), X.input('bw', bw)
    if kind == 'arg':
        im = Im(W, H, (7, 9), 'GTiff')
        args = dict(block_shape=(bh, bw))
    elif kind == 'gtiff':
        im, args = Im(W, H, (bh, bw), 'GTiff'), {}
    else:
        bw = bh
        im, args = Im(W, H, (bh, bh), 'COG'), {}
    return im, args, W, H, bh, bw


def replay(R, d):
    check_partition(R, d['W'], d['H'], (d['bh'], d['bw']))


def _tile(L, X, im, args, kx, ky):
    X.generic = generic_tiles(X, [kx, ky])
    ws = list(L.common.block_windows(im, **args))
    X.generic = None
    if len(ws) != 1:
        raise S.Unsupported('unexpected number of generic tiles')
    return ws[0]


def mk(kind):
    @prop.case(f'tile-in-image[{kind}]', FN, expect=['inside', 'nonempty', 'at-most-block'], replay=replay)
    def inside(L, X):
        im, args, W, H, bh, bw = _setup(L, X, kind)
        w = _tile(L, X, im, args, S.integer('kx'), S.integer('ky'))
        X.require('inside', z3.And(*[S.zb(c) for c in (
            w.col_off >= 0, w.row_off >= 0, w.col_off + w.width <= W, w.row_off + w.height <= H)]))
        X.require('nonempty', z3.And(S.zb(w.width >= 1), S.zb(w.height >= 1)))
        X.require('at-most-block', z3.And(S.zb(w.width <= bw), S.zb(w.height <= bh)))

    @prop.case(f'tiles-disjoint[{kind}]', FN, expect=['disjoint'], replay=replay)
    def disjoint(L, X):
        im, args, W, H, bh, bw = _setup(L, X, kind)
        ax, ay, bx, by = (S.integer(n) for n in ('ax', 'ay', 'bx', 'by'))
        X.assume(z3.Or(ax.z != bx.z, ay.z != by.z))
        v, w = _tile(L, X, im, args, ax, ay), _tile(L, X, im, args, bx, by)
        # lemma instances: k < k' => (k + 1) * step <= k' * step
        for p, q, s in ((ax, bx, bw), (bx, ax, bw), (ay, by, bh), (by, ay, bh)):
            X.assume(z3.Implies(p.z < q.z, (p.z + 1) * s.z <= q.z * s.z))
        X.require('disjoint', z3.Or(*[S.zb(c) for c in (
            v.col_off + v.width <= w.col_off, w.col_off + w.width <= v.col_off,
            v.row_off + v.height <= w.row_off, w.row_off + w.height <= v.row_off)]))

    @prop.case(f'pixel-covered[{kind}]', FN, expect=['covered', 'index-in-loop'], replay=replay)
    def covered(L, X):
        im, args, W, H, bh, bw = _setup(L, X, kind)
        px, py = S.integer('px', 0), S.integer('py', 0)
        X.assume(S.zb(px < W)), X.assume(S.zb(py < H))
        kx, ky = px // bw, py // bh
        X.doms = []

        def gen(rs, tup=False):
            vals = []
            for r in rs:
                k = (kx, ky)[axis(r)]
                X.require('index-in-loop', z3.And(S.zb(k >= 0), S.zb(k < r.n)))
                vals.append(r.at(k))
            yield tuple(vals) if tup else vals[0]

        X.generic = gen
        ws = list(L.common.block_windows(im, **args))
        X.generic = None
        if len(ws) != 1:
            raise S.Unsupported('unexpected number of generic tiles')
        w = ws[0]
        X.require('covered', z3.And(*[S.zb(c) for c in (
            w.col_off <= px, px < w.col_off + w.width, w.row_off <= py, py < w.row_off + w.height)]))


for _k in ('arg', 'gtiff', 'cog'):
    mk(_k)


@prop.case('lemma-step', [], expect=['lemma'])
def _lemma(L, X):
    p, q, s = S.integer('p'), S.integer('q'), S.integer('s', 1)
    X.require('lemma', z3.Implies(p.z < q.z, (p.z + 1) * s.z <= q.z * s.z))


# ---------------------------------------------------------------------------------------- run time
def check_partition(R, W, H, bs, kinds=('arg', 'gtiff', 'cog')):
    import numpy as np

    if W * H > 4_000_000 or W < 1 or H < 1 or min(bs) < 1:
        from ..runner import Skip
        raise Skip()
    for kind in kinds:
        if kind == 'arg':
            im, args = Im(W, H, (3, 5), 'GTiff'), dict(block_shape=bs)
        elif kind == 'gtiff':
            im, args = Im(W, H, bs, 'GTiff'), {}
        else:
            im, args, = Im(W, H, (bs[0], bs[0]), 'COG'), {}
        n = np.zeros((H, W), 'uint8')
        for w in call(lambda: list(R.common.block_windows(im, **args))):
            if w.col_off < 0 or w.row_off < 0 or w.width < 1 or w.height < 1 or w.col_off + w.width > W or w.row_off + w.height > H:
                raise Fail(f'tile {w} is empty or outside the {W}x{H} image', dict(W=W, H=H, bs=bs, kind=kind))
            n[w.row_off:w.row_off + w.height, w.col_off:w.col_off + w.width] += 1
        if not (n == 1).all():
            raise Fail(f'{int((n != 1).sum())} pixels of a {W}x{H} image not in exactly one tile (blocks {bs}, {kind})',
                       dict(W=W, H=H, bs=bs, kind=kind))


@prop.fuzz('partition', n=400, secs=40, fns=FN)
def _partition(R, rng, i):
    lits = [int(v) for v in literals('common') if 1 <= v <= 1500 and v == int(v)] + [1, 2, 16, 256, 512, 1024]

    def dim():
        return max(1, rng.choice(lits) * rng.choice([1, 1, 2, 3]) + rng.choice([-1, 0, 0, 1])) if rng.random() < 0.6 else rng.randint(1, 1800)

    bs = (dim(), dim())
    check_partition(R, dim(), dim(), bs, (rng.choice(['arg', 'gtiff', 'cog']),))


prop.assume(
    'integers are mathematical; rasterio Window is the real class',
    'a tile loop over range()/itertools.product visits every index once (Python semantics)',
)
