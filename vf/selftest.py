"""Cross-check of the array semantics (vf/arr.py, vf/sym.py, vf/shims.py) against numpy.

Each program below is run twice: by numpy on random concrete arrays, and by the verifier's array
layer on arrays of symbolic extent with uninterpreted elements.  The symbolic result is then
specialised to the concrete arrays (extents, elements, and the definitions of the counts and sums that
occur), and z3 has to prove that it equals numpy's result - on some path, which has to be satisfiable.
"""
from __future__ import annotations

import itertools
import random

import numpy as np
import z3

from . import arr as A
from . import prove as PV
from . import shims as H
from . import sym as S
from .sym import SBool, SInt, SReal

NP = H.make_np()
P = []   # (name, argument kinds, program)


def p(name, kinds, f):
    P.append((name, kinds.split(), f))


def _inplace(f):
    def g(np, a, *r):
        a = a.copy()
        f(np, a, *r)
        return a

    return g


# kinds: f float matrix, n float matrix with NaN, i int matrix, u uint8 matrix, b bool matrix, v float vector,
# w float vector with NaN, c bool vector, t 3 by n, s scalar, k index vector, B float cube
p('add', 'f f', lambda np, a, b: a + b * 2 - 1.5)
p('broadcast', 'f v', lambda np, a, v: a * v)
p('scalar', 'f s', lambda np, a, s: (a - s) / 4)
p('nan arithmetic', 'n', lambda np, a: a * 0 + 1)
p('nan compare', 'n s', lambda np, a, s: (a > s) | ~(a <= s))
p('isnan', 'n', lambda np, a: np.isnan(a))
p('where', 'f f b', lambda np, a, b, c: np.where(c, a, b))
p('transpose', 'f', lambda np, a: a.T)
p('row', 'f', lambda np, a: a[0])
p('last column', 'f', lambda np, a: a[:, -1])
p('slice', 'f', lambda np, a: a[1:, :-1])
p('step', 'v', lambda np, v: v[::2])
p('reverse', 'v', lambda np, v: v[::-1])
p('slice past the end', 'v', lambda np, v: v[2:100])
p('negative slice', 'v', lambda np, v: v[-2:])
p('newaxis', 'v', lambda np, v: v[:, None] - v[None, :])
p('sum', 'f', lambda np, a: a.sum())
p('sum axis', 'f', lambda np, a: a.sum(axis=0))
p('sum of a product', 'f s', lambda np, a, s: (a * s + 2).sum(axis=1))
p('sum with nan excluded', 'w', lambda np, v: v[~np.isnan(v)].sum())
p('mean', 'v', lambda np, v: v.mean())
p('mean axis', 'f', lambda np, a: np.mean(a, axis=0))
p('min max', 'f', lambda np, a: a.max() - a.min())
p('nanmin', 'n', lambda np, a: np.nanmin(a))
p('nanmax', 'n', lambda np, a: np.nanmax(a))
p('any', 'b', lambda np, a: np.any(a))
p('all axis', 'b', lambda np, a: np.all(a, axis=0))
p('any of all', 'b', lambda np, a: np.all(np.any(a, axis=1)))
p('all of any', 'b', lambda np, a: np.any(np.all(a, axis=0)))
p('count', 'b', lambda np, a: a.sum())
p('mask select', 'f b', lambda np, a, m: a[m])
p('mask select compute', 'f b', lambda np, a, m: a[m] * 2 + 1)
p('mask sum', 'f b', lambda np, a, m: a[m].sum())
p('mask columns', 't c', lambda np, a, m: a[:, m])
p('mask set scalar', 'f b', _inplace(lambda np, a, m: a.__setitem__(m, -7.0)))
p('mask set from mask', 'f f b', _inplace(lambda np, a, b, m: a.__setitem__(m, b[m] + 1)))
p('mask set columns', 't c', _inplace(lambda np, a, m: a.__setitem__((slice(None), m), np.nan)))
p('set row', 'f v', _inplace(lambda np, a, v: a.__setitem__(0, v)))
p('set slice', 'f', _inplace(lambda np, a: a.__setitem__((slice(1, None), 0), 3.0)))
p('write through a view', 'f', _inplace(lambda np, a: a[:, 1:].__setitem__((0, 0), 9.0)))
p('write through a transpose', 'f', _inplace(lambda np, a: a.T.__setitem__(0, 9.0)))
p('snapshot before a write', 'f', lambda np, a: (lambda c: (lambda d: (c.__setitem__(0, 5.0), d)[1])(c + 0))(a.copy()))
p('alias sees a write', 'f', lambda np, a: (lambda c: (lambda d: (c.__setitem__(0, 5.0), d + 0)[1])(c[:, :]))(a.copy()))
p('in-place add', 'f f', _inplace(lambda np, a, b: a.__iadd__(b)))
p('in-place view add', 'f', _inplace(lambda np, a: a[1:].__imul__(2)))
p('clip', 'f', lambda np, a: np.clip(a, -1, 1.5))
p('clip nan', 'n', lambda np, a: np.clip(a, -1, 1.5))
p('round', 'f', lambda np, a: np.round(a))
p('round nan', 'n', lambda np, a: np.round(a))
p('floor ceil', 'f', lambda np, a: np.floor(a) + 10 * np.ceil(a))
p('astype int', 'f', lambda np, a: a.astype('int64'))
p('astype uint8', 'i', lambda np, a: np.clip(a, 0, 255).astype('uint8'))
p('int floor divide', 'i', lambda np, a: a // 3)
p('int mod', 'i', lambda np, a: a % 3)
p('int divide', 'i', lambda np, a: a / 4)
p('uint8 to float', 'u', lambda np, a: a.astype('float64') / 2)
p('bool arithmetic', 'b f', lambda np, m, a: m * a + ~m)
p('xor', 'b b', lambda np, a, b: a ^ b)
p('reshape flat', 'f', lambda np, a: a.reshape(-1))
p('ravel sum', 'f', lambda np, a: a.ravel().sum())
p('reshape back', 'f', lambda np, a: (a.reshape(-1) * 2).reshape(a.shape))
p('reshape row', 'v', lambda np, v: v.reshape(1, -1))
p('stack', 'v v', lambda np, a, b: np.stack([a, b]))
p('stack columns', 'v v', lambda np, a, b: np.stack([a, b, a], axis=1))
p('column_stack', 'v v', lambda np, a, b: np.column_stack((a, b)))
p('vstack rows', 't v', lambda np, a, v: np.vstack((a[:2], v)))
p('concatenate', 'v V', lambda np, a, b: np.concatenate((a, b)))
p('concatenate sum', 'v V', lambda np, a, b: (np.concatenate((a, b)) * 3).sum())
p('concatenate columns', 't T', lambda np, a, b: np.concatenate((a, b), axis=1))
p('arange', 'v', lambda np, v: np.arange(0, v.shape[0]) * v)
p('arange step', 'v', lambda np, v: np.arange(1, v.shape[0] + 4, 3))
p('linspace', 'v', lambda np, v: np.linspace(0, v.shape[0] - 1, 4))
p('meshgrid xy', 'v V', lambda np, a, b: np.meshgrid(a, b)[0] * 10 + np.meshgrid(a, b)[1])
p('meshgrid ij', 'v V', lambda np, a, b: np.meshgrid(a, b, indexing='ij')[1])
p('matrix product', 'm t', lambda np, m, a: m @ a)
p('matrix product transposed', 'm t', lambda np, m, a: m.T.dot(a))
p('gram', 't', lambda np, a: a @ a.T)
p('dot vectors', 'v v', lambda np, a, b: a @ b)
p('inverse', 'm t', lambda np, m, a: m @ (np.linalg.inv(m) @ a))
p('cross', 'x x', lambda np, a, b: np.cross(a, b))
p('roll', 'v', lambda np, v: np.roll(v, 1))
p('diff', 'v', lambda np, v: np.diff(v))
p('fancy rows', 't', lambda np, a: a[[2, 0]])
p('fancy of a vector', 'x', lambda np, a: a[[1, 1, 0]])
p('nonzero first', 'c', lambda np, c: np.nonzero(np.concatenate((c, [True])))[0][0] if hasattr(c, 'tolist') else None)
p('maximum', 'f f', lambda np, a, b: np.maximum(a, b) - np.minimum(a, b))
p('array_equal', 'f', lambda np, a: np.array_equal(a, a * 1))
p('isclose', 'f s', lambda np, a, s: np.isclose(a, s, rtol=0.1, atol=0.25))
p('allclose', 'f', lambda np, a: np.allclose(a, a + 0.001, atol=1e-2))
p('full_like', 'f', lambda np, a: np.full_like(a, 2.5))
p('zeros', 'f', lambda np, a: np.zeros(a.shape, dtype='uint8'))
p('cube slice', 'B', lambda np, a: a[:, 1:, 0])
p('cube all bands', 'B s', lambda np, a, s: np.all(a == s, axis=0))
p('cube any nan', 'N', lambda np, a: np.any(np.isnan(a), axis=0))
p('cube mask set', 'B b', _inplace(lambda np, a, m: a.__setitem__((slice(None), m), 0.0)))
p('cube mask sum', 'B b', lambda np, a, m: a[:, m].sum(axis=1))
p('cube mask broadcast', 'B b', lambda np, a, m: np.where(m, 0.0, a))
p('cube moveaxis', 'B', lambda np, a: a.transpose(1, 2, 0))
p('centred second moments', 't', lambda np, a: (lambda c: c @ c.T)(a - a.mean(axis=1).reshape(-1, 1)))
p('masked second moments', 't c', lambda np, a, m: (lambda s: s.dot(s.T) / s.shape[1])(a[:, m]))
p('float32 rounding is idempotent', 'f', lambda np, a: a.astype('float32').astype('float64'))
p('int wraps', 'i', lambda np, a: a.astype('uint8'))
p('uint8 sum wraps', 'u u', lambda np, a, b: a + b)
p('uint8 in-place', 'u u', _inplace(lambda np, a, b: a.__iadd__(b)))
p('uint8 np.multiply', 'u u', lambda np, a, b: np.multiply(a, b))
p('uint8 times a float', 'u', lambda np, a: a * 0.5)
p('uint8 sum', 'u', lambda np, a: a.sum(axis=0))
p('float to uint8', 'f', lambda np, a: np.clip(np.round(a * 100), 0, 255).astype('uint8'))
p('int16 cast', 'i', lambda np, a: (a * 1000).astype('int16'))
p('float to bool', 'f', lambda np, a: a.astype(bool))
p('bool to uint8', 'b', lambda np, a: a.astype('uint8') * 255)
p('not of compare', 'n', lambda np, a: ~(a == a))
p('nested mask', 'f b', lambda np, a, m: (a[m] > 0).sum())
p('mask of a computed value', 'f s', lambda np, a, s: a[a > s] - s)
p('mask set by compare', 'f s', _inplace(lambda np, a, s: a.__setitem__(a < s, s)))
p('mask set nan', 'f b', lambda np, a, m: (lambda c: (c.__setitem__(m, np.nan), np.nanmin(np.where(np.isnan(c), 99.0, c)))[1])(a.copy()))
p('nan any axis', 'n', lambda np, a: np.any(np.isnan(a), axis=1))
p('mean of squares', 'v', lambda np, v: (v ** 2).mean() - v.mean() ** 2)
p('normal equations', 't v', lambda np, a, v: np.linalg.inv(a @ a.T + np.eye(3)) @ (a @ v))
p('sum over two axes', 'B', lambda np, a: a.sum(axis=(1, 2)))
p('flatten and gram', 'B', lambda np, a: (lambda f: f.sum(axis=1))(a.reshape(a.shape[0], -1)))
p('write then mask', 'f b', lambda np, a, m: (lambda c: (c.__setitem__((0, slice(None)), 4.0), c[m].sum())[1])(a.copy()))
p('row assignment from a row', 'f', _inplace(lambda np, a: a.__setitem__(0, a[1] * 2)))
p('column swap', 't', lambda np, a: a[::-1])
p('slice of a slice', 'v', lambda np, v: v[1:][1:])
p('expand_dims', 'f', lambda np, a: np.expand_dims(a, axis=0))
p('squeeze', 'f', lambda np, a: np.squeeze(a[:1], axis=0) if hasattr(a, 'tolist') else a[:1][0])
p('scalar index chain', 'B', lambda np, a: a[0][1][0])
p('sqrt of square', 'f', lambda np, a: np.sqrt(a * a))
p('abs', 'f', lambda np, a: np.abs(a))
p('unary minus', 'f', lambda np, a: -a)
p('power', 'f', lambda np, a: a ** 2 - 2 * a ** 3)
p('int power', 'i', lambda np, a: a ** 2)
p('logical', 'b b', lambda np, a, b: np.logical_and(a, np.logical_not(b)))
p('compare int float', 'i s', lambda np, a, s: a >= s)


SHAPES = dict(f=('H', 'W'), n=('H', 'W'), i=('H', 'W'), u=('H', 'W'), b=('H', 'W'), v=('W',), V=('U',), w=('W',), c=('W',),
              t=(3, 'W'), T=(3, 'U'), m=(3, 3), x=(3,), s=(), B=('D', 'H', 'W'), N=('D', 'H', 'W'))
DT = dict(i='int64', u='uint8', b='bool', c='bool')


def value(kind, dims, rng):
    shape = tuple(dims.get(d, d) for d in SHAPES[kind])
    n = int(np.prod(shape)) if shape else 1
    if kind in 'bc':
        v = [rng.random() < 0.5 for _ in range(n)]
        if not any(v):
            v[0] = True
    elif kind == 'u':
        v = [rng.randint(0, 255) for _ in range(n)]
    elif kind == 'i':
        v = [rng.randint(-300, 300) for _ in range(n)]
    else:
        v = [rng.randint(-16, 16) / 8 for _ in range(n)]
    if kind in 'nwN':
        v = [float('nan') if rng.random() < 0.3 and k else x for k, x in enumerate(v)]
    if kind == 'm':
        v = [4.0, .5, -1, .25, 3, 1, -.5, 1, 5]
    a = np.array(v, dtype=DT.get(kind, 'float64')).reshape(shape)
    return float(a) if kind == 's' else a


def lit(v, sort):
    if sort == z3.BoolSort():
        return z3.BoolVal(bool(v))
    if sort == z3.IntSort():
        return z3.IntVal(int(v))
    return S._frac(float(v))


class Case:
    """The specialisation of symbolic terms to concrete arrays."""

    def __init__(self, dims, args):
        self.dims = [(z3.Int('dim_' + k), z3.IntVal(v)) for k, v in dims.items()]
        self.funs = [(S.ufn('rnd32', 1), z3.Var(0, z3.RealSort()))]   # the values are exact in single precision
        for name, a in args.items():
            a = np.asarray(a)
            if not a.ndim:
                self.dims.append((z3.Real(name), S._frac(float(a))))
                continue
            for nm, vals, sort in ((name, np.nan_to_num(a) if a.dtype.kind == 'f' else a, None), (name + '!nan', np.isnan(a) if a.dtype.kind == 'f' else None, z3.BoolSort())):
                if vals is None:
                    continue
                sort = sort if sort is not None else {'b': z3.BoolSort(), 'i': z3.IntSort(), 'u': z3.IntSort(), 'f': z3.RealSort()}[a.dtype.kind]
                f = z3.Function(nm, *[z3.IntSort()] * a.ndim, sort)
                vs = [z3.Var(k, z3.IntSort()) for k in range(a.ndim)]
                b = lit(0, sort)
                for i in itertools.product(*map(range, a.shape)):
                    b = z3.If(z3.And(*[v == k for v, k in zip(vs, i)]), lit(vals[i], sort), b)
                self.funs.append((f, b))
        self.defs = {}

    def spec(self, t, depth=0):
        t = z3.simplify(z3.substitute(z3.substitute_funs(t, *self.funs) if self.funs else t, *self.dims))
        seen, todo, atoms = set(), [t], {}
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
                continue
            todo.extend(x.children())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in A.RECORD:
                atoms[x.decl().name()] = x
        if not atoms:
            return t
        assert depth < 6
        return self.spec(z3.substitute(t, *[(x, self.defn(n, depth)) for n, x in atoms.items()]), depth + 1)

    def defn(self, name, depth):
        if name not in self.defs:
            kind, names, dom, body = A.RECORD[name]
            size = 1 + max(v.as_long() for _, v in self.dims if z3.is_int_value(v)) * 3
            vs = [z3.Int(n) for n in names]
            if kind == 'count':
                cond = z3.And(*[z3.And(v >= 0, v < d) for v, d in zip(vs, dom)], body)
                term = z3.IntVal(1)
            else:
                cond, term = z3.And(*dom), body
            zero = z3.IntVal(0) if kind == 'count' else z3.RealVal(0)
            c, t = self.spec(cond, depth + 1), self.spec(term, depth + 1)
            tot = []
            for ix in itertools.product(range(size), repeat=len(vs)):
                sub = [(v, z3.IntVal(k)) for v, k in zip(vs, ix)]
                g = z3.simplify(z3.substitute(c, *sub))
                if z3.is_false(g):
                    continue
                tot.append(z3.If(g, z3.substitute(t, *sub), zero))
            self.defs[name] = z3.simplify(z3.Sum(tot)) if tot else zero
        return self.defs[name]


def dom(dims, case):
    """Concrete index tuples of a result with possibly masked or flattened axes, in numpy's order."""
    out = [((), ())]
    shape = []
    for d in dims:
        if isinstance(d, (A.CompDim, A.FlatDim)):
            sub = []
            for ix in itertools.product(*[range(z3.simplify(case.spec(SInt.of(q).z)).as_long()) for q in d.parents]):
                if isinstance(d, A.CompDim) and not z3.is_true(case.spec(S.zb(d.mask(tuple(ix))))):
                    continue
                sub.append(ix if len(ix) > 1 or isinstance(d, A.FlatDim) else ix[0])
            shape.append(sub)
        elif isinstance(d, int):
            shape.append(list(range(d)))
        else:
            shape.append(list(range(z3.simplify(case.spec(SInt.of(d).z)).as_long())))
    return [len(s) for s in shape], itertools.product(*shape)


def run_one(name, kinds, f, rng):
    dims = dict(H=rng.randint(2, 3), W=rng.randint(3, 4), U=rng.randint(1, 3), D=rng.randint(1, 3))
    args = {f'a{k}_{q}': value(q, dims, rng) for k, q in enumerate(kinds)}
    want = np.asarray(f(np, *args.values()))
    case = Case(dims, args)
    A.RECORD = {}
    seen = []
    bad = []

    def body():
        c = S.ctx()
        d = {k: S.integer('dim_' + k) for k in dims}
        for k in d:
            c.assume(d[k] >= {'H': 2, 'W': 3}.get(k, 1))
        xs = []
        for k, q in enumerate(kinds):
            n = f'a{k}_{q}'
            if q == 's':
                xs.append(S.real(n))
            else:
                xs.append(A.symarray(n, tuple(d.get(e, e) if isinstance(e, str) else e for e in SHAPES[q]), DT.get(q, 'float64'), nan=q in 'nwN'))
        got = f(NP, *xs)
        pc = [case.spec(q) for q in c.pc]
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*pc)
        if s.check() == z3.unsat:
            return
        seen.append(1)
        g = got if isinstance(got, A.SArray) else A.asarr(got)
        shape, idx = dom(g.shape, case)
        if list(want.shape) != shape:
            bad.append(f'shape {shape}, numpy {want.shape}')
            return
        if g.dtype != want.dtype and not {g.dtype.kind, want.dtype.kind} <= set('iu'):
            bad.append(f'dtype {g.dtype}, numpy {want.dtype}')
        for ix, w in zip(idx, want.reshape(-1).tolist()):
            e = g.at(*ix)
            pc = [case.spec(q) for q in c.pc]
            if isinstance(w, bool):
                goal = case.spec(S.zb(e)) == w
            else:
                e = SReal.of(e)
                nan = z3.BoolVal(e.nan) if e.nan in (True, False) else case.spec(e.nan)
                goal = nan if w != w else z3.And(z3.Not(nan), case.spec(e.z) - S._frac(float(w)) <= S._frac(1e-9), case.spec(e.z) - S._frac(float(w)) >= S._frac(-1e-9))
            r = PV.prove(pc, goal, ms=20000, cvc5_ms=20000)
            if r.status != 'proved':
                bad.append(f'[{ix}] {r.status}: numpy {w}: {str(z3.simplify(goal))[:200]}')
                return

    X = S.Explorer(max_paths=300, max_secs=60)
    X.explore(body)
    A.RECORD = None
    uns = [u for _, u in X.unsupported]
    if uns and not bad and not seen:
        return ''   # not modelled: no claim is made
    if bad or not seen:
        return f'{name}: {bad or "no path"} {uns[:2]}'
    return None


def main(seed=1, rounds=2, only=None):
    bad = n = skipped = 0
    for name, kinds, f in P:
        if only and only not in name:
            continue
        for r in range(rounds):
            n += 1
            try:
                msg = run_one(name, kinds, f, random.Random(f'{seed}/{name}/{r}'))
            except BaseException as ex:
                import traceback
                msg = f'{name}: {type(ex).__name__}: {ex} ' + ' < '.join(f'{t.name}:{t.lineno}' for t in reversed(traceback.extract_tb(ex.__traceback__)))[:200]
            if msg == '':
                skipped += 1
                break
            if msg:
                bad += 1
                print('selftest:', msg)
                break
    print(f'selftest: {n} comparisons of {len(P)} array programs with numpy, {bad} failed, {skipped} outside the model')
    return bad
