"""C09: malformed parameter files are rejected with a parameter error."""
import copy
import json
import os

import z3

from .. import sym as S
from ..runner import Fail, Prop, Skip, call
from . import c07, c08
from .c06 import Tmp

prop = Prop('C09')
FP = 'orthority/param_io.py:'
FN = [FP + f for f in ('read_oty_int_param', 'read_osfm_int_param', '_read_osfm_int_param', 'read_oty_rpc_param', 'read_oty_gcps', 'OsfmReader._read_json_dict', 'OsfmReader.__init__', 'OtyReader._read_json_dict', 'OtyReader.__init__')] + ['orthority/common.py:validate_collection']

# ------------------------------------------------------------------------------------------ documented structures
# A specification is: a tuple of types (leaf), ('=', value), ('opt', spec) for optional keys, ('any',), {key: spec} (other keys allowed),
# ('only', {key: spec}) (no other keys), ('map', spec) (any string keys), ('list', spec), ('list', spec, n), ('either', spec, spec).
NUM = (int, float)


def conforms(v, s):
    """True, False, or None where the documentation does not say."""
    if isinstance(s, tuple) and s and s[0] in ('=', 'opt', 'any', 'only', 'map', 'list', 'either', 'lower', 'str'):
        k = s[0]
        if k == 'any':
            return True
        if k == '=':
            return v == s[1] and type(v) is type(s[1])
        if k == 'str':
            return isinstance(v, str)
        if k == 'lower':
            return isinstance(v, str) and v.lower() in s[1]
        if k == 'map':
            if not isinstance(v, dict):
                return False
            return all3([isinstance(q, str) for q in v] + [conforms(q, s[1]) for q in v.values()]) if v else None
        if k == 'list':
            if not isinstance(v, list):
                return False
            if len(s) == 3 and len(v) != s[2]:
                return False
            return all3([conforms(q, s[1]) for q in v]) if v else None
        if k == 'either':
            r = [conforms(v, q) for q in s[1:]]
            return True if True in r else None if None in r else False
        if k == 'only':
            r = conforms(v, s[1])
            if isinstance(v, dict) and any(q not in s[1] for q in v):
                return False
            return r
    if isinstance(s, dict):
        if not isinstance(v, dict):
            return False
        out = []
        for k, q in s.items():
            opt = isinstance(q, tuple) and q and q[0] == 'opt'
            if k not in v:
                if not opt:
                    return False
                continue
            out.append(conforms(v[k], q[1] if opt else q))
        return all3(out)
    if s == (float,):
        # documented as numbers; integers may be rejected
        return True if isinstance(v, float) else None if isinstance(v, int) and not isinstance(v, bool) else False
    if isinstance(v, bool):
        return None
    return isinstance(v, s)


def all3(r):
    return False if False in r else None if None in r else True


def cam_spec(t, osfm):
    d = {k: ('opt', NUM) for k in c07.COEFF[t]}
    if osfm:
        d.update(projection_type=('lower', [p for p, q in c07.ODM.items() if q == t]), width=NUM, height=NUM, focal=NUM, c_x=('opt', NUM), c_y=('opt', NUM))
    else:
        d.update(type=('lower', [t]), im_size=('list', NUM, 2), focal_len=('either', NUM, ('list', NUM, 2)), sensor_size=('opt', ('list', NUM, 2)), cx=('opt', NUM), cy=('opt', NUM))
    return ('only', d)


def cam_any(osfm):
    return ('either', *[cam_spec(t, osfm) for t in (('brown', 'fisheye') if osfm else c07.COEFF)])


RPCS = {k: ('list', (float,), 20) if k.endswith('coeff') else (float,) if k.startswith(('height', 'lat', 'long')) else NUM
        for k in ['height_off', 'height_scale', 'lat_off', 'lat_scale', 'line_den_coeff', 'line_num_coeff', 'line_off', 'line_scale', 'long_off', 'long_scale', 'samp_den_coeff', 'samp_num_coeff', 'samp_off', 'samp_scale']}
OSF = ('list', dict(cameras=('map', cam_any(True)), shots=('map', dict(rotation=('list', (float,), 3), translation=('list', (float,), 3), camera=('str',))),
                    reference_lla=dict(latitude=(float,), longitude=(float,), altitude=(float,))))
SPEC = dict(
    int=('map', cam_any(False)), osfm_int=('map', cam_any(True)), osfm_rec=('list', dict(cameras=('map', cam_any(True))), 1), rpc=('map', dict(im_size=('list', NUM, 2), rpc=RPCS)),
    gcp=dict(type=('=', 'FeatureCollection'), features=('list', dict(type=('=', 'Feature'), properties=dict(ji=('list', NUM, 2), filename=('str',), id=('opt', ('any',)), info=('opt', ('any',))),
                                                                     geometry=dict(type=('=', 'Point'), coordinates=('list', NUM, 3))))),
    ext=dict(type=('=', 'FeatureCollection'), world_crs=('=', 'EPSG:32634'), features=('list', dict(type=('=', 'Feature'), properties=dict(filename=('str',), camera=('any',), xyz=('list', NUM, 3), opk=('list', NUM, 3)),
                                                                                                    geometry=dict(type=('=', 'Point'), coordinates=('list', NUM))))),
    osfm=OSF)


def docs():
    cam = {t: dict(type=t, im_size=[10, 20], focal_len=[1.5, 2.0] if t == 'brown' else 3.0, sensor_size=[2.5, 3.5], cx=0.1, cy=0.2, **{k: 0.25 for k in c07.COEFF[t]}) for t in c07.COEFF}
    oc = {'v2 a': dict(projection_type='brown', width=10, height=20, focal=0.5, c_x=0.1, c_y=0.2, k1=0.1, k2=0.2, p1=0.3, p2=0.4, k3=0.5), 'b': dict(projection_type='fisheye', width=10, height=20, focal=0.5, k1=0.1, k2=0.2)}
    rpc = {k: [0.5] * 20 if k.endswith('coeff') else 1.5 for k in RPCS}
    return dict(
        int=cam, osfm_int=oc, osfm_rec=[dict(cameras=oc, shots={})], rpc={'a.tif': dict(im_size=[10, 20], rpc=rpc), 'b.tif': dict(im_size=[10, 20], rpc=dict(rpc, err_bias=None))},
        gcp=dict(type='FeatureCollection', features=[dict(type='Feature', properties=dict(ji=[1.5, 2], filename=f'f{k}', id='x', info=None), geometry=dict(type='Point', coordinates=[1.5, 2, 3.5])) for k in range(2)]),
        ext=dict(type='FeatureCollection', world_crs='EPSG:32634', features=[dict(type='Feature', properties=dict(filename=f'f{k}', camera=None, xyz=[1.5e5, 2e5, 3], opk=[.1, .2, 0]), geometry=dict(type='Point', coordinates=[1.5, 2, 3.5])) for k in range(2)]),
        osfm=[dict(cameras=oc, shots={f's{k}': dict(rotation=[.1, .2, .3], translation=[1.5, 2.5, 3.5], camera='v2 a') for k in range(2)}, reference_lla=dict(latitude=1.5, longitude=2.5, altitude=0.0))])


def paths(v, pre=()):
    yield pre
    it = v.items() if isinstance(v, dict) else enumerate(v) if isinstance(v, list) else ()
    for n, (k, q) in enumerate(it):
        if isinstance(v, list) and len(v) > 3 and 0 < n < len(v) - 1:
            continue   # coefficients: first and last
        yield from paths(q, pre + (k,))


WRONG = [None, 'text', '', 5, 5.5, [], {}, [1], [1.5, 2.5], [1.5, 'a'], ['a', 'b', 'c'], [[1.5], [2.5]], [None, None, None], {'a': 1}, {'a': {}}, [{}], [5], ['cameras'], [None], {'cameras': 5}, 'Feature', -1, 'EPSG:32634']

# keys added: unknown, or of another camera type
ADD = ['extra key', 'k4', 's1', 'p1']


def edits(doc):
    """All single changes: a value replaced, a key or item removed, a key or item added."""
    for p in paths(doc):
        for k, w in enumerate(WRONG):
            yield ('replace', p, k)
        if p:
            yield ('delete', p, 0)
        for k in range(len(ADD)):
            yield ('add', p, k)


def apply(doc, e):
    kind, p, k = e
    doc = copy.deepcopy(doc)
    if kind == 'replace' and not p:
        return copy.deepcopy(WRONG[k])
    v = doc
    for q in p[:-1] if kind != 'add' else p:
        v = v[q]
    if kind == 'replace':
        v[p[-1]] = copy.deepcopy(WRONG[k])
    elif kind == 'delete':
        del v[p[-1]]
    elif isinstance(v, dict):
        if ADD[k] in v:
            v.pop(ADD[k])
        v[ADD[k]] = 5
    elif isinstance(v, list):
        v.append(copy.deepcopy(v[-1]) if v else 5)
    return doc


def crs_ok(kind, doc):
    """world_crs may be any CRS string."""
    if kind == 'ext' and isinstance(doc, dict) and isinstance(doc.get('world_crs'), str):
        if doc['world_crs'] in ('', 'text', 'Feature'):
            return False
    return True


def expect(kind, doc):
    return conforms(doc, SPEC[kind])


def reader(R, kind):
    P = R.param_io
    return dict(int=P.read_oty_int_param, osfm_int=P.read_osfm_int_param, osfm_rec=P.read_osfm_int_param, rpc=P.read_oty_rpc_param, gcp=P.read_oty_gcps,
                ext=lambda f: P.OtyReader(f).read_ext_param(), osfm=lambda f: (lambda r: (r.read_int_param(), r.read_ext_param()))(P.OsfmReader(f)))[kind]


def flat_ok(kind, doc):
    """The flat (single camera) form of the interior format is documented as legacy: not judged when the edit looks like it."""
    if kind == 'int' and isinstance(doc, dict) and doc and not isinstance(next(iter(doc.values())), dict):
        return None
    return True


def verdict(kind, doc):
    e = expect(kind, doc)
    if kind == 'int' and isinstance(doc, dict) and any(isinstance(c, dict) and 'name' in c for c in doc.values()):
        e = None
    if kind == 'osfm_rec' and isinstance(doc, dict):
        e = expect('osfm_int', doc)
    if kind == 'osfm_int' and isinstance(doc, list):
        e = expect('osfm_rec', doc)
    return e


def judge(R, kind, doc, read, ParamError, CrsError):
    e = verdict(kind, doc)
    try:
        out = read()
    except (ParamError, CrsError) as ex:
        if e is True:
            return f'a valid file was rejected: {ex}'
        return None
    except Exception as ex:
        return f'{type(ex).__name__}: {ex} (expected {"the parameters" if e else "a parameter error"})'
    if e is False:
        return f'a malformed file was read as {str(out)[:200]}'
    return None


for _k in SPEC:
    @prop.case(f'single changes[{_k}]', FN, expect=['verdict'], bound='every single replacement (23 values), deletion and addition in a valid document', max_secs=200)
    def single(L, X, kind=_k):
        """Bounded: exhaustive over single changes, on the real reader with the file content given."""
        doc0 = docs()[kind]
        n = 0
        for e in edits(doc0):
            doc = apply(doc0, e)
            c07.load(L, copy.deepcopy(doc))
            msg = judge(L, kind, doc, lambda: reader(L, kind)('f'), L.errors.ParamError, L.errors.CrsError)
            n += 1
            if msg:
                X.require(f'verdict', z3.BoolVal(False))
                return
        X.require('verdict', z3.BoolVal(n > 50))


SCH = [str, int, (int, float), 'a', 5, None, {str: int}, {str: {str: str}}, dict(a=int), dict(a=int, b=None), dict(a={str: int}), [int], [int] * 2, [(int, float)] * 3, [dict(a=int)], [[int]], dict(a=[int] * 2, b='x')]
COL = [None, 'a', 'b', 5, 6, 5.5, {}, {'a': 1}, {'a': 'x'}, {1: 1}, {'a': 1, 'b': 2}, {'b': 2}, {'a': {'b': 1}}, {'a': {'b': 'c'}}, {'a': {1: 1}}, [], [1], ['a'], [1, 2], [1, 'a'], [1, 2, 3], [1.5, 2, 3], [1, 2, 3, 4],
       [{'a': 1}], [{'a': 1}, {}], [{'a': 1}, {'a': 'x'}], [[1]], [[1], ['a']], [[]], {'a': [1, 2], 'b': 'x'}, {'a': [1, 2], 'b': 'y'}, {'a': [1], 'b': 'x'}, {'a': [1, 2, 3], 'b': 'x', 'c': 0}, [[1], 5]]


def matches(s, c):
    """What validate_collection documents; None: not specified (empty lists)."""
    if s is None:
        return True
    if isinstance(s, dict):
        if not isinstance(c, dict):
            return False
        k = next(iter(s))
        if len(s) == 1 and isinstance(k, type):
            return all3([isinstance(q, k) for q in c] + [matches(s[k], v) for v in c.values()])
        return all3([q in c for q in s] + [matches(s[q], c[q]) for q in s if q in c])
    if isinstance(s, list):
        if not isinstance(c, list):
            return False
        if not c:
            return None if len(s) == 1 else False
        if len(s) == 1:
            return all3([matches(s[0], q) for q in c])
        return len(s) == len(c) and all3([matches(a, b) for a, b in zip(s, c)])
    if isinstance(s, (type, tuple)):
        return isinstance(c, s)
    return c == s


@prop.case('validate_collection', ['orthority/common.py:validate_collection'], expect=['verdict'], bound=f'{len(SCH)} schemas with {len(COL)} collections, and nested in lists and dictionaries')
def vc(L, X):
    ok = True
    for s in SCH + [[q] for q in SCH] + [dict(k=q, l=None) for q in SCH] + [{str: q} for q in SCH]:
        for c in COL + [[q] for q in COL] + [dict(k=q, l=1) for q in COL] + [dict(z=q) for q in COL]:
            m = matches(s, c)
            try:
                L.common.validate_collection(s, c)
                good = True
            except (ValueError, TypeError, KeyError):
                good = False
            if m is not None and m != good:
                ok = False
    X.require('verdict', z3.BoolVal(ok))


# ------------------------------------------------------------------------------------------ run time
_all = None


def enum():
    global _all
    if _all is None:
        _all = [(k, e) for k, d in docs().items() for e in edits(d)]
    return _all


@prop.fuzz('files', n=9000, thorough=60000, secs=60, fns=FN)
def _files(R, rng, i):
    import yaml
    al = enum()
    step = 7919
    if i < len(al):
        kind, e = al[(i * step) % len(al)]
        doc = apply(docs()[kind], e)
    else:
        kind = rng.choice(list(SPEC))
        doc = docs()[kind]
        for _ in range(rng.choice([2, 3])):
            try:
                doc = apply(doc, rng.choice(list(edits(doc))))
            except Exception:
                raise Skip()
    if flat_ok(kind, doc) is None:
        pass
    with Tmp() as d:
        p = os.path.join(d, 'f.txt')
        with open(p, 'w') as f:
            (yaml.safe_dump if kind in ('int', 'rpc') else json.dump)(doc, f)
        msg = judge(R, kind, doc, lambda: reader(R, kind)(p), R.errors.ParamError, R.errors.CrsError)
    if msg:
        raise Fail(f'{kind}: {msg}', dict(kind=kind, content=doc))


@prop.fuzz('long-files', n=400, thorough=4000, secs=40, fns=FN)
def _long(R, rng, i):
    """Files with many items, one of which is changed."""
    import yaml
    kind = rng.choice([k for k in SPEC for _ in range(1 if k in ('int', 'rpc') else 4)])
    doc = docs()[kind]
    path = dict(gcp=('features',), ext=('features',), osfm=(0, 'shots'), osfm_rec=(0, 'cameras')).get(kind, ())
    items = doc
    for q in path:
        items = items[q]
    n = rng.choice(dict(rpc=[5, 12], int=[5, 40]).get(kind, [5, 20, 60, 130, 300]))
    if isinstance(items, dict):
        base = items[rng.choice(list(items))]
        items.update({f'more {k}': copy.deepcopy(base) for k in range(n)})
        key = rng.choice([*list(items)[-3:], rng.choice(list(items))])
    else:
        base = rng.choice(items)
        items.extend(copy.deepcopy(base) for _ in range(n))
        key = rng.choice([len(items) - 1, rng.randrange(len(items))])
    e = None
    if rng.random() < 0.8:
        try:
            e = rng.choice(list(edits(items[key])))
            items[key] = apply(items[key], e)
        except Exception:
            raise Skip()
    with Tmp() as d:
        p = os.path.join(d, 'f.txt')
        with open(p, 'w') as f:
            (yaml.safe_dump if kind in ('int', 'rpc') else json.dump)(doc, f)
        msg = judge(R, kind, doc, lambda: reader(R, kind)(p), R.errors.ParamError, R.errors.CrsError)
    if msg:
        raise Fail(f'{kind} with {len(items)} items: {msg}', dict(kind=kind, items=len(items), item=key, change=e))


CSVH = ['filename', 'x', 'y', 'z', 'omega', 'phi', 'kappa', 'camera']


@prop.fuzz('CSV', n=500, secs=30, fns=[FP + 'CsvReader.' + f for f in ('__init__', '_parse_file', '_parse_fieldnames', 'read_ext_param')])
def _csv(R, rng, i):
    import csv
    import io
    lla = rng.random() < 0.4
    head = list(CSVH)
    if lla:
        head[1:4] = ['latitude', 'longitude', 'altitude']
        head[4:7] = ['roll', 'pitch', 'yaw']
    rng.shuffle(head)
    rows = [['a%d.tif' % k if h == 'filename' else 'cam' if h == 'camera' else str(round(rng.uniform(1, 50), 3)) for h in head] for k in range(rng.choice([3, 4]))]
    kind = rng.choice(['text', 'empty', 'short', 'field', 'nothing', 'garbage', 'no rows'])
    bad = True
    numeric = [k for k, h in enumerate(head) if h not in ('filename', 'camera')]
    if kind == 'text':
        rng.choice(rows)[rng.choice(numeric)] = rng.choice(['abc', '1,5', '--', '1.2.3'])
    elif kind == 'empty':
        rng.choice(rows)[rng.choice(numeric)] = ''
    elif kind == 'short':
        k = rng.randrange(len(rows))
        rows[k] = rows[k][:rng.randint(1, max(numeric))]
    elif kind == 'field':
        k = rng.choice([q for q, h in enumerate(head) if h != 'camera'])
        head[k] = rng.choice(['other', head[k] + '2'])
    buf = io.StringIO()
    w = csv.writer(buf, quoting=csv.QUOTE_ALL)
    w.writerow(head)
    w.writerows(rows)
    text = buf.getvalue()
    if kind == 'nothing':
        text = rng.choice(['', '\n', '   '])
    elif kind == 'garbage':
        text = rng.choice(['abc', 'filename', '\n\n\n', 'x' * 50 + '\n' + 'y' * 20])
    elif kind == 'no rows':
        text = text.split('\n')[0] + '\n'
        bad = None
    class dia(csv.excel):
        pass
    kw = dict(dialect=dia) if rng.random() < 0.5 else {}
    kw['crs'] = 'EPSG:32634' if not lla or rng.random() < 0.5 else None
    if kind in ('text', 'empty', 'short', 'field') and not csv.Sniffer().has_header(text.replace('\r\n', '\n')):
        raise Skip()
    with Tmp() as d:
        p = os.path.join(d, 'e.csv')
        with open(p, 'w', newline='') as f:
            f.write(text)
        try:
            out = R.param_io.CsvReader(p, **kw).read_ext_param()
        except (R.errors.ParamError, R.errors.CrsError):
            return
        except Exception as ex:
            raise Fail(f'{type(ex).__name__}: {ex} for a malformed CSV file ({kind})', dict(csv=text, options=str(kw)))
    if bad:
        raise Fail(f'malformed CSV file ({kind}) was read as {out}', dict(csv=text, options=str(kw)))


prop.assume('booleans in place of numbers, integers in place of documented floats, and empty lists and dictionaries are not judged',
            'bounded: single changes are exhaustive, further changes are sampled; nothing here is counted as proved')
