"""Load the current /repo/orthority sources into namespaces with shimmed libraries.

Nothing is rewritten: each module's source is compiled as it is and executed with replacement
``__builtins__`` (int, float, min, max, len, range, isinstance, sum) and a replacement import.
"""
from __future__ import annotations

import builtins
import os
import sys
import types

from . import shims as H

REPO = os.environ.get('VF_REPO', '/repo')
PKG = 'orthority'
_code = {}


def _source(name):
    p = os.path.join(REPO, PKG, name + '.py')
    with open(p) as f:
        return p, f.read()


class Loader:
    def __init__(self):
        import cv2
        import rasterio
        import rasterio.warp
        import rasterio.transform
        import rasterio.vrt
        import concurrent.futures as cf
        import itertools
        import tqdm.auto
        import math

        self.np = H.make_np()
        self.cv2 = H.Cv2Shim(cv2)
        self.warp = H.ModProxy(
            rasterio.warp, dict(transform=H.transform), block=('reproject', 'transform_bounds')
        )
        self.rio_transform = H.ModProxy(rasterio.transform, {}, block=('GCPTransformer', 'RPCTransformer'))
        self.vrt = H.ModProxy(rasterio.vrt, {}, block=('WarpedVRT',))
        self.rio = H.ModProxy(
            rasterio, dict(Env=H.NullCtx, warp=self.warp), block=('open',)
        )
        self.futures = H.ModProxy(
            cf, dict(ThreadPoolExecutor=H.Executor, as_completed=lambda fs: iter(fs))
        )
        self.tqdm = H.ModProxy(tqdm.auto, dict(tqdm=H.Bar))
        self.itertools = H.ModProxy(itertools, dict(product=H.b_product))
        self.math = H.ModProxy(
            math,
            dict(
                ceil=lambda x: H.S.to_int(H.S.ceil(x)) if H.is_sym(x) else math.ceil(x),
                floor=lambda x: H.S.to_int(H.S.floor(x)) if H.is_sym(x) else math.floor(x),
                sqrt=H.S.sqrt,
                sin=H.S.sin,
                cos=H.S.cos,
                radians=H.S.radians,
                isnan=H.S.isnan,
            ),
        )
        self.table = {
            'numpy': self.np,
            'cv2': self.cv2,
            'rasterio': self.rio,
            'rasterio.warp': self.warp,
            'rasterio.transform': self.rio_transform,
            'rasterio.vrt': self.vrt,
            'concurrent.futures': self.futures,
            'tqdm.auto': self.tqdm,
            'tqdm': self.tqdm,
            'itertools': self.itertools,
            'math': self.math,
        }
        self.mods = {}
        self.builtins = dict(H.BUILTINS)
        self.builtins['__import__'] = self._import

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            name = PKG + ('.' + name if name else '')
        if name == PKG or name.startswith(PKG + '.'):
            if name == PKG:
                pkg = types.SimpleNamespace()
                for f in fromlist or ():
                    if os.path.exists(os.path.join(REPO, PKG, f + '.py')):
                        setattr(pkg, f, self.mod(f))
                    else:
                        setattr(pkg, f, getattr(builtins.__import__(PKG), f))
                return pkg
            return self.mod(name.split('.', 1)[1])
        if name in self.table and (fromlist or '.' not in name):
            return self.table[name]
        if '.' in name and not fromlist and name.split('.')[0] in self.table:
            return self.table[name.split('.')[0]]
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def mod(self, name):
        if name not in self.mods:
            path, src = _source(name)
            key = (path, src)
            if key not in _code:
                _code[key] = compile(src, path, 'exec', dont_inherit=True)
            m = types.ModuleType(f'{PKG}.{name}')
            m.__file__ = path
            m.__dict__['__builtins__'] = self.builtins
            self.mods[name] = m
            # dataclasses and enum look the module up by name
            saved = sys.modules.get(m.__name__)
            sys.modules[m.__name__] = m
            try:
                exec(_code[key], m.__dict__)
            finally:
                if saved is not None:
                    sys.modules[m.__name__] = saved
                else:
                    sys.modules.pop(m.__name__, None)
        return self.mods[name]

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return self.mod(name)
