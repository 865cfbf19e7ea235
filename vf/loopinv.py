"""Loop invariants for loops over an opaque iterator.

``Head(items)`` is an iterator that records, every time the loop asks for its next item, the live
local variables of the code under verification (bytecode liveness at the loop head).  A loop step
can then be specified as: the state after items [a, b] equals the state after the one item c that
the contract says is equivalent; with the base case this is an induction over any number of items.

State that cannot be seen (an intermediate C iterator, a list under construction) is refused.
"""
from __future__ import annotations

import dis
import os
import sys

from . import arr as A
from . import sym as S
from .loader import PKG, REPO

USE = {'LOAD_FAST', 'LOAD_FAST_CHECK', 'LOAD_FAST_AND_CLEAR', 'LOAD_CLOSURE', 'LOAD_DEREF'}
DEF = {'STORE_FAST', 'DELETE_FAST'}
STOP = {'RETURN_VALUE', 'RETURN_CONST', 'RAISE_VARARGS', 'RERAISE'}
_memo = {}


def live_in(code):
    """{offset: set of local names live before the instruction}"""
    if code in _memo:
        return _memo[code]
    ins = list(dis.get_instructions(code))
    at = {i.offset: k for k, i in enumerate(ins)}
    nxt = []
    for k, i in enumerate(ins):
        s = set()
        if i.opcode in dis.hasjrel or i.opcode in dis.hasjabs:
            s.add(i.argval)
            if i.opname not in ('JUMP_FORWARD', 'JUMP_BACKWARD', 'JUMP_BACKWARD_NO_INTERRUPT') and k + 1 < len(ins):
                s.add(ins[k + 1].offset)
        elif i.opname not in STOP and k + 1 < len(ins):
            s.add(ins[k + 1].offset)
        nxt.append(s)
    for e in dis._parse_exception_table(code):
        for k, i in enumerate(ins):
            if e.start <= i.offset < e.end:
                nxt[k].add(e.target)
    live = [set() for _ in ins]
    change = True
    while change:
        change = False
        for k in range(len(ins) - 1, -1, -1):
            out = set().union(*[live[at[o]] for o in nxt[k] if o in at]) if nxt[k] else set()
            i = ins[k]
            if i.opname in DEF:
                out = out - {i.argval}
            elif i.opname in USE:
                out = out | {i.argval}
            if out != live[k]:
                live[k], change = out, True
    _memo[code] = ({i.offset: live[k] for k, i in enumerate(ins)}, ins)
    return _memo[code]


def _snap(v):
    if isinstance(v, A.SArray):
        return ('array', v.copy())
    if isinstance(v, (int, float, S.SInt, S.SReal, S.SBool)) or S.is_sym(v):
        return ('scalar', v)
    if isinstance(v, (list, tuple)) and v and all(isinstance(e, (A.SArray, int, float)) or S.is_sym(e) for e in v):
        return ('seq', [_snap(e) for e in v])
    if isinstance(v, (list, tuple, set)):
        return ('ids', id(v), tuple(id(e) for e in v))
    if isinstance(v, dict):
        if v and all(isinstance(e, (A.SArray, int, float)) or S.is_sym(e) for e in v.values()):
            return ('map', {k: _snap(e) for k, e in v.items()})
        return ('ids', id(v), tuple((repr(k), id(e)) for k, e in v.items()))
    return ('ids', id(v), ())


class Head:
    def __init__(self, items):
        self.items, self.k, self.snaps = list(items), 0, []

    def __iter__(self):
        return self

    def __next__(self):
        self.snaps.append(self.capture())
        if self.k >= len(self.items):
            raise StopIteration
        self.k += 1
        return self.items[self.k - 1]

    def capture(self):
        root = os.path.join(REPO, PKG)
        f = sys._getframe(2)
        if not f.f_code.co_filename.startswith(root):
            raise S.Unsupported('loop over an iterator that is wrapped')
        out = {}
        first = True
        while f is not None and f.f_code.co_filename.startswith(root):
            live, ins = live_in(f.f_code)
            off = f.f_lasti
            i = next((q for q in ins if q.offset == off), None)
            if first:
                if i is None or i.opname != 'FOR_ITER':
                    raise S.Unsupported('iterator not consumed by a for loop')
                depth = []
                for q in ins:
                    if off < q.offset < i.argval:
                        depth = [d for d in depth if d > q.offset]
                        if q.opname == 'FOR_ITER':
                            depth.append(q.argval)
                        if q.opname in ('LIST_APPEND', 'SET_ADD', 'MAP_ADD', 'YIELD_VALUE') and not depth:
                            raise S.Unsupported('loop with state on the stack')
                names = set(live[off])
            else:
                # suspended at a call: live after it
                k = ins.index(i)
                names = set(live[ins[k + 1].offset]) if k + 1 < len(ins) else set()
            first = False
            names |= set(f.f_code.co_cellvars) | set(f.f_code.co_freevars)
            loc = f.f_locals
            for n in sorted(names):
                if n in loc:
                    v = loc[n]
                    out[f.f_code.co_qualname, n] = _snap(v)
                    if n == 'self':
                        for a, w in sorted(vars(v).items()):
                            out[f.f_code.co_qualname, 'self.' + a] = _snap(w)
            f = f.f_back
        return out


def _cmp(X, name, a, b):
    if a[0] != b[0]:
        if {a[0], b[0]} == {'array', 'scalar'}:
            raise S.Unsupported('loop state changes its shape')
        raise S.Unsupported('loop state changes its type')
    if a[0] == 'scalar':
        X.require_eq(name, a[1], b[1])
    elif a[0] == 'array':
        p, q = a[1], b[1]
        if len(p.shape) != len(q.shape) or not all(isinstance(d, int) for d in p.shape + q.shape) or p.shape != q.shape:
            raise S.Unsupported('loop state changes its shape')
        for i in p.indices():
            X.require_eq(name, p.at(*i), q.at(*i))
    elif a[0] == 'seq':
        if len(a[1]) != len(b[1]):
            raise S.Unsupported('loop state grows')
        for x, y in zip(a[1], b[1]):
            _cmp(X, name, x, y)
    elif a[0] == 'map':
        if set(a[1]) != set(b[1]):
            raise S.Unsupported('loop state grows')
        for k in a[1]:
            _cmp(X, name, a[1][k], b[1][k])


def framed(h):
    """Opaque loop state must not change in the loop."""
    first = h.snaps[0]
    for s in h.snaps[1:]:
        for k, v in s.items():
            w = first.get(k)
            if v[0] == 'ids' and w is not None and v != w:
                raise S.Unsupported(f'loop changes {k[1]}')


def same_state(X, name, ha, ka, hb, kb):
    """Numeric live state at head ka of ha equals the one at head kb of hb."""
    framed(ha)
    framed(hb)
    a, b = ha.snaps[ka], hb.snaps[kb]
    if set(a) != set(b):
        raise S.Unsupported('loop states with different variables')
    n = 0
    for k in a:
        if a[k][0] != 'ids' or b[k][0] != 'ids':
            _cmp(X, name, a[k], b[k])
            n += 1
    return n
