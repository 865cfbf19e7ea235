"""Numeric search for an assignment that satisfies the hypotheses and falsifies the goal.

Uninterpreted functions are arbitrary (a fixed pseudo-random value per argument tuple), except the
transcendental ones, which get their real meaning.
"""
from __future__ import annotations

import math

import numpy as np
import random

import z3

REALFN = dict(
    sin=math.sin, cos=math.cos, arctan=math.atan, tan=math.tan,
    arcsin=lambda x: math.asin(x) if -1 <= x <= 1 else float('nan'),
    arctan2=math.atan2, rnd32=lambda x: float(np.float32(x)), sqrt=lambda x: math.sqrt(x) if x >= 0 else float('nan'), log2=lambda x: math.log2(x) if x > 0 else float('nan'),
)
TRANS = set(REALFN) - {'rnd32'}


class Undef(Exception):
    pass


def _close(a, b):
    """Argument lists: True equal up to rounding, False different, None undecided."""
    und = False
    for x, y in zip(a, b):
        if x == y:
            continue
        if not (isinstance(x, float) or isinstance(y, float)):
            return False
        e = abs(x - y) / (1 + abs(x) + abs(y))
        if e > 1e-4:
            return False
        if e > 1e-7:
            und = True
    return None if und else True


class Ev:
    def __init__(self, rng, scale):
        self.rng, self.scale, self.val, self.memo = rng, scale, {}, {}

    def atom(self, key, sort, d):
        if key not in self.val:
            r = self.rng
            if sort == z3.Z3_BOOL_SORT:
                v = r.random() < 0.5
            elif sort == z3.Z3_INT_SORT:
                v = r.choice([0, 1, 2, 3, r.randint(0, 12), r.randint(-3, 40), r.randint(1, 600)])
            elif sort == z3.Z3_REAL_SORT:
                v = r.choice([r.uniform(-2, 2), r.uniform(0.1, 2), r.uniform(-1, 1) * self.scale, r.uniform(0, 5)])
            else:
                raise Undef(str(d))
            self.val[key] = v
        return self.val[key]

    def ev(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k]
        v = self._ev(t)
        self.memo[k] = v
        return v

    def _ev(self, t):
        if z3.is_quantifier(t):
            raise Undef('quantifier')
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return t.numerator_as_long() / t.denominator_as_long()
        if z3.is_algebraic_value(t):
            return float(t.approx(20).as_fraction())
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        d = t.decl()
        K = d.kind()
        if K == z3.Z3_OP_UNINTERPRETED:
            args = tuple(self.ev(c) for c in t.children())
            if d.name() in REALFN and args:
                v = REALFN[d.name()](*args)
                if v != v:
                    raise Undef('domain')
                return v
            for nm, ar in (self.val if args else ()):
                if nm == d.name() and len(ar) == len(args):
                    c = _close(ar, args)
                    if c is None:
                        raise Undef('borderline argument')
                    if c:
                        return self.val[(nm, ar)]
            return self.atom((d.name(), args), t.sort().kind(), d)
        if K == z3.Z3_OP_ITE:
            return self.ev(t.arg(1)) if self.ev(t.arg(0)) else self.ev(t.arg(2))
        if K == z3.Z3_OP_AND:
            return all(self.ev(c) for c in t.children())
        if K == z3.Z3_OP_OR:
            return any(self.ev(c) for c in t.children())
        a = [self.ev(c) for c in t.children()]
        if K == z3.Z3_OP_NOT:
            return not a[0]
        if K == z3.Z3_OP_IMPLIES:
            return (not a[0]) or a[1]
        if K == z3.Z3_OP_XOR:
            return a[0] != a[1]
        if K == z3.Z3_OP_ADD:
            return sum(a)
        if K == z3.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r = r - x
            return r
        if K == z3.Z3_OP_UMINUS:
            return -a[0]
        if K == z3.Z3_OP_MUL:
            r = 1
            for x in a:
                r = r * x
            return r
        if K == z3.Z3_OP_DIV:
            if a[1] == 0:
                raise Undef('div')
            return a[0] / a[1]
        if K == z3.Z3_OP_IDIV:
            if a[1] == 0:
                raise Undef('div')
            return a[0] // a[1] if a[1] > 0 else -(a[0] // -a[1])
        if K == z3.Z3_OP_MOD:
            if a[1] == 0:
                raise Undef('div')
            return a[0] % abs(a[1])
        if K == z3.Z3_OP_POWER:
            return float(a[0]) ** a[1]
        if K == z3.Z3_OP_TO_REAL:
            return float(a[0])
        if K == z3.Z3_OP_TO_INT:
            return math.floor(a[0])
        if K == z3.Z3_OP_IS_INT:
            return a[0] == math.floor(a[0])
        if K in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            x, y = a[0], a[1]
            if K == z3.Z3_OP_DISTINCT and len(a) > 2:
                raise Undef('distinct')
            if isinstance(x, float) or isinstance(y, float):
                tol = 1e-7 * (1 + abs(x) + abs(y))
                near = abs(x - y) <= tol
                if near and x != y and K not in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
                    raise Undef('borderline')
                if not near and abs(x - y) < 1e-4 * (1 + abs(x) + abs(y)) and K in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
                    raise Undef('borderline')
                if near and K in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
                    return K == z3.Z3_OP_EQ
            return {z3.Z3_OP_EQ: x == y, z3.Z3_OP_DISTINCT: x != y, z3.Z3_OP_LE: x <= y, z3.Z3_OP_LT: x < y,
                    z3.Z3_OP_GE: x >= y, z3.Z3_OP_GT: x > y}[K]
        raise Undef(str(d))


def search(hyps, goal, n=400, seed=0):
    """An assignment (dict) with all hypotheses true and the goal false, or None."""
    import time

    t0 = time.time()
    for i in range(n):
        if time.time() - t0 > 4:
            break
        e = Ev(random.Random(f'{seed}/{i}'), 10 ** random.Random(i).uniform(0, 2))
        try:
            ok = True
            for h in hyps:
                if z3.is_quantifier(h):
                    continue
                if not e.ev(h):
                    ok = False
                    break
            if ok and not e.ev(goal):
                return e
        except (Undef, OverflowError, ZeroDivisionError, ValueError):
            continue
    return None


def has_trans(ts):
    st, seen = list(ts), set()
    while st:
        u = st.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_app(u) and u.num_args() and u.decl().name() in TRANS:
            return True
        st.extend(u.children())
    return False
