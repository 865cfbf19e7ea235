"""Symbolic scalars and path exploration for the verifier.

The verifier runs the *real* functions of /repo/orthority (compiled from the working tree on every
run) on symbolic values.  A scalar is a z3 term; a branch on a symbolic condition forks the path
(depth first, by re-execution); an obligation ``post`` on a path with condition ``pc`` is the
validity of ``pc => post``.

Numbers are mathematical integers and reals.  A real carries a ``nan`` flag (a z3 boolean or the
Python constant ``False``) which is set for NaN operands and for division by zero.
"""
from __future__ import annotations

import math
import time
from fractions import Fraction

import numpy as np
import z3


class Unsupported(BaseException):
    """The engine cannot model an operation: the obligations of this path are undecided."""


class PathEnd(BaseException):
    """The path was ended by a contract (for example after a loop-preservation check)."""


class Infeasible(BaseException):
    """The path condition became unsatisfiable."""


class Budget(BaseException):
    """The exploration budget ran out."""


_stack = []


def ctx() -> 'Explorer':
    if not _stack:
        raise Unsupported('symbolic value used outside an exploration')
    return _stack[-1]


# ------------------------------------------------------------------------------------------- terms
def _frac(v) -> z3.RatNumRef:
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, (bool, np.bool_)):
        return z3.RealVal(int(v))
    if isinstance(v, (int, np.integer)):
        return z3.RealVal(int(v))
    v = float(v)
    # literals are read as the decimal that denotes them
    return z3.RealVal(Fraction(repr(v)))


def is_sym(x) -> bool:
    return isinstance(x, (SNum, SBool))


def is_num(x) -> bool:
    return isinstance(x, (int, float, np.number, np.bool_, Fraction)) or is_sym(x)


def zor(*args):
    args = [a for a in args if a is not False]
    if any(a is True for a in args):
        return True
    if not args:
        return False
    return args[0] if len(args) == 1 else z3.Or(*args)


def zand(*args):
    args = [a for a in args if a is not True]
    if any(a is False for a in args):
        return False
    if not args:
        return True
    return args[0] if len(args) == 1 else z3.And(*args)


def znot(a):
    if a is True:
        return False
    if a is False:
        return True
    return z3.Not(a)


def zb(a):
    """Python bool / SBool / z3 bool -> z3 bool."""
    if isinstance(a, SBool):
        return a.z
    if isinstance(a, (bool, np.bool_)):
        return z3.BoolVal(bool(a))
    if isinstance(a, z3.BoolRef):
        return a
    if isinstance(a, SNum):
        return (a != 0).z if isinstance(a != 0, SBool) else z3.BoolVal(a != 0)
    if isinstance(a, (int, float, np.number)):
        return z3.BoolVal(bool(a))
    raise Unsupported(f'not a boolean: {type(a)}')


class SBool:
    __array_ufunc__ = None
    __slots__ = ('z',)
    dtype = np.dtype('bool')
    shape = ()
    ndim = 0

    def __init__(self, z):
        self.z = z

    @staticmethod
    def mk(z):
        if z is True or z is False:
            return z
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return SBool(z)

    def __bool__(self):
        return ctx().fork(self.z)

    def _bin(self, o, f):
        if isinstance(o, (SBool, bool, np.bool_)):
            return SBool.mk(z3.simplify(f(self.z, zb(o))))
        return NotImplemented

    def __and__(self, o):
        return self._bin(o, z3.And)

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, z3.Or)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, z3.Xor)

    __rxor__ = __xor__

    def __invert__(self):
        return SBool.mk(z3.Not(self.z))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, np.bool_)):
            return SBool.mk(self.z == zb(o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (SBool, bool, np.bool_)):
            return SBool.mk(z3.Xor(self.z, zb(o)))
        return NotImplemented

    def __hash__(self):
        return hash(self.z)

    def _num(self):
        return SInt.mk(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __gt__(self, o):
        return self._num() > o

    def __lt__(self, o):
        return self._num() < o

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return self

    def __repr__(self):
        return '<sym>'


class SNum:
    __array_ufunc__ = None
    __slots__ = ()
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def tolist(self):
        return self

    def squeeze(self, *a, **k):
        return self

    def copy(self):
        return self

    def __pos__(self):
        return self

    def __repr__(self):
        return '<sym>'

    def __format__(self, spec):
        return '<sym>'

    def __hash__(self):
        raise Unsupported('hash of a symbolic number')

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __float__(self):
        raise Unsupported('float() of a symbolic number by uninterpreted code')

    def __complex__(self):
        raise Unsupported('complex() of a symbolic number')

    def is_integer(self):
        return self == floor(self)

    def round(self, *a):
        return rint(self)

    def min(self, *a, **k):
        return self

    max = min

    def sum(self, *a, **k):
        return self

    mean = sum


def _cmp(op):
    def f(self, o):
        if isinstance(o, SBool):
            o = o._num()
        if not is_num(o):
            if op in ('==', '!='):
                return NotImplemented
            if o is None:
                raise TypeError('comparison of a number and None')
            return NotImplemented
        a, b = lift2(self, o)
        if a is None:
            # concrete nan / inf operand
            return _cmp_special(op, self, o)
        if op == '==':
            r = a.z == b.z
        elif op == '!=':
            r = a.z != b.z
        elif op == '<':
            r = a.z < b.z
        elif op == '<=':
            r = a.z <= b.z
        elif op == '>':
            r = a.z > b.z
        else:
            r = a.z >= b.z
        nan = zor(getattr(a, 'nan', False), getattr(b, 'nan', False))
        if nan is not False:
            if nan is True:
                return op == '!='
            r = z3.Or(nan, r) if op == '!=' else z3.And(z3.Not(nan), r)
        return SBool.mk(z3.simplify(r))

    return f


def _special(o):
    return isinstance(o, (float, np.floating)) and not math.isfinite(o)


def _cmp_special(op, s, o):
    o = float(o)
    if math.isnan(o):
        return op == '!='
    nan = getattr(s, 'nan', False)
    ok = znot(nan)
    if op == '==':
        return False
    if op == '!=':
        return True
    lt = o > 0  # s < +inf
    val = lt if op in ('<', '<=') else not lt
    return SBool.mk(ok if ok in (True, False) else ok) if val else False


def lift2(a, b):
    """Lift two numbers to the same symbolic sort; (None, None) if one of them is nan / inf."""
    if _special(a) or _special(b):
        return None, None
    ai = isinstance(a, SInt) or isinstance(a, (int, np.integer, np.bool_)) and not isinstance(a, SNum)
    bi = isinstance(b, SInt) or isinstance(b, (int, np.integer, np.bool_)) and not isinstance(b, SNum)
    if ai and bi:
        return SInt.of(a), SInt.of(b)
    return SReal.of(a), SReal.of(b)


def _nan_like():
    return SReal(z3.FreshReal('nanv'), True)


def _arith(op, a, b):
    if isinstance(a, SBool):
        a = a._num()
    if isinstance(b, SBool):
        b = b._num()
    if not (is_num(a) and is_num(b)):
        return NotImplemented
    if _special(a) or _special(b):
        if any(_special(v) and math.isnan(v) for v in (a, b)):
            return float('nan')
        raise Unsupported('arithmetic with infinity')
    x, y = lift2(a, b)
    if op in '+-*':
        z = x.z + y.z if op == '+' else x.z - y.z if op == '-' else x.z * y.z
        if isinstance(x, SInt):
            return SInt.mk(z)
        return SReal.mk(z, zor(x.nan, y.nan))
    x, y = SReal.of(a), SReal.of(b)
    if op == '/':
        if z3.is_rational_value(y.z):
            if y.z.numerator_as_long() == 0:
                return _nan_like()
            return SReal.mk(x.z / y.z, zor(x.nan, y.nan))
        bad = z3.simplify(y.z == 0)
        bad = False if z3.is_false(bad) else bad
        if bad is not False and ctx().known_nonzero(y.z):
            bad = False
        return SReal.mk(x.z / y.z, zor(x.nan, y.nan, bad))
    raise Unsupported(op)


def _floordiv(a, b):
    if isinstance(a, (SInt, int, np.integer)) and isinstance(b, (SInt, int, np.integer)):
        x, y = SInt.of(a), SInt.of(b)
        if not (isinstance(b, SInt) is False and b > 0) and not ctx().entails(y.z > 0):
            raise Unsupported('floor division by a divisor not known to be positive')
        return SInt.mk(x.z / y.z)
    q = a / b
    return floor(q) if isinstance(q, SReal) else math.floor(q)


def _mod(a, b):
    if isinstance(a, (SInt, int, np.integer)) and isinstance(b, (SInt, int, np.integer)):
        x, y = SInt.of(a), SInt.of(b)
        if not (isinstance(b, SInt) is False and b > 0) and not ctx().entails(y.z > 0):
            raise Unsupported('modulo of a divisor not known to be positive')
        return SInt.mk(x.z % y.z)
    if is_sym(b):
        raise Unsupported('real modulo of a symbolic divisor')
    if b <= 0:
        raise Unsupported('real modulo of a non-positive divisor')
    return a - floor(a / b) * b


def _pow(a, b):
    if isinstance(b, (float, np.floating)) and float(b).is_integer():
        b = int(b)
    if isinstance(b, (int, np.integer)) and 0 <= b <= 8:
        r = 1
        for _ in range(int(b)):
            r = r * a
        return r
    if b == 0.5:
        return sqrt(a)
    if isinstance(b, SInt) and a == 2:
        return SInt(z3.ToInt(z3.Function('pow2', z3.IntSort(), z3.RealSort())(b.z)))
    raise Unsupported('power')


class _Ops:
    __slots__ = ()
    __lt__ = _cmp('<')
    __le__ = _cmp('<=')
    __gt__ = _cmp('>')
    __ge__ = _cmp('>=')
    __eq__ = _cmp('==')
    __ne__ = _cmp('!=')

    def __add__(self, o):
        return _arith('+', self, o)

    def __radd__(self, o):
        return _arith('+', o, self)

    def __sub__(self, o):
        return _arith('-', self, o)

    def __rsub__(self, o):
        return _arith('-', o, self)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            raise Unsupported('sequence repetition by a symbolic number')
        return _arith('*', self, o)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            raise Unsupported('sequence repetition by a symbolic number')
        return _arith('*', o, self)

    def __truediv__(self, o):
        return _arith('/', self, o)

    def __rtruediv__(self, o):
        return _arith('/', o, self)

    def __floordiv__(self, o):
        return _floordiv(self, o) if is_num(o) else NotImplemented

    def __rfloordiv__(self, o):
        return _floordiv(o, self) if is_num(o) else NotImplemented

    def __mod__(self, o):
        return _mod(self, o) if is_num(o) else NotImplemented

    def __rmod__(self, o):
        return _mod(o, self) if is_num(o) else NotImplemented

    def __divmod__(self, o):
        return _floordiv(self, o), _mod(self, o)

    def __pow__(self, o):
        return _pow(self, o)

    def __rpow__(self, o):
        return _pow(o, self)

    def __neg__(self):
        return _arith('-', 0, self)

    def __abs__(self):
        return ite(self < 0, -self, self)


class SInt(_Ops, SNum):
    __slots__ = ('z',)
    dtype = np.dtype('int64')
    __hash__ = SNum.__hash__

    def __init__(self, z):
        self.z = z

    @staticmethod
    def mk(z):
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        return SInt(z)

    @staticmethod
    def of(v) -> 'SInt':
        if isinstance(v, SInt):
            return v
        return SInt(z3.IntVal(int(v)))

    def __index__(self):
        v = ctx().concretise(self)
        if v is None:
            raise Unsupported('symbolic integer used as an index')
        return v

    def __int__(self):
        return self.__index__()

    def __trunc__(self):
        return self

    def astype(self, dt, **k):
        if np.issubdtype(np.dtype(dt), np.floating):
            return SReal.of(self)
        return self

    def __round__(self, n=None):
        return self

    __floor__ = __ceil__ = __trunc__


class SReal(_Ops, SNum):
    __slots__ = ('z', 'nan')
    dtype = np.dtype('float64')
    __hash__ = SNum.__hash__

    def __init__(self, z, nan=False):
        self.z = z
        self.nan = nan

    @staticmethod
    def mk(z, nan=False):
        if nan is not False and nan is not True:
            nan = z3.simplify(nan)
            nan = True if z3.is_true(nan) else False if z3.is_false(nan) else nan
        return SReal(z, nan)

    @staticmethod
    def of(v) -> 'SReal':
        if isinstance(v, SReal):
            return v
        if isinstance(v, SInt):
            return SReal(z3.ToReal(v.z))
        if isinstance(v, SBool):
            return SReal(z3.If(v.z, z3.RealVal(1), z3.RealVal(0)))
        if _special(v):
            if math.isnan(v):
                return _nan_like()
            raise Unsupported('infinity')
        return SReal(_frac(v))

    def __round__(self, n=None):
        if n:
            raise Unsupported('round to digits')
        return to_int(rint(self))

    def __trunc__(self):
        return to_int(self)

    def __floor__(self):
        return to_int(floor(self))

    def __ceil__(self):
        return to_int(ceil(self))

    def astype(self, dt, **k):
        dt = np.dtype(dt)
        if np.issubdtype(dt, np.integer):
            return to_int(self)
        if dt == np.float32:
            return rnd32(self)
        return self


# --------------------------------------------------------------------------------------- functions
def ite(c, a, b):
    if isinstance(c, SBool):
        c = c.z
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    bl = (SBool, bool, np.bool_)
    if isinstance(a, bl) and isinstance(b, bl):
        return SBool.mk(z3.If(c, zb(a), zb(b)))
    if _special(a) or _special(b):
        if not all(not _special(v) or math.isnan(v) for v in (a, b)):
            raise Unsupported('infinity in a conditional')
        a, b = SReal.of(a), SReal.of(b)
    if isinstance(a, SBool):
        a = a._num()
    if isinstance(b, SBool):
        b = b._num()
    x, y = lift2(a, b)
    if isinstance(x, SInt):
        return SInt.mk(z3.If(c, x.z, y.z))
    if x.nan is True:
        z = y.z
    elif y.nan is True:
        z = x.z
    else:
        z = z3.If(c, x.z, y.z)
    if x.nan is False and y.nan is False:
        nan = False
    else:
        f = lambda n: z3.BoolVal(n) if n in (True, False) else n
        nan = z3.If(c, f(x.nan), f(y.nan))
    return SReal.mk(z, nan)


def isnan(a):
    if isinstance(a, SReal):
        return SBool.mk(a.nan) if a.nan not in (True, False) else a.nan
    if isinstance(a, (SInt, SBool)):
        return False
    return bool(np.isnan(a))


def smin(a, b):
    return ite(a <= b, a, b) if is_sym(a) or is_sym(b) else min(a, b)


def smax(a, b):
    return ite(a >= b, a, b) if is_sym(a) or is_sym(b) else max(a, b)


def int_term(t, depth=0):
    """The Int term equal to the Real term t, if t is integer valued by its form, else None."""
    if depth > 40:
        return None
    if z3.is_to_real(t):
        return t.arg(0)
    if z3.is_rational_value(t):
        return z3.IntVal(t.numerator_as_long()) if t.denominator_as_long() == 1 else None
    if not z3.is_app(t):
        return None
    k = t.decl().kind()
    if k == z3.Z3_OP_ITE:
        a, b = int_term(t.arg(1), depth + 1), int_term(t.arg(2), depth + 1)
        return None if a is None or b is None else z3.If(t.arg(0), a, b)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        es = [int_term(c, depth + 1) for c in t.children()]
        if any(e is None for e in es):
            return None
        if k == z3.Z3_OP_UMINUS:
            return -es[0]
        r = es[0]
        for e in es[1:]:
            r = r + e if k == z3.Z3_OP_ADD else r - e if k == z3.Z3_OP_SUB else r * e
        return r
    return None


def floor(a):
    if isinstance(a, SInt) or not is_sym(a):
        return a if isinstance(a, SInt) else math.floor(a)
    a = normal(a)
    t = int_term(a.z)
    return SReal.mk(z3.ToReal(z3.ToInt(a.z) if t is None else t), a.nan)


def ceil(a):
    if isinstance(a, SInt) or not is_sym(a):
        return a if isinstance(a, SInt) else math.ceil(a)
    a = normal(a)
    t = int_term(a.z)
    return SReal.mk(-z3.ToReal(z3.ToInt(-a.z)) if t is None else z3.ToReal(t), a.nan)


def normal(a):
    """The same value with its term in rational normal form (common factors cancelled)."""
    from . import bigsum as B
    from . import poly as P

    if not isinstance(a, SReal) or not _has_div(a.z):
        return a
    try:
        r = P.cancel(P.Norm(None).norm(a.z))
        t = B.poly_term(r.num)
        for f, ex in r.den.items():
            for _ in range(ex):
                t = t / B.poly_term(dict(f))
    except (P.NeedSplit, P.TooBig, Unsupported):
        return a
    return SReal(z3.simplify(t), a.nan)


def _has_div(t):
    seen, todo = set(), [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DIV:
            return True
        todo.extend(e.children())
    return False


def rint(a):
    """Round half to even."""
    if isinstance(a, SInt) or not is_sym(a):
        return a if isinstance(a, SInt) else float(np.round(a))
    a = normal(a)
    t = int_term(a.z)
    if t is not None:
        return SReal.mk(z3.ToReal(t), a.nan)
    f = z3.ToInt(a.z)
    d = a.z - z3.ToReal(f)
    half = z3.RealVal(Fraction(1, 2))
    r = z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return SReal.mk(z3.ToReal(r), a.nan)


def to_int(a):
    """Truncate towards zero (Python int(), numpy cast of an in-range float)."""
    if isinstance(a, SBool):
        return a._num()
    if isinstance(a, SInt):
        return a
    if not is_sym(a):
        return int(a)
    if a.nan is not False:
        if a.nan is True or not ctx().entails(z3.Not(a.nan)):
            # cast of NaN to integer is unspecified
            t = z3.FreshInt('nan2int')
            z = z3.If(a.z >= 0, z3.ToInt(a.z), -z3.ToInt(-a.z))
            return SInt(t) if a.nan is True else SInt.mk(z3.If(a.nan, t, z))
    t = int_term(a.z)
    if t is not None:
        return SInt.mk(t)
    return SInt.mk(z3.If(a.z >= 0, z3.ToInt(a.z), -z3.ToInt(-a.z)))


def to_real(a):
    return SReal.of(a) if is_sym(a) else float(a)


_R, _I = z3.RealSort(), z3.IntSort()
FN = {}


def ufn(name, n, sorts=None, out=None):
    key = (name, n, tuple(str(s) for s in sorts) if sorts else None, str(out))
    if key not in FN:
        FN[key] = z3.Function(name, *(sorts if sorts is not None else [_R] * n), _R if out is None else out)
    return FN[key]


def apply(name, *args, nan=False):
    """Pointwise uninterpreted real function; NaN in, NaN out."""
    args = [SReal.of(a) for a in args]
    return SReal.mk(
        ufn(name, len(args))(*[a.z for a in args]), zor(nan, *[a.nan for a in args])
    )


def sin(a):
    return apply('sin', a) if is_sym(a) else math.sin(a)


def cos(a):
    return apply('cos', a) if is_sym(a) else math.cos(a)


def arctan(a):
    return apply('arctan', a) if is_sym(a) else math.atan(a)


def tan(a):
    return sin(a) / cos(a)


def arcsin(a):
    return apply('arcsin', a) if is_sym(a) else math.asin(a)


def arctan2(a, b):
    return apply('arctan2', a, b) if is_sym(a) or is_sym(b) else math.atan2(a, b)


def sqrt(a):
    if not is_sym(a):
        return math.sqrt(a)
    a = SReal.of(a)
    r = apply('sqrt', a)
    return r


def log2(a):
    return apply('log2', a) if is_sym(a) else math.log2(a)


PI = z3.Real('PI')


def radians(a):
    return SReal.of(a) * SReal(PI) / 180 if is_sym(a) else math.radians(a)


def degrees(a):
    return SReal.of(a) * 180 / SReal(PI) if is_sym(a) else math.degrees(a)


def rnd32(a):
    """Rounding to float32: uninterpreted, except that it is the identity on integers |v| <= 2**24."""
    if not is_sym(a):
        return float(np.float32(a))
    if isinstance(a, SInt):
        a = SReal.of(a)
    return apply('rnd32', a)


def real(name, nan=False) -> SReal:
    n = z3.Bool(name + '!nan') if nan else False
    return SReal(z3.Real(name), n)


def integer(name, lo=None, hi=None) -> SInt:
    v = SInt(z3.Int(name))
    if lo is not None:
        ctx().assume(v.z >= lo)
    if hi is not None:
        ctx().assume(v.z <= hi)
    return v


def boolean(name) -> SBool:
    return SBool(z3.Bool(name))


_fresh = [0]


# Names of the index variables bound by the quantifiers, sums and extrema under construction.
BOUND = []


class binder:
    """Scope that binds n fresh index names (distinct from those of the enclosing scopes)."""

    def __init__(self, n, tag='q'):
        d = sum(b[0] == tag for b in BOUND)
        self.names = [f'{tag}{d + k}!' for k in range(n)]

    def __enter__(self):
        BOUND.extend(self.names)
        return self

    def __exit__(self, *a):
        del BOUND[len(BOUND) - len(self.names):]


def mentions(t, names):
    if not names:
        return False
    names, seen, todo = set(names), set(), [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in names:
            return True
        if z3.is_quantifier(e):
            todo.append(e.body())
        else:
            todo.extend(e.children())
    return False


def fresh(prefix):
    c = ctx()
    c.fresh_n += 1
    return f'{prefix}!{c.fresh_n}'


def fresh_real(prefix='r', nan=False):
    return real(fresh(prefix), nan)


def fresh_int(prefix='i', lo=None, hi=None):
    return integer(fresh(prefix), lo, hi)


def fresh_bool(prefix='b'):
    return SBool(z3.Bool(fresh(prefix)))


def prove_eq(a, b, nan_ok=False):
    """z3 boolean: a and b are equal values (NaN equals NaN)."""
    if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
        return zb(a) == zb(b)
    if _special(a) or _special(b):
        if _special(a) and _special(b):
            return z3.BoolVal((math.isnan(a) and math.isnan(b)) or a == b)
        s, o = (b, a) if _special(a) else (a, b)
        if math.isnan(o):
            n = getattr(s, 'nan', False)
            return z3.BoolVal(n) if n in (True, False) else n
        return z3.BoolVal(False)
    x, y = lift2(a, b)
    if isinstance(x, SInt):
        return x.z == y.z
    f = lambda n: z3.BoolVal(n) if n in (True, False) else n
    if x.nan is False and y.nan is False:
        return x.z == y.z
    return z3.And(f(x.nan) == f(y.nan), z3.Or(f(x.nan), x.z == y.z))


# ------------------------------------------------------------------------------------- exploration
class Obligation:
    __slots__ = ('name', 'pc', 'goal', 'path', 'status', 'backend', 'secs', 'model', 'note', 'inputs')

    def __init__(self, name, pc, goal, path, inputs):
        self.name, self.pc, self.goal, self.path = name, pc, goal, path
        self.status = self.backend = self.model = self.note = None
        self.secs = 0.0
        self.inputs = inputs


class Explorer:
    """Depth first exploration of ``fn`` by re-execution."""

    def __init__(self, max_paths=4000, fork_ms=400, max_secs=240):
        self.max_paths, self.fork_ms, self.max_secs = max_paths, fork_ms, max_secs
        self.obligations = []
        self.paths = 0
        self.unsupported = []  # (path no, message)
        self.covered = set()
        self.tainted = False
        self.inputs = {}
        self.t0 = time.time()
        self.solver_secs = 0.0
        self.errors = []

    # -- path state
    def _reset(self):
        del BOUND[:]
        self.pc = []
        self.pos = 0
        self.fresh_n = 0
        self.inputs = {}
        self.facts = []
        self._nonzero = set()
        self._solver = z3.Solver()
        self._solver.set('timeout', self.fork_ms)

    def explore(self, fn):
        """Run ``fn`` on every path.  ``fn`` states its obligations with ``require``."""
        self.decisions = []  # list of [value, alternatives_left]
        _stack.append(self)
        try:
            while True:
                self._reset()
                self.paths += 1
                if self.paths > self.max_paths or time.time() - self.t0 > self.max_secs:
                    self.unsupported.append((self.paths, 'exploration budget exhausted'))
                    return self
                try:
                    fn()
                except (PathEnd, Infeasible):
                    pass
                except Unsupported as ex:
                    self.unsupported.append((self.paths, str(ex)))
                # next path
                while self.decisions and not self.decisions[-1][1]:
                    self.decisions.pop()
                if not self.decisions:
                    return self
                d = self.decisions[-1]
                d[0] = d[1].pop(0)
        finally:
            _stack.pop()

    def _sat(self, *extra):
        t = time.time()
        self._solver.push()
        for e in extra:
            self._solver.add(e)
        r = self._solver.check()
        self._solver.pop()
        self.solver_secs += time.time() - t
        return r

    def assume(self, c):
        c = zb(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if BOUND and mentions(c, BOUND):
            raise Unsupported('assumption on a bound index')
        self.pc.append(c)
        self._solver.add(c)
        if z3.is_false(c):
            raise Infeasible()

    def entails(self, c):
        c = z3.simplify(zb(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self._sat(z3.Not(c)) == z3.unsat

    def known_nonzero(self, t):
        return t.get_id() in self._nonzero

    def assume_nonzero(self, *ts):
        for t in ts:
            t = t.z if isinstance(t, SNum) else t
            self._nonzero.add(t.get_id())
            self.facts.append(t)  # keep alive
            self.assume(t != 0)

    def choose(self, n):
        """Non-deterministic choice in range(n)."""
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos][0]
        else:
            self.decisions.append([0, list(range(1, n))])
            v = 0
        self.pos += 1
        return v

    def fork(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if BOUND and mentions(c, BOUND):
            raise Unsupported('decision on a bound index')
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos][0]
            self.pos += 1
        else:
            t = self._sat(c) != z3.unsat
            f = self._sat(z3.Not(c)) != z3.unsat
            if not t and not f:
                raise Infeasible()
            if t and f:
                self.decisions.append([True, [False]])
            else:
                self.decisions.append([t, []])
            v = self.decisions[-1][0]
            self.pos += 1
        self.pc.append(c if v else z3.Not(c))
        self._solver.add(self.pc[-1])
        return v

    def concretise(self, s):
        """The value of a symbolic integer if the path condition determines it."""
        t = z3.simplify(s.z)
        if z3.is_int_value(t):
            return t.as_long()
        if self._solver.check() != z3.sat:
            return None
        v = self._solver.model().eval(s.z, model_completion=True)
        if not z3.is_int_value(v):
            return None
        if self._sat(s.z != v) == z3.unsat:
            return v.as_long()
        return None

    def input(self, name, val):
        """Name a symbolic input so that a counter-model can be replayed."""
        self.inputs[name] = val
        return val

    def instantiate(self, *ks):
        """Assume the instances of the known universal facts over one integer at the given terms."""
        for c in list(self.pc):
            neg = z3.is_not(c)
            q = c.arg(0) if neg else c
            if not z3.is_quantifier(q) or q.num_vars() != 1 or q.var_sort(0) != z3.IntSort() or q.is_forall() == neg:
                continue
            for k in ks:
                b = z3.substitute_vars(q.body(), k)
                self.assume(z3.Not(b) if neg else b)

    def require(self, name, cond):
        """State an obligation on the current path."""
        goal = zb(cond)
        self.obligations.append(
            Obligation(name, list(self.pc), goal, self.paths, dict(self.inputs))
        )

    def require_eq(self, name, a, b, defined=False):
        """``defined``: only where both sides are defined (no division by zero)."""
        if defined:
            x, y = lift2(a, b)
            f = lambda n: z3.BoolVal(n) if n in (True, False) else n
            self.require(name, z3.Or(f(x.nan), f(y.nan), x.z == y.z))
        else:
            self.require(name, prove_eq(a, b))

    def cover(self, name):
        self.covered.add(name)
