"""Sums over symbolic index domains: linear expansion over index-free coefficients.

``bigsum(dims, g)`` = sum of g over the domain.  The summand is expanded as
``sum_k c_k * m_k(index)`` with index-free rational coefficients; each ``SUM[m_k]`` is a constant
named by the domain and the canonical monomial (``SUM[1]`` is the cardinality of the domain).
Soundness: linearity of finite sums.
"""
from __future__ import annotations

import hashlib

import z3

from . import poly as P
from . import sym as S
from .sym import SInt, SReal, Unsupported


def _dom_key(dims):
    from .arr import CompDim, FlatDim

    out = []
    for d in dims:
        if isinstance(d, CompDim):
            out.append(('c', d.key))
        elif isinstance(d, FlatDim):
            out.append(('f',) + tuple(S.SInt.of(p).z.sexpr() for p in d.parents))
        else:
            out.append(('d', S.SInt.of(d).z.sexpr()))
    return repr(out)


def _has(key, names):
    if isinstance(key, tuple):
        return any(_has(k, names) for k in key)
    if isinstance(key, str):
        return any(n in key for n in names)
    if isinstance(key, int) and not isinstance(key, bool):
        return False
    return False


def _atom_dep(i, names, memo):
    if i not in memo:
        t = P._atom_term[i]
        memo[i] = _key_dep(P._atom_key[i], names, memo)
    return memo[i]


def _key_dep(key, names, memo):
    """Does the atom key mention a bound index (directly, or through nested normal forms)?"""
    if key[0] == 'var':
        return key[1] in names
    if key[0] == 'term':
        return any(n in key[1] for n in names)
    for a in key[1]:
        if a and a[0] == 'z':
            if any(n in a[1] for n in names):
                return True
            continue
        num, den = a
        for m, _ in num:
            if any(_atom_dep(j, names, memo) for j, _ in m):
                return True
        for f, _ in den:
            for m, _ in f:
                if any(_atom_dep(j, names, memo) for j, _ in m):
                    return True
    return False


def mono_term(m):
    r = None
    for i, e in m:
        t = P._atom_term[i]
        if t is None:
            raise Unsupported('summand atom without a term')
        if t.sort().kind() == z3.Z3_INT_SORT:
            t = z3.ToReal(t)
        for _ in range(e):
            r = t if r is None else r * t
    return r if r is not None else z3.RealVal(1)


def poly_term(p):
    r = None
    for m, c in p.items():
        t = z3.RealVal(c) * mono_term(m) if c != 1 or not m else mono_term(m)
        r = t if r is None else r + t
    return r if r is not None else z3.RealVal(0)


def BOUND_NOW():
    return bool(S.BOUND)


def bigsum(dims, g):
    from . import arr as A
    from .arr import bound, count, flat_vars

    idx, cond, e = bound(dims, g)
    names = [v.z.decl().name() for v in flat_vars(idx)]
    if S.is_sym(e) and S.mentions(e.z, S.BOUND):
        raise Unsupported('sum nested in a binder')
    if isinstance(e, (bool, S.SBool)):
        # count of a predicate: cardinality of the masked domain
        from .arr import comp_dim

        if e is True:
            return count(dims)
        if e is False:
            return 0
        return SInt(comp_dim(lambda t: g(_regroup(t, idx)), _parents(dims)).z)
    if not S.is_sym(e):
        c = count(dims)
        return e * (SReal.of(c) if isinstance(e, float) else c)
    isint = isinstance(e, SInt)
    nan = getattr(e, 'nan', False)
    if nan is not False:
        # NaN anywhere in the domain makes the sum NaN: must be excluded by the domain condition
        s = z3.Solver()
        s.set('timeout', 1000)
        s.add(*S.ctx().pc, *cond, S.zb(S.SBool.mk(nan) if nan is not True else True))
        if s.check() != z3.unsat:
            raise Unsupported('sum of possibly NaN data')
    # canonical bound names, so that equal summands have equal keys at any nesting depth
    canon = [f's{k}!' for k in range(len(names))]
    sub = [(z3.Int(a), z3.Int(b)) for a, b in zip(names, canon)]
    z = z3.substitute(e.z, *sub)
    cond = [z3.substitute(S.zb(c), *sub) for c in cond]
    names = canon

    def decide(c):
        s = z3.Solver()
        s.set('timeout', 500)
        s.add(*S.ctx().pc, *cond)
        s.push()
        s.add(z3.Not(c))
        if s.check() == z3.unsat:
            return True
        s.pop()
        s.add(c)
        if s.check() == z3.unsat:
            return False
        return None

    try:
        n = P.Norm(decide)
        r = n.norm(z)
    except (P.NeedSplit, P.TooBig):
        raise Unsupported('summand outside the linear fragment')
    memo = {}
    for f in r.den:
        for m, _ in f:
            if any(_atom_dep(i, names, memo) for i, _ in m):
                raise Unsupported('index dependent denominator in a sum')
    groups = {}
    for m, c in r.num.items():
        dep = tuple((i, e_) for i, e_ in m if _atom_dep(i, names, memo))
        free = tuple((i, e_) for i, e_ in m if not _atom_dep(i, names, memo))
        groups.setdefault(dep, {})[free] = c
    dk = _dom_key(dims)
    total = None
    for dep, coeff in groups.items():
        if dep:
            key = dk + '|' + repr(sorted((_akey(i), e_) for i, e_ in dep))
            sz = z3.Real('SUM!' + hashlib.md5(key.encode()).hexdigest()[:16])
            if A.RECORD is not None:
                A.RECORD[sz.decl().name()] = ('sum', names, cond, mono_term(dep))
            if not BOUND_NOW():
                S.ctx().assume(z3.Implies(SReal.of(count(dims)).z == 0, sz == 0))
        else:
            sz = SReal.of(count(dims)).z
        t = poly_term(coeff) * sz
        total = t if total is None else total + t
    if total is None:
        total = z3.RealVal(0)
    for f, ex in r.den.items():
        for _ in range(ex):
            total = total / poly_term(dict(f))
    return SReal(z3.simplify(total))


def _akey(i):
    """Stable textual key of an atom."""

    def rat(a):
        if a and a[0] == 'z':
            return a
        num, den = a
        return (
            tuple(sorted((tuple(sorted((_akey(j), e) for j, e in m)), str(c)) for m, c in num)),
            tuple(
                sorted(
                    (tuple(sorted((tuple(sorted((_akey(j), e) for j, e in m)), str(c)) for m, c in f)), e2)
                    for f, e2 in den
                )
            ),
        )

    k = P._atom_key[i]
    if k[0] in ('var', 'term'):
        return repr(k)
    return repr((k[0], tuple(rat(a) for a in k[1])))


def _parents(dims):
    from .arr import CompDim, FlatDim

    out = []
    for d in dims:
        if isinstance(d, (CompDim, FlatDim)):
            out.extend(d.parents)
        else:
            out.append(d)
    return tuple(out)


def _regroup(t, idx):
    it = iter(t)
    return tuple(tuple(next(it) for _ in i) if isinstance(i, tuple) else next(it) for i in idx)
