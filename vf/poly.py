"""Exact normal forms of z3 real / integer terms: rational functions over canonical atoms.

``norm(t)`` maps a term to ``Rat`` (a polynomial numerator over a multiset of polynomial
denominators).  Atoms are variables and uninterpreted applications, keyed by the normal forms of their
arguments.  sin(t)**2 is rewritten to 1 - cos(t)**2 and sqrt(t)**2 to t.
"""
from __future__ import annotations

from fractions import Fraction

import z3


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class TooBig(Exception):
    pass


LIMIT = 60000
F0, F1 = Fraction(0), Fraction(1)

_atoms = {}  # key -> id
_atom_key = []  # id -> key
_atom_term = []  # id -> z3 term (representative)


def atom(key, term):
    i = _atoms.get(key)
    if i is None:
        i = _atoms[key] = len(_atom_key)
        _atom_key.append(key)
        _atom_term.append(term)
    return i


# polynomials: dict monomial -> Fraction ; monomial = tuple of (atom id, exponent) sorted
def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_atom(i):
    return {((i, 1),): F1}


def p_add(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, F0) + (c if s == 1 else -c)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for i, e in n:
        d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > LIMIT * 20:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, F0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig()
    return p_reduce(r)


def p_pow(a, n):
    r = p_const(1)
    for _ in range(n):
        r = p_mul(r, a)
    return r


def p_reduce(p):
    """sin**2 -> 1 - cos**2, sqrt(t)**2 -> t (t polynomial)."""
    while True:
        hit = None
        for m in p:
            for i, e in m:
                k = _atom_key[i]
                if e >= 2 and k[0] in ('sin', 'sqrt') and (k[0] == 'sin' or not k[1][0][1]):
                    hit = (m, i, e, k)
                    break
            if hit:
                break
        if not hit:
            return p
        m, i, e, k = hit
        p = dict(p)
        c = p.pop(m)
        rest = tuple((j, x) for j, x in m if j != i)
        if e - 2:
            rest = m_mul(rest, ((i, e - 2),))
        if k[0] == 'sin':
            ci = atom(('cos', k[1]), None)
            sub = {(): F1, ((ci, 2),): -F1}
        else:
            sub = dict(k[1][0][0])
        for n, d in sub.items():
            mm = m_mul(rest, n)
            v = p.get(mm, F0) + c * d
            if v:
                p[mm] = v
            else:
                p.pop(mm, None)


def p_key(p):
    return tuple(sorted(p.items()))


def p_monic(p):
    """(leading coefficient, monic polynomial)."""
    lead = p[max(p)]
    if lead == 1:
        return F1, p
    return lead, {m: c / lead for m, c in p.items()}


class Rat:
    """num / prod(f ** e for f, e in den)."""

    __slots__ = ('num', 'den')

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}

    def key(self):
        return (p_key(self.num), tuple(sorted(self.den.items())))


R0 = Rat({})
R1 = Rat(p_const(1))


def _den_poly(den):
    r = p_const(1)
    for k, e in den.items():
        r = p_mul(r, p_pow(dict(k), e))
    return r


def r_add(a, b, s=1):
    if a.den == b.den:
        num = p_add(a.num, b.num, s)
        return Rat(num, a.den if num else {})
    lcm = dict(a.den)
    for k, e in b.den.items():
        lcm[k] = max(lcm.get(k, 0), e)
    fa = {k: e - a.den.get(k, 0) for k, e in lcm.items() if e > a.den.get(k, 0)}
    fb = {k: e - b.den.get(k, 0) for k, e in lcm.items() if e > b.den.get(k, 0)}
    num = p_add(p_mul(a.num, _den_poly(fa)), p_mul(b.num, _den_poly(fb)), s)
    return cancel(Rat(num, lcm if num else {}))


def cancel(r):
    """Cancel denominators that equal the numerator (cheap special case) or are atoms dividing it."""
    if not r.den or not r.num:
        return r if r.num else R0
    num, den = r.num, dict(r.den)
    for k in list(den):
        f = dict(k)
        if len(f) == 1:
            (m, c), = f.items()
            if len(m) == 1 and m[0][1] == 1:
                i = m[0][0]
                while den.get(k, 0) and all(any(j == i for j, _ in mm) for mm in num):
                    num = {
                        tuple((j, x - (j == i)) for j, x in mm if not (j == i and x == 1)): cc
                        for mm, cc in num.items()
                    }
                    den[k] -= 1
                    if not den[k]:
                        del den[k]
        else:
            while den.get(k, 0) and len(num) >= len(f):
                q = p_div(num, f)
                if q is None:
                    break
                num = q
                den[k] -= 1
                if not den[k]:
                    del den[k]
    return Rat(num, den)


def _deg(m):
    return sum(e for _, e in m)


def p_div(a, b):
    """Exact quotient or None (bounded effort)."""
    if len(a) > 4000 or len(b) > 400:
        return None
    mb = max(b)
    cb = b[mb]
    db = dict(mb)
    r, q = dict(a), {}
    steps = 0
    while r:
        steps += 1
        if steps > 800:
            return None
        mr = max(r)
        dr = dict(mr)
        for i, e in db.items():
            if dr.get(i, 0) < e:
                return None
            dr[i] -= e
        t = tuple(sorted((i, e) for i, e in dr.items() if e))
        c = r[mr] / cb
        q[t] = q.get(t, F0) + c
        for m, d in b.items():
            mm = m_mul(t, m)
            v = r.get(mm, F0) - c * d
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
        if max(r, default=None) == mr:
            return None
    return p_reduce(q)


def r_mul(a, b):
    if not a.num or not b.num:
        return R0
    num = p_mul(a.num, b.num)
    den = dict(a.den)
    for k, e in b.den.items():
        den[k] = den.get(k, 0) + e
    return cancel(Rat(num, den)) if den else Rat(num)


def r_inv(a):
    if not a.num:
        raise ZeroDivisionError
    num = _den_poly(a.den)
    # split a single-monomial numerator into its atoms
    if len(a.num) == 1:
        (m, c), = a.num.items()
        den = {}
        for i, e in m:
            den[p_key(p_atom(i))] = e
        return cancel(Rat({k: v / c for k, v in num.items()}, den))
    lead, mon = p_monic(a.num)
    return cancel(Rat({k: v / lead for k, v in num.items()}, {p_key(mon): 1}))


def rat_val(t):
    return Fraction(t.numerator_as_long(), t.denominator_as_long())


class Norm:
    """Normaliser with a memo and a decision oracle for if-then-else conditions."""

    def __init__(self, decide=None):
        self.memo = {}
        self.decide = decide or (lambda c: None)
        self.dens = {}  # denominators seen: key -> z3 term
        self.keep = []

    def norm(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self._norm(t)
            self.memo[k] = r
            self.keep.append(t)
        return r

    def _norm(self, t):
        if z3.is_rational_value(t):
            return Rat(p_const(rat_val(t)))
        if z3.is_int_value(t):
            return Rat(p_const(t.as_long()))
        if not z3.is_app(t):
            raise TooBig()
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = R0
            for c in t.children():
                r = r_add(r, self.norm(c))
            return r
        if k == z3.Z3_OP_SUB:
            cs = t.children()
            r = self.norm(cs[0])
            for c in cs[1:]:
                r = r_add(r, self.norm(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return r_add(R0, self.norm(t.arg(0)), -1)
        if k == z3.Z3_OP_MUL:
            r = R1
            for c in t.children():
                r = r_mul(r, self.norm(c))
            return r
        if k == z3.Z3_OP_DIV:
            d = self.norm(t.arg(1))
            if not d.num:
                return self._atom(t)
            if not (len(d.num) == 1 and () in d.num and not d.den):
                self.dens[d.key()] = t.arg(1)
            return r_mul(self.norm(t.arg(0)), r_inv(d))
        if k == z3.Z3_OP_POWER:
            e = t.arg(1)
            if z3.is_rational_value(e) or z3.is_int_value(e):
                n = rat_val(e) if z3.is_rational_value(e) else e.as_long()
                if n == int(n) and 0 <= n <= 12:
                    r = R1
                    for _ in range(int(n)):
                        r = r_mul(r, self.norm(t.arg(0)))
                    return r
            return self._atom(t)
        if k == z3.Z3_OP_TO_REAL:
            return self.norm(t.arg(0))
        if k == z3.Z3_OP_ITE:
            c = z3.simplify(t.arg(0))
            v = True if z3.is_true(c) else False if z3.is_false(c) else self.decide(c)
            if v is None:
                a, b = self.norm(t.arg(1)), self.norm(t.arg(2))
                if a.key() == b.key():
                    return a
                raise NeedSplit(c)
            return self.norm(t.arg(1) if v else t.arg(2))
        return self._atom(t)

    def _atom(self, t):
        d = t.decl()
        if t.num_args() == 0:
            return Rat(p_atom(atom(('var', d.name(), str(t.sort())), t)))
        if d.kind() == z3.Z3_OP_UNINTERPRETED or d.kind() in (
            z3.Z3_OP_IDIV,
            z3.Z3_OP_MOD,
            z3.Z3_OP_TO_INT,
            z3.Z3_OP_DIV,
            z3.Z3_OP_POWER,
        ):
            args = []
            for a in t.children():
                if a.sort().kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT):
                    args.append(self.norm(a).key())
                else:
                    args.append(('z', z3.simplify(a).sexpr()))
            return Rat(p_atom(atom((d.name(), tuple(args)), t)))
        return Rat(p_atom(atom(('term', t.sexpr()), t)))
