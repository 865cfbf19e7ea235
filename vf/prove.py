"""Discharging obligations: exact identity prover, z3, cvc5."""
from __future__ import annotations

import os
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

from . import numeval as NE

from . import poly as P

CVC5 = '/usr/local/bin/cvc5'


def which(name):
    for d in os.environ.get('PATH', '').split(':') + ['/usr/local/bin', '/usr/bin', '/opt/veriftools/bin']:
        p = os.path.join(d, name)
        if os.path.exists(p):
            return p
    return None


class Res:
    def __init__(self, status, backend='', model=None, note=''):
        self.status, self.backend, self.model, self.note = status, backend, model, note


def _split(goal, hyps, out):
    """Split a goal into (hypotheses, atomic goal)."""
    goal = goal if not z3.is_app(goal) else goal
    if z3.is_and(goal):
        for c in goal.children():
            _split(c, hyps, out)
        return
    if z3.is_or(goal):
        cs = goal.children()
        eqs = [c for c in cs if z3.is_eq(c) and c.arg(0).sort().kind() == z3.Z3_REAL_SORT]
        if len(eqs) >= 1:
            g = eqs[-1]
            rest = [c for c in cs if c is not g and not c.eq(g)]
            _split(g, hyps + [z3.Not(c) for c in rest], out)
            return
    if z3.is_implies(goal):
        _split(goal.arg(1), hyps + [goal.arg(0)], out)
        return
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = [z3.FreshConst(goal.var_sort(i), 'sk') for i in range(goal.num_vars())]
        _split(z3.substitute_vars(goal.body(), *reversed(vs)), hyps, out)
        return
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_ITE:
        _split(goal.arg(1), hyps + [goal.arg(0)], out)
        _split(goal.arg(2), hyps + [z3.Not(goal.arg(0))], out)
        return
    out.append((hyps, goal))


def _solver(ms):
    s = z3.Solver()
    s.set('timeout', int(ms))
    return s


def _entails(hyps, c, ms=300):
    s = _solver(ms)
    s.add(*hyps)
    s.add(z3.Not(c))
    return s.check() == z3.unsat


# ----------------------------------------------------------------------------- identity prover
class Ident:
    """a == b as rational functions under hypotheses, with case splits on if-then-else."""

    def __init__(self, hyps, budget=64, deadline=None):
        self.hyps = hyps
        self.budget = budget
        self.deadline = deadline or time.time() + 20
        self.refuted = False

    def run(self, a, b, extra=()):
        """True: proved; False: a case is a non-identity; None: gave up."""
        if time.time() > self.deadline:
            return None
        dec = {}
        hy = list(self.hyps) + list(extra)
        known = {c.get_id(): True for c in hy}
        keep = list(hy)
        for c in hy:
            if z3.is_not(c):
                known[c.arg(0).get_id()] = False

        def decide(c):
            k = c.get_id()
            if k in known:
                return known[k]
            if k not in dec:
                keep.append(c)
                dec[k] = True if _entails(hy, c) else False if _entails(hy, z3.Not(c)) else None
            return dec[k]

        n = P.Norm(decide)
        try:
            d = P.r_add(n.norm(a), n.norm(b), -1)
        except P.NeedSplit as ns:
            self.budget -= 1
            if self.budget <= 0:
                return None
            r1 = self.run(a, b, tuple(extra) + (ns.cond,))
            if r1 is not True:
                return r1
            return self.run(a, b, tuple(extra) + (z3.Not(ns.cond),))
        except (P.TooBig, ZeroDivisionError):
            return None
        if d.num:
            d = self._apply_eqs(d, n, hy)
        if not d.num:
            # every denominator must be non-zero
            for t in n.dens.values():
                if not self._nonzero(t, hy):
                    return None
            return True
        # maybe the case is infeasible
        if extra and self._infeasible(hy):
            return True
        return False

    def _infeasible(self, hy):
        s = _solver(800)
        s.add(*hy)
        return s.check() == z3.unsat

    def _apply_eqs(self, d, n, hy):
        """Reduce modulo hypotheses that are equalities with a linear leading atom."""
        num = d.num
        for h in hy:
            if not (z3.is_eq(h) and h.arg(0).sort().kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT)):
                continue
            try:
                e = P.r_add(n.norm(h.arg(0)), n.norm(h.arg(1)), -1)
            except Exception:
                continue
            if not e.num or len(e.num) > 60:
                continue
            # find an atom that occurs linearly with a constant coefficient
            lin = None
            for m, c in e.num.items():
                if len(m) == 1 and m[0][1] == 1:
                    i = m[0][0]
                    if all(mm == m or all(j != i for j, _ in mm) for mm in e.num):
                        lin = (i, m, c)
                        if any(i == j for mm in num for j, _ in mm):
                            break
            if not lin:
                continue
            i, m, c = lin
            sub = {mm: -cc / c for mm, cc in e.num.items() if mm != m}
            try:
                num = _subst(num, i, sub)
            except P.TooBig:
                continue
            if not num:
                return P.R0
        return P.Rat(num, d.den)

    def _nonzero(self, t, hy):
        ne = t != 0
        for h in hy:
            if z3.is_not(h) and z3.is_eq(h.arg(0)):
                x, y = h.arg(0).arg(0), h.arg(0).arg(1)
                if (x.eq(t) and _zero(y)) or (y.eq(t) and _zero(x)):
                    return True
            if z3.is_distinct(h) and h.num_args() == 2:
                x, y = h.arg(0), h.arg(1)
                if (x.eq(t) and _zero(y)) or (y.eq(t) and _zero(x)):
                    return True
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_MUL:
            return all(self._nonzero(c, hy) for c in t.children())
        if k == z3.Z3_OP_UMINUS:
            return self._nonzero(t.arg(0), hy)
        # same normal form as a known non-zero term
        if _entails(hy, ne, 1500):
            return True
        n = P.Norm()
        try:
            key = n.norm(t)
            for h in hy:
                e = None
                if z3.is_not(h) and z3.is_eq(h.arg(0)):
                    e = h.arg(0)
                elif z3.is_distinct(h) and h.num_args() == 2:
                    e = h
                if e is None or e.arg(0).sort().kind() not in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT):
                    continue
                d = P.r_add(n.norm(e.arg(0)), n.norm(e.arg(1)), -1)
                # proportional?
                if d.num and set(d.num) == set(key.num):
                    m = next(iter(d.num))
                    q = key.num[m] / d.num[m]
                    if all(key.num[x] == q * d.num[x] for x in d.num):
                        return True
        except Exception:
            pass
        s = _solver(2000)
        s.add(*hy, *lemmas(hy + [ne]))
        s.add(t == 0)
        return s.check() == z3.unsat


def _subst(num, i, sub):
    out = {}
    pw = {0: P.p_const(1)}
    for m, c in num.items():
        e = dict(m).get(i, 0)
        if not e:
            out = P.p_add(out, {m: c})
            continue
        for k in range(1, e + 1):
            if k not in pw:
                pw[k] = P.p_mul(pw[k - 1], sub)
        rest = tuple((j, x) for j, x in m if j != i)
        out = P.p_add(out, P.p_mul({rest: c}, pw[e]))
    return out


def _zero(t):
    return (z3.is_rational_value(t) and P.rat_val(t) == 0) or (z3.is_int_value(t) and t.as_long() == 0)


# ------------------------------------------------------------------------------------ lemmas
def _apps(ts):
    seen, out, st = set(), [], list(ts)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            continue
        if z3.is_app(t):
            out.append(t)
            st.extend(t.children())
    return out


def _closed(t):
    st = [t]
    while st:
        u = st.pop()
        if z3.is_var(u):
            return False
        st.extend(u.children())
    return True


def lemmas(ts):
    """Ground facts about the interpreted functions that occur."""
    out = []
    R = z3.RealSort()
    pi_used = False
    for t in _apps(ts):
        if t.num_args() == 0:
            if t.decl().name() == 'PI':
                pi_used = True
            continue
        if t.decl().kind() != z3.Z3_OP_UNINTERPRETED or not _closed(t):
            continue
        nm = t.decl().name()
        if nm in ('sin', 'cos'):
            a = t.arg(0)
            s, c = z3.Function('sin', R, R)(a), z3.Function('cos', R, R)(a)
            out += [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1]
        elif nm == 'sqrt':
            a = t.arg(0)
            out += [z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)), z3.Implies(a > 0, t > 0)]
        elif nm == 'arctan':
            a = t.arg(0)
            out += [z3.Implies(a > 0, z3.And(t > 0, t < a)), z3.Implies(a == 0, t == 0), z3.Implies(a < 0, t < 0)]
        elif nm == 'rnd32':
            a = t.arg(0)
            out += [
                z3.Implies(
                    z3.And(a == z3.ToReal(z3.ToInt(a)), a <= 16777216, a >= -16777216), t == a
                )
            ]
            out += [z3.Implies(a >= 0, t >= 0), z3.Implies(a <= 0, t <= 0)]
        elif nm == 'log2':
            pass
    if pi_used:
        pi = z3.Real('PI')
        out += [pi > Fraction('3.1415926'), pi < Fraction('3.1415927')]
    return out


# ----------------------------------------------------------------------------------- main entry
def relevant(hyps, goal):
    """Hypotheses connected to the goal through shared symbols (one closure)."""

    def syms(t):
        out = set()
        for u in _apps([t]):
            if u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(u.decl().name())
            elif u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(u.decl().name() + '()')
        return out

    g = syms(goal)
    hs = [(h, syms(h)) for h in hyps]
    keep, changed = set(), True
    while changed:
        changed = False
        for k, (h, s) in enumerate(hs):
            if k not in keep and s & g:
                keep.add(k)
                g |= s
                changed = True
    return [h for k, (h, _) in enumerate(hs) if k in keep]


def prove(hyps, goal, ms=10000, want_model=True, cvc5_ms=20000, retry=True):
    """Validity of hyps => goal.  status: proved | refuted | unknown."""
    t0 = time.time()
    goal = z3.simplify(goal, elim_ite=False) if False else goal
    sg = z3.simplify(goal)
    if z3.is_true(sg):
        return Res('proved', 'simplify')
    parts = []
    _split(goal, [], parts)
    backends = set()
    weak = None
    for hy, g in parts:
        r = _prove1(list(hyps) + hy, g, ms, cvc5_ms, retry)
        if r.status == 'refuted':
            return r
        if r.status != 'proved':
            weak = weak or r
        backends.add(r.backend)
    if weak:
        return weak
    return Res('proved', '+'.join(sorted(b for b in backends if b)))


def _is_var(t):
    return z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED


def solve_eqs(hyps, g):
    """Substitute variables that the hypotheses equate with a number or another variable."""
    out = []
    for h in hyps:
        if z3.is_not(h):
            c = h.arg(0)
            if z3.is_distinct(c) and c.num_args() == 2:
                h = c.arg(0) == c.arg(1)
            elif z3.is_not(c):
                h = c.arg(0)
        elif z3.is_and(h):
            out.extend(h.children())
            continue
        out.append(h)
    hyps = out
    for _ in range(40):
        sub = None
        for h in hyps:
            if z3.is_eq(h) and z3.is_arith(h.arg(0)):
                a, b = h.arg(0), h.arg(1)
                for x, y in ((a, b), (b, a)):
                    if _is_var(x) and not x.eq(y) and (z3.is_rational_value(y) or z3.is_int_value(y) or _is_var(y)):
                        sub = (x, y)
                        break
            if sub:
                break
        if not sub:
            break
        hyps = [z3.substitute(h, sub) for h in hyps]
        g = z3.substitute(g, sub)
    else:
        return hyps, g
    # sin 0, cos 0
    R = z3.RealSort()
    rep = [(z3.Function('sin', R, R)(z3.RealVal(0)), z3.RealVal(0)), (z3.Function('cos', R, R)(z3.RealVal(0)), z3.RealVal(1))]
    return [z3.substitute(h, *rep) for h in hyps if not (z3.is_eq(h) and h.arg(0).eq(h.arg(1)))], z3.substitute(g, *rep)


def _depth(t, memo):
    k = t.get_id()
    if k not in memo:
        memo[k] = 1 + max([_depth(c, memo) for c in t.children()] or [0])
    return memo[k]


def congruent(hyps, g, secs=25):
    """Merge applications of the same function whose arguments are provably equal (identity prover)."""
    end = time.time() + secs
    done = set()
    for _ in range(60):
        apps = [t for t in _apps([g] + list(hyps)) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and _closed(t)]
        memo = {}
        apps.sort(key=lambda t: _depth(t, memo))
        hit = None
        for i, a in enumerate(apps):
            for b in apps[:i]:
                if time.time() > end:
                    return hyps, g
                key = (a.get_id(), b.get_id())
                if not a.decl().eq(b.decl()) or key in done:
                    continue
                done.add(key)
                _keep.extend((a, b))
                ok = True
                for x, y in zip(a.children(), b.children()):
                    if x.eq(y):
                        continue
                    if not z3.is_arith(x) or Ident(hyps, budget=6, deadline=min(end, time.time() + 8)).run(x, y) is not True:
                        ok = False
                        break
                if ok:
                    hit = (a, b)
                    break
            if hit:
                break
        if not hit:
            break
        hyps = [z3.substitute(h, hit) for h in hyps]
        g = z3.substitute(g, hit)
    return hyps, g


_keep = []


def _prove1(hyps, g, ms, cvc5_ms, retry=True):
    if z3.is_true(z3.simplify(g)):
        return Res('proved', 'simplify')
    ident = None
    if z3.is_eq(g) and g.arg(0).sort().kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT):
        h2, g2 = solve_eqs(hyps, g)
        idn = Ident(h2)
        try:
            ident = idn.run(g2.arg(0), g2.arg(1))
        except RecursionError:
            ident = None
        if ident is True:
            return Res('proved', 'identity')
    quant = any(_has_quant(h) for h in hyps)
    if ident is False and not quant:
        ev = NE.search(hyps, g)
        if ev is not None:
            return Res('refuted', 'numeric', None, 'falsified numerically by ' + str({str(k): v for k, v in list(ev.val.items())[:60]}))
    # fast z3 on relevant hypotheses
    rel = relevant(hyps, g)
    qf = [h for h in rel if not _has_quant(h)]
    s = _solver(min(ms, 2500))
    s.add(*qf)
    s.add(z3.Not(g))
    r = s.check()
    if r == z3.unsat:
        return Res('proved', 'z3')
    if not quant:
        h2, g2 = congruent(*solve_eqs(hyps, g))
        if not g2.eq(g):
            if z3.is_true(z3.simplify(g2)):
                return Res('proved', 'identity')
            s = _solver(min(ms, 2500))
            s.add(*[h for h in relevant(h2, g2) if not _has_quant(h)])
            s.add(z3.Not(g2))
            if s.check() == z3.unsat:
                return Res('proved', 'identity+z3')
    lem = lemmas(rel + [g])
    s = _solver(ms)
    s.add(*hyps, *lem)
    s.add(z3.Not(g))
    r = s.check()
    if r == z3.unsat:
        return Res('proved', 'z3')
    if r == z3.sat and not _valid_model(s.model(), hyps, g):
        return Res('unknown', 'z3', None, 'model does not evaluate to a counterexample')
    if r == z3.sat:
        if not NE.has_trans(hyps + [g]):
            return Res('refuted', 'z3', s.model(), 'z3 model')
        # sin, cos, sqrt... are uninterpreted to z3: believe only a numeric counterexample
        ev = NE.search(hyps, g) if not quant else None
        if ev is not None:
            return Res('refuted', 'numeric', s.model(), 'falsified numerically by ' + str({str(k): v for k, v in list(ev.val.items())[:60]}))
        return Res('unknown', 'z3', None, 'model not confirmed numerically')
    if cvc5_ms:
        c = cvc5(hyps + lem, g, cvc5_ms)
        if c == 'unsat':
            return Res('proved', 'cvc5')
    if ident is False:
        return Res('unknown', 'identity', None, 'the two sides differ as rational functions')
    return Res('unknown', 'z3', None, s.reason_unknown())


def _valid_model(m, hyps, g):
    try:
        if not z3.is_false(m.eval(g, model_completion=True)) and not _has_quant(g):
            return False
        return not any(z3.is_false(m.eval(h, model_completion=True)) for h in hyps if not _has_quant(h))
    except z3.Z3Exception:
        return False


def _has_quant(t):
    st, seen = [t], set()
    while st:
        u = st.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            return True
        st.extend(u.children())
    return False


def cvc5(hyps, g, ms):
    exe = which('cvc5')
    if not exe:
        return 'unknown'
    s = z3.Solver()
    s.add(*hyps)
    s.add(z3.Not(g))
    txt = s.to_smt2()
    txt = '(set-logic ALL)\n' + txt
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(
            [exe, f'--tlimit={int(ms)}', '--nl-ext-tplanes', f.name],
            capture_output=True,
            text=True,
            timeout=ms / 1000 + 5,
        )
        out = p.stdout.strip().splitlines()
        return out[0] if out else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(f.name)


def model_value(model, v):
    """Python value of a symbolic scalar in a model."""
    from .sym import SBool, SInt, SReal

    if isinstance(v, SBool):
        return z3.is_true(model.eval(v.z, model_completion=True))
    if isinstance(v, SInt):
        r = model.eval(v.z, model_completion=True)
        return r.as_long() if z3.is_int_value(r) else 0
    if isinstance(v, SReal):
        if v.nan is not False:
            n = v.nan is True or z3.is_true(model.eval(v.nan, model_completion=True))
            if n:
                return float('nan')
        r = model.eval(v.z, model_completion=True)
        if z3.is_rational_value(r):
            return float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
        if z3.is_algebraic_value(r):
            a = r.approx(20)
            return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
        return 0.0
    if isinstance(v, dict):
        return {k: model_value(model, x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(model_value(model, x) for x in v)
    if hasattr(v, 'elems') and v.concrete_shape():
        import numpy as np

        return np.array([model_value(model, e) for e in v.elems()], dtype=v.dtype).reshape(v.shape)
    if hasattr(v, 'elems'):
        return None
    return v
