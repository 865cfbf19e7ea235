"""Run the contract cases and the run-time contract checks of one property; write its evidence."""
from __future__ import annotations

import ast
import inspect
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')


TRUSTED = [
    'vf/sym.py, vf/arr.py: semantics given to Python scalar and numpy array operations (cross-checked against CPython/numpy by vf/selftest.py)',
    'vf/poly.py, vf/bigsum.py: exact rational-function and finite-sum identity prover',
    'z3, cvc5',
    'vf/shims.py: contracts of library calls (cv2, rasterio.warp, numpy.linalg), see assumptions',
]


class Fail(Exception):
    """The real code, run on concrete inputs, breaks the contract."""

    def __init__(self, msg, data=None, key=None):
        Exception.__init__(self, msg)
        self.data, self.key = data, key


class Skip(Exception):
    """The generated input is outside the precondition."""


class Prop:
    def __init__(self, pid):
        self.id = pid
        self.cases, self.fuzzes = [], []
        self.assumptions, self.functions = [], []

    def case(self, name, fns=(), bound=None, expect=None, replay=None, max_secs=150, ms=8000, max_paths=3000,
             tier='quick', fork_ms=400, cvc5_ms=8000, soft=False):
        def deco(f):
            self.cases.append(
                dict(name=name, fn=f, fns=list(fns), bound=bound, expect=expect, replay=replay,
                     max_secs=max_secs, ms=ms, max_paths=max_paths, tier=tier, fork_ms=fork_ms, cvc5_ms=cvc5_ms, soft=soft)
            )
            return f

        return deco

    def fuzz(self, name, n=200, thorough=None, secs=60, fns=()):
        def deco(f):
            self.fuzzes.append(dict(name=name, fn=f, n=n, thorough=thorough or n * 10, secs=secs, fns=list(fns)))
            return f

        return deco

    @property
    def level(self):
        """'proof' only where at least one contract case has no bound."""
        return 'proof' if any(not c['bound'] for c in self.cases) else 'other'

    def level_note(self):
        unb = sum(not c['bound'] for c in self.cases)
        b = len(self.cases) - unb
        n = f'{unb} contract cases unbounded, {b} bounded stand-ins (bounds in the evidence file), {len(self.fuzzes)} run-time contract checks; see DESIGN.md'
        return n if self.level == 'proof' else 'deductive checks within stated bounds only, nothing counted as proved: ' + n

    def assume(self, *texts):
        self.assumptions.extend(texts)


# --------------------------------------------------------------------------------------- helpers
def real():
    """The real package, imported from the working tree."""
    import importlib

    warnings.simplefilter('ignore')

    class R:
        def __getattr__(self, n):
            return importlib.import_module('orthority.' + n)

    return R()


def call(fn, *a, allow_=(), **k):
    """Call the code under test: an exception (other than allow_) is a contract failure."""
    try:
        return fn(*a, **k)
    except (Fail, Skip, *allow_):
        raise
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        if len(tb) == 1 and isinstance(ex, TypeError) and getattr(fn, '__name__', '').startswith('_'):
            raise   # an internal function with another signature
        where = next((f'{os.path.basename(t.filename)}:{t.name}' for t in reversed(tb) if '/orthority/' in t.filename), '')
        raise Fail(f'{getattr(fn, "__qualname__", fn)} raised {type(ex).__name__}: {str(ex)[:200]} (in {where})', key=f'exc:{where}:{type(ex).__name__}')


def literals(*modules):
    """Numeric literals of the current source: the dictionary for input generation."""
    out = set()
    for m in modules:
        p = os.path.join(REPO, 'orthority', m + '.py')
        try:
            tree = ast.parse(open(p).read())
        except Exception:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                out.add(n.value)
    return sorted(out)


# ------------------------------------------------------------------------------------- child jobs
def _case_job(prop, case, tier, seed):
    from . import prove as PV
    from . import sym as S
    from .loader import Loader

    warnings.simplefilter('ignore')
    t0 = time.time()
    X = S.Explorer(max_paths=case['max_paths'], max_secs=case['max_secs'] * 0.5, fork_ms=case['fork_ms'])
    L = Loader()

    def body():
        try:
            case['fn'](L, X)
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            if X.pc and PV.prove(list(X.pc), PV.z3.BoolVal(False), ms=6000, cvc5_ms=6000).status == 'proved':
                return  # the path is infeasible
            X.errors.append((X.paths, type(ex).__name__, str(ex)[:300],
                             ' < '.join(f'{os.path.basename(t.filename)}:{t.lineno}:{t.name}' for t in reversed(tb))[:600],
                             list(X.pc), dict(X.inputs)))

    X.explore(body)
    res = []
    reach = {}
    unk = []
    for ob in X.obligations:
        if time.time() - t0 > case['max_secs']:
            res.append(dict(name=ob.name, status='unknown', backend='', secs=0, note='time budget', path=ob.path))
            continue
        t = time.time()
        r = PV.prove(ob.pc, ob.goal, ms=case['ms'], cvc5_ms=case['cvc5_ms'])
        e = dict(name=ob.name, status=r.status, backend=r.backend, secs=round(time.time() - t, 4), note=r.note, path=ob.path)
        if r.status == 'unknown':
            unk.append((ob, e))
        if r.status in ('refuted', 'unknown'):
            e['goal'] = str(ob.goal)[:1500]
            e['pc'] = [str(c)[:400] for c in ob.pc][:40]
            if r.model is not None:
                e['inputs'] = {}
                for k, v in ob.inputs.items():
                    try:
                        e['inputs'][k] = PV.model_value(r.model, v)
                    except BaseException as ex:
                        e['inputs'][k] = None
                e['model'] = str(r.model)[:1500]
            if case['replay'] is not None and r.model is not None:
                try:
                    msg = case['replay'](real(), e['inputs'])
                    e['replayed'] = msg
                except Fail as f:
                    e['replayed'] = str(f)
                    e['key'] = f.key
                except Skip:
                    pass
                except BaseException as ex:
                    e['replay_error'] = f'{type(ex).__name__}: {ex}'[:300]
        res.append(e)
        # vacuity: some path that states this obligation is reachable
        if ob.name not in reach:
            s = PV._solver(1500)
            s.add(*ob.pc)
            if s.check() != PV.z3.unsat:
                reach[ob.name] = True
    # obligations that no back end decided: once more with four times the time
    failed = 0
    for ob, e in unk:
        if failed >= 2 or time.time() - t0 > case['max_secs'] * 2:
            break
        t = time.time()
        r = PV.prove(ob.pc, ob.goal, ms=case['ms'] * 4, cvc5_ms=case['cvc5_ms'] * 4)
        e.update(secs=round(e['secs'] + time.time() - t, 4), final=r.status != 'proved')
        failed += r.status != 'proved'
        if r.status == 'proved':
            e.update(status=r.status, backend=r.backend)
    for e in res:
        e['inputs'] = {k: _js(v) for k, v in e.get('inputs', {}).items()}
    return dict(
        case=case['name'], paths=X.paths, obligations=res, unsupported=[str(u)[:300] for u in X.unsupported][:20],
        errors=[e[:4] for e in X.errors][:10], raised=_raised(X, PV), reach=sorted(reach), secs=round(time.time() - t0, 2),
        fork_secs=round(X.solver_secs, 2),
    )


def _raised(X, PV):
    """Errors raised by a raise statement of the code under verification, where the contract allows none."""
    out = []
    for _, typ, msg, where, pc, _ in X.errors:
        f, line, fn = (where.split(' < ')[0].split(':') + ['', ''])[:3]
        p = os.path.join(REPO, 'orthority', f)
        if not os.path.exists(p):
            continue
        src = open(p).read().split('\n')
        k = int(line) - 1
        if not src[k].strip().startswith('raise '):
            continue
        s = PV._solver(3000)
        s.add(*pc)
        if s.check() == PV.z3.sat or not pc:
            out.append(f'{f}:{fn} raises {typ}: {msg[:150]}')
    return out[:3]


def _js(v):
    try:
        json.dumps(v)
        return v
    except Exception:
        return repr(v)[:2000]


def _fuzz_job(prop, fz, tier, seed, only=None):
    warnings.simplefilter('ignore')
    n = fz['n'] if tier == 'quick' else fz['thorough']
    secs = fz['secs'] if tier == 'quick' else fz['secs'] * 6
    R = real()
    t0 = time.time()
    done = skipped = 0
    herr = []
    fails = []
    it = [only] if only is not None else range(n)
    for i in it:
        if time.time() - t0 > secs:
            break
        rng = random.Random(f'{prop.id}/{fz["name"]}/{seed}/{i}')
        try:
            fz['fn'](R, rng, i)
            done += 1
        except Skip:
            skipped += 1
        except Fail as f:
            done += 1
            fails.append(dict(fuzz=fz['name'], i=i, seed=seed, msg=str(f)[:1500], data=_js(f.data), key=f.key))
            if len(fails) >= 3 and not all(_known(prop, x) for x in fails):
                break
            if len(fails) >= 40:
                break
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            at = [t for t in tb if t.filename.startswith(os.path.join(REPO, 'orthority'))]
            if at:
                # the code under verification fails on what it returned earlier
                where = f'{os.path.basename(at[-1].filename)}:{at[-1].name}'
                done += 1
                fails.append(dict(fuzz=fz['name'], i=i, seed=seed, msg=f'{where} raised {type(ex).__name__}: {str(ex)[:200]}', data=None, key=f'exc:{where}:{type(ex).__name__}'))
                if len(fails) >= 3 and not all(_known(prop, x) for x in fails):
                    break
                continue
            herr.append(f'{i}: {type(ex).__name__}: {str(ex)[:200]} ' + ' < '.join(
                f'{os.path.basename(t.filename)}:{t.lineno}' for t in reversed(traceback.extract_tb(ex.__traceback__)))[:300])
            if len(herr) > 20:
                break
    return dict(fuzz=fz['name'], done=done, skipped=skipped, harness_errors=herr[:5], n_harness_errors=len(herr), fails=fails,
                secs=round(time.time() - t0, 2))


def _child(conn, fn, args):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    os.setpgrp()
    try:
        out = fn(*args)
    except BaseException as ex:
        out = dict(crash=f'{type(ex).__name__}: {ex}'[:400] + ' ' + traceback.format_exc()[-1200:])
    try:
        conn.send(out)
    except Exception as ex:
        conn.send(dict(crash=f'unsendable result: {ex}'))
    conn.close()
    sys.stdout.flush()
    os._exit(0)


def _stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)   # with its solvers
    except (ProcessLookupError, PermissionError):
        p.kill()
    p.join(5)


def run_jobs(jobs, nproc=8, total=None, enough=None):
    """jobs: (name, fn, args, wall).  Forked, with a wall limit each, and one for all of them."""
    end = time.time() + total if total else None
    mpx = mp.get_context('fork')
    pend, run, out = list(jobs), [], {}
    while pend or run:
        if end and time.time() > end or enough and enough(out):
            why = 'wall limit' if end and time.time() > end else 'not needed'
            for name, p, a, dl in run:
                _stop(p)
                out.setdefault(name, dict(crash=why))
            for j in pend:
                out[j[0]] = dict(crash=why)
            break
        while pend and len(run) < nproc:
            name, fn, args, wall = pend.pop(0)
            a, b = mpx.Pipe(False)
            p = mpx.Process(target=_child, args=(b, fn, args))
            p.start()
            b.close()
            run.append([name, p, a, time.time() + wall])
        mp.connection.wait([r[2] for r in run], timeout=0.2)
        for r in list(run):
            name, p, a, dl = r
            if a.poll():
                try:
                    out[name] = a.recv()
                except EOFError:
                    out[name] = dict(crash='died')
                p.join(5)
                run.remove(r)
            elif not p.is_alive():
                out[name] = out.get(name) or dict(crash='died')
                run.remove(r)
            elif time.time() > dl:
                _stop(p)
                out[name] = dict(crash='wall limit')
                run.remove(r)
    return out


# ------------------------------------------------------------------------------------ known findings
def known_findings():
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                head, _, desc = line[7:].partition(' :: ')
                d = dict(t.split('=', 1) for t in head.split())
                out.append((d['property'], d['key'], desc))
    return out


def _known(prop, f):
    return any(p == prop.id and f.get('key') == k for p, k, _ in known_findings())


# ----------------------------------------------------------------------------------------- driver
def run(prop, tier='quick', seed=1, verbose=False, only=None, nproc=8):
    t0 = time.time()
    jobs = []
    for fz in prop.fuzzes:
        if only and only not in fz['name']:
            continue
        jobs.append((('fuzz', fz['name']), _fuzz_job, (prop, fz, tier, seed), fz['secs'] * (1 if tier == 'quick' else 6) + 60))
    for c in prop.cases:
        if c['tier'] == 'thorough' and tier == 'quick':
            continue
        if only and only not in c['name']:
            continue
        c = dict(c)
        if tier == 'thorough':
            c['ms'], c['max_secs'], c['cvc5_ms'] = c['ms'] * 4, c['max_secs'] * 3, c['cvc5_ms'] * 4
        jobs.append((('case', c['name']), _case_job, (prop, c, tier, seed), c['max_secs'] * 2 + 120))

    def enough(out):
        """A failing input was found: nothing more is needed for the answer."""
        return any(not _known(prop, dict(kind='runtime', **f)) for o in out.values() for f in o.get('fails', ()))

    out = run_jobs(jobs, nproc, 780 if tier == 'quick' else None, enough)
    violations, undecided, weak = [], [], []
    n_ob = n_dis = b_ob = b_dis = 0
    backends, solver_secs = {}, 0.0
    cases_ev, fuzz_ev = [], []
    bounded = []
    for c in prop.cases:
        o = out.get(('case', c['name']))
        if o is None:
            continue
        if 'crash' in o:
            undecided.append(dict(case=c['name'], reason=o['crash'][:300]))
            cases_ev.append(dict(case=c['name'], functions=c['fns'], status='undecided', reason=o['crash'][:300]))
            continue
        names = {e['name'] for e in o['obligations']}
        incomplete = bool(o['unsupported'] or o['errors'])
        missing = [x for x in (c['expect'] or []) if x not in names]
        unreach = [x for x in names if x not in o['reach']]
        dis = [e for e in o['obligations'] if e['status'] == 'proved']
        bad = [e for e in o['obligations'] if e['status'] == 'refuted']
        unk = [e for e in o['obligations'] if e['status'] == 'unknown']
        for e in o['obligations']:
            solver_secs += e['secs']
        for e in dis:
            backends[e['backend']] = backends.get(e['backend'], 0) + 1
        solver_secs += o['fork_secs']
        if c['bound']:
            b_ob += len(o['obligations'])
            b_dis += len(dis)
        else:
            n_ob += len(o['obligations'])
            n_dis += len(dis)
        for e in bad:
            v = dict(kind='obligation', case=c['name'], obligation=e['name'], detail=e, key=e.get('key'))
            if e.get('replayed'):
                v['replayed'] = True
                violations.append(v)
            elif c['soft']:
                # an argument about the present form of the code, not a specification of its behaviour
                unk.append(e)
            else:
                weak.append((v, incomplete))
        if not c['soft']:
            # not accepted by the verifier, although all of the case could be executed
            fin = [e for e in unk if e.get('final')]
            if fin and not incomplete:
                weak.append((dict(kind='obligation', case=c['name'], obligation=fin[0]['name'], detail=dict(fin[0], note='not discharged by any back end'), key=None), incomplete))
            for r in o['raised'][:1]:
                weak.append((dict(kind='obligation', case=c['name'], obligation='no error', detail=dict(note=r), key=None), incomplete))
        if not o['obligations'] or incomplete or missing or unk or unreach:
            undecided.append(dict(case=c['name'], unsupported=o['unsupported'][:4], errors=o['errors'][:3], missing=missing,
                                  unknown=sorted({e['name'] for e in unk}), unreachable=unreach,
                                  empty=not o['obligations']))
        if c['bound']:
            bounded.append(f"{c['name']}: {c['bound']}")
        st = 'refuted' if bad else 'undecided' if (not o['obligations'] or incomplete or missing or unk) else ('bounded' if c['bound'] else 'proved')
        cases_ev.append(dict(case=c['name'], functions=c['fns'], status=st, bound=c['bound'], paths=o['paths'],
                             obligations=len(o['obligations']), discharged=len(dis), secs=o['secs'],
                             names=sorted(names)))
    for fz in prop.fuzzes:
        o = out.get(('fuzz', fz['name']))
        if o is None:
            continue
        if 'crash' in o:
            undecided.append(dict(fuzz=fz['name'], reason=o['crash'][:300]))
            fuzz_ev.append(dict(check=fz['name'], status='undecided', reason=o['crash'][:300]))
            continue
        if o['n_harness_errors'] or not o['done']:
            undecided.append(dict(fuzz=fz['name'], harness_errors=o['harness_errors'], done=o['done']))
        fuzz_ev.append(dict(check=fz['name'], functions=fz['fns'], inputs=o['done'], skipped=o['skipped'], secs=o['secs'],
                            harness_errors=o['n_harness_errors'], failures=len(o['fails'])))
        for f in o['fails']:
            violations.append(dict(kind='runtime', **f))
    known_hit = []
    real_v = []
    for v in violations:
        if _known(prop, v):
            known_hit.append(v)
        else:
            real_v.append(v)
    # refuted obligations without a replayed input: reported last
    nfi = False
    if not real_v:
        solid = [v for v, inc in weak if not _known(prop, v)]
        if solid:
            real_v = solid
            nfi = True
    for p, k, desc in known_findings():
        if p == prop.id:
            print(f'KNOWN-FINDING: property={p} {desc}')
    ev = dict(
        property=prop.id, tier=tier, seed=int(seed), level=prop.level,
        coverage=dict(
            obligations=n_ob, discharged=n_dis, bounded_obligations=b_ob, bounded_discharged=b_dis,
            explanation='obligations/discharged: generated from the current source for all inputs and all iterations; '
                        'bounded_*: generated and discharged the same way, but within the bounds listed under "bounded" (not counted as proved); '
                        'runtime_contract_checks: the same contracts evaluated on executions of the real code (never counted as proved)',
            checker_cmd=f'/opt/venv/bin/python -B {VERIF}/check.py {prop.id} --tier {tier}',
            trusted_base=TRUSTED,
            evaluations=sum(f.get('inputs', 0) for f in fuzz_ev),
            functions_under_contract=sorted({f for c in prop.cases for f in c['fns']} | {f for c in prop.fuzzes for f in c['fns']}),
            cases=cases_ev, runtime_contract_checks=fuzz_ev, back_ends=backends, solver_secs=round(solver_secs, 2),
            bounded=bounded, undecided=undecided,
        ),
        assumptions=list(prop.assumptions), wall_s=round(time.time() - t0, 2), violations=len(real_v),
    )
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, 'evidence', f'{prop.id}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
    if verbose:
        for c in cases_ev:
            print({k: v for k, v in c.items() if k not in ('names', 'functions')})
        for c in fuzz_ev:
            print({k: v for k, v in c.items() if k != 'functions'})
        print('UNDECIDED:', *[json.dumps(u, default=repr)[:900] for u in undecided], sep='\n  ') if undecided else None
        for v, inc in weak:
            print('WEAK', v['case'], v['obligation'], v['detail'].get('note'), str(v['detail'].get('inputs'))[:300], ' '.join(v['detail'].get('goal', '').split())[:200])
    print(f'{prop.id}: {n_dis}/{n_ob} obligations discharged, {b_dis}/{b_ob} bounded, {sum(f.get("inputs", 0) for f in fuzz_ev)} run-time checks, '
          f'{len(undecided)} undecided, {time.time() - t0:.1f}s')
    if real_v:
        rp = os.path.join(VERIF, 'evidence', f'replay-{prop.id}.json')
        with open(rp, 'w') as f:
            json.dump(dict(property=prop.id, tier=tier, seed=seed, failing_input=not nfi,
                           rerun=f'/opt/venv/bin/python -B {VERIF}/check.py {prop.id} --tier {tier} --seed {seed}',
                           violations=real_v[:10]), f, indent=1, default=repr)
        for v in real_v[:5]:
            print('  ', v.get('msg') or f"{v['case']}/{v['obligation']}: {v['detail'].get('replayed') or v['detail'].get('note')}")
        print(f'VIOLATION property={prop.id} replay={rp}' + (' no-failing-input-found' if nfi else ''))
        return 1
    if n_ob + b_ob + sum(f.get('inputs', 0) for f in fuzz_ev) == 0:
        print('no obligation was generated')
        return 3
    return 0
