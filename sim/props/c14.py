"""C14: robust optimisation retries until success and reports honestly."""
import contextlib
import io
import random
import warnings

import numpy as np
import scipy.optimize
import iminuit
import flavio
import flavio.math.optimize as fo
from .. import core, world

ID = 'C14'
TIERS = {'quick': dict(runs=200000, seconds=30), 'thorough': dict(runs=5000000, seconds=600)}
SHRINK_LISTS = ('script',)
RULE = ('a case is one call of minimize_robust or maximize_robust (1-4 dimensions, several objectives, method lists, '
        'rounds, options) in which the k-th attempt of the underlying optimiser converges, is cut off by its iteration limit, '
        'or ends unconverged at a given better or worse point, and the objective may raise at its k-th call. Attempts, start '
        'points and the result are compared with the retry rule. Non-trivial: at least two attempts. Distinct by scenario hash.')
STEP = 'attempts'
STATE_MEASURE = 'hash of (sequence of attempt outcomes, methods, rounds, how the call ended)'
REAL = ['flavio.math.optimize', 'scipy.optimize and iminuit (attempts that are not scripted)']
STUB = ['convergence of the underlying optimiser (scripted attempts)', 'errors of the objective']
ASSUMPTIONS = ['iminuit is installed']


def objective(kind, n, par):
    c = np.array(par[:n])

    def f(x, shift=0., scale=1.):
        x = np.asarray(x, dtype=float)
        if np.max(np.abs(x)) > 1e6:
            return UNDEFINED[0]
        d = x - c - shift
        if kind == 'quad':
            v = np.sum(np.arange(1, n + 1) * d**2)
        elif kind == 'quartic':
            v = np.sum(d**4) + 0.1 * np.sum(d**2)
        elif kind == 'rosen':
            v = (1 - d[0])**2 + (sum(100 * (d[i + 1] - d[i]**2)**2 for i in range(n - 1)) if n > 1 else 0.)
        elif kind == 'abs':
            v = np.sum(np.abs(d))
        else:
            v = -np.exp(-0.5 * np.sum(d**2)) + 1e-3 * np.sum(d**2)
        return float(scale * v + 7.)
    return f


UNDEFINED = [float('nan')]


class Fault(Exception):
    pass


def generate(rng, idx, tier):
    n = rng.choice([1, 2, 2, 3, 4])
    pool = ['SLSQP', 'MIGRAD', 'BFGS', 'Nelder-Mead', 'Powell', 'L-BFGS-B', 'CG']
    methods = None if rng.random() < 0.25 else [rng.choice(pool) for _ in range(rng.randint(1, 4))]
    script = []
    for _ in range(rng.randint(0, 12)):
        k = rng.choice(['limit', 'limit', 'end', 'end', 'end', 'real', 'done', 'away'])
        script.append([k, rng.choice([1, 1, 2, 3, 5]), [round(rng.uniform(-1, 1), 3) for _ in range(n)], rng.choice([0.2, 0.7, 0.95, 1., 1.5, 3.])])
    sc = dict(fun=rng.choice(['quad', 'quartic', 'rosen', 'abs', 'gauss']), n=n, par=[round(rng.uniform(-2, 2), 2) for _ in range(4)],
              x0=[round(rng.uniform(-3, 3), 2) for _ in range(n)], form=rng.choice(['list', 'array', 'array', 'tuple', 'ints']), maximize=rng.random() < 0.5,
              args=rng.choice([[], [], [0.5], [-0.3, 2.]]), methods=methods, mform=rng.choice(['tuple', 'list']), tries=rng.choice([None, 1, 2, 3, 5]),
              disp=rng.random() < 0.3, script=script, limit=rng.choice([None, None, None, 1, 2, 5]), error=None,
              undefined=rng.choice(['nan', 'nan', 'inf']))
    if sc['form'] == 'ints':
        sc['x0'] = [int(round(x)) for x in sc['x0']]
    if rng.random() < 0.2:
        sc['error'] = [rng.choice([0, 1, 2, 5, rng.randrange(60)]), rng.choice(['Fault', 'ValueError', 'KeyboardInterrupt', 'ZeroDivisionError', 'OverflowError'])]
    return sc


def execute(sc, ctx):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    n = sc['n']
    UNDEFINED[0] = float(sc.get('undefined', 'nan'))
    base = objective(sc['fun'], n, sc['par'])
    calls = [0]
    errors = {'Fault': Fault, 'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt, 'ZeroDivisionError': ZeroDivisionError,
              'OverflowError': OverflowError}
    raised = []

    def fun(x, *args):
        k = calls[0]
        calls[0] += 1
        if sc['error'] and k == sc['error'][0]:
            ctx.fault('objective:' + sc['error'][1])
            raised.append(errors[sc['error'][1]]('from the objective'))
            raise raised[-1]
        return base(x, *args)

    x0 = {'list': list, 'array': np.array, 'tuple': tuple, 'ints': list}[sc['form']](sc['x0'])
    args = tuple(sc['args'])
    attempts = []                          # method, start, success, x, fun (as minimised)
    script = iter(sc['script'])
    real_minimize, real_minuit = scipy.optimize.minimize, iminuit.Minuit
    inside = [False]

    def scripted(f, start, p):
        """An attempt that ends at a given point."""
        best = np.asarray(sc['par'][:n])
        if p[0] == 'away':
            x = best + 1e8 * (1 + np.abs(p[2]))
            return scipy.optimize.OptimizeResult(x=x, fun=f(x), success=False, status=2, message='scripted', nfev=1, nit=1)
        x = best + p[3] * (np.asarray(start, dtype=float) - best) + (0.1 * np.asarray(p[2]) if p[3] > 1 else 0.)
        r = scipy.optimize.OptimizeResult(x=x, fun=f(x), success=p[0] == 'done', status=1, message='scripted', nfev=1, nit=1)
        return r

    def minimize(f, x_start, args=(), method=None, *a, options=None, **kw):
        if inside[0]:
            return real_minimize(f, x_start, args, method, *a, options=options, **kw)
        p = next(script, ['real'])
        start = np.array(x_start, dtype=float)
        inside[0] = True
        try:
            if p[0] in ('end', 'done', 'away'):
                r = scripted(lambda x: f(x, *args), start, p)
            else:
                options = dict(options or {})
                options['disp'] = False
                if p[0] == 'limit':
                    options['maxiter'] = p[1]
                r = real_minimize(f, x_start, args, method, *a, options=options, **kw)
        finally:
            inside[0] = False
        attempts.append((method, start, bool(r.success), np.array(r.x, dtype=float), float(r.fun), p[0]))
        if not r.success:
            ctx.fault('not converged:' + p[0])
        return r

    class Minuit(real_minuit):
        def migrad(self, *a, **kw):
            p = next(script, ['real'])
            start = np.array(list(self.values), dtype=float)
            if p[0] in ('limit', 'end', 'away'):
                r = super().migrad(ncall=p[1], iterate=1)
            else:
                r = super().migrad(*a, **kw)
            attempts.append(('MIGRAD', start, bool(r.fmin.is_valid), np.array(list(r.values)), float(r.fmin.fval), p[0]))
            if not r.fmin.is_valid:
                ctx.fault('not converged:MIGRAD')
            return r

    scipy.optimize.minimize = minimize
    for k, v in list(vars(fo).items()):
        if v is real_minimize:
            setattr(fo, k, minimize)
    iminuit.Minuit = Minuit
    kw = {}
    if sc['methods'] is not None:
        kw['methods'] = tuple(sc['methods']) if sc['mform'] == 'tuple' else list(sc['methods'])
    if sc['tries'] is not None:
        kw['tries'] = sc['tries']
    if sc['limit'] is not None:
        kw['maxiter'] = sc['limit']
    if args or len(sc['script']) % 2:
        kw['args'] = args
    if sc['disp']:
        kw['disp'] = True
    call = fo.maximize_robust if sc['maximize'] else fo.minimize_robust
    passed = x0 if sc['form'] != 'array' else x0.copy()
    held = passed.copy() if sc['form'] in ('array', 'list', 'ints') else passed
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if sc['maximize']:
                res = call(lambda x, *a: -fun(x, *a), passed, **kw)
            else:
                res = call(fun, passed, **kw)
        got = ('ok', bool(res.success))
    except (KeyboardInterrupt, Exception) as e:
        res = None
        got = ('exc', type(e).__name__, str(e)[:200])
        exc = e
    methods = sc['methods'] if sc['methods'] is not None else ['SLSQP', 'MIGRAD', 'BFGS', 'Nelder-Mead']
    tries = 3 if sc['tries'] is None else sc['tries']
    ctx.steps += len(attempts)
    short = [(a[0], a[2], a[5]) for a in attempts]
    ctx.log(got, short)
    ctx.count('attempts', len(attempts))
    ctx.fp(short, tries, got)
    ctx.nontrivial = len(attempts) > 1
    where = '%simize_robust(%s%d, %r, methods=%r, tries=%r, %r) -> %s; attempts %r' % (
        'max' if sc['maximize'] else 'min', sc['fun'], n, sc['x0'], sc['methods'], sc['tries'], kw, got,
        [(a[0], a[1].round(4).tolist(), 'converged' if a[2] else 'not converged', a[3].round(4).tolist(), round(a[4], 5)) for a in attempts][:8])
    if not np.array_equal(held, passed):
        raise core.Violation('x0', '%s: the start point was changed to %r' % (where, passed))
    if raised:
        if got[0] == 'ok':
            raise core.Violation('swallowed', '%s: %r of the objective was swallowed' % (where, raised[0]))
        if type(exc) is not type(raised[0]):
            raise core.Violation('swallowed', '%s: %r of the objective became %r' % (where, raised[0], exc))
        sched_end = len(attempts)
    elif got[0] == 'exc':
        raise core.Violation('raised', '%s: raised although neither objective nor optimiser did' % where)
    # the attempts follow the rule
    plan = [m for _ in range(tries) for m in methods]
    if [a[0] for a in attempts] != plan[:len(attempts)]:
        raise core.Violation('order', '%s: methods tried %r, expected %r' % (where, [a[0] for a in attempts], plan))
    start, val = np.array(sc['x0'], dtype=float), base(sc['x0'], *args)
    for i, (m, s, ok, x, fv, _) in enumerate(attempts):
        if not np.allclose(s, start, rtol=1e-12, atol=1e-12):
            raise core.Violation('start', '%s: attempt %d started from %r, the best end point so far is %r' % (where, i, s.tolist(), start.tolist()))
        if ok and i + 1 < len(attempts):
            raise core.Violation('after_success', '%s: attempt %d converged but was followed by another' % (where, i))
        if not ok and fv < val:
            start, val = x, fv
    if res is None:
        return
    if not attempts:
        raise core.Violation('order', '%s: nothing was tried' % where)
    last = attempts[-1]
    if not last[2] and len(attempts) != len(plan):
        raise core.Violation('gave_up', '%s: gave up after %d of %d attempts' % (where, len(attempts), len(plan)))
    if bool(res.success) != last[2]:
        raise core.Violation('success', '%s: reported success %r' % (where, res.success))
    f = base(res.x, *args)
    want = -f if sc['maximize'] else f
    if not np.isclose(res.fun, want, rtol=1e-9, atol=1e-12, equal_nan=True):
        raise core.Violation('value', '%s: reported value %r at %r, the objective is %r there' % (where, res.fun, res.x, want))
    if last[2] and not np.allclose(res.x, last[3], rtol=1e-12, atol=1e-12):
        raise core.Violation('point', '%s: reported %r, the converged attempt ended at %r' % (where, res.x, last[3]))
    if not last[2] and not any(np.allclose(res.x, a[3]) for a in attempts):
        raise core.Violation('point', '%s: reported %r is no end point of any attempt' % (where, res.x))
