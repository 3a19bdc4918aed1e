"""C16: covariances and fast likelihoods follow their compute/load history."""
import math
import os
import pickle
import random

import numpy as np
import flavio
from flavio.statistics.likelihood import FastLikelihood, MeasurementCovariance, SMCovariance, MeasurementLikelihood, Likelihood
from .. import core, world, dists, trace
from ..store import RefStore

ID = 'C16'
TIERS = {'quick': dict(runs=20000, seconds=35), 'thorough': dict(runs=1000000, seconds=780)}
SHRINK_LISTS = ('ops', 'fls')
RULE = ('a case is 4-16 operations (get with and without force, compute, save, load, load_dict of permuted, larger, incomplete or '
        'malformed data, new pseudo-measurements, changed measurements and parameters, computations failing at a seeded evaluation, computations and loads interrupted at a seeded line) '
        'on 1-3 fast likelihoods and stand-alone covariance objects over overlapping user-defined observables; after every '
        'operation all contents and likelihood values are compared with a reference model of the history. Non-trivial: at least '
        'one computation or load was replaced by a later one or failed. Distinct by scenario hash.')
STEP = 'operations'
STATE_MEASURE = 'hash of (last three operations, filled contents, pseudo-measurements made)'
REAL = ['flavio.statistics.likelihood', 'flavio.functions.sm_covariance/combine_measurements', 'flavio.classes', 'pickle', 'numpy/scipy']
STUB = ['user-defined observables (linear in the parameters, able to fail at a given evaluation)']
ASSUMPTIONS = ['experimental covariances are compared with the analytic combination within 8 standard deviations of the sampling error']
PARS = ['verif_p0', 'verif_p1', 'verif_p2', 'verif_p3']
OBS = ['verif_o0', 'verif_o1', ['verif_b', 1.0, 6.0], 'verif_o2', ['verif_b', 15.0, 19.0], 'verif_o3']
EXC = {'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'ZeroDivisionError': ZeroDivisionError}


def tup(o):
    return tuple(o) if isinstance(o, list) else o


def coeff(o):
    """Offset and coefficients of the prediction."""
    r = random.Random('coeff %r' % (tup(o),))
    return r.uniform(1, 4), [r.uniform(-1, 1) for _ in PARS]


def gen_meas(rng, obs):
    """Constraints [[observables], spec] of one measurement."""
    obs = rng.sample(obs, len(obs))
    out = []
    while obs:
        n = min(rng.choice([1, 1, 2, 3]), len(obs))
        group, obs = obs[:n], obs[n:]
        c = [coeff(OBS[i])[0] + rng.uniform(-.5, .5) for i in group]
        if n == 1:
            k = rng.choice(['normal', 'normal', 'normal', 'uniform'])
            s = rng.choice([.2, .5, 1.])
            sp = ({'distribution': 'normal', 'central_value': c[0], 'standard_deviation': s} if k == 'normal' else
                  {'distribution': 'uniform', 'central_value': c[0], 'half_range': 2 * s})
        else:
            sp = dists.gen_mvn(rng, n, c=c)
        out.append([group, sp])
    return out


def generate(rng, idx, tier):
    nobs = rng.choice([2, 3, 4, 6])
    ids = list(range(nobs))
    meas = [gen_meas(rng, ids)]
    for _ in range(rng.choice([0, 1, 1, 2])):
        meas.append(gen_meas(rng, rng.sample(ids, rng.randint(1, nobs))))
    fls = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        f = dict(obs=rng.sample(ids, rng.choice([1, 2, 2, nobs, rng.randint(1, nobs)])), nuis=rng.choice(['all', 'all', 'some', 'none']))
        if rng.random() < 0.2:
            f['include'] = [0]
        elif rng.random() < 0.2 and len(meas) > 1:
            f['exclude'] = [1]
        fls.append(f)
    ops = []
    for _ in range(rng.randint(4, 16)):
        i = rng.randrange(len(fls))
        s = rng.randrange(1000)
        k = rng.choice(['mk', 'mk', 'mk', 'sm', 'sm', 'exp', 'exp', 'compute', 'smload', 'smload', 'expload', 'expload', 'file', 'setm',
                        'setp', 'failmk', 'failsm', 'badload', 'badload', 'again', 'other', 'cut', 'cut'])
        if k == 'mk':
            op = ['mk', i, rng.choice([20, 30]), rng.random() < .3, rng.random() < .3, s, rng.choice([1] * 12 + [2])]
        elif k in ('sm', 'exp'):
            op = [k, i, rng.random() < .5, s]
        elif k == 'compute':
            op = [k, i, rng.choice(['sm', 'exp']), s]
        elif k in ('smload', 'expload'):
            op = [k, i, s, rng.choice([0, 0, 1, 2]), rng.choice(['dict', 'file', 'list'])]
        elif k == 'file':
            op = [k, rng.choice(['sm', 'exp']), i, rng.randrange(len(fls))]
        elif k == 'setm':
            m = rng.randrange(len(meas))
            g, sp = rng.choice(meas[m])
            op = [k, m, *gen_meas(rng, rng.sample(g, 1))[0]]
        elif k == 'setp':
            op = [k, rng.randrange(len(PARS)), rng.choice([.5, 2., 5.])]
        elif k in ('failmk', 'failsm'):
            op = [k, i, s, rng.randrange(12), rng.choice(list(EXC)), rng.random() < .5]
        elif k == 'badload':
            op = [k, i, rng.choice(['sm', 'exp']), rng.choice(['missing', 'shape', 'key', 'file', 'truncated', 'notposdef']), s]
        elif k == 'again':
            op = [k, rng.choice(['fl', 'lik', 'cov']), i]
        elif k == 'cut':
            op = [k, i, rng.choice(['sm', 'exp', 'exp']), rng.choice(['get', 'get', 'load', 'file']), rng.random(), rng.choice(list(EXC)), s]
        else:
            op = [k, i]
        ops.append(op)
    return dict(meas=meas, fls=fls, ops=ops, point=rng.randrange(1000))


class Broken:
    left = None
    exc = None
    calls = 0


def define():
    for o in {OBS[0], OBS[1], OBS[3], OBS[5], 'verif_b'}:
        ob = flavio.Observable(o)
        if o == 'verif_b':
            ob.arguments = ['q2min', 'q2max']

        def f(wc, par, *args, o=o):
            Broken.calls += 1
            if Broken.left is not None:
                if Broken.left == 0:
                    Broken.left = None
                    raise Broken.exc('verif: the observable cannot be evaluated')
                Broken.left -= 1
            a, c = coeff((o,) + args if args else o)
            return a + sum(x * par[p] for x, p in zip(c, PARS))
        if o == 'verif_b':
            flavio.classes.Prediction(o, lambda wc, par, q2min, q2max, f=f: f(wc, par, q2min, q2max))
        else:
            flavio.classes.Prediction(o, f)


def moments(sp):
    k = sp['distribution']
    if k == 'normal':
        return [sp['central_value']], [[sp['standard_deviation']**2]]
    if k == 'uniform':
        return [sp['central_value']], [[sp['half_range']**2 / 3]]
    return sp['central_value'], dists.cov(sp)


class Content:
    """What a covariance object hands out."""

    def __init__(self, v=None):
        self.v = v          # None or tuple of arrays


def execute(sc, ctx):
    define()
    tmp = core.scratch_dir()
    for p in PARS:
        flavio.Parameter(p)
    par = flavio.ParameterConstraints()
    psd = {p: .3 for p in PARS}
    for p in PARS:
        par.add_constraint([p], dists.build({'distribution': 'normal', 'central_value': 0.1, 'standard_deviation': psd[p]}))
    refs = []
    mname = lambda m: 'verif measurement %d' % m

    def makem(m, cons):
        mo = flavio.Measurement(mname(m))
        ref = RefStore()
        for g, sp in cons:
            mo.add_constraint([tup(OBS[i]) for i in g], dists.build(sp))
            ref.add([tup(OBS[i]) for i in g], sp)
        return ref
    for m, cons in enumerate(sc['meas']):
        refs.append(makem(m, cons))
    fls = []
    for i, f in enumerate(sc['fls']):
        kw = dict(par_obj=par, observables=[tup(OBS[o]) for o in f['obs']],
                  nuisance_parameters={'all': 'all', 'some': PARS[:2], 'none': []}[f['nuis']])
        used = list(range(len(refs)))
        if f.get('include') is not None:
            kw['include_measurements'] = [mname(m) for m in f['include']]
            used = f['include']
        if f.get('exclude') is not None:
            kw['exclude_measurements'] = [mname(m) for m in f['exclude']]
            used = [m for m in used if m not in f['exclude']]
        fl = FastLikelihood('verif fl %d' % i, **kw)
        fls.append(dict(fl=fl, obs=kw['observables'], used=used, nuis=PARS if f['nuis'] == 'all' else PARS[:2] if f['nuis'] == 'some' else [],
                        sm=Content(), exp=Content(), pseudo=None))
    rng = random.Random(sc['point'])
    point = {p: rng.uniform(-.5, .5) for p in PARS}
    wc = flavio.WilsonCoefficients()
    value = {}
    for o in OBS:
        a, c = coeff(o)
        value[tup(o)] = a + sum(x * point[p] for x, p in zip(c, PARS))

    # reference computations
    def sm_ref(d):
        c = np.array([coeff(o)[1] for o in d['obs']])
        v = np.diag([psd[p]**2 if p in d['nuis'] else 0. for p in PARS])
        return c @ v @ c.T

    def exp_ref(d):
        n = len(d['obs'])
        W, y, pull = np.zeros((n, n)), np.zeros(n), 0.
        for m in d['used']:
            r = refs[m]
            obs = [o for o in d['obs'] if o in r.map]
            if not obs:
                continue
            mean, cov = np.zeros(len(obs)), np.zeros((len(obs),) * 2)
            for a, o in enumerate(obs):
                i, cid = r.map[o]
                mu, c = moments(r.cons[cid][0])
                mean[a] = mu[i]
                for b, q in enumerate(obs):
                    j, cid2 = r.map[q]
                    if cid == cid2:
                        cov[a, b] = c[i][j]
            k = [d['obs'].index(o) for o in obs]
            w = np.linalg.inv(cov)
            W[np.ix_(k, k)] += w
            y[k] += w @ mean
        V = np.linalg.inv(W)
        return V @ y, V

    def arr(v, n):
        return np.asarray(v, dtype=float).reshape((n, n)) if np.size(v) == n * n else np.asarray(v)

    def vec(v, n):
        return np.asarray(v, dtype=float).reshape(n) if np.size(v) == n else np.asarray(v)

    def bad(kind, where, msg, *a):
        raise core.Violation(kind, '%s: %s' % (where, msg % a))

    def sm_check(d, got, N, where):
        """A computed SM covariance is that of N random parameter sets."""
        n = len(d['obs'])
        g, e = arr(got, n), sm_ref(d)
        if g.shape != (n, n) or not np.all(np.isfinite(g)):
            bad('sm_value', where, 'the computed SM covariance is %r', got)
        s = np.sqrt(np.diag(e))
        tol = (12 * math.sqrt(2 / N) + 1e-9) * np.outer(s, s)
        if not np.all(np.abs(g - e) <= tol + 1e-12):
            bad('sm_value', where, 'the computed SM covariance of %r is %r, that of the parameters in force is %r',
                d['obs'], g.tolist(), e.tolist())
        return g

    def exp_check(d, got, N, where):
        n = len(d['obs'])
        m, e = exp_ref(d)
        gm, g = vec(got[0], n), arr(got[1], n)
        if gm.shape != (n,) or g.shape != (n, n):
            bad('exp_value', where, 'the computed experimental covariance is %r', got)
        s = np.sqrt(np.diag(e))
        t = 12 / math.sqrt(N) * 3
        if not (np.all(np.abs(gm - m) <= t * (s + .3)) and np.all(np.abs(g - e) <= t * np.outer(s, s))):
            bad('exp_value', where, 'experimental central values and covariance of %r are %r, %r; those of the measurements in force are %r, %r',
                d['obs'], gm.tolist(), g.tolist(), m.tolist(), e.tolist())
        return gm, g

    same = lambda a, b: np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-12, atol=0)
    NEXP = 4000

    def get_sm(d, force, where, N=200):
        """SM covariance of d: from the content or computed."""
        n = len(d['obs'])
        Broken.calls = 0
        g = d['fl'].sm_covariance.get(N=N, force=force) if force or d['sm'].v is None else d['fl'].sm_covariance.get(force=False)
        if d['sm'].v is not None and not force:
            if Broken.calls:
                bad('recomputed', where, '%d evaluations although the SM covariance is there and recomputation not forced', Broken.calls)
            if not same(arr(g, n), d['sm'].v):
                bad('sm_content', where, 'the SM covariance is %r, last computed or loaded was %r', g, d['sm'].v.tolist())
        else:
            if not Broken.calls:
                bad('not_recomputed', where, 'no evaluation although the SM covariance is to be computed')
            d['sm'].v = sm_check(d, g, N, where).copy()
        return g

    def get_exp(d, force, where):
        n = len(d['obs'])
        have = d['exp'].v is not None and not force
        g = d['fl'].exp_covariance.get(force=False) if have else d['fl'].exp_covariance.get(N=NEXP, force=force)
        if have:
            if not (same(vec(g[0], n), d['exp'].v[0]) and same(arr(g[1], n), d['exp'].v[1])):
                bad('exp_content', where, 'experimental central values and covariance are %r, last computed or loaded were %r', g, d['exp'].v)
        else:
            a, b = exp_check(d, g, NEXP, where)
            d['exp'].v = (a.copy(), b.copy())
        return g

    def contents(d, where):
        """Contents are as recorded, empty ones still empty."""
        for what, obj in (('sm', d['fl'].sm_covariance), ('exp', d['fl'].exp_covariance)):
            if d[what].v is None:
                r = world.outcome(lambda: obj.save(os.path.join(tmp, 'never')))
                if r[0] == 'ok':
                    bad('filled', where, 'the %s covariance is there although none has been computed or loaded successfully', what)
            else:
                (get_sm if what == 'sm' else get_exp)(d, False, where)

    def ll_ref(d, excl, delta):
        mean, cov = d['pseudo']
        keep = [i for i, o in enumerate(d['obs']) if o not in excl]
        if not keep:
            return 0.
        c, x = np.asarray(cov)[np.ix_(keep, keep)], np.array([value[d['obs'][i]] for i in keep])
        sp = {'distribution': 'multivariate_normal', 'central_value': [mean[i] for i in keep], 'covariance': c.tolist()}
        k = list(range(len(keep)))
        v = dists.logpdf_mv(sp, list(x), k)
        return v - dists.logpdf_mv(sp, sp['central_value'], k) if delta else v

    def likelihood(d, where):
        fl = d['fl']
        if d['pseudo'] is None:
            r = world.outcome(lambda: fl.log_likelihood(point, wc))
            if r[0] == 'ok':
                bad('likelihood', where, 'there is a likelihood value %r although no pseudo-measurement has been made', r[1])
            return
        for excl in ([], [rng.choice(d['obs'])]):
            delta = rng.random() < .3
            try:
                got = fl.log_likelihood(dict(point), wc, exclude_observables=excl or None, delta=delta)
            except Exception as e:
                bad('likelihood', where, 'the fast likelihood failed: %s: %s at %s', type(e).__name__, str(e)[:200], core.tb_tail(e))
            exp = ll_ref(d, excl, delta)
            if np.size(got) != 1 or not abs(float(np.ravel(got)[0]) - exp) <= 1e-7 * (1 + abs(exp)):
                bad('likelihood', where, 'the fast likelihood of %r (excluded %r, delta=%r) is %r, that of the last pseudo-measurement is %r',
                    d['obs'], excl, delta, got, exp)

    def others(where):
        """Pseudo-measurements do not enter anything else."""
        allobs = sorted({o for r in refs for o in r.map}, key=str)
        obs = rng.sample(allobs, rng.randint(1, len(allobs)))
        lik = Likelihood(par_obj=par, observables=list(obs)) if rng.random() < .5 else None
        ml = lik.measurement_likelihood if lik else MeasurementLikelihood(list(obs))
        names = ml.get_measurements
        exp = [mname(m) for m, r in enumerate(refs) if any(o in r.map for o in obs)]
        if sorted(names) != sorted(exp):
            bad('pseudo', where, 'the measurements of %r are %r, expected %r', obs, names, exp)
        got = lik.log_likelihood(dict(point), wc) if lik else ml.log_likelihood_par(dict(point), wc)
        e = sum(v for r in refs for v in r.logprob(value, only=obs).values())
        if not (got == e or abs(got - e) <= 1e-7 * (1 + abs(e))):
            bad('pseudo', where, 'the likelihood of %r is %r, that of the measurements %r is %r', obs, got, exp, e)
        o = rng.choice(allobs)
        cons = [(r.cons[r.map[o][1]][0], r.map[o][0]) for r in refs if o in r.map]
        if all(sp['distribution'] != 'uniform' for sp, _ in cons):
            c = flavio.combine_measurements(o) if isinstance(o, str) else flavio.combine_measurements(o[0], q2min=o[1], q2max=o[2])
            w = [1 / (sp['standard_deviation']**2 if sp['distribution'] == 'normal' else dists.cov(sp)[i, i]) for sp, i in cons]
            mu = [sp['central_value'] if sp['distribution'] == 'normal' else sp['central_value'][i] for sp, i in cons]
            m = sum(a * b for a, b in zip(w, mu)) / sum(w)
            s = sum(w)**-.5
            if not (abs(c.central_value - m) < 1e-4 * (s + abs(m)) and abs(c.error_right - s) < 1e-3 * s):
                bad('pseudo', where, 'the combination of the measurements of %r is %r +- %r, expected %r +- %r', o, c.central_value, c.error_right, m, s)

    def data(d, s, what, extra, as_list=False):
        """Permuted, possibly larger data to load, and the content it gives."""
        r = random.Random(s)
        spare = [tup(o) for o in OBS if tup(o) not in d['obs']]
        obs = d['obs'] + r.sample(spare, min(extra, len(spare)))
        r.shuffle(obs)
        n = len(obs)
        sp = dists.gen_mvn(r, n)
        cov = dists.cov(sp) * r.choice([.1, 1.])
        mean = np.array([coeff(o)[0] + r.uniform(-1, 1) for o in obs])
        k = [obs.index(o) for o in d['obs']]
        c = (mean[k], cov[np.ix_(k, k)])
        if n == 1 and r.random() < .6:     # the form written by save
            cov = np.array(cov[0, 0]) if what == 'sm' or r.random() < .5 else cov[0, 0]
            mean = mean[0]
        elif as_list:
            mean, cov = mean.tolist(), cov.tolist()
        dd = {'observables': obs, 'covariance': cov}
        if what == 'exp':
            dd['central'] = mean
        return dd, c if what == 'exp' else c[1]

    def obj(d, what):
        return d['fl'].sm_covariance if what == 'sm' else d['fl'].exp_covariance

    def make(d, op, where):
        """make_measurement and its reference."""
        _, i, N, force, force_exp, s, threads = op
        np.random.seed(s)
        Broken.calls = 0
        had = d['sm'].v is not None
        changed = (force and had) or (force_exp and d['exp'].v is not None)
        try:
            d['fl'].make_measurement(N=N, Nexp=NEXP, threads=threads, force=force, force_exp=force_exp)
        except Exception as e:
            n = len(d['obs'])
            r = world.outcome(lambda: (arr(d['fl'].sm_covariance.get(force=False), n), d['fl'].exp_covariance.get(force=False)))
            r2 = (arr(d['fl'].sm_covariance.get(force=False), n), arr(d['fl'].exp_covariance.get(force=False)[1], n)) if r[0] == 'ok' else None
            if r2 is None or not np.all(np.isfinite(r2[0] + r2[1])) or np.all(np.linalg.eigvalsh(r2[0] + r2[1]) > 0):
                bad('make', where, 'make_measurement failed: %s: %s at %s', type(e).__name__, str(e)[:200], core.tb_tail(e))
            d['unknown'] = True
            ctx.fault('not positive definite')
            return
        n = len(d['obs'])
        if had and not force and Broken.calls:
            bad('recomputed', where, '%d evaluations although the SM covariance is there and recomputation not forced', Broken.calls)
        if threads == 1 and (force or not had) and not Broken.calls:
            bad('not_recomputed', where, 'no evaluation although the SM covariance is to be computed')
        g = d['fl'].sm_covariance.get(force=False)
        if had and not force:
            get_sm(d, False, where)
        else:
            d['sm'].v = sm_check(d, g, N, where).copy()
        g = d['fl'].exp_covariance.get(force=False)
        if d['exp'].v is not None and not force_exp:
            get_exp(d, False, where)
        else:
            old = d['exp'].v
            a, b = exp_check(d, g, NEXP, where)
            if old is not None and same(a, old[0]) and d['pseudo'] is not None:
                bad('not_recomputed', where, 'the experimental central values did not change although recomputation was forced')
            d['exp'].v = (a.copy(), b.copy())
        d['pseudo'] = (d['exp'].v[0].copy(), d['exp'].v[1] + d['sm'].v)
        if changed:
            ctx.nontrivial = True

    hist = []
    for k, op in enumerate(sc['ops']):
        kind = op[0]
        hist.append(kind)
        where = 'operation %d %s' % (k, world.short(op, 200))
        ctx.steps += 1
        d = fls[op[1]] if kind not in ('file', 'setm', 'setp', 'again') and op[1] < len(fls) else None
        if d is None and kind not in ('file', 'setm', 'setp', 'again'):
            continue
        if kind == 'mk':
            make(d, op, where)
        elif kind == 'sm':
            np.random.seed(op[3])
            get_sm(d, op[2], where)
        elif kind == 'exp':
            np.random.seed(op[3])
            get_exp(d, op[2], where)
        elif kind == 'compute':
            np.random.seed(op[3])
            if op[2] == 'sm':
                sm_check(d, d['fl'].sm_covariance.compute(N=100, threads=1), 100, where)
            else:
                exp_check(d, d['fl'].exp_covariance.compute(N=NEXP), NEXP, where)
        elif kind in ('smload', 'expload'):
            what = kind[:-4]
            dd, c = data(d, op[2], what, op[3], op[4] == 'list')
            if d[what].v is not None:
                ctx.nontrivial = True
            try:
                if op[4] == 'file':
                    fn = os.path.join(tmp, 'data.p')
                    with open(fn, 'wb') as f:
                        pickle.dump(dd, f)
                    obj(d, what).load(fn)
                else:
                    obj(d, what).load_dict(dd)
            except Exception as e:
                bad('load', where, 'loading failed: %s: %s at %s', type(e).__name__, str(e)[:200], core.tb_tail(e))
            d[what].v = c
        elif kind == 'file':
            if max(op[2], op[3]) >= len(fls):
                continue
            a, b, what = fls[op[2]], fls[op[3]], op[1]
            fn = os.path.join(tmp, 'x.p')
            if a[what].v is None:
                continue
            obj(a, what).save(fn)
            r = world.outcome(lambda: obj(b, what).load(fn))
            if set(b['obs']) <= set(a['obs']):
                if r[0] != 'ok':
                    bad('load', where, 'loading a saved covariance failed: %r', r)
                kx = [a['obs'].index(o) for o in b['obs']]
                v = a[what].v
                ctx.nontrivial = True
                b[what].v = (v[0][kx], v[1][np.ix_(kx, kx)]) if what == 'exp' else v[np.ix_(kx, kx)]
            elif r[0] == 'ok':
                bad('accepted', where, 'a covariance of %r was loaded for %r', a['obs'], b['obs'])
            else:
                ctx.fault('load:incomplete')
        elif kind == 'setm':
            if op[1] >= len(refs):
                continue
            names = [tup(OBS[i]) for i in op[2]]
            flavio.Measurement[mname(op[1])].add_constraint(names, dists.build(op[3]))
            refs[op[1]].add(names, op[3])
        elif kind == 'setp':
            p = PARS[op[1]]
            psd[p] = .3 * op[2]
            par.add_constraint([p], dists.build({'distribution': 'normal', 'central_value': .1, 'standard_deviation': psd[p]}))
        elif kind in ('failmk', 'failsm'):
            Broken.left, Broken.exc = op[3], EXC[op[4]]
            np.random.seed(op[2])
            exp_before = d['exp'].v
            try:
                if kind == 'failmk':
                    d['fl'].make_measurement(N=20, Nexp=NEXP, force=True, force_exp=op[5])
                else:
                    d['fl'].sm_covariance.get(N=20, force=True)
                broke = Broken.left is None
            except BaseException as e:
                if not isinstance(e, EXC[op[4]]):
                    bad('failure', where, 'a failing evaluation gives %s: %s', type(e).__name__, e)
                broke = True
            else:
                if broke:
                    bad('failure', where, 'no failure although the observable could not be evaluated')
            Broken.left = None
            if not broke:
                d['sm'].v = sm_check(d, d['fl'].sm_covariance.get(force=False), 20, where).copy()
            else:
                ctx.fault('evaluation:' + op[4])
                ctx.nontrivial = True
            if kind == 'failmk':
                # the experimental covariance may have been computed before the failure
                g = world.outcome(lambda: d['fl'].exp_covariance.save(os.path.join(tmp, 'never')))
                if g[0] == 'ok':
                    g = d['fl'].exp_covariance.get(force=False)
                    n = len(d['obs'])
                    if exp_before is None or (op[5] and not same(vec(g[0], n), exp_before[0])):
                        a, b = exp_check(d, g, NEXP, where)
                        d['exp'].v = (a.copy(), b.copy())
                if not broke:
                    d['pseudo'] = (d['exp'].v[0].copy(), d['exp'].v[1] + d['sm'].v)
        elif kind == 'cut':
            # computation or load interrupted at a seeded line
            _, _, what, how, u, exc, s = op
            o = obj(d, what)
            dd, c = data(d, s, what, s % 3)
            if how == 'get':
                fn = (lambda: o.get(N=20, force=True)) if what == 'sm' else (lambda: o.get(N=NEXP, force=True))
            elif how == 'load':
                fn = lambda: o.load_dict(dd)
            else:
                with open(os.path.join(tmp, 'cut.p'), 'wb') as f:
                    pickle.dump(dd, f)
                fn = lambda: o.load(os.path.join(tmp, 'cut.p'))
            np.random.seed(s)
            prof = core.in_fork(trace.profile, fn, world.outcome, ())
            at = trace.pick(prof, u)
            if at is None:
                continue
            old, n = d[what].v, len(d['obs'])
            np.random.seed(s)
            with trace.Cut(at, EXC[exc]('verif: interrupted')) as inj:
                r = world.outcome(fn)
            if inj.fired is None:
                continue
            ctx.fault('cut:' + exc)
            ctx.log('cut', inj.fired, r[0])
            have = world.outcome(lambda: o.save(os.path.join(tmp, 'never')))[0] == 'ok'
            if old is not None and not have:
                bad('lost', where, 'the %s covariance is lost after %s in %s', what, exc, inj.fired)
            if have:
                g = o.get(force=False)
                v = arr(g, n).copy() if what == 'sm' else (vec(g[0], n).copy(), arr(g[1], n).copy())
                if old is None or not all(same(a, b) for a, b in zip(v if what == 'exp' else [v], old if what == 'exp' else [old])):
                    # replaced: completely
                    if how == 'get':
                        v = sm_check(d, g, 20, where).copy() if what == 'sm' else tuple(x.copy() for x in exp_check(d, g, NEXP, where))
                    elif not all(same(a, b) for a, b in zip(v if what == 'exp' else [v], c if what == 'exp' else [c])):
                        bad('mixed', where, 'after %s in %s the %s covariance is %r, neither the previous nor the loaded one', exc, inj.fired, what, g)
                    d[what].v = v
            if old is not None:
                ctx.nontrivial = True
        elif kind == 'badload':
            what, how = op[2], op[3]
            dd, c = data(d, op[4], what, 0)
            n = len(d['obs'])
            fn = os.path.join(tmp, 'bad.p')
            if os.path.exists(fn):
                os.remove(fn)
            if how == 'missing':
                dd['observables'] = [o if o != d['obs'][0] else 'verif_other' for o in dd['observables']]
            elif how == 'shape':
                if n == 1:
                    continue
                dd['covariance'] = np.asarray(dd['covariance'])[:-1, :-1]
            elif how == 'key':
                del dd['covariance']
            elif how == 'truncated':
                with open(fn, 'wb') as f:
                    f.write(pickle.dumps(dd)[:-20])
            elif how == 'notposdef':
                # accepted, but no pseudo-measurement can be made from it
                if n == 1:
                    continue
                v = np.eye(n) * -1000.
                dd['covariance'] = v
                obj(d, what).load_dict(dd)
                kx = [dd['observables'].index(o) for o in d['obs']]
                d[what].v = (dd['central'][kx], v) if what == 'exp' else v
                r = world.outcome(lambda: d['fl'].make_measurement(N=20, Nexp=NEXP))
                if r[0] == 'ok':
                    bad('accepted', where, 'a pseudo-measurement was made from a covariance that is not positive definite')
                # the other covariance has been computed
                for w in ('sm', 'exp'):
                    if d[w].v is None and world.outcome(lambda: obj(d, w).save(os.path.join(tmp, 'never')))[0] == 'ok':
                        g = obj(d, w).get(force=False)
                        d[w].v = sm_check(d, g, 20, where) if w == 'sm' else exp_check(d, g, NEXP, where)
                ctx.fault('load:notposdef')
                ctx.nontrivial = True
            if how != 'notposdef':
                r = world.outcome(lambda: obj(d, what).load(fn) if how in ('file', 'truncated') else obj(d, what).load_dict(dd))
                if r[0] == 'ok':
                    bad('accepted', where, 'malformed data was loaded: %s', world.short(dd, 200))
                ctx.fault('load:' + how)
                ctx.nontrivial = True
        elif kind == 'again':
            # further objects over the same observables
            if op[2] >= len(fls):
                continue
            e = fls[op[2]]
            if op[1] == 'lik':
                Likelihood(par_obj=par, observables=list(e['obs']))
            elif op[1] == 'cov':
                c = SMCovariance(list(e['obs']), vary_parameters=PARS, par_obj=par)
                sm_check(dict(e, nuis=PARS), c.get(N=50), 50, where)
            else:
                f = FastLikelihood('verif other', par_obj=par, observables=list(e['obs']))
                f.make_measurement(N=20, Nexp=500)
        elif kind == 'other':
            others(where)
        for e in fls:
            if e.pop('unknown', False):
                # make_measurement failed before or after computing anew
                for w in ('sm', 'exp'):
                    n = len(e['obs'])
                    g = obj(e, w).get(force=False) if world.outcome(lambda: obj(e, w).save(os.path.join(tmp, 'never')))[0] == 'ok' else None
                    if g is not None:
                        e[w].v = arr(g, n).copy() if w == 'sm' else (vec(g[0], n).copy(), arr(g[1], n).copy())
            contents(e, where)
            likelihood(e, where)
        if rng.random() < .3:
            others(where)
        ctx.log(kind, [(e['sm'].v is None, e['exp'].v is None, e['pseudo'] is None) for e in fls])
        ctx.fp(tuple(hist[-3:]), [(e['sm'].v is None, e['exp'].v is None, e['pseudo'] is None) for e in fls])
