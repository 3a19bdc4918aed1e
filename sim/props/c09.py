"""C09: seeded results are reproducible in every process."""
import hashlib
import json

import numpy as np
import flavio
from flavio.classes import Observable, Measurement, Parameter, AuxiliaryQuantity, Implementation, ParameterConstraints
from flavio.statistics import likelihood as fl
from .. import core, world, seams, session, dists, hashproc, trace

ID = 'C09'
TIERS = {'quick': dict(runs=20000, seconds=35), 'thorough': dict(runs=1000000, seconds=780)}
SHRINK_LISTS = ('ops', 'pre', 'sched')
RUN_TIMEOUT = 240
RULE = ('a case is a program of 3-9 calls (random draws, uncertainties, covariances, error budgets, pseudo-measurements, likelihoods, '
        'listings, YAML texts, ...) after one numpy seed, executed in 2-3 interpreters started with different string-hash seeds and heap '
        'layouts, each with its own earlier calls (deterministic, failing or cut by an injected exception), deterministic calls in between and '
        'numbers of simulated pool workers. Non-trivial: interpreters differ in hash seed and history or workers. Distinct by scenario hash.')
STEP = 'calls of the program, per interpreter'
STATE_MEASURE = 'hash of (kinds of the last two calls, interpreter, workers, outcome)'
REAL = ['all flavio code', 'fresh Python interpreters with real string hashing', 'wilson', 'numpy/scipy']
STUB = ['process pool (in-process scheduler, real forked workers)', 'delivery of injected exceptions']
ASSUMPTIONS = ['results declared as sets have no order', 'floating-point values are compared with a relative tolerance of 1e-7, the random '
               'state exactly']
SEEDS = [(11, 0), (222, 5000), (3333, 20001), (44444, 777)]
LISTINGS = ['registries', 'taxonomy', 'meas_of', 'find', 'impl', 'parameters', 'config', 'correlations', 'warn']


def prepare(tier):
    hashproc.start(SEEDS if tier == 'quick' else SEEDS + [(5, 123), (66, 9999), (777, 31), (8888, 50000)])


def onorm(v):
    """Like world.norm, but keeping the order of dictionaries."""
    if isinstance(v, dict):
        return ['d', [[world._key(k), onorm(x)] for k, x in v.items()]]
    if isinstance(v, (list, tuple)):
        return ['l', [onorm(x) for x in v]]
    if isinstance(v, str):
        return v
    return world.norm(v)


def gen_hist(rng, obs, lobs):
    k = rng.choice(['sm', 'sm', 'np', 'll', 'fail', 'cut', 'cit', 'get', 'central', 'combine', 'pars'])
    return [k, rng.randrange(len(obs)), rng.randrange(1000), rng.random()]


def generate(rng, idx, tier):
    fams = world.families()
    keys = list(fams)
    obs = world.pick_obs(rng, fams[world.pick_family(rng, idx)], want=rng.choice([1, 2])) or [['eps_K']]
    if rng.random() < .5:
        obs += [s for s in world.pick_obs(rng, fams[rng.choice(keys)], want=1) if s not in obs]
    lobs = world.pick_measured(rng, rng.choice([2, 3]), rng.choice([None, [world.pick_family(rng, idx)], ['flavio.physics.bdecays.bll']]))
    if len(lobs) < 2 or rng.random() < .25:
        lobs = [s for s in world.measured() if s[0] in ('BR(Bs->mumu)', 'BR(B0->mumu)', 'S_psiK', 'DeltaM_s', 'DeltaM_d')][:rng.choice([2, 3, 4])]
    rng.shuffle(lobs)
    dep = world.used_parameters(obs[0])
    heavy = len(dep) > 25
    N = 2 if heavy else rng.choice([2, 3])
    ops = []
    kinds = ['rand', 'rand', 'unc', 'unc', 'cov', 'cov', 'budget', 'budget', 'fl', 'fl', 'expcov', 'expcov', 'pl', 'll', 'll', 'meas', 'meas', 'dist', 'store',
             'store', 'listing', 'listing', 'dump', 'dump', 'deps', 'contour', 'errs', 'combine', 'loadm', 'logp']
    for _ in range(rng.randint(3, 9)):
        k = rng.choice(kinds)
        if k == 'budget' and heavy and rng.random() < .9:
            k = 'expcov'
        if k == 'rand':
            op = [k, rng.choice([None, 1, 3])]
        elif k == 'unc':
            op = [k, rng.randrange(len(obs)), N, rng.choice([None, 'C9_bsmumu', 'C10_bsmumu'])]
        elif k == 'cov':
            op = [k, [rng.randrange(len(obs)) for _ in range(rng.choice([2, 3]))], N, rng.choice([None, dep[:3], ['m_b', 'Vcb']])]
        elif k == 'budget':
            op = [k, rng.randrange(len(obs)), 1]
        elif k in ('fl', 'expcov', 'll', 'combine'):
            op = [k, rng.choice(['all', 'all', 'exclude', 'include', 'include']), rng.randrange(1000), N, rng.choice([5, 40])]
        elif k == 'pl':
            op = [k, rng.sample(dep, min(len(dep), 4)) or ['m_b']]
        elif k == 'meas':
            op = [k, rng.randrange(1000), rng.choice([None, 2])]
        elif k == 'dist':
            op = [k, rng.choice([dists.gen_1d(rng), dists.gen_mvn(rng, 3), dists.gen_mvnum(rng)]), rng.choice([None, 1, 4])]
        elif k == 'store':
            op = [k, [[rng.sample(['p%d' % i for i in range(9)], 2), dists.gen_mvn(rng, 2)] if rng.random() < .5 else
                      [['p%d' % rng.randrange(9)], dists.gen_1d(rng)] for _ in range(rng.randint(1, 7))]]
        elif k == 'listing':
            op = [k, rng.choice(LISTINGS), rng.randrange(1000)]
        elif k == 'dump':
            op = [k, rng.choice(['par', 'meas', 'meas', 'lik', 'fl', 'ml']), rng.randrange(1000)]
        elif k == 'deps':
            op = [k, rng.randrange(len(obs))]
        elif k == 'contour':
            op = [k, rng.choice([1, 2])]
        elif k == 'errs':
            op = [k, 2]
        else:
            op = [k, rng.randrange(1000), rng.randrange(2, 5)]
        ops.append(op)
    n = rng.choice([2, 2, 3])
    procs = rng.sample(range(8 if tier != 'quick' else 4), n)
    sides = [dict(proc=p, threads=rng.choice([1, 1, 2, 3, 5]), sched=[rng.randrange(64) for _ in range(60)],
                  pre=[gen_hist(rng, obs, lobs) for _ in range(rng.choice([0, 1, 3]))],
                  between=[gen_hist(rng, obs, lobs)[:3] if rng.random() < .3 else None for _ in ops]) for p in procs]
    sides[0]['pre'], sides[0]['between'], sides[0]['threads'] = [], [None] * len(ops), 1
    return dict(obs=obs, lobs=lobs, ops=ops, sides=sides, seed=rng.randrange(1 << 30))


# ---------------------------------------------------------------- one interpreter
def history(h, sc, live):
    k, o, seed = h[:3]
    s, lobs = sc['obs'][o], [world.obs_tuple(x) for x in sc['lobs']]
    par = flavio.default_parameters.get_central_all()
    w = flavio.WilsonCoefficients()
    w.set_initial({'C9_bsmumu': .1 + seed / 1000, 'C10_bsmumu': -.3}, 160, 'WET', 'flavio')

    def sm():
        return flavio.sm_prediction(s[0], *s[1:])
    if k == 'sm':
        sm()
    elif k == 'np':
        flavio.np_prediction(s[0], w, *s[1:])
    elif k == 'll':
        fl.MeasurementLikelihood(list(lobs)).log_likelihood_par(par, w)
    elif k == 'fail':
        for p in world.used_parameters(s)[:1]:
            del par[p]
        Observable[s[0]].prediction_par(par, w, *s[1:])
    elif k == 'cut' and live:
        with trace.Counter() as c:
            n = world.outcome(sm)
        if c.n:
            with trace.Injector(int(h[3] * c.n), KeyboardInterrupt('cut')):
                sm()
    elif k == 'cit':
        Observable[s[0]].theory_citations(*s[1:])
    elif k == 'get':
        Observable[s[0]].get_measurements()
    elif k == 'central':
        for m in list(Measurement.instances.values())[seed % 50::50]:
            m.get_central_all()
    elif k == 'combine':
        t = lobs[0]
        flavio.combine_measurements(t) if isinstance(t, str) else flavio.combine_measurements(
            t[0], **dict(zip(Observable[t[0]].arguments, t[1:])))
    elif k == 'pars':
        flavio.functions.get_dependent_parameters_sm(s[0], *s[1:])


def ml_args(op, lobs):
    """include/exclude choice among the measurements of the observables."""
    names = fl.MeasurementLikelihood(list(lobs)).get_measurements
    rest = op[2]
    some = [n for i, n in enumerate(names) if (rest >> (i % 9)) & 1]
    if op[1] == 'exclude':
        return dict(exclude_measurements=some[:len(names) // 2])
    if op[1] == 'include':
        return dict(include_measurements=(some + [n for n in names if n not in some])[:max(2, len(names) - 1)][::-1])
    return {}


def call(op, sc, threads, n):
    k = op[0]
    obs, lobs = sc['obs'], [world.obs_tuple(x) for x in sc['lobs']]
    P = flavio.default_parameters
    if k == 'rand':
        return P.get_random_all() if op[1] is None else P.get_random_all(size=op[1])
    if k == 'unc':
        s = obs[op[1]]
        if op[3]:
            w = flavio.WilsonCoefficients()
            w.set_initial({op[3]: .3}, 160, 'WET', 'flavio')
            return flavio.np_uncertainty(s[0], w, *s[1:], N=op[2], threads=threads)
        return flavio.sm_uncertainty(s[0], *s[1:], N=op[2], threads=threads)
    if k == 'cov':
        return flavio.sm_covariance([world.obs_tuple(obs[o]) for o in op[1]], N=op[2], threads=threads,
                                    **({'par_vary': op[3]} if op[3] else {}))
    if k == 'budget':
        s = obs[op[1]]
        return flavio.sm_error_budget(s[0], *s[1:], N=op[2])
    if k == 'fl':
        f = fl.FastLikelihood('verif fl %d' % n, observables=list(lobs), fit_parameters=['Vcb'], **ml_args(op, lobs))
        f.make_measurement(N=op[3], Nexp=op[4], threads=threads)
        m = f.pseudo_measurement
        return [m.name, f.exp_covariance.get(force=False), f.sm_covariance.get(force=False),
                f.full_measurement_likelihood.get_measurements, m.get_central_all(), m.get_random_all(),
                f.log_likelihood(P.get_central_all(), flavio.WilsonCoefficients()), f.dump()]
    if k == 'expcov':
        ml = fl.MeasurementLikelihood(list(lobs), **ml_args(op, lobs))
        return [fl.MeasurementCovariance(ml).get(N=op[4]), ml.get_measurements, ml.get_number_observations()]
    if k == 'll':
        ml = fl.MeasurementLikelihood(list(lobs), **ml_args(op, lobs))
        w = flavio.WilsonCoefficients()
        w.set_initial({'C10_bsmumu': .4}, 160, 'WET', 'flavio')
        return [ml.get_measurements, ml.log_likelihood_par(P.get_central_all(), w), list(ml.get_predictions_par(P.get_central_all(), w)),
                ml.dump()]
    if k == 'combine':
        t = lobs[0]
        names = Observable[t if isinstance(t, str) else t[0]].get_measurements()
        inc = ml_args(op, lobs).get('include_measurements')
        kw = {} if isinstance(t, str) else dict(zip(Observable[t[0]].arguments, t[1:]))
        c = flavio.combine_measurements(t if isinstance(t, str) else t[0], **kw)
        return [names, c.central_value, c.error_left, c.error_right, c.get_random()]
    if k == 'pl':
        p = fl.ParameterLikelihood(parameters=list(op[1]))
        return [p.get_random, p.get_central, p.log_likelihood_par(P.get_central_all()), p.dump()]
    if k == 'meas':
        ms = list(Measurement.instances.values())
        m = ms[op[1] % len(ms)]
        return [m.name, m.get_random_all() if op[2] is None else m.get_random_all(size=op[2]), m.get_central_all(), m.get_1d_errors_random(N=2)]
    if k == 'dist':
        d = dists.build(op[1])
        return [d.get_random() if op[2] is None else d.get_random(op[2]), repr(d)]
    if k == 'store':
        c = ParameterConstraints()
        for names, sp in op[1]:
            for p in names:
                Parameter(p)
            c.add_constraint(list(names), dists.build(sp))
        c2 = ParameterConstraints.from_yaml(c.get_yaml())
        return [c.get_random_all(), c.get_yaml(), c.get_yaml_dict(), c2.get_random_all(size=2), c2.get_yaml(), c.get_central_all(),
                c.get_logprobability_all({p: .3 for p in c.get_central_all()}), c.all_parameters]
    if k == 'listing':
        if op[1] == 'registries':
            return [list(x.instances) for x in (Observable, Measurement, Parameter, AuxiliaryQuantity, Implementation)]
        if op[1] == 'taxonomy':
            return Observable.taxonomy_dict()
        if op[1] == 'meas_of':
            s = (obs + sc['lobs'])[op[2] % len(obs + sc['lobs'])]
            return Observable[s[0]].get_measurements()
        if op[1] == 'find':
            return [Observable.find('mumu'), Measurement.find('LHCb'), Parameter.find('B->K')]
        if op[1] == 'impl':
            return Implementation.show_all()
        if op[1] == 'parameters':
            return [P.all_parameters, P.get_central_all(), [list(p) for _, p in P._constraints]]
        if op[1] == 'config':
            return flavio.config
        if op[1] == 'warn':
            ml = fl.MeasurementLikelihood(list(lobs))
            return sorted(map(str, ml._warn_meas_corr())) if hasattr(ml, '_warn_meas_corr') else None
        m = list(Measurement.instances.values())
        return [[p for _, p in x._constraints] for x in m[op[2] % 7::7]]
    if k == 'dump':
        if op[1] == 'par':
            return [P.get_yaml(), P.get_yaml_dict()]
        if op[1] == 'meas':
            ms = list(Measurement.instances.values())
            m = ms[op[2] % len(ms)]
            return [m.get_yaml(), m.get_yaml_dict()]
        c = P.copy()
        c.set_constraint('m_b', '4.2 ± 0.2')
        c.set_constraint('m_c', '1.2 ± 0.1')
        if op[1] == 'lik':
            return fl.Likelihood(par_obj=c, fit_parameters=['m_b', 'Vcb'], observables=list(lobs)).dump()
        if op[1] == 'fl':
            return fl.FastLikelihood('verif dump %d' % n, par_obj=c, fit_parameters=['m_b'], observables=list(lobs)).dump()
        return fl.MeasurementLikelihood(list(lobs)).dump()
    if k == 'deps':
        s = obs[op[1]]
        return [flavio.functions.get_dependent_parameters_sm(s[0], *s[1:]), flavio.functions.get_dependent_wcs(s[0], *s[1:]),
                Observable[s[0]].theory_citations(*s[1:])]
    if k == 'contour':
        ml = fl.MeasurementLikelihood(list(lobs))
        par = P.get_central_all()

        def f(x):
            w = flavio.WilsonCoefficients()
            w.set_initial({'C9_bsmumu': x[0], 'C10_bsmumu': x[1]}, 160, 'WET', 'flavio')
            return ml.log_likelihood_par(par, w)
        global _contour
        _contour = f
        from flavio.plots.plotfunctions import likelihood_contour_data
        return likelihood_contour_data(_contour_ll, -1, 1, -1, 1, n_sigma=(1, 2), steps=op[1] if ml.observables[0] == 'BR(Bs->mumu)' else 1, threads=threads)
    if k == 'errs':
        return [P.get_1d_errors_random(N=op[1]), P.get_1d_errors_rightleft()]
    if k == 'loadm':
        with open('verif.yml', 'w') as f:
            json.dump({'verif meas %d' % n: {'experiment': 'X', 'values': {
                o: '%s ± 0.%d' % (j + op[1] % 7, j + 1) for j, o in enumerate(['eps_K', 'BR(Bs->mumu)', 'S_psiK', 'DeltaM_s'][:op[2]])}}}, f)
        ns = flavio.measurements.read_file('verif.yml')
        return [ns, [Measurement[x].get_random_all() for x in ns], [Measurement[x].get_yaml() for x in ns]]
    if k == 'logp':
        out = []
        for m in list(Measurement.instances.values())[op[1] % 40::40]:
            out.append([m.name, m.get_logprobability_all({p: .9 * v + 1e-12 for p, v in m.get_central_all().items()})])
        return out
    raise core.HarnessError('unknown call %r' % (op,))


def _contour_ll(x):
    return _contour(x)


def session_of(sc, side):
    """Runs in a fork of an interpreter; returns per call (outcome, digest of the
    random state) and the citations."""
    ctx = core.Ctx()
    out, hist = [], []
    with seams.Sim(ctx, side['sched'], 2):
        for h in side['pre']:
            hist.append(world.outcome(history, h, sc, True)[0])
        np.random.seed(sc['seed'])
        for n, op in enumerate(sc['ops']):
            b = side['between'][n] if n < len(side['between']) else None
            if b:
                hist.append(world.outcome(history, b, sc, False)[0])
            try:
                r = ('ok', onorm(call(op, sc, side['threads'], n)))
            except core.HarnessError:
                raise
            except Exception as e:
                r = ('exc', type(e).__name__, str(e)[:300])
            st = np.random.get_state()
            out.append((r, hashlib.sha1(st[1].tobytes() + repr(st[2:]).encode()).hexdigest()[:16]))
    return out, hist, list(ctx.faults.items())


def diff(a, b, path=''):
    """First difference of two ordered values."""
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path + '[%d]' % i)
            if d:
                return d
        return None
    if world.same(a, b):
        return None
    return '%s: %s / %s' % (path, world.short(a, 200), world.short(b, 200))


def execute(sc, ctx):
    res = []
    for side in sc['sides']:
        out, hist, faults = hashproc.ask(side['proc'], session_of, sc, side)
        res.append(out)
        for h, r in zip(side['pre'], hist):
            if r == 'exc':
                ctx.fault('history:' + h[0])
        ctx.log(side['proc'], out)
        if side['threads'] > 1:
            ctx.count('parallel')
    if len({s['proc'] for s in sc['sides']}) > 1:
        ctx.nontrivial = True
        ctx.probe('hash seeds differ')
    base = sc['sides'][0]
    for n, op in enumerate(sc['ops']):
        (r0, s0) = res[0][n]
        ctx.steps += len(res)
        ctx.count('call:' + op[0] + (':failed' if r0[0] == 'exc' else ''))
        ctx.fp(op[0], sc['ops'][n - 1][0] if n else '', r0[0], [s['proc'] for s in sc['sides']], [s['threads'] for s in sc['sides']])
        for i, side in enumerate(sc['sides'][1:], 1):
            r, s = res[i][n]
            how = 'interpreters with PYTHONHASHSEED %s and %s, %d and %d threads, earlier calls %r and %r' % (
                (SEEDS * 2)[base['proc']][0], (SEEDS * 2)[side['proc']][0], base['threads'], side['threads'], base['pre'], side['pre'])
            if r[0] != r0[0] or r[0] == 'exc' and r[1] != r0[1]:
                raise core.Violation('differs:' + op[0], 'call %d %r gives %s and %s; %s' % (n, op, world.short(r0), world.short(r), how))
            if r[0] == 'ok':
                d = diff(r0[1], r[1])
                if d:
                    raise core.Violation('differs:' + op[0], 'call %d %r differs at %s; %s' % (n, op, d, how))
            if s != s0:
                raise core.Violation('random:' + op[0], 'after call %d %r the random states differ; %s' % (n, op, how))
