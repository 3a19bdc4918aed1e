"""C08: queries do not modify inputs or shared state."""
import json

import numpy as np
import flavio
from flavio.statistics.likelihood import MeasurementCovariance, SMCovariance, MeasurementLikelihood, Likelihood
from .. import core, world, session, trace, digest
from .c05 import par_exc, watched

ID = 'C08'
TIERS = {'quick': dict(runs=20000, seconds=40), 'thorough': dict(runs=1000000, seconds=780)}
SHRINK_LISTS = ('ops',)
RULE = ('a case is 4-12 read-only calls (predictions, uncertainties, budgets, covariances, likelihoods, combinations, '
        'dependency queries, contours, dumps, look-ups; stratified over observable families), completed, failing on '
        'incomplete inputs or cut short by an exception at a seeded source line. After each call the caller objects, '
        'process settings and - for calls without random draws - the random state are compared, and after the session '
        'every registry, default parameter, measurement and module table. Non-trivial: every completed or failed call. '
        'Distinct by scenario hash.')
STEP = 'API calls'
STATE_MEASURE = 'hash of (call, outcome, function in which it was cut)'
REAL = ['all flavio code', 'wilson', 'numpy/scipy']
STUB = ['delivery of the injected exception (raised at a chosen source line)']
ASSUMPTIONS = ['attributes and tables whose name contains "cache" or "memo", and attributes that appear later, are internal']
RANDOM = {'unc', 'smunc', 'budget', 'cov', 'cov2', 'smcov', 'expcov', 'errrnd'}


_pristine = None


def prepare(tier):
    global _pristine
    snap, marks = digest.Snapper(), digest.Marks()
    _pristine = snap, digest.shared(snap, marks), marks


def sweep(rng):
    """Predictions of many observables."""
    obs = world.sweep_obs(rng, 14)
    dep = world.used_parameters(rng.choice(obs))
    secs = sorted({x for s in obs[:4] for x in world.used_sectors(s)})
    pars = [{}, world.gen_par(rng, dep), {'seed': rng.randrange(1 << 30)}]
    wcs = [{'sm': True}, {'sm': True}, world.gen_wc(rng, secs, smeft=0.)]
    ops = [['eval', ['pred', o, rng.randrange(3), rng.randrange(3), False], 0.6 * rng.random()] for o in range(len(obs))]
    return dict(obs=obs, pars=pars, wcs=wcs, liks=[dict(obs=[])], ops=ops)


def generate(rng, idx, tier):
    if idx % 3 == 2:
        return sweep(rng)
    fams = world.families()
    cheap = rng.random() < 0.85
    keys = list(fams)
    fam = world.pick_family(rng, idx)
    obs = world.pick_obs(rng, fams[fam], want=rng.choice([1, 2]), cheap=cheap) or [['eps_K']]
    if rng.random() < 0.6:
        obs += [s for s in world.pick_obs(rng, fams[rng.choice(keys)], want=1, cheap=cheap) if s not in obs]
    lobs = world.pick_measured(rng, 2, [fam], cheap=cheap) if rng.random() < 0.7 else []
    lobs += [s for s in world.pick_measured(rng, 2, cheap=cheap) if s not in lobs]
    liks = [dict(obs=lobs)]
    if rng.random() < 0.6:
        liks[0]['fit'] = rng.choice([['m_b'], ['Vcb', 'Vub'], []])
    dep = world.used_parameters(rng.choice(obs + lobs))
    secs = sorted({x for s in obs + lobs[:1] for x in world.used_sectors(s)})
    pars = [{}, world.gen_par(rng, dep, 'one'), world.gen_par(rng, dep)]
    wcs = [world.gen_wc(rng, secs, smeft=0. if cheap else 0.2) for _ in range(3)]
    for w in wcs:
        if not w.get('sm') and rng.random() < 0.4:
            w['opt'] = dict([rng.choice([('qcd_order', 0), ('mb_matchingscale', 4.4), ('qed_order', 0)])])
    ro, rw, rp = (lambda: rng.randrange(len(obs))), (lambda: rng.randrange(len(wcs))), (lambda: rng.randrange(len(pars)))
    kinds = ['pred'] * 6 + ['np', 'np', 'sm', 'll', 'll', 'll', 'unc', 'smunc', 'cov', 'cov2', 'deppar', 'depwc', 'mr', 'getwc',
                            'budget', 'combine', 'combine', 'contour', 'likmisc', 'likmisc', 'smcov', 'expcov', 'lookup', 'dump',
                            'failpred', 'failpred', 'cit', 'errs', 'argfmt', 'initwc', 'errrnd', 'logp']
    few = len(dep) <= 8
    ops = []
    for _ in range(rng.randint(4, 12)):
        k = rng.choice(kinds)
        op = None
        if k == 'pred':
            op = ['pred', ro(), rp(), rw(), rng.random() < 0.3]
        elif k == 'np':
            op = ['np', ro(), rw()]
        elif k in ('sm', 'deppar', 'depwc', 'cit'):
            op = [k, ro()]
        elif k == 'll' and lobs:
            op = ['ll', 0, rp(), rw(), [rng.choice(lobs)] if rng.random() < 0.3 else None]
        elif k == 'unc':
            op = ['unc', ro(), rw(), rng.randrange(1000), 2]
        elif k == 'smunc':
            op = ['smunc', ro(), rng.randrange(1000), 2]
        elif k == 'cov':
            op = ['cov', [ro(), ro()], rng.randrange(1000), 2]
        elif k == 'cov2':
            op = ['cov2', [ro() for _ in range(rng.choice([1, 2]))], rng.randrange(1000), rng.sample(dep, min(2, len(dep))),
                  rng.random() < 0.5]
        elif k == 'budget' and few:
            op = ['budget', ro(), rng.randrange(1000), 1]
        elif k == 'mr':
            w = rw()
            if not wcs[w].get('sm') and wcs[w]['eft'] == 'WET':
                op = ['mr', w, 4.8, 'WET', 'flavio', rng.choice(['all', ['sb']])]
        elif k == 'getwc':
            w = rw()
            if not wcs[w].get('sm') and wcs[w]['type'] == 'flavio':
                op = ['getwc', w, rng.choice(['bsmumu', 'bsbs', 'sd']), 4.8, rp()]
        elif k == 'initwc':
            w = rw()
            if not wcs[w].get('sm') and wcs[w]['type'] == 'flavio':
                op = ['initwc', w]
        elif k in ('combine', 'logp') and lobs:
            op = [k, rng.randrange(len(lobs)), rng.random() < 0.3]
        elif k == 'failpred':
            op = ['failpred', ro(), rp(), rw(), rng.sample(dep, min(len(dep), 1))]
        elif k == 'contour' and any(o[0][0] == '<' for o in lobs):
            continue
        elif k in ('contour', 'likmisc', 'smcov', 'expcov') and lobs:
            op = [k, rp(), rw(), rng.randrange(1000)]
        elif k in ('lookup', 'dump', 'errs', 'errrnd'):
            op = [k, rng.randrange(1000)]
        elif k == 'argfmt':
            op = ['argfmt', ro()]
        if op is None:
            continue
        if rng.random() < 0.3:
            ops.append(['hit', op, rng.random(), rng.choice(['KeyboardInterrupt', 'MemoryError', 'ValueError']),
                        rng.choice(trace.MODES), rng.random()])
        else:
            ops.append(['eval', op, rng.random()])
    return dict(obs=obs, pars=pars, wcs=wcs, liks=liks, ops=ops)


def _types(v):
    if isinstance(v, dict):
        return '{%s}' % ','.join(_types(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return type(v).__name__[0] + '(%s)' % ','.join(_types(x) for x in v)
    return '.'


def execute(sc, ctx):
    s = session.Session(sc, ctx)
    snap, pristine, marks = _pristine
    before = dict(pristine, **digest.cheap(snap))
    lobs = sc['liks'][0]['obs']
    pars = [s.par(i) for i in range(len(sc['pars']))]
    wcs = [s.wc(i) for i in range(len(sc['wcs']))]
    lik = s.lik(0) if lobs else None
    own = flavio.ParameterConstraints()     # a parameter object of the caller
    for ps in ([p for _, p in flavio.default_parameters._constraints]):
        c = flavio.default_parameters._parameters.get(ps[0])
        if c is not None:
            own.add_constraint(list(ps), c[1])
    containers = {}

    def caller(name, v):
        """A mutable container handed to flavio."""
        containers[name] = v
        return v

    def objects():
        out = {}
        for i, p in enumerate(pars):
            out['parameter dictionary %d' % i] = snap.numbers(p)
        for i, w in enumerate(wcs):
            out['Wilson object %d' % i] = snap.h([None if w.wc is None else [w.wc.eft, w.wc.basis, w.wc.scale, w.wc.values],
                                                  w._options, type(w).__name__])
            out['identity of the coefficients of %d' % i] = str(id(w.wc))
        if lik is not None:
            ml = getattr(lik, 'measurement_likelihood', lik)
            out['likelihood'] = snap.h([ml.observables, ml.include_measurements, ml.exclude_measurements,
                                        getattr(lik, 'fit_parameters', None), getattr(lik, 'parameters_central', None)])
        for n, v in containers.items():
            out['argument ' + n] = snap.h(v if not isinstance(v, set) else sorted(v, key=str)) + _types(v)
        digest.constraints_digest(snap, own, out, 'own parameters') if 'own' in used else None
        return out
    used = set()

    def mine(op):
        """Containers of the caller and process settings."""
        out = [flavio.config['implementation'], flavio.config['renormalization scale']] + list(containers.values())
        ps = [op[1]] if op[0] in ('contour', 'likmisc') else [op[i] for i in session.par_indices(op)]
        out += [pars[i] for i in ps] if ps else [flavio.default_parameters._parameters]
        for w in wcs:
            out += [x for k, x in vars(w).items() if 'cache' not in k]
            if w.wc is not None:
                out.append(w.wc.values)
        for l in (lik, getattr(lik, 'measurement_likelihood', None)):
            out += list(vars(l).values()) if l is not None else []
        for c in [own] if 'own' in used else []:
            out += list(vars(c).values())
        return out

    def run(op):
        k = op[0]
        if k == 'cov2':
            used.add('own')
            def form(n, o):
                # name, tuple, list or dictionary
                if len(o) > 1 and (op[2] + n) % 3 == 0:
                    return dict(name=o[0], **world.kw_of(o))
                return list(o) if (op[2] + n) % 3 == 1 else world.obs_tuple(o)
            obs = caller('obs_list', [form(n, sc['obs'][o]) for n, o in enumerate(op[1])])
            vary = caller('par_vary', list(op[3]))
            np.random.seed(op[2])
            return lambda: flavio.sm_covariance(obs, N=3, par_vary=vary, par_obj=own if op[4] else None)
        if k == 'combine':
            o = lobs[op[1]]
            kw = world.kw_of(o)
            inc = caller('include_measurements', flavio.Observable[o[0]].get_measurements()[:2]) if op[2] else None
            return lambda: flavio.combine_measurements(o[0], include_measurements=inc, **kw).central_value
        if k == 'logp':
            o = world.obs_tuple(lobs[op[1]])
            ms = [m for m in flavio.Measurement.instances.values() if o in m.all_parameters][:3]
            vals = caller('values', {p: 0.5 for m in ms for p in m.all_parameters})
            return lambda: [sum(np.ravel(list(m.get_logprobability_all(vals, delta=op[2]).values()))) for m in ms]
        if k == 'contour':
            def ll(x):
                p = dict(pars[op[1]])
                p['Vcb'], p['m_b'] = x
                return session.eval_lik(lik, p, wcs[op[2]])
            return lambda: flavio.plots.plotfunctions.likelihood_contour_data(ll, 0.04, 0.043, 4.1, 4.3, steps=2)['z']
        if k == 'likmisc':
            ml = getattr(lik, 'measurement_likelihood', lik)
            ex = caller('exclude_observables', [list, tuple, set][op[3] // 6 % 3]([world.obs_tuple(lobs[0])]))
            pred = caller('predictions', {world.obs_tuple(o): 0.3 for o in lobs})
            r = op[3] % 6
            return [lambda: ml.get_measurements, lambda: ml.get_number_observations(exclude_observables=ex),
                    lambda: ml.log_likelihood_pred(pred, exclude_observables=ex), lambda: ml._warn_meas_corr(),
                    lambda: lik.get_yaml_dict() if lik is ml or lik.fit_parameters else ml.get_yaml_dict(),
                    lambda: getattr(lik, 'log_prior_fit_parameters', lambda p: 0)(pars[op[1]])][r]
        if k == 'smcov':
            obs = caller('observables', [world.obs_tuple(o) for o in lobs])
            return lambda: SMCovariance(obs).get(N=2)
        if k == 'expcov':
            return lambda: MeasurementCovariance(getattr(lik, 'measurement_likelihood', lik)).get(N=10)
        if k == 'lookup':
            o = flavio.Observable[sc['obs'][op[1] % len(sc['obs'])][0]]
            return [lambda: flavio.Observable.find('K'), lambda: flavio.Observable.taxonomy_dict(), lambda: o.get_measurements(),
                    lambda: flavio.Parameter.find('m_'), lambda: flavio.classes.Implementation.show_all(),
                    lambda: [flavio.classes.AuxiliaryQuantity[q].get_implementation() for q in flavio.config['implementation']],
                    lambda: list(map(repr, flavio.Observable.instances.values()))][op[1] % 7]
        if k == 'dump':
            names = list(flavio.Measurement.instances)
            m = flavio.Measurement[names[op[1] * 7 % len(names)]]
            return [lambda: m.get_yaml(pname='observables'), lambda: m.get_yaml_dict(pname='observables'), lambda: m.copy() and None,
                    lambda: flavio.default_parameters.get_yaml_dict(),
                    lambda: [c.get_dict(distribution=True, iterate=True, arraytolist=True) for c, _ in m._constraints]][op[1] % 5]
        if k == 'errs':
            names = list(flavio.Measurement.instances)
            m = flavio.Measurement[names[op[1] * 7 % len(names)]]
            return [lambda: m.get_1d_errors_rightleft(), lambda: m.get_central_all(), lambda: flavio.default_parameters.get_central_all(),
                    lambda: flavio.statistics.probability.combine_distributions([c for c, ps in m._constraints if len(ps) == 1][:2] or [m._constraints[0][0]])][op[1] % 4]
        if k == 'errrnd':
            names = list(flavio.Measurement.instances)
            m = flavio.Measurement[names[op[1] * 7 % len(names)]]
            return [lambda: m.get_1d_errors_random(N=3), lambda: m.get_random_all(size=4)][op[1] % 2]
        if k == 'argfmt':
            o = sc['obs'][op[1]]
            d = caller('observable', dict({'name': o[0]}, **world.kw_of(o)))
            l = caller('observable list', list(o))

            def f():
                for fmt in ('tuple', 'list', 'dict'):
                    r = flavio.Observable.argument_format(d, fmt)
                    if isinstance(r, dict):
                        r.clear()
                    elif isinstance(r, list):
                        r[:] = []
                    if len(l) > 1:
                        flavio.Observable.argument_format(l, fmt)
            return f
        if k == 'initwc':
            return lambda: wcs[op[1]].get_initial_wcxf.dict
        if k == 'mr':
            secs = 'all' if op[5] == 'all' else tuple(op[5])
            return lambda: wcs[op[1]].match_run(op[2], op[3], op[4], secs)
        return lambda: session.evaluate(op, s.par, s.wc, sc['obs'], lambda i: lik)
    for n, (kind, op, *spec) in enumerate(sc['ops']):
        ctx.steps += 1
        containers.clear()
        call = run(op)
        at = trace.position(core.in_fork(trace.profile, call, world.outcome, watched(s, spec[2])), spec[2], spec[0], spec[3]) if kind == 'hit' else None
        points = core.in_fork(trace.dirty, call, world.outcome, mine(op)) if at is None and (not spec or spec[0] < 0.6) else []
        for cut in [at] + ([points] if points else []):
            if cut is not None and cut is points:
                # something of the caller is changed for a while: interrupt the call then
                x = points[int(spec[0] / 0.6 * len(points)) if spec else 0]
                cut = x[0], x[1], x[2][0]
                ctx.count('steered')
            a, ca, ra = objects(), digest.cheap(snap), digest.rng_state()
            where = None
            if cut is not None:
                exc = spec[1] if len(spec) > 1 else 'KeyboardInterrupt'
                inj = trace.Cut(cut, par_exc(exc))
                with inj:
                    got = world.outcome(call)
                where = inj.fired
                if where:
                    ctx.fault('cut:' + exc)
            else:
                got = world.outcome(call)
                if got[0] == 'exc':
                    ctx.fault('failed_call')
            ctx.log(op, got[0], where)
            ctx.count('call:' + op[0])
            ctx.nontrivial = True
            ctx.fp(op[0], got[0], (where or '').split()[-1:])
            d = digest.diff(a, objects()) + digest.diff(ca, digest.cheap(snap))
            if op[0] not in RANDOM and digest.rng_state() != ra:
                d.append('random state')
            if d:
                raise core.Violation('modified:' + d[0].split(' %d' % 0)[0][:40].rstrip('0123456789 '),
                                     'operation %d %r on %r (outcome %s%s) modified: %s'
                                     % (n, op, sc['obs'], got[0] if got[0] == 'ok' else got[:3], ', cut at ' + where if where else '', ', '.join(d[:6])))
    d = digest.diff(before, dict(digest.shared(snap, marks), **digest.cheap(snap)))
    if d:
        raise core.Violation('shared:' + d[0].split()[0], 'after %r on %r the shared state differs: %s'
                             % (sc['ops'], sc['obs'], ', '.join(d[:8])))
