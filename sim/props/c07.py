"""C07: likelihood values are those of the point and measurements in force."""
import builtins
import json
import math

import numpy as np
import flavio
from flavio.statistics.likelihood import MeasurementLikelihood, Likelihood, ParameterLikelihood
from .. import core, world, session, dists
from ..store import RefStore

ID = 'C07'
TIERS = {'quick': dict(runs=40000, seconds=40), 'thorough': dict(runs=2000000, seconds=780)}
SHRINK_LISTS = ('ops',)
RULE = ('a case is 1-3 likelihood objects (measurement and full likelihoods, with included/excluded measurements) over '
        'analytic and registered observables, 2-6 random measurements (uni- and multivariate, also on other observables, '
        'pseudo-measurements) and 10-30 operations: evaluations (all methods, exclusions, delta), changes of parameter '
        'dictionaries, Wilson coefficients and options, registrations, replacements and deletions of measurements, '
        'redefinitions of observables, changes of priors, failing evaluations. Each value is compared with a reference '
        'model of constraints and densities evaluated with fresh predictions. Non-trivial: an evaluation after a change. '
        'Distinct by scenario hash.')
STEP = 'API operations'
STATE_MEASURE = 'hash of (method, preceding operation, number of measurements in force, exclusions, delta)'
REAL = ['flavio likelihood, constraint, measurement and observable classes', 'flavio distributions', 'wilson']
STUB = ['densities and measurement selection recomputed by the reference model', 'session start (forked pristine process)']
ASSUMPTIONS = ['densities of the reference model follow the documented definitions of the distributions']

PARS = ['simp%d' % i for i in range(6)]
NOBS = 5
CKM = {'Vus': 0.2243, 'Vcb': 0.0422, 'Vub': 0.0037, 'gamma': 1.15}


class SimFail(Exception):
    pass


# ---------------------------------------------------------------- observables
def make_function(d):
    def f(wc_obj, par, *args):
        if d.get('raise') and par[d['raise'][0]] > d['raise'][1]:
            raise SimFail('no prediction at this point')
        v = d['c0'] + sum(c * par[p] for p, c in d['c'].items())
        if args:
            v = v * (1 + 0.1 * args[0])
        if d.get('wc'):
            # initial values are enough: no running
            wc = getattr(wc_obj, 'wc', None)
            if wc is not None:
                v = v + d['wc'] * float(np.real(wc.dict.get('C9_bsmumu', 0)))
        if d.get('run') and getattr(wc_obj, 'wc', None) is not None:
            w = wc_obj.match_run(4.8, 'WET', 'flavio', ('sb',)).dict
            v = v + d['run'] * float(np.real(w.get('C7_bs', 0) + w.get('C9_bsmumu', 0)))
        if d.get('cfg'):
            v = v + d['cfg'] * flavio.config['renormalization scale']['bxll']
        return v
    if d.get('arg'):
        return lambda wc_obj, par, q2: f(wc_obj, par, q2)
    return lambda wc_obj, par: f(wc_obj, par)


def name_of(i):
    return 'sim obs %d' % i


def register(i, d):
    flavio.Observable(name_of(i), arguments=['q2'] if d.get('arg') else None)
    flavio.classes.Prediction(name_of(i), make_function(d))


def redefine(i, d):
    flavio.classes.Prediction(name_of(i), make_function(d))


def spec_obs(s):
    """'obs' entries: [i], [i, q2] for simulated and [name, ...] for real ones."""
    if isinstance(s[0], int):
        return name_of(s[0]) if len(s) == 1 else (name_of(s[0]), s[1])
    return world.obs_tuple(s)


def gen_def(rng, i):
    d = {'c0': rng.choice([0., 1.0, -0.5]), 'c': {p: rng.choice([1.0, -1.0, 0.5, 2.0]) for p in rng.sample(PARS, rng.randint(1, 3))}}
    if rng.random() < 0.4:
        d['wc'] = rng.choice([1.0, -0.5])
    if rng.random() < 0.2:
        d['cfg'] = rng.choice([1.0, -0.3])
    if rng.random() < 0.3:
        d['run'] = rng.choice([1.0, -2.0])
    if rng.random() < 0.15:
        d['raise'] = [rng.choice(sorted(d['c'])), 5.0]
    if i == NOBS - 1:
        d['arg'] = True
    return d


# integers collide in their hashes for -1 and -2, and permute within sums
VALS = [-2.0, -1.0, 0.0, 1.0, 2.0, 0.5, -0.5, 1.0, 2.0]


def gen_meas(rng, pool, n=None):
    cons, left = [], list(pool)
    rng.shuffle(left)
    for _ in range(rng.randint(1, 3)):
        if not left:
            break
        k = rng.choice([1, 1, 1, 2, 2, 3, 4])
        k = min(k, len(left))
        os_ = [left.pop() for _ in range(k)]
        if k == 1:
            cons.append([os_, dists.gen_1d(rng, kinds=['normal', 'normal', 'asymmetric_normal', 'half_normal', 'uniform',
                                                       'gaussian_upper_limit', 'gamma_positive', 'numerical'])])
        else:
            spec = dists.gen_mvnum(rng) if k == 2 and rng.random() < 0.2 else dists.gen_mvn(rng, k)
            cons.append([os_, spec])
    return cons


def generate(rng, idx, tier):
    defs = [gen_def(rng, i) for i in range(NOBS)]
    pool = [[i] for i in range(NOBS - 1)] + [[NOBS - 1, 1.0], [NOBS - 1, 2.0]]
    real = world.pick_measured(rng, rng.choice([1, 2])) if rng.random() < 0.2 else []
    names = ['sim meas %d' % i for i in range(5)] + ['Pseudo-measurement of sim']
    meas = []
    for n in rng.sample(names, rng.randint(2, 5)):
        meas.append([n, gen_meas(rng, pool)])
    measured = {json.dumps(o) for n, cons in meas if not n.startswith('Pseudo') for os_, _ in cons for o in os_}
    mobs = [json.loads(x) for x in sorted(measured)]
    if not mobs:
        meas.append(['sim meas 0', [[[[0]], dists.gen_1d(rng, ['normal'])]]])
        meas = [m for i, m in enumerate(meas) if m[0] != 'sim meas 0' or i == len(meas) - 1]
        mobs = [[0]]
    # priors
    priors = []
    left = list(PARS)
    rng.shuffle(left)
    while left:
        k = min(rng.choice([1, 1, 2, 3]), len(left))
        ps = [left.pop() for _ in range(k)]
        priors.append([ps, dists.gen_1d(rng) if k == 1 else dists.gen_mvn(rng, k)])
    liks = []
    for _ in range(rng.randint(1, 3)):
        os_ = rng.sample(mobs, rng.randint(1, len(mobs)))
        if rng.random() < 0.5:
            os_ += [s for s in real if s not in os_]
        L = {'obs': os_, 'type': rng.choice('MML')}
        if L['type'] == 'L':
            L['fit'] = rng.sample(PARS, rng.randint(0, 4))
        r = rng.random()
        if r < 0.2 and not any(isinstance(o[0], str) for o in os_):
            L['include'] = rng.sample([m[0] for m in meas], rng.randint(1, len(meas)))
        elif r < 0.4:
            L['exclude'] = rng.sample([m[0] for m in meas], rng.randint(1, max(1, len(meas) - 1)))
        if rng.random() < 0.15:
            L['pseudo'] = True
        liks.append(L)
    pars = [{p: rng.choice(VALS) for p in PARS} for _ in range(3)]
    wcs = [{'sm': True}] + [{'type': rng.choice(['wilson', 'flavio']), 'eft': 'WET', 'basis': 'flavio', 'scale': rng.choice([4.8, 160]),
                             'wc': {rng.choice(['C9_bsmumu', 'C7_bs', 'C10_bsmumu']): rng.choice([-1.0, -2.0, 0.5])}, 'opt': {}}
                            for _ in range(2)]
    if any(d.get('run') for d in defs) and rng.random() < 0.5:
        wcs[1]['scale'] = 160
        wcs[1]['wc'] = {'C7_bs': rng.choice([-1.0, 0.5])}
        if rng.random() < 0.4:
            wcs[2] = {'type': rng.choice(['wilson', 'flavio']), 'eft': 'SMEFT', 'basis': 'Warsaw', 'scale': 91.1876,
                      'wc': {rng.choice(['lq1_2223', 'phiq1_23']): rng.choice([1e-8, -2e-8])}, 'opt': {}}
    smeft = wcs[2]['eft'] == 'SMEFT'
    ops = []
    kinds = ['ll'] * 12 + ['setpar'] * 5 + ['swap', 'nobs', 'meas', 'addm', 'addm', 'delm', 'rmc', 'setc', 'redef', 'setprior',
                                           'opt', 'opt', 'setinit', 'fail', 'newlik', 'undo', 'undo', 'impl', 'cfg']
    if rng.random() < 0.3:
        off = set(rng.sample(sorted(set(kinds) - {'ll', 'setpar'}), 6))
        kinds = [k for k in kinds if k not in off]
    allobs = pool + real

    def evalop():
        li = rng.randrange(len(liks))
        ex = rng.sample(liks[li]['obs'], 1) if rng.random() < 0.25 else []
        if rng.random() < 0.05:
            ex = list(liks[li]['obs'])
        return ['ll', li, rng.randrange(3), rng.randrange(3), ex, rng.random() < 0.2,
                rng.choice(['total', 'par', 'exp', 'prior', 'par', 'pred', 'raw'])]
    for _ in range(rng.randint(10, 30)):
        k = rng.choice(kinds)
        if k == 'll':
            ops.append(evalop())
        elif k == 'setpar':
            ops.append(['setpar', rng.randrange(3), rng.choice(PARS), rng.choice(VALS)])
            if smeft and rng.random() < 0.4:
                k = rng.choice(sorted(CKM))
                ops[-1] = ['setpar', ops[-1][1], k, CKM[k] * rng.choice([1, 1.1])]
        elif k == 'swap':
            ops.append(['swap', rng.randrange(3)] + rng.sample(PARS, 2))
        elif k == 'nobs':
            li = rng.randrange(len(liks))
            ops.append(['nobs', li, rng.sample(liks[li]['obs'], rng.choice([0, 1]))])
        elif k == 'meas':
            ops.append(['meas', rng.randrange(len(liks))])
        elif k == 'addm':
            ops.append(['addm', rng.choice(names), gen_meas(rng, pool)])
        elif k == 'delm':
            ops.append(['delm', rng.choice(names)])
        elif k == 'rmc':
            ops.append(['rmc', rng.choice(names), rng.choice(pool)])
        elif k == 'setc':
            ops.append(['setc', rng.choice(names), rng.choice(pool), dists.gen_1d(rng, ['normal', 'half_normal', 'asymmetric_normal'])])
        elif k == 'redef':
            i = rng.randrange(NOBS)
            ops.append(['redef', i, gen_def(rng, i)])
        elif k == 'setprior':
            kk = rng.choice([1, 1, 2])
            ops.append(['setprior', rng.sample(PARS, kk), dists.gen_1d(rng) if kk == 1 else dists.gen_mvn(rng, kk)])
        elif k == 'opt':
            ops.append(['opt', rng.randrange(1, 3)] + rng.choice([['qcd_order', 0], ['qcd_order', 1], ['mb_matchingscale', 4.4]]))
        elif k == 'setinit':
            ops.append(['setinit', rng.randrange(1, 3), {rng.choice(['C9_bsmumu', 'C7_bs']): rng.choice([-1.0, -2.0, 0.5])}, rng.choice([4.8, 160])])
        elif k == 'fail':
            li = rng.randrange(len(liks))
            ops.append(['fail', li, rng.randrange(3), rng.randrange(3), rng.choice(PARS)])
        elif k == 'newlik':
            ops.append(['newlik', rng.randrange(len(liks))])
        elif k == 'impl' and real:
            impls = session.impl_choices()
            q = rng.choice(sorted(impls))
            ops.append(['impl', q, rng.choice(impls[q])])
        elif k == 'cfg':
            ops.append(['cfg', 'renormalization scale|bxll', rng.choice([4.8, 5.0, 2.5])])
        elif k == 'undo':
            ops.append(['undo'])
        if ops and ops[-1][0] in ('opt', 'setinit', 'cfg', 'redef', 'setpar') and rng.random() < 0.35:
            # evaluate, change, evaluate again
            e, c = evalop(), ops[-1]
            e[6] = rng.choice(['total', 'par', 'exp'])
            if c[0] in ('opt', 'setinit'):
                e[3] = c[1]
            elif c[0] == 'setpar':
                e[2] = c[1]
            ops.insert(len(ops) - 1, e)
            ops.append(json.loads(json.dumps(e)))
            continue
        if ops and ops[-1][0] not in ('ll', 'nobs', 'meas') and rng.random() < 0.6:
            prior = [o for o in ops if o[0] == 'll']
            ops.append(json.loads(json.dumps(rng.choice(prior))) if prior and rng.random() < 0.7 else evalop())
    ops.append(evalop())
    return dict(defs=defs, meas=meas, priors=priors, liks=liks, pars=pars, wcs=wcs, real=bool(real), ops=ops)


# ---------------------------------------------------------------- execution
class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.defs = json.loads(json.dumps(sc['defs']))
        for i, d in enumerate(self.defs):
            register(i, d)
        # reference for predictions that need more than arithmetic
        self.ask = session.reference_server() if sc['real'] or any(d.get('run') for d in self.defs) \
            or any(op[0] == 'redef' and op[2].get('run') for op in sc['ops']) else None
        self.memo = {}
        self.env = {'defaults': {}, 'impl': {}, 'cfg': {}}
        # parameters
        self.priors = RefStore()
        self.par_obj = flavio.classes.ParameterConstraints()
        for ps, spec in sc['priors']:
            self.set_prior(ps, spec)
        base = flavio.default_parameters.get_central_all() if sc['real'] else dict(CKM)
        self.pars = [dict(base, **p) for p in sc['pars']]
        self.parspec = [dict(base, **p) for p in sc['pars']]
        self.wcs = [world.make_wc(w) for w in sc['wcs']]
        self.wspec = json.loads(json.dumps(sc['wcs']))
        # measurements
        self.meas = {}
        for n, cons in sc['meas']:
            self.add_meas(n, cons)
        # measurements of registered observables: taken from the pristine registry
        self.realmeas = []
        if sc['real']:
            robs = {spec_obs(o) for L in sc['liks'] for o in L['obs'] if isinstance(o[0], str)}
            for n, m in flavio.Measurement.instances.items():
                if n.startswith('Pseudo') or n in self.meas:
                    continue
                if robs & set(m.all_parameters):
                    self.realmeas.append((n, [(c, list(ps)) for c, ps in m._constraints], dict(m._parameters)))
        self.liks = [None] * len(sc['liks'])
        for i in range(len(self.liks)):
            self.new_lik(i)
        self.undo = []

    def set_prior(self, ps, spec):
        self.par_obj.add_constraint(list(ps), dists.build(spec))
        self.priors.add(ps, spec)

    def add_meas(self, n, cons):
        m = flavio.Measurement(n)
        st = RefStore()
        for os_, spec in cons:
            o = [spec_obs(x) for x in os_]
            m.add_constraint(list(o), dists.build(spec))
            st.add(o, spec)
        self.meas[n] = st

    def new_lik(self, i):
        """Returns an outcome if the likelihood cannot be built."""
        L = self.sc['liks'][i]
        obs = [spec_obs(o) for o in L['obs']]
        kw = {}
        if L.get('include'):
            kw['include_measurements'] = list(L['include'])
        if L.get('exclude'):
            kw['exclude_measurements'] = list(L['exclude'])
        if L.get('pseudo'):
            kw['include_pseudo_measurements'] = True
        # is every observable measured?
        have = set()
        for n, st in self.in_force(L, obs):
            have.update(st if isinstance(st, set) else st.params())
        ok = set(obs) <= have
        try:
            if L['type'] == 'L':
                self.liks[i] = Likelihood(par_obj=self.par_obj, fit_parameters=list(L['fit']), observables=obs, **kw)
            else:
                self.liks[i] = MeasurementLikelihood(obs, **kw)
            if not ok:
                raise core.Violation('unmeasured', 'a likelihood was created although %r are not all measured (%r)' % (obs, sorted(map(str, have))))
        except AssertionError:
            self.liks[i] = None
            if ok:
                raise core.Violation('measured', 'a likelihood of %r was refused although all are measured by %r'
                                     % (obs, [n for n, _ in self.in_force(L, obs)]))

    def in_force(self, L, obs):
        """[(name, RefStore or set of observables)] of the measurements in force."""
        out = []
        for n, st in self.meas.items():
            if n.startswith('Pseudo-measurement') and not L.get('pseudo'):
                continue
            if L.get('include') and n not in L['include']:
                continue
            if L.get('exclude') and n in L['exclude']:
                continue
            if set(st.params()) & set(obs):
                out.append((n, st))
        for n, cons, pars in self.realmeas:
            if L.get('include') and n not in L['include']:
                continue
            if set(pars) & set(obs):
                out.append((n, set(pars)))
        return out

    # -- predictions
    def predict(self, o, par, w):
        if isinstance(o[0], int) and not (self.defs[o[0]].get('run') and not self.wspec[w].get('sm')):
            d = self.defs[o[0]]
            wc = None if self.wspec[w].get('sm') else _FakeWC(self.wspec[w]['wc'])
            return make_function({k: v for k, v in d.items() if k != 'run'})(wc, par, *o[1:])
        key = json.dumps([o, par, self.wspec[w], self.env, self.defs[o[0]] if isinstance(o[0], int) else None], sort_keys=True)
        if key not in self.memo:
            self.memo[key] = self.ask(_fresh_pred, o, self.defs[o[0]] if isinstance(o[0], int) else None, par, self.wspec[w], self.env)
        r = self.memo[key]
        if r[0] == 'exc':
            raise _exc_class(r[1])(r[2])
        return r[1]

    def predictions(self, L, par, w):
        return {spec_obs(o): self.predict(o, par, w) for o in L['obs']}

    # -- likelihood
    def ll_exp(self, L, pred, excl, delta):
        obs = [spec_obs(o) for o in L['obs']]
        ex = {spec_obs(o) for o in excl}
        s = 0.
        for n, st in self.in_force(L, obs):
            if isinstance(st, RefStore):
                s += st.total(pred, only=set(obs), excl=ex, delta=delta)
        for n, cons, pars in self.realmeas:
            if L.get('include') and n not in L['include']:
                continue
            for c, ps in cons:
                keep = [(i, p) for i, p in enumerate(ps) if pars.get(p, (None, None))[1] is c and p in obs and p not in ex]
                if not keep:
                    continue
                if len(ps) == 1:
                    x = pred[ps[0]]
                    v = c.logpdf(x) - (c.logpdf(c.central_value) if delta else 0)
                else:
                    exclude = tuple(i for i in range(len(ps)) if i not in [k for k, _ in keep]) or None
                    x = [pred[p] for _, p in keep]
                    v = c.logpdf(x, exclude=exclude)
                    if delta:
                        v = v - c.logpdf([c.central_value[i] for i, _ in keep], exclude=exclude)
                s += float(np.squeeze(v))
        return s

    def prior(self, L, par, delta):
        if L['type'] != 'L' or not L['fit']:
            return 0.
        return self.priors.total(par, only=set(L['fit']), delta=delta)


def _exc_class(name):
    if name == 'SimFail':
        return SimFail
    c = getattr(builtins, name, None)
    if isinstance(c, type) and issubclass(c, Exception) and c not in (UnicodeDecodeError, UnicodeEncodeError):
        return c
    return type(name, (Exception,), {})


class _FakeWC:
    def __init__(self, d):
        class W:
            dict = d
        self.wc = W()


def _fresh_pred(o, d, par, wspec, env):
    session.apply_env(env)
    if d is not None:
        redefine(o[0], d)
        n, args = name_of(o[0]), o[1:]
    else:
        n, args = o[0], o[1:]
    return world.outcome(lambda: float(flavio.Observable[n].prediction_par(dict(par), world.make_wc(wspec), *args)))


def _close(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'exc':
        return a[1] == b[1]
    return world.same(a[1], b[1], rtol=1e-8, atol=1e-9)


def scalar(v):
    return float(np.squeeze(np.asarray(v, dtype=float)))


def execute(sc, ctx):
    W = World(sc, ctx)
    prev, changed = 'start', False
    undo = []
    for n, op in enumerate(sc['ops']):
        ctx.steps += 1
        k = op[0]
        if k in ('ll', 'fail'):
            L, lik = sc['liks'][op[1]], W.liks[op[1]]
            if lik is None:
                continue
            par, spec = W.pars[op[2]], dict(W.parspec[op[2]])
            w = op[3]
            if k == 'fail':
                par = dict(par)
                par.pop(op[4], None)
                spec.pop(op[4], None)
                excl, delta, method = [], False, 'par'
            else:
                excl, delta, method = op[4:7]
            if L['type'] == 'M' and method in ('total', 'exp', 'prior'):
                method = 'par'
            ex = [spec_obs(o) for o in excl] or None
            wc = W.wcs[w]

            def call():
                ml = lik if L['type'] == 'M' else lik.measurement_likelihood
                if method == 'prior':
                    return scalar(lik.log_prior_fit_parameters(par, delta=delta))
                if method == 'exp':
                    return scalar(lik.log_likelihood_exp(par, wc, exclude_observables=ex, delta=delta))
                if method == 'total':
                    return scalar(lik.log_likelihood(par, wc, exclude_observables=ex, delta=delta))
                if method == 'pred':
                    return {_k(a): scalar(b) for a, b in ml.get_predictions_par(par, wc).items()}
                if method == 'raw':
                    return scalar(ml.log_likelihood_pred({o: 0.7 + 0.1 * i for i, o in enumerate(spec_obs(x) for x in L['obs'])},
                                                         exclude_observables=ex, delta=delta))
                return scalar(ml.log_likelihood_par(par, wc, exclude_observables=ex, delta=delta))

            def want():
                if method == 'prior':
                    return W.prior(L, spec, delta)
                if method == 'raw':
                    return W.ll_exp(L, {o: 0.7 + 0.1 * i for i, o in enumerate(spec_obs(x) for x in L['obs'])}, excl, delta)
                pr = W.predictions(L, spec, w)
                if method == 'pred':
                    return {_k(a): b for a, b in pr.items()}
                s = W.ll_exp(L, pr, excl, delta)
                return s + W.prior(L, spec, delta) if method == 'total' else s
            ref, got = world.outcome(want), world.outcome(call)
            ctx.log(op, got)
            ctx.count('eval:' + method)
            if ref[0] == 'exc':
                ctx.fault('evaluation_fails')
            if changed:
                ctx.nontrivial = True
            ctx.fp(method, prev, len(W.in_force(L, [spec_obs(o) for o in L['obs']])), bool(excl), delta, L['type'])
            if not _close(got, ref):
                raise core.Violation('value:' + method, 'operation %d %r: likelihood %r at %r gave %s, expected %s (measurements in force: %r)'
                                     % (n, op, L, {p: spec.get(p) for p in PARS}, world.short(got), world.short(ref),
                                        [m for m, _ in W.in_force(L, [spec_obs(o) for o in L['obs']])]))
            if method == 'pred' and got[0] == 'ok':
                # the caller may do what it likes with the returned dictionary
                d = (lik if L['type'] == 'M' else lik.measurement_likelihood).get_predictions_par(par, wc)
                for o in list(d):
                    d[o] = 1e9
            prev = k
            continue
        if k in ('nobs', 'meas'):
            L, lik = sc['liks'][op[1]], W.liks[op[1]]
            if lik is None:
                continue
            ml = lik if L['type'] == 'M' else lik.measurement_likelihood
            obs = [spec_obs(o) for o in L['obs']]
            force = W.in_force(L, obs)
            if k == 'meas':
                got, ref = sorted(ml.get_measurements), sorted(m for m, _ in force)
            else:
                ex = [spec_obs(o) for o in op[2]]
                got = ml.get_number_observations(exclude_observables=ex or None)
                ref = sum(len((set(obs) - set(ex)) & (st if isinstance(st, set) else set(st.params()))) for _, st in force)
            ctx.log(op, got)
            if got != ref:
                raise core.Violation(k, 'operation %d %r of likelihood %r gave %r, expected %r' % (n, op, L, got, ref))
            continue
        changed = True
        prev = k
        if k == 'undo':
            if not undo:
                continue
            undo.pop()()
            ctx.log('undo')
        else:
            u = mutate(W, op)
            ctx.log(op)
            if u:
                undo.append(u)
        ctx.count('mutate:' + k)


def mutate(W, op):
    k = op[0]
    if k == 'setpar':
        _, i, p, v = op
        old = W.pars[i][p]

        def put(x):
            W.pars[i][p] = x
            W.parspec[i][p] = x
        put(v)
        return lambda: put(old)
    if k == 'swap':
        _, i, a, b = op
        for d in (W.pars[i], W.parspec[i]):
            d[a], d[b] = d[b], d[a]
        return None
    if k == 'addm':
        had = W.meas.get(op[1])
        W.add_meas(op[1], op[2])
        if had is None:
            def back():
                if op[1] in W.meas:
                    del flavio.Measurement[op[1]]
                    del W.meas[op[1]]
            return back
        return None
    if k == 'delm':
        if op[1] in W.meas:
            obj, st = flavio.Measurement[op[1]], W.meas.pop(op[1])
            del flavio.Measurement[op[1]]

            def back():
                flavio.Measurement.instances[op[1]] = obj
                W.meas[op[1]] = st
            return back
        return None
    if k == 'rmc':
        if op[1] in W.meas:
            o = spec_obs(op[2])
            flavio.Measurement[op[1]].remove_constraint(o)
            W.meas[op[1]].remove(o)
        return None
    if k == 'setc':
        if op[1] in W.meas:
            o = spec_obs(op[2])
            flavio.Measurement[op[1]].add_constraint([o], dists.build(op[3]))
            W.meas[op[1]].add([o], op[3])
        return None
    if k == 'redef':
        i, d = op[1], op[2]
        o = flavio.Observable[name_of(i)]
        oldp, oldd = o.prediction, W.defs[i]
        redefine(i, d)
        W.defs[i] = d

        def back():
            o.set_prediction(oldp)
            W.defs[i] = oldd
        return back
    if k == 'setprior':
        W.set_prior(op[1], op[2])
        return None
    if k == 'opt':
        _, w, key, val = op
        opts = W.wspec[w].setdefault('opt', {})
        W.wcs[w].set_option(key, val)
        had = opts.get(key)
        opts[key] = val
        if had is not None:
            def back():
                W.wcs[w].set_option(key, had)
                W.wspec[w]['opt'][key] = had
            return back
        return None
    if k == 'setinit':
        _, w, wcd, scale = op
        s = W.wspec[w]
        if s['type'] != 'flavio':
            return None
        W.wcs[w].set_initial(dict(wcd), scale, 'WET', 'flavio')
        W.wspec[w] = {'type': 'flavio', 'eft': 'WET', 'basis': 'flavio', 'scale': scale, 'wc': wcd, 'opt': {}}
        return None
    if k == 'impl':
        _, q, i = op
        flavio.config['implementation'][q] = i
        W.env['impl'][q] = i
        return None
    if k == 'cfg':
        a, b = op[1].split('|')
        old = flavio.config[a][b]

        def put(x):
            flavio.config[a][b] = x
            W.env['cfg'][op[1]] = x
        put(op[2])
        return lambda: put(old)
    if k == 'newlik':
        W.new_lik(op[1])
        return None
    raise core.HarnessError('unknown operation %r' % (op,))


def _k(o):
    return json.dumps(o)
