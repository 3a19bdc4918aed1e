"""C18: likelihood definitions survive dumping and loading."""
import copy
import io
import json
import random

import numpy as np
import yaml
import flavio
from flavio.classes import Measurement, Parameter
from flavio.statistics.probability import (MultivariateNormalDistribution, AsymmetricNormalDistribution, UniformDistribution,
                                            NumericalDistribution)
from flavio.statistics import likelihood as fl
from .. import core, world, dists, trace, session

ID = 'C18'
TIERS = {'quick': dict(runs=20000, seconds=30), 'thorough': dict(runs=1000000, seconds=780)}
SHRINK_LISTS = ('ops',)
RULE = ('a case is a history of 4-16 definitions, dumps (text, stream, file; with write errors), loads (text, stream, file, dictionary, in the '
        'same session or after a restart with only the file surviving), loads cut by an injected exception, rejected loads and changes of '
        'loaded objects; the loaded likelihood is compared with the original (observables, measurements in force, constraints of its '
        'parameters, log-likelihoods and priors at several points). Non-trivial: a restart, a fault or a rejected load. Distinct by '
        'scenario hash.')
STEP = 'operations'
STATE_MEASURE = 'hash of (last two operations, kind of the likelihood)'
REAL = ['flavio.io', 'flavio.statistics.likelihood', 'flavio.classes', 'yaml', 'file system below a scratch directory']
STUB = ['streams (write errors)', 'restart (fork of the pristine session)', 'delivery of injected exceptions']
ASSUMPTIONS = ['parameter constraints are dumped relative to the default ones: removed constraints cannot be dumped']
OBS = [['BR(Bs->mumu)'], ['BR(B0->mumu)'], ['S_psiK'], ['DeltaM_s'], ['DeltaM_d'], ['BR(B+->taunu)'], ['eps_K'], ['<BR>(B->Xsmumu)', 1.0, 6.0],
       ['BR(B->Xsgamma)'], ['<dBR/dq2>(B+->Kmumu)', 1.1, 6.0], ['<dBR/dq2>(B+->Kmumu)', 15.0, 22.0], ['S_K*gamma']]
PARS = ['m_b', 'm_c', 'Vcb', 'Vub', 'alpha_s', 'f_Bs', 'f_B+', 'bag_Bs_1', 'tau_Bs', 'DeltaGamma/Gamma_Bs']


def gen_spec(rng):
    kind = rng.choice(['ml', 'pl', 'lik', 'lik', 'fl', 'fl'])
    sp = dict(kind=kind, obs=rng.sample(range(len(OBS)), rng.choice([1, 2, 3])), form=rng.choice(['plain', 'plain', 'npfloat', 'int']),
              sel=rng.choice([None, None, 'exclude', 'include', 'empty']), selbits=rng.randrange(1, 512), pars=[], ps=None,
              pseudo=rng.random() < .15)
    if kind != 'ml':
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            m = rng.choice(['str', 'str', 'dist', 'mv', 'new', 'same', 'overlap'])
            p = rng.sample(PARS, 2)
            if rng.random() < .2:
                sp['pars'].append(['group', [rng.random()], rng.choice([[rng.choice([0., .01, .1]), rng.choice([1., .25, 4.])],
                                                                        [0., 1., rng.choice([0., .5, -.3])]])])
                continue
            if rng.random() < .15:
                sp['pars'].append(['shape', [rng.choice(PARS)], rng.choice(['asymmetric', 'uniform', 'numerical'])])
                continue
            sp['pars'].append([m, p, {'str': rng.choice(['4.2 ± 0.3', '1.0 + 0.1 - 0.3', '0.04(1)', '2.5', '< 0.3 @ 95% CL']),
                                      'dist': dists.gen_1d(rng), 'mv': dists.gen_mvn(rng, 2), 'new': dists.gen_1d(rng), 'same': None,
                                      'overlap': dists.gen_mvn(rng, 2)}[m]])
        sp['ps'] = rng.choice([[], rng.sample(PARS, 1), rng.sample(PARS, 3), None]) if kind != 'pl' else rng.sample(PARS, rng.choice([1, 3]))
    if kind == 'fl':
        sp['nuis'] = rng.choice(['all', [], rng.sample(PARS, 2)])
    return sp


BAD = ['obs_unknown', 'obs_string', 'obs_args', 'both', 'extra', 'nomeas', 'par_unknown', 'par_nolist', 'ps_string', 'noobs', 'garbage', 'par_dist',
       'obs_none']


def generate(rng, idx, tier):
    ops = [['new', 0, gen_spec(rng)]]
    for _ in range(rng.randint(3, 15)):
        k = rng.choice(['new', 'dump', 'dump', 'load', 'load', 'load', 'load', 'restart', 'restart', 'cut', 'bad', 'bad', 'mutate', 'again'])
        s = rng.randrange(3)
        if k == 'new':
            op = [k, s, gen_spec(rng)]
        elif k == 'dump':
            op = [k, s, rng.choice(['string', 'stream', 'file', 'style', 'full', 'full', 'cut']), rng.random()]
        elif k == 'load':
            op = [k, s, rng.choice(['string', 'stream', 'file', 'dict', 'dict', 'include'])]
        elif k == 'restart':
            op = [k, s]
        elif k == 'cut':
            op = [k, s, rng.random(), rng.choice(['KeyboardInterrupt', 'MemoryError', 'ValueError'])]
        elif k == 'bad':
            op = [k, s, rng.choice(BAD)]
        else:
            op = [k, s]
        ops.append(op)
    return dict(ops=ops, q=rng.randrange(1 << 20))


CLS = {'ml': fl.MeasurementLikelihood, 'pl': fl.ParameterLikelihood, 'lik': fl.Likelihood, 'fl': fl.FastLikelihood}


def obs_of(sp):
    out = []
    for i in sp['obs']:
        s = OBS[i]
        f = {'plain': float, 'npfloat': np.float64, 'int': lambda x: int(x) if x == int(x) else x}[sp['form']]
        out.append(s[0] if len(s) == 1 else tuple([s[0]] + [f(x) for x in s[1:]]))
    return out


def par_obj(sp):
    c = flavio.default_parameters.copy()
    for m, p, d in sp['pars']:
        if m == 'str':
            c.set_constraint(p[0], d)
        elif m == 'dist':
            c.add_constraint([p[0]], dists.build(d))
        elif m in ('mv', 'overlap'):
            c.add_constraint(list(p), dists.build(d))
        elif m == 'new':
            Parameter('verif ' + p[0])
            c.add_constraint(['verif ' + p[0]], dists.build(d))
        elif m == 'group':
            # other values for parameters correlated by default
            gs = [(con, ps) for con, ps in flavio.default_parameters._constraints if len(ps) > 1 and hasattr(con, 'covariance')]
            con, ps = gs[int(p[0] * len(gs))]
            cov = np.array(con.covariance) * d[1]
            if len(d) > 2:
                # other correlations
                cov = cov * d[2] + np.diag(np.diag(cov)) * (1 - d[2]) if d[2] > 0 else np.diag(np.diag(cov))
            c.add_constraint(list(ps), MultivariateNormalDistribution(np.array(con.central_value) * (1 + d[0]), cov))
        elif m == 'shape':
            # another distribution with the central value and errors of the default
            n, con = flavio.default_parameters._parameters[p[0]]
            if np.isscalar(con.central_value) and con.error_right > 0 and con.error_left > 0:
                x, r, l = con.central_value, con.error_right, con.error_left
                if d == 'asymmetric':
                    c.add_constraint([p[0]], AsymmetricNormalDistribution(x, r, l))
                elif d == 'uniform':
                    c.add_constraint([p[0]], UniformDistribution(x, r / .6827))
                else:
                    xs = np.linspace(x - 5 * l, x + 5 * r, 201)
                    c.add_constraint([p[0]], NumericalDistribution(xs, np.where(xs < x, np.exp(-((xs - x) / l)**2 / 2), np.exp(-((xs - x) / r)**2 / 2)), central_value=x))
        elif m == 'same':
            n, con = flavio.default_parameters._parameters[p[0]]
            if np.isscalar(con.central_value):
                c.add_constraint([p[0]], copy.deepcopy(con))
    return c


def build(sp, name):
    kw = {}
    obs = obs_of(sp)
    if sp['kind'] != 'pl':
        names = fl.MeasurementLikelihood(list(obs)).get_measurements
        some = [n for i, n in enumerate(names) if (sp['selbits'] >> (i % 9)) & 1]
        if sp['sel'] == 'exclude':
            kw['exclude_measurements'] = some[:2] + ['verif no such measurement']
        elif sp['sel'] == 'include':
            kw['include_measurements'] = names[:1] + some[::-1]
        elif sp['sel'] == 'empty':
            kw['exclude_measurements'] = []
        kw['observables'] = obs
    if sp['kind'] in ('ml', 'lik') and sp['pseudo']:
        kw['include_pseudo_measurements'] = True
    if sp['kind'] != 'ml':
        if sp['pars']:
            kw['par_obj'] = par_obj(sp)
        kw['parameters' if sp['kind'] == 'pl' else 'fit_parameters'] = copy.copy(sp['ps'])
    if sp['kind'] == 'fl':
        kw['nuisance_parameters'] = copy.copy(sp['nuis'])
        return fl.FastLikelihood(name, **kw)
    return CLS[sp['kind']](**kw)


def par_sig(po):
    cen = po.get_central_all()
    out = {}
    few = {}
    for p in PARS + ['verif ' + x for x in PARS]:
        if p in po._parameters:
            n, c = po._parameters[p]
            few[p] = [float(np.ravel(c.error_right)[n]), float(np.ravel(c.error_left)[n])]
    for shift in (.01,):
        lp = po.get_logprobability_all({k: float(v) * (1 + shift) + shift * 1e-3 for k, v in cen.items()})
        tot = {}
        for c, v in lp.items():
            names = tuple(p for cc, ps in po._constraints if cc is c for p in ps if po._parameters[p][1] is c)
            tot[repr(sorted(names))] = float(np.real(v))
        out[shift] = tot
    return {'central': {k: float(v) for k, v in cen.items()}, 'logp': out,
            'errors': few}


def num(x):
    """A number, also if given as an array with one element."""
    return x.item() if isinstance(x, np.ndarray) and x.size == 1 else x


def signature(L, sp):
    """Observable behaviour of a likelihood."""
    out = {'type': type(L).__name__}
    P = flavio.default_parameters.get_central_all()
    w = flavio.WilsonCoefficients()
    w.set_initial({'C10_bsmumu': .5, 'C7_bs': .02}, 160, 'WET', 'flavio')
    kind = sp['kind']
    if kind != 'pl':
        out['observables'] = [tuple([o[0]] + [float(x) for x in o[1:]]) if isinstance(o, tuple) else o for o in L.observables]
        ml = {'ml': lambda: L, 'lik': lambda: L.measurement_likelihood, 'fl': lambda: L.full_measurement_likelihood}[kind]()
        out['measurements'] = sorted(ml.get_measurements)
        preds = {o: .9 for o in L.observables}
        out['ll'] = ml.log_likelihood_pred({o: flavio.Measurement[m].get_central(o) * 1.1 for m in ml.get_measurements
                                            for o in L.observables if o in Measurement[m].all_parameters})
        out['ll delta'] = ml.log_likelihood_pred(preds, delta=True)
        out['ll'], out['ll delta'] = num(out['ll']), num(out['ll delta'])
        out['pseudo'] = bool(ml.include_pseudo_measurements)
        out['n'] = ml.get_number_observations()
    if kind == 'pl':
        out['parameters'] = L.parameters
        out['prior'] = world.outcome(lambda: num(L.log_likelihood_par({k: 1.01 * v for k, v in L.parameters_central.items()})))
        out['central'] = [float(x) for x in np.ravel(L.get_central)]
    if kind in ('lik', 'fl'):
        out['fit'] = list(L.fit_parameters)
    if kind == 'lik':
        out['prior'] = world.outcome(lambda: num(L.log_prior_fit_parameters({k: 1.01 * v for k, v in L.par_obj.get_central_all().items()})))
    if kind == 'fl':
        out['name'] = L.name
        out['nuis'] = sorted(L.nuisance_parameters)
        out['vary'] = sorted(L.sm_covariance.vary_parameters)
    if kind != 'ml':
        out['par_obj'] = par_sig(L.par_obj)
        out['parcen'] = {k: float(v) for k, v in L.parameters_central.items()}
    return world.norm(out)


def load_sig(text, sp, setup):
    """In another session."""
    for m in setup:
        Parameter(m)
    try:
        return ('ok', signature(CLS[sp['kind']].load(text), sp))
    except Exception as e:
        return ('exc', repr(e))


class Full(io.StringIO):
    def __init__(self, n, exc):
        super().__init__()
        self.left, self.exc = n, exc

    def write(self, s):
        self.left -= len(s)
        if self.left < 0:
            raise self.exc
        return super().write(s)


def plain_dump(d, f=None):
    return yaml.safe_dump(json.loads(json.dumps(d)), f)


def broken(text, what, kind):
    """A definition that has to be rejected, or None."""
    d = yaml.safe_load(text)
    pk = 'parameters' if kind == 'pl' else 'fit_parameters'
    hasobs = kind != 'pl'
    haspar = kind != 'ml'
    if what == 'obs_unknown' and hasobs:
        d['observables'] = d['observables'] + ['verif unknown']
    elif what == 'obs_string' and hasobs:
        d['observables'] = 'BR(Bs->mumu)'
    elif what == 'obs_args' and hasobs:
        d['observables'] = d['observables'] + [{'name': '<BR>(B->Xsmumu)', 'q2min': 1.0}]
    elif what == 'both' and hasobs:
        d['exclude_measurements'], d['include_measurements'] = ['a'], ['b']
    elif what == 'extra':
        d['verif'] = 1
    elif what == 'nomeas' and hasobs:
        d.pop('exclude_measurements', None)
        d['include_measurements'] = ['verif unknown']
    elif what == 'par_nolist' and haspar:
        d['par_obj'] = {'m_b': '4.2 ± 0.1'}
    elif what == 'par_unknown' and haspar:
        d['par_obj'] = [{'m_c': '1.2 ± 0.1'}, {'m_b': 'no number'}]
    elif what == 'par_dist' and haspar:
        d['par_obj'] = [{'m_c': '1.2 ± 0.1'}, {'parameters': ['m_b'], 'values': {'distribution': 'nonsense', 'central_value': 1}}]
    elif what == 'ps_string' and haspar:
        d[pk] = 'm_b'
    elif what == 'noobs' and hasobs:
        d.pop('observables')
    elif what == 'obs_none' and hasobs:
        d['observables'] = None
    elif what == 'garbage':
        return text + '\n  : [}'
    else:
        return None
    return plain_dump(d)


def execute(sc, ctx):
    ask = session.reference_server()    # forked before anything happens
    live = {}                           # slot -> (object, spec, signature)
    rng = random.Random(sc['q'])
    names = 0
    texts = {}
    newpars = set()
    hist = []

    def bad(kind, msg, *a):
        raise core.Violation(kind, '%s: %s' % (where, msg % a))

    def world_state():
        d = flavio.default_parameters
        return ([(tuple(p), id(c)) for c, p in d._constraints], {k: (n, id(c)) for k, (n, c) in d._parameters.items()},
                [(n, id(o)) for n, o in Measurement.instances.items()], list(Parameter.instances),
                [(n, id(o)) for n, o in fl.FastLikelihood.instances.items()] if hasattr(fl.FastLikelihood, 'instances') else [])

    def compare(sig, got, how):
        if not world.same(sig, got, 1e-7):
            d = {k: (a, dict(got[1]).get(k)) for k, a in sig[1] if k not in dict(got[1]) or not world.same(a, dict(got[1])[k], 1e-7)}
            k = sorted(d)[0]
            a, b = d[k]
            if k == 'par_obj' and a and b:
                sub = {q: (x, dict(b[1]).get(q)) for q, x in a[1] if not world.same(x, dict(b[1]).get(q), 1e-7)}
                q = sorted(sub)[0]
                a, b, k = sub[q][0], sub[q][1], k + ' ' + q
                if a[0] == 'd' and b and b[0] == 'd':
                    x, y = dict(map(tuple_key, a[1])), dict(map(tuple_key, b[1]))
                    a = {z: (x.get(z), y.get(z)) for z in {**x, **y} if not world.same(x.get(z), y.get(z), 1e-7)}
                    b = '(original, loaded)'
            bad('differs', '%s: %s was %s, is %s', how, k, world.short(a), world.short(b))

    def tuple_key(x):
        return (str(x[0]), x[1])

    for n, op in enumerate(sc['ops']):
        k, slot = op[:2]
        where = 'operation %d %r' % (n, op)
        hist.append(k)
        ctx.steps += 1
        if k == 'new':
            sp = op[2]
            r = None
            try:
                L = build(sp, 'verif fl %d' % names)
            except AssertionError:
                # no measurement left
                continue
            names += 1
            newpars |= {'verif ' + p[0] for m, p, _ in sp['pars'] if m == 'new'}
            live[slot] = (L, sp, signature(L, sp))
            texts.pop(slot, None)
            continue
        if slot not in live:
            if not live:
                continue
            slot = sorted(live)[0]
        L, sp, sig = live[slot]
        cls = CLS[sp['kind']]
        if slot in texts and k != 'dump':
            text = texts[slot]
        else:
            r = world.outcome(L.dump)
            if r[0] != 'ok' or not isinstance(r[1], str):
                bad('dump', 'dump() of %r: %r', sp, r)
            text = r[1]
            if slot in texts and texts[slot] != text:
                bad('dump', 'the dump was %s, is %s', texts[slot], text)
            texts[slot] = text
        if k == 'dump':
            if op[2] == 'string':
                if L.dump() != text:
                    bad('dump', 'two dumps differ')
            elif op[2] == 'style':
                r = world.outcome(lambda: L.dump(default_flow_style=True, width=50))
                if r[0] != 'ok' or yaml.safe_load(r[1]) != yaml.safe_load(text):
                    bad('dump', 'dump with formatting options: %r instead of %r', world.short(r), world.short(text))
            elif op[2] == 'stream':
                s = io.StringIO()
                L.dump(s)
                if s.getvalue() != text:
                    bad('dump', 'dump to a stream gave %r, to a string %r', s.getvalue(), text)
            elif op[2] == 'file':
                with open('lik.yml', 'w') as f:
                    L.dump(stream=f)
                with open('lik.yml') as f:
                    if f.read() != text:
                        bad('dump', 'dump to a file differs from that to a string')
            else:
                st = world_state()
                exc = OSError(28, 'injected') if op[2] == 'full' else KeyboardInterrupt('injected')
                r = world.outcome(lambda: L.dump(Full(int(op[3] * len(text)), exc)))
                ctx.fault('stream:' + op[2])
                ctx.nontrivial = True
                if r[0] == 'ok':
                    bad('swallowed', 'dump succeeded although the stream failed')
                if world_state() != st or L.dump() != text:
                    bad('state', 'a failed dump changed the session')
        elif k == 'load':
            st = world_state()
            if op[2] == 'string':
                r = lambda: cls.load(text)
            elif op[2] == 'stream':
                r = lambda: cls.load(io.StringIO(text))
            elif op[2] == 'file':
                def r():
                    with open('lik.yml', 'w') as f:
                        f.write(text)
                    with open('lik.yml') as f:
                        return cls.load(f)
            elif op[2] == 'include':
                def r():
                    d = yaml.safe_load(text)
                    key = rng.choice([x for x in d if isinstance(d[x], list)] or [None])
                    if key is None:
                        return cls.load(text)
                    with open('part.yml', 'w') as f:
                        plain_dump(d.pop(key), f)
                    with open('lik.yml', 'w') as f:
                        f.write(plain_dump(d) if d else '')
                        f.write('%s: !include part.yml\n' % key)
                    with open('lik.yml') as f:
                        return cls.load(f)
            else:
                r = lambda: cls.load_dict(yaml.safe_load(text) if rng.random() < .5 else L.get_yaml_dict())
            try:
                L2 = r()
            except Exception as e:
                bad('load', 'the dump cannot be loaded: %r\n%s', e, text)
            st2 = world_state()
            if st2[:4] != st[:4]:
                bad('state', 'loading changed default parameters or registries')
            if type(L2) is not cls or L2 is L:
                bad('load', 'loading gave %r', L2)
            compare(sig, signature(L2, sp), 'the loaded likelihood')
            compare(sig, signature(L, sp), 'the original after loading')
            a, b = yaml.safe_load(text), yaml.safe_load(L2.dump())
            for d in (a, b):
                d['par_obj'] = {repr(x.get('parameters', x)): x for x in d.get('par_obj', [])}
            x = [q for q in sorted({**a, **b}) if not world.same(world.norm(a.get(q)), world.norm(b.get(q)))]
            if x:
                bad('dump', 'the dump of the loaded likelihood differs in %r: %s instead of %s', x[0], world.short(b.get(x[0])), world.short(a.get(x[0])))
            if rng.random() < .5:
                live[slot] = (L2, sp, sig)
                texts.pop(slot)
        elif k == 'restart':
            setup = sorted(newpars)
            res = ask(load_sig, text, sp, setup)
            if res[0] != 'ok':
                bad('load', 'the dump cannot be loaded after a restart: %s\n%s', res[1], text)
            compare(sig, res[1], 'the likelihood loaded after a restart')
            ctx.nontrivial = True
            ctx.fault('restart')
        elif k == 'cut':
            st = world_state()
            prof = trace.profile(lambda: cls.load(text), world.outcome, ())
            st = world_state()
            at = trace.pick(prof, op[2])
            if at is None:
                continue
            exc = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'ValueError': ValueError}[op[3]]
            with trace.Cut(at, exc('injected')) as inj:
                r = world.outcome(lambda: cls.load(text))
            ctx.fault('cut:' + op[3])
            if world_state()[:4] != st[:4]:
                bad('state', 'a load cut by %s changed default parameters or registries', op[3])
            compare(sig, signature(L, sp), 'the original after a load cut by ' + op[3])
            compare(sig, signature(cls.load(text), sp), 'the likelihood loaded after a load cut by ' + op[3])
        elif k == 'bad':
            t = broken(text, op[2], sp['kind'])
            if t is None:
                continue
            st = world_state()
            r = world.outcome(lambda: cls.load(t))
            if r[0] == 'ok':
                bad('accepted', 'an invalid definition was accepted:\n%s', t)
            ctx.fault('rejected:' + op[2])
            ctx.nontrivial = True
            if world_state() != st:
                bad('state', 'a rejected load changed default parameters or registries')
            compare(sig, signature(L, sp), 'the original after a rejected load')
        elif k == 'mutate':
            # an object loaded with constraints of its own is independent
            if sp['kind'] == 'ml':
                continue
            st = world_state()
            d = yaml.safe_load(text)
            d.setdefault('par_obj', [])
            L2 = cls.load_dict(d)
            if L2.par_obj is flavio.default_parameters:
                bad('state', 'the parameters of a likelihood loaded with constraints %r are the default ones', d['par_obj'])
            if sp['kind'] == 'fl':
                st = world_state()
            L2.par_obj.set_constraint('m_b', '3 ± 2')
            if world_state() != st:
                bad('state', 'changing the parameters of a loaded likelihood changed the session')
            compare(sig, signature(L, sp), 'the original after changing the parameters of the loaded one')
        elif k == 'again':
            compare(sig, signature(L, sp), 'the likelihood later in the session')
        ctx.log(k, sp['kind'], text)
        ctx.count('%s:%s' % (k, sp['kind']))
        ctx.fp(tuple(hist[-2:]), sp['kind'], op[2:3], bool(sp['pars']))

