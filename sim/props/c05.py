"""C05: an interrupted computation leaves the session intact."""
import json

import numpy as np
import flavio
from .. import core, world, session, trace, par

ID = 'C05'
TIERS = {'quick': dict(runs=20000, seconds=45), 'thorough': dict(runs=1000000, seconds=780)}
SHRINK_LISTS = ('ops',)
RULE = ('a case is a session of 6-16 evaluations (predictions, uncertainties, covariances, likelihoods, dependency '
        'queries over stratified observables), of which 1-5 are cut short by a KeyboardInterrupt, MemoryError or '
        'ValueError raised at a seeded source line the call executes in flavio (uniform over events, lines or functions); every other '
        'evaluation is compared with the same call in a pristine forked session. Non-trivial: a cut evaluation is '
        'followed by a completed one. Distinct by scenario hash.')
STEP = 'API operations'
STATE_MEASURE = 'hash of (function interrupted, exception, kind of following evaluation)'
REAL = ['all flavio code', 'wilson', 'lru caches', 'numpy/scipy']
STUB = ['asynchronous delivery of the interrupt (raised at a chosen source line instead)']
ASSUMPTIONS = ['interrupts are delivered between source lines of flavio functions; not inside exception handlers, '
               'with-statement headers, module initialisation, the citations module or third-party code']


def sweep(rng):
    """Many observables; calls that change something they may share are
    interrupted right after the change."""
    obs = world.sweep_obs(rng, 14)
    dep = world.used_parameters(rng.choice(obs))
    secs = sorted({x for s in obs[:4] for x in world.used_sectors(s)})
    pars = [{}, world.gen_par(rng, dep), {'seed': rng.randrange(1 << 30)}]
    wcs = [{'sm': True}, {'sm': True}, world.gen_wc(rng, secs, smeft=0.)]
    ops = []
    for o in range(len(obs)):
        op = ['pred', o, rng.randrange(3), rng.randrange(3), False]
        ops.append(['hit', op, rng.random(), rng.choice(['KeyboardInterrupt', 'MemoryError', 'ValueError']), 'change!', rng.random()])
        ops.append(['then', op])
        ops.append(['then', ['pred', o, (op[2] + 1) % 3, op[3], False]])
    return dict(obs=obs, pars=pars, wcs=wcs, liks=[dict(obs=[])], ops=ops)


def generate(rng, idx, tier):
    if idx % 3 == 2:
        return sweep(rng)
    fams = world.families()
    cheap = rng.random() < 0.8
    keys = list(fams)
    fam = world.pick_family(rng, idx)
    obs = world.pick_obs(rng, fams[fam], want=rng.choice([1, 2]), cheap=cheap) or [['eps_K']]
    if rng.random() < 0.6:
        obs += [s for s in world.pick_obs(rng, fams[rng.choice(keys)], want=1, cheap=cheap) if s not in obs]
    lobs = world.pick_measured(rng, 2, [fam], cheap=cheap) if rng.random() < 0.7 else []
    lobs += [s for s in world.pick_measured(rng, 2, cheap=cheap) if s not in lobs]
    liks = [dict(obs=lobs)]
    if rng.random() < 0.5:
        liks[0]['fit'] = rng.choice([['m_b'], ['Vcb', 'Vub'], []])
    dep = world.used_parameters(rng.choice(obs + lobs))
    secs = sorted({x for s in obs + lobs[:1] for x in world.used_sectors(s)})
    pars = [{}, world.gen_par(rng, dep, 'one'), world.gen_par(rng, dep)]
    wcs = [world.gen_wc(rng, secs, smeft=0. if cheap else 0.2) for _ in range(3)]
    ops = []
    ro, rw, rp = (lambda: rng.randrange(len(obs))), (lambda: rng.randrange(len(wcs))), (lambda: rng.randrange(len(pars)))
    kinds = ['pred'] * 6 + ['ll'] * 6 + ['np', 'sm', 'unc', 'smunc', 'cov', 'deppar', 'depwc', 'getwc', 'budget', 'budget', 'budget', 'setdef', 'impl']
    impls = session.impl_choices()
    last = None
    for _ in range(rng.randint(6, 16)):
        k = rng.choice(kinds)
        op = None
        if k == 'pred':
            op = ['pred', ro(), rp(), rw(), rng.random() < 0.3]
        elif k == 'll' and lobs:
            op = ['ll', 0, rp(), rw(), [rng.choice(lobs)] if len(lobs) > 1 and rng.random() < 0.2 else None]
        elif k == 'np':
            op = ['np', ro(), rw()]
        elif k in ('sm', 'deppar', 'depwc'):
            op = [k, ro()]
        elif k == 'unc':
            op = ['unc', ro(), rw(), rng.randrange(1000), 2]
        elif k == 'smunc':
            op = ['smunc', ro(), rng.randrange(1000), 2]
        elif k == 'cov':
            op = ['cov', [ro(), ro()], rng.randrange(1000), 2]
        elif k == 'budget':
            o = ro()
            if len(world.used_parameters(obs[o])) <= 9:
                op = ['budget', o, rng.randrange(1000), 1]
        elif k == 'getwc':
            w = rw()
            if not wcs[w].get('sm') and wcs[w]['type'] == 'flavio':
                op = ['getwc', w, rng.choice(['bsmumu', 'bsbs', 'sd']), 4.8, rp()]
        elif k == 'setdef' and dep:
            name = rng.choice(dep)
            c = float(flavio.default_parameters.get_central(name))
            ops.append(['mut', ['setdef', name, c * rng.choice([0.95, 1.03])]])
            continue
        elif k == 'impl':
            q = rng.choice(sorted(impls))
            ops.append(['mut', ['impl', q, rng.choice(impls[q])]])
            continue
        if op is None:
            continue
        if rng.random() < (0.35 if ops else 0.6):
            ops.append(['hit', op, rng.choice([rng.random(), rng.random(), rng.random() ** 3, 1 - rng.random() ** 3]),
                        rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'ValueError']),
                        rng.choice(trace.MODES), rng.random()])
            r = rng.random()
            if r < 0.6:
                ops.append(['eval', op])          # the same call again
            elif r < 0.8 and op[0] in ('pred', 'll'):
                o2 = list(op)
                o2[2] = rp()
                ops.append(['eval', o2])
        else:
            ops.append(['eval', op])
    if lobs:
        ops.append(['eval', ['ll', 0, rp(), rw(), None]])
    ops.append(['eval', ['pred', ro(), rp(), rw(), False]])
    return dict(obs=obs, pars=pars, wcs=wcs, liks=liks, ops=ops)




def execute(sc, ctx):
    ask = session.reference_server()
    s = session.Session(sc, ctx)
    memo = {}
    for i in range(len(sc['pars'])):
        s.par(i)
    base = [dict(s.par(i)) for i in range(len(sc['pars']))]
    # likelihoods are created before anything is interrupted
    for i in range(len(sc['liks'])):
        if sc['liks'][i]['obs']:
            s.lik(i)
    cut = fired = None

    def ref(op):
        key = s.ref_key(op)
        if key not in memo:
            memo[key] = ask(session.ref_outcome, op, s.sem.env(), [s.sem.wcs[op[i]] for i in session.wc_indices(op)],
                            [base[op[i]] for i in session.par_indices(op)], sc['obs'], sc['liks'])
        return memo[key]
    for n, (k, op, *spec) in enumerate(sc['ops']):
        ctx.steps += 1
        if k == 'mut':
            if op[0] == 'setdef' and sc['liks'] and sc['liks'][0].get('fit') is not None:
                continue     # the priors of the likelihood would follow the defaults object
            s.mutate(op)
            ctx.log('mut', op)
            continue
        fn = lambda: session.evaluate(op, s.par, s.wc, sc['obs'], s.lik)
        if k == 'hit':
            frac, exc, mode, v = spec
            fired = None
            at = trace.position(core.in_fork(trace.profile, fn, world.outcome, watched(s, mode)), mode, frac, v)
            if at is None:
                continue
            want = ref(op)
            inj = trace.Cut(at, par_exc(exc))
            with inj:
                got = world.outcome(fn)
            ctx.log('hit', op, inj.fired, got)
            fired = inj.fired
            if inj.fired:
                ctx.fault('cut:' + exc)
                cut = (inj.fired.split()[-1], exc)
            if got[0] == 'ok' and not world.same_outcome(got, want):
                raise core.Violation('wrong-value', 'operation %d %r was cut short (%s at %s) and returned %s instead of %s'
                                     % (n, op, exc, inj.fired, world.short(got), world.short(want)))
            if got[0] == 'ok' and inj.fired:
                ctx.probe('exception_absorbed')
            continue
        if k == 'then' and not fired:
            continue
        want = ref(op)
        got = world.outcome(fn)
        ctx.log('eval', op, got)
        if cut:
            ctx.nontrivial = True
            ctx.fp(cut, op[0], n)
        ctx.count('eval:' + op[0])
        if not world.same_outcome(got, want):
            raise core.Violation('after-cut:' + op[0], 'operation %d %r on %r returned %s, but %s in a fresh session; last interrupted call: %r'
                                 % (n, op, sc['obs'], world.short(got), world.short(want), cut))


def watched(s, mode):
    """Dictionaries of the caller."""
    return None if mode[:6] != 'change' else list(s._pars.values()) + [flavio.config['implementation'], flavio.config['renormalization scale'],
                                     flavio.default_parameters._parameters]


def par_exc(name):
    return {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'ValueError': ValueError, 'KeyError': KeyError}[name]('injected')
