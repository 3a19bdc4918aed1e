"""C04: predictions do not depend on what was computed before."""
import json

import numpy as np
import flavio
from .. import core, world, session

ID = 'C04'
TIERS = {'quick': dict(runs=4000, seconds=45), 'thorough': dict(runs=200000, seconds=780)}
SHRINK_LISTS = ('ops',)
RULE = ('a case is a session of 8-22 API operations over 2-5 observables (stratified over the '
        'modules implementing predictions), 3-4 parameter points (often differing in one parameter the '
        'observables use), 2-3 Wilson objects; every returned value is compared with the same call in a '
        'pristine forked session. Non-trivial: at least two evaluations of the same observable at '
        'different points, or a state-changing operation between evaluations. Distinct by scenario hash.')
STEP = 'API operations'
STATE_MEASURE = 'hash of (observable, parameter point, Wilson point, options, implementation) x preceding operation kind'
REAL = ['all flavio prediction code', 'wilson', 'lru caches', 'wcxf']
STUB = ['session start (forked pristine process instead of a new interpreter)']
ASSUMPTIONS = ['a fork of a process that has only imported flavio behaves as a fresh session']


def generate(rng, idx, tier):
    fams = world.families()
    keys = list(fams)
    fam = world.pick_family(rng, idx)
    obs = world.pick_obs(rng, fams[fam], want=rng.choice([1, 2, 2, 3]))
    if not obs:
        obs = world.pick_obs(rng, fams[fam], want=1, allow_zero=True)
    for _ in range(rng.choice([0, 1, 1, 2])):
        for s in world.pick_obs(rng, fams[rng.choice(keys)], want=1):
            if s not in obs:
                obs.append(s)
    if not obs:
        obs = [['eps_K']]
    # the same observables in another bin / at another q2
    for s in list(obs):
        if len(s) > 1 and rng.random() < 0.6:
            for a in world.arg_candidates(rng, world.args_of(s[0])):
                t = [s[0]] + list(a)
                if t not in obs:
                    obs.append(t)
                    break
    main = [s for s in obs]
    dep = world.used_parameters(rng.choice(main))
    used = [world.used_config(s) for s in main[:2]]
    scales = sorted({k for u in used for k in u[0]}) or sorted(flavio.config['renormalization scale'])
    quants = sorted({k for u in used for k in u[1]})
    secs = sorted({x for s in main for x in world.used_sectors(s)})
    pars = [{}]
    for _ in range(rng.choice([2, 3])):
        pars.append(world.gen_par(rng, dep))
    # parameters of the other parametrisations of the CKM matrix
    ckm = rng.random() < 0.35
    if ckm:
        for p in pars:
            c = dict(session.CKM_PARAMETERS)
            if rng.random() < 0.5:
                k = rng.choice(sorted(c))
                c[k] *= rng.choice([1.02, 0.97])
            p.setdefault('set', {}).update(c)
    wcs = [world.gen_wc(rng, secs, smeft=0.15) for _ in range(rng.choice([2, 3]))]
    # a second Wilson object with nearly the same content
    if rng.random() < 0.5:
        w = json.loads(json.dumps(rng.choice(wcs)))
        if not w.get('sm'):
            k = sorted(w['wc'])[0]
            w['wc'][k] = w['wc'][k] * rng.choice([-1, 2, 0.5])
            wcs.append(w)
    if any(w.get('eft') == 'SMEFT' for w in wcs):
        # matching to the SMEFT depends on the CKM parameters of the point
        for p in rng.sample(pars, rng.choice([1, 2])):
            k = rng.choice(['Vcb', 'Vub', 'Vus', 'gamma'])
            p.setdefault('set', {})[k] = float(flavio.default_parameters.get_central(k)) * rng.choice([1.1, 0.93])
        dep = sorted(set(dep) | {'Vcb', 'Vub'})
    impls = session.impl_choices(slow=tier == 'thorough')
    ops = []
    if ckm:
        ops = [['setdef', k, v] for k, v in sorted(session.CKM_PARAMETERS.items())]
    n = len(ops) + rng.randint(8, 22)
    kinds = ['pred'] * 16 + ['np'] * 3 + ['sm'] * 3 + ['mutpar', 'setdef', 'opt', 'failpred', 'impl'] * 2 + [
             'deppar', 'mr', 'getwc', 'unc', 'cov', 'cit', 'cfg', 'cfg', 'cfg', 'setinit', 'smunc', 'budget']
    if rng.random() < 0.4:    # swarm: switch off some kinds
        off = set(rng.sample(sorted(set(kinds) - {'pred'}), 8))
        kinds = [k for k in kinds if k not in off]

    def ro():
        return rng.randrange(len(obs))

    def rp():
        return rng.randrange(len(pars))

    def rw():
        return rng.randrange(len(wcs))
    def uses(op, change):
        # whether the outcome of `op` may depend on what `change` changes
        k = change[0]
        if k in ('opt', 'setinit'):
            return any(op[i] == change[1] for i in session.wc_indices(op))
        if k == 'mutpar':
            return any(op[i] == change[1] for i in session.par_indices(op))
        if k == 'setdef':
            return op[0] in ('np', 'sm', 'smunc', 'unc', 'cov', 'budget')
        return True

    def evaluation(change=None):
        k = rng.choice(['pred'] * 4 + ['np', 'sm'])
        if change and change[0] == 'setdef':
            k = rng.choice(['np', 'sm'])
        w, p = rw(), rp()
        if change and change[0] in ('opt', 'setinit'):
            k, w = rng.choice(['pred', 'pred', 'np']), change[1]
        if change and change[0] == 'mutpar':
            k, p = 'pred', change[1]
        return {'pred': ['pred', ro(), p, w, rng.random() < 0.3], 'np': ['np', ro(), w], 'sm': ['sm', ro()]}[k]
    kinds_change = ('cfg', 'impl', 'opt', 'setdef', 'mutpar', 'setinit')
    while len(ops) < n:
        if ops and ops[-1][0] in kinds_change and rng.random() < 0.75:
            # an evaluation made before the change
            prior = [o for o in ops if o[0] in ('pred', 'np', 'sm', 'smunc', 'unc') and uses(o, ops[-1])]
            if not prior:
                # evaluate, change, evaluate again
                prior = [evaluation(ops[-1])]
                ops.insert(len(ops) - 1, prior[0])
            ops.append(list(rng.choice(prior)))
            continue
        k = rng.choice(kinds)
        if k == 'pred':
            ops.append(['pred', ro(), rp(), rw(), rng.random() < 0.3])
        elif k == 'np':
            ops.append(['np', ro(), rw()])
        elif k in ('sm', 'deppar', 'cit'):
            ops.append([k, ro()])
        elif k == 'unc':
            ops.append(['unc', ro(), rw(), rng.randrange(1000), 2])
        elif k == 'smunc':
            ops.append(['smunc', ro(), rng.randrange(1000), 2])
        elif k == 'budget':
            o = ro()
            if len(world.used_parameters(obs[o])) <= 8:
                ops.append(['budget', o, rng.randrange(1000), 1])
        elif k == 'cov':
            ops.append(['cov', [ro(), ro()], rng.randrange(1000), 2])
        elif k == 'mutpar' and dep:
            name = rng.choice(dep)
            c = float(flavio.default_parameters.get_central(name))
            ops.append(['mutpar', rp(), name, c * rng.choice([0.95, 1.03, 1.0, 1.01])])
        elif k == 'setdef' and dep:
            name = rng.choice(dep)
            c = float(flavio.default_parameters.get_central(name))
            ops.append(['setdef', name, c * rng.choice([0.95, 1.03, 1.01])])
        elif k == 'opt':
            ops.append(['opt', rw()] + rng.choice([
                ['qcd_order', 0], ['qcd_order', 1], ['qed_order', 0], ['qed_order', 1],
                ['smeft_accuracy', 'leadinglog'], ['mb_matchingscale', 4.3], ['mb_matchingscale', 4.0],
                ['parameters', {'Vus': 0.22, 'Vcb': 0.04, 'Vub': 0.004, 'gamma': 1.2}],
                ['parameters', {'Vcb': 0.05}], ['parameters', {'alpha_s': 0.119}]]))
        elif k == 'mr':
            w = rw()
            if not wcs[w].get('sm'):
                ops.append(['mr', w, rng.choice([4.8, 4.2, 91.1876]),
                            'WET', 'flavio', rng.choice([['sb'], ['sbsb'], ['db'], ['sd'], ['dF=0']] if rng.random() < 0.9 else ['all'])])
        elif k == 'getwc':
            w = rw()
            if not wcs[w].get('sm') and wcs[w]['type'] == 'flavio':
                ops.append(['getwc', w, rng.choice(['bsmumu', 'bsbs', 'sd']), 4.8, rp()])
        elif k == 'failpred' and dep:
            ops.append(['failpred', ro(), rp(), rw(), [rng.choice(dep)]])
        elif k == 'impl':
            q = rng.choice([x for x in quants if x in impls] or sorted(impls))
            if ckm and rng.random() < 0.5:
                q = 'CKM matrix'
            ops.append(['impl', q, rng.choice(impls[q])])
        elif k == 'cfg' and rng.random() < 0.5:
            key = rng.choice(['mt', 'mb', 'mb', 'mc', 'mc'])
            ops.append(['cfg', 'RGE thresholds|' + key,
                        flavio.config['RGE thresholds'][key] * rng.choice([1.0, 1.0, 1.2, 0.85, 1.45])])
        elif k == 'cfg':
            sc_ = flavio.config['renormalization scale']
            key = rng.choice(scales)
            ops.append(['cfg', 'renormalization scale|' + key, sc_[key] * rng.choice([1.0, 1.1, 0.9])])
        elif k == 'setinit':
            w = rw()
            if not wcs[w].get('sm') and wcs[w]['type'] == 'flavio':
                g = world.gen_wc(rng, secs, smeft=0)
                if not g.get('sm'):
                    ops.append(['setinit', w, g['wc'], g['scale']])
    return dict(obs=obs, pars=pars, wcs=wcs, ops=ops)


def execute(sc, ctx):
    ask = session.reference_server()
    s = session.Session(sc, ctx)
    memo = {}
    # parameter dictionaries are built first, from the pristine defaults
    for i in range(len(sc['pars'])):
        s.par(i)
    base = [dict(s.par(i)) for i in range(len(sc['pars']))]
    seen = {}
    prev = None
    for n, op in enumerate(sc['ops']):
        ctx.steps += 1
        if s.mutate(op):
            ctx.log('mutate', op)
            ctx.count('mutate:' + op[0])
            if op[0] == 'mutpar':
                base[op[1]][op[2]] = op[3]
            ctx.nontrivial = True
            prev = op[0]
            continue
        # reference first (it does not touch this session)
        pspec = [dict(base[op[i]]) for i in session.par_indices(op)]
        wspec = [s.sem.wcs[op[i]] for i in session.wc_indices(op)]
        key = s.ref_key(op)
        if key not in memo:
            memo[key] = ask(session.ref_outcome, op, s.sem.env(), wspec, pspec, sc['obs'])
        ref = memo[key]
        got = world.outcome(lambda: session.evaluate(op, s.par, s.wc, sc['obs']))
        ctx.log('eval', op, got)
        ctx.count('eval:' + op[0])
        if op[0] in ('pred', 'np', 'unc'):
            st = (json.dumps(sc['obs'][op[1]]), key)
            ctx.fp(st, prev)
            vs = seen.setdefault(sc['obs'][op[1]][0], set())
            vs.add(key)
            if len(vs) > 1:
                ctx.nontrivial = True
        if got[0] == 'exc':
            ctx.probe('call_failed')
        if op[0] == 'cit':
            prev = op[0]
            continue     # citations are the subject of C03
        if not world.same_outcome(got, ref):
            raise core.Violation('history:' + op[0],
                                 'operation %d %r on %r returned %s after the preceding operations, but %s in a fresh session'
                                 % (n, op, sc['obs'][op[1]] if op[0] != 'mr' and isinstance(op[1], int) and op[1] < len(sc['obs']) else '',
                                    world.short(got), world.short(ref)))
        prev = op[0]
