"""C03: reported citations depend only on the computation."""
import json

import numpy as np
import flavio
from .. import core, world, seams, par, session

ID = 'C03'
TIERS = {'quick': dict(runs=20000, seconds=40), 'thorough': dict(runs=1000000, seconds=780)}
SHRINK_LISTS = ('ops', 'items', 'interrupt', 'sched')
RULE = ('a case is a sequence of 8-20 operations: predictions, uncertainties and covariances (serial and on the '
        'simulated pool, some with failing workers or interrupted), entering and leaving (also by an exception) '
        'nested collection scopes, clear, reset, register, theory_citations; after each operation every active '
        'collection is compared with a model built from citation sets of the same computations in pristine '
        'sessions. Non-trivial: at least two computations and one scope operation. Distinct by scenario hash.')
STEP = 'operations and scheduling decisions'
STATE_MEASURE = 'hash of (collection contents at all nesting levels)'
REAL = ['citations module including shared memory array', 'predictions in the parent and in really forked workers']
STUB = ['multiprocessing.Pool scheduling', 'fresh sessions are forks of a pristine process']
ASSUMPTIONS = ['after a failed computation only bounds are known: nothing but citations of that computation may be added']


def generate(rng, idx, tier):
    fams = world.families()
    keys = list(fams)
    fam = world.pick_family(rng, idx)
    if idx % 4 == 1:
        fam = rng.choice([k for k in keys if 'bdecays' in k])
    obs = world.pick_obs(rng, fams[fam], want=2) or [['eps_K']]
    obs += [s for s in world.pick_obs(rng, fams[rng.choice(keys)], want=1) if s not in obs]
    for s in list(obs):
        if len(s) > 1:
            for a in world.arg_candidates(rng, world.args_of(s[0])):
                t = [s[0]] + list(a)
                if t not in obs:
                    obs.append(t)
                    break
    secs = sorted({x for s in obs for x in world.used_sectors(s)})
    wcs = [world.gen_wc(rng, secs, smeft=0) for _ in range(2)]
    dep = world.used_parameters(obs[0])
    pars = [{}] + [world.gen_par(rng, dep) for _ in range(2)]
    allkeys = sorted(k for k in flavio.citations._all_citations if k != 'Straub:2018kue')
    impls = session.impl_choices()
    ops, depth = [], 0
    for _ in range(rng.randint(8, 20)):
        k = rng.choice(['pred'] * 6 + ['np', 'sm', 'smunc', 'cov', 'punc', 'punc', 'pcov', 'theory', 'theory', 'impl',
                        'deppar', 'failpred'] + ['enter'] * 4 + ['exit'] * 3 + ['clear', 'reset', 'reg', 'fail'])
        ro, rw, rp = (lambda: rng.randrange(len(obs))), (lambda: rng.randrange(len(wcs))), (lambda: rng.randrange(len(pars)))
        if k == 'enter':
            depth += 1
            ops.append(['enter'])
        elif k == 'exit':
            if depth:
                depth -= 1
                ops.append(['exit', rng.random() < 0.3])
        elif k in ('clear', 'reset'):
            ops.append([k])
        elif k == 'reg':
            ops.append(['reg', rng.choice(allkeys)])
        elif k == 'fail':
            ops.append(['reg', 'Nobody:1900xx'])
        elif k == 'pred':
            ops.append(['c', ['pred', ro(), rp(), rw(), rng.random() < 0.3]])
        elif k == 'np':
            ops.append(['c', ['np', ro(), rw()]])
        elif k in ('sm', 'deppar'):
            ops.append(['c', [k, ro()]])
        elif k == 'failpred' and dep:
            ops.append(['c', ['failpred', ro(), rp(), rw(), [rng.choice(dep)]]])
        elif k == 'smunc':
            ops.append(['c', ['smunc', ro(), rng.randrange(99), 2]])
        elif k == 'cov':
            ops.append(['c', ['cov', [ro(), ro()], rng.randrange(99), 2]])
        elif k == 'punc':
            ops.append(['p', dict(k='unc', o=ro(), w=rw(), N=rng.choice([2, 3, 4]), threads=rng.choice([2, 3, 5]),
                                  kw='pos', seed=rng.randrange(99))])
        elif k == 'pcov':
            ops.append(['p', dict(k='cov', os=[ro(), ro()], N=rng.choice([2, 3]), threads=rng.choice([2, 4]),
                                  form='tuple', seed=rng.randrange(99))])
        elif k == 'theory':
            ops.append(['theory', ro()])
        elif k == 'impl':
            q = rng.choice(sorted(impls))
            ops.append(['impl', q, rng.choice(impls[q])])
    items = [[rng.randrange(20), rng.choice(['before', 'after']), rng.choice(['MemoryError', 'ValueError'])]
             for _ in range(rng.choice([0, 0, 1, 2]))]
    return dict(obs=obs, wcs=wcs, pars=pars, ops=ops, items=items,
                interrupt=[rng.randrange(1, 25)] if rng.random() < 0.2 else [],
                sched=[rng.randrange(64) for _ in range(100)])


def _cold(sc, env, op):
    session.apply_env(env)
    flavio.citations.clear()
    wc = lambda i: world.make_wc(sc['wcs'][i])
    pr = lambda i: world.make_par(sc['pars'][i])
    if op[0] == 'c':
        out = world.outcome(lambda: session.evaluate(op[1], pr, wc, sc['obs']))
    elif op[0] == 'p':
        np.random.seed(op[1]['seed'])
        out = world.outcome(lambda: par.run_call(op[1], sc['obs'], wc, True))
    else:
        s = sc['obs'][op[1]]
        out = world.outcome(lambda: flavio.sm_prediction(s[0], *s[1:]))
    return out[0], sorted(flavio.citations.set)


def execute(sc, ctx):
    ask = session.reference_server()
    memo = {}
    env = {'defaults': {}, 'impl': {}, 'cfg': {}}

    def cold(op):
        key = json.dumps([op, env], sort_keys=True)
        if key not in memo:
            memo[key] = ask(_cold, sc, env, op)
        ok, s = memo[key]
        return ok, set(s)
    root = flavio.citations
    default = set(root.set)
    everything = set(root._all_citations) if hasattr(root, '_all_citations') else None
    # per level: [collection object, scope object, lower bound, upper bound, default set]
    levels = [[root, None, set(default), set(default), set(default)]]
    wcs, prs = {}, {}

    def wc(i):
        if i not in wcs:
            wcs[i] = world.make_wc(sc['wcs'][i])
        return wcs[i]

    def pr(i):
        if i not in prs:
            prs[i] = world.make_par(sc['pars'][i])
        return prs[i]
    ncomp = nscope = 0
    faults = {'items': {str(k): [a, e] for k, a, e in sc['items']}, 'interrupt': sc['interrupt']}
    with seams.Sim(ctx, sc['sched'], 2, faults) as sim:
        for n, op in enumerate(sc['ops']):
            top = levels[-1]
            ctx.steps += 1
            k = op[0]
            what = op
            if k == 'enter':
                scope = flavio.citations.collect()
                obj = scope.__enter__()
                levels.append([obj, scope, set(), set(), set()])
                if flavio.citations is not obj and set(flavio.citations.set) != set(obj.set):
                    raise core.Violation('scope', 'operation %d: the collection handed out is not the active one' % n)
                nscope += 1
            elif k == 'exit':
                if len(levels) == 1:
                    continue
                lv = levels.pop()
                nscope += 1
                if op[1]:
                    e = ValueError('inside the scope')
                    if lv[1].__exit__(ValueError, e, None):
                        raise core.Violation('scope', 'operation %d: leaving the scope swallowed the exception' % n)
                    ctx.fault('scope_left_by_exception')
                else:
                    lv[1].__exit__(None, None, None)
                if not lv[2] <= set(lv[0].set) <= lv[3]:
                    raise core.Violation('scope', 'operation %d: leaving the scope changed its content' % n)
                if flavio.citations is not levels[-1][0]:
                    raise core.Violation('scope', 'operation %d %r: after leaving, the active collection is not the enclosing one' % (n, op))
            elif k == 'clear':
                flavio.citations.clear()
                top[2], top[3] = set(), set()
            elif k == 'reset':
                flavio.citations.reset()
                top[2], top[3] = set(top[4]), set(top[4])
            elif k == 'reg':
                got = world.outcome(flavio.citations.register, op[1])
                if op[1].startswith('Nobody'):
                    if got[0] == 'ok':
                        raise core.Violation('register', 'an unknown key was registered')
                else:
                    top[2].add(op[1])
                    top[3].add(op[1])
            elif k == 'impl':
                flavio.config['implementation'][op[1]] = op[2]
                env['impl'][op[1]] = op[2]
            elif k == 'theory':
                s = sc['obs'][op[1]]
                what = [op, s]
                st, want = cold(op)
                got = world.outcome(lambda: flavio.Observable[s[0]].theory_citations(*s[1:]))
                if st == 'ok' and got[0] == 'ok':
                    if set(got[1][1]) != want:
                        raise core.Violation('theory_citations', 'operation %d: theory_citations of %r returned %r, computing it alone cites %r'
                                             % (n, s, sorted(got[1][1]), sorted(want)))
                elif st != got[0]:
                    raise core.Violation('theory_citations', 'operation %d on %r: %s, alone: %s' % (n, s, got, st))
                ncomp += 1
            else:
                st, want = cold(op)
                nf = len(sim.fired)
                if k == 'c':
                    o = op[1][1]
                    got = world.outcome(lambda: session.evaluate(op[1], pr, wc, sc['obs']))
                else:
                    o = op[1].get('o', op[1].get('os'))
                    np.random.seed(op[1]['seed'])
                    got = world.outcome(lambda: par.run_call(op[1], sc['obs'], wc, False))
                what = [op, [sc['obs'][i] for i in (o if isinstance(o, list) else [o])]]
                ncomp += 1
                top[3] |= want
                if got[0] == 'ok' and st == 'ok':
                    top[2] |= want
                elif len(sim.fired) == nf:
                    ctx.probe('failed_computation')
                    if k == 'p' and everything is not None:
                        top[3] = set(everything)      # workers may get further than the serial reference
            # all levels agree with the model
            cont = []
            for d, lv in enumerate(levels):
                have = set(lv[0].set)
                cont.append(sorted(have))
                if not (lv[2] <= have <= lv[3]):
                    raise core.Violation('set:' + (k if k != 'c' else op[1][0]),
                                         'after operation %d %r the collection at level %d of %d misses %r and has too much %r'
                                         % (n, what, d, len(levels) - 1, sorted(lv[2] - have), sorted(have - lv[3])))
                if set(lv[0]) != have:
                    raise core.Violation('iter', 'iterating the collection gives %r, its set %r' % (sorted(lv[0]), sorted(have)))
                if lv[2] != lv[3]:       # pin down the unknown part
                    lv[2], lv[3] = set(have), set(have)
            if flavio.citations is not levels[-1][0]:
                raise core.Violation('scope', 'after operation %d %r the active collection was replaced' % (n, what))
            ctx.log('op', op, cont)
            ctx.count('op:' + (k if k != 'c' else op[1][0]))
            ctx.fp(cont)
    ctx.nontrivial = ctx.nontrivial or ncomp >= 2 and nscope >= 1
