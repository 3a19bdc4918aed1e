"""C02: a failed parallel evaluation is reported and leaves nothing behind."""
import multiprocessing
import os
import threading

import numpy as np
import flavio
from .. import core, world, seams, par

ID = 'C02'
TIERS = {'quick': dict(runs=20000, seconds=35), 'thorough': dict(runs=1000000, seconds=780)}
SHRINK_LISTS = ('ops', 'items', 'start', 'feed', 'interrupt', 'sched')
RULE = ('a case is a sequence of 2-6 parallel uncertainty, covariance or contour calls with faults: evaluation '
        'of the k-th item fails in its worker (before or after the computation), pool k cannot be started or fed, '
        'the parent is interrupted at scheduling step k, the observable or log-likelihood itself fails at some '
        'points, returns unusable values or cannot be pickled. Non-trivial: a fault fired. Distinct by scenario hash.')
STEP = 'scheduling decisions'
STATE_MEASURE = 'hash of (call kind, faults fired, outcome class, completion sequence)'
REAL = ['sm_uncertainty, np_uncertainty, sm_covariance, likelihood_contour_data', 'predictions in really forked workers']
STUB = ['multiprocessing.Pool (life cycle and scheduling)']
ASSUMPTIONS = ['a pool created by flavio counts as cleaned up when it is closed or terminated and its workers are gone']


def generate(rng, idx, tier):
    par.register_custom()
    fams = world.families()
    keys = list(fams)
    obs = [par.custom_spec(rng), par.custom_spec(rng), ['sim some']]
    if rng.random() < 0.4:
        obs += world.pick_obs(rng, fams[world.pick_family(rng, idx)], want=1)
    wcs = [world.gen_wc(rng, ['sb'], smeft=0) for _ in range(2)]
    lls = [l for l in par.LL if l != 'flavio'] + ['raise'] * 5
    ops = []
    for _ in range(rng.randint(2, 6)):
        c = par.gen_call(rng, obs, wcs, lls, maxN=6)
        c['seed'] = rng.randrange(1 << 30)
        c['as'] = rng.choice(list(par.FAIL))
        ops.append(c)
    items = [[rng.randrange(30), rng.choice(['before', 'after']),
              rng.choice(['MemoryError', 'ValueError', 'OSError', 'ArithmeticError', 'RuntimeError', 'KeyError', 'ZeroDivisionError',
                          'FloatingPointError', 'OverflowError', 'TypeError', 'IndexError', 'AssertionError', 'AttributeError'])]
             for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
    if rng.random() < 0.15:
        k = rng.randrange(10)
        items = [[i, 'before', 'MemoryError'] for i in range(k, k + 12)]
    return dict(obs=obs, wcs=wcs, ops=ops, items=items,
                start=[rng.randrange(5)] if rng.random() < 0.2 else [],
                feed=[rng.randrange(5)] if rng.random() < 0.2 else [],
                interrupt=[rng.randrange(1, 40)] if rng.random() < 0.3 else [],
                raise_above=rng.choice([1e9, 1e9, 0.1185, 0.118, 0.117]),
                sched=[rng.randrange(64) for _ in range(150)] if rng.random() < 0.8 else [], cpus=2)


def _serial(sc, op):
    par.register_custom()
    par.RAISE_ABOVE[0] = sc['raise_above']
    np.random.seed(op['seed'])
    par.RAISE_AS[0] = op['as']
    del par.RAISED[:]
    out = world.outcome(lambda: par.run_call(op, sc['obs'], lambda i: world.make_wc(sc['wcs'][i]), True))
    return out, bool(par.RAISED)


def _residue():
    # thread and process objects flavio might leave behind
    return (len(multiprocessing.active_children()), threading.active_count(), len(os.listdir('/proc/self/fd')))


def execute(sc, ctx):
    ref, raised_in = [], []
    for n, op in enumerate(sc['ops']):
        out, raised = core.in_fork(_serial, sc, op)
        ref.append(out)
        raised_in.append(raised)
        if raised and out[0] == 'ok':
            raise core.Violation('swallowed', 'call %d %r with one thread returned %s although the observable or log-likelihood raised %s'
                                 % (n, op, world.short(out), op['as']))
    par.register_custom()
    par.RAISE_ABOVE[0] = sc['raise_above']
    faults = {'items': {str(k): [a, e] for k, a, e in sc['items']}, 'start': sc['start'], 'feed': sc['feed'],
              'interrupt': sc['interrupt']}
    wcs = {}

    def wc(i):
        if i not in wcs:
            wcs[i] = world.make_wc(sc['wcs'][i])
        return wcs[i]
    with seams.Sim(ctx, sc['sched'], sc['cpus'], faults) as sim:
        for n, op in enumerate(sc['ops']):
            np.random.seed(op['seed'])
            par.RAISE_AS[0] = op['as']
            own = None
            before = _residue()
            nf = len(sim.fired)
            if op.get('pool'):
                try:
                    own = par.caller_pool(op)
                except OSError:
                    continue
            np0, ntr = len(sim.pools), len(sim.trace)
            got = world.outcome(lambda: par.run_call(op, sc['obs'], wc, False, own))
            fired = sim.fired[nf:]
            for f in fired:
                if f == 'interrupt':
                    ctx.probe('interrupted:' + op['k'])
            ctx.log('call', op['k'], got, fired)
            ctx.count('call:' + op['k'])
            ctx.fp(op['k'], fired, got[:2] if got[0] == 'exc' else 'ok', sim.trace[ntr:])
            # nothing left behind
            for i, p in enumerate(sim.pools[np0:]):
                if p._state == 'RUN' or any(w.alive for w in p._workers):
                    raise core.Violation('leak:pool', 'call %d %r (outcome %s, faults %r) left the pool it started %s with %d live workers'
                                         % (n, op, world.short(got), fired, {'RUN': 'open', 'CLOSE': 'closed'}.get(p._state, p._state),
                                            sum(w.alive for w in p._workers)))
            if own is not None:
                own.terminate()
            after = _residue()
            if after != before:
                raise core.Violation('leak:process', 'call %d %r (faults %r): child processes, threads, open files before %r, after %r'
                                     % (n, op, fired, before, after))
            # outcome
            if fired:
                if got[0] == 'ok':
                    raise core.Violation('swallowed', 'call %d %r returned %s although %r was injected into it (serial: %s)'
                                         % (n, op, world.short(got), fired, world.short(ref[n])))
            elif op['k'] == 'contour' and op['ll'] == 'closure':
                if got[0] == 'ok' and not world.same_outcome(got, ref[n], 1e-9, 1e-300):
                    raise core.Violation('altered', 'call %d %r returned %s, serial %s' % (n, op, world.short(got), world.short(ref[n])))
            elif got[0] != ref[n][0] or got[0] == 'exc' and raised_in[n] and got[1] != ref[n][1] or got[0] == 'ok' and not world.same_outcome(got, ref[n], 1e-9, 1e-300):
                raise core.Violation('altered:' + op['k'], 'call %d %r returned %s, the serial computation %s (no fault in this call; before it: %r)'
                                     % (n, op, world.short(got), world.short(ref[n]), sim.fired))
            elif got[0] == 'exc':
                ctx.nontrivial = True
                ctx.probe('natural_failure')
