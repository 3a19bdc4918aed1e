"""C01: parallel evaluation returns the serial numbers."""
import numpy as np
import flavio
from .. import core, world, seams, par

ID = 'C01'
TIERS = {'quick': dict(runs=20000, seconds=40), 'thorough': dict(runs=1000000, seconds=780)}
SHRINK_LISTS = ('ops', 'sched', 'obs')
RULE = ('a case is a sequence of 1-4 uncertainty, covariance or contour calls (real and custom observables, '
        'all argument forms, varied-parameter subsets, 1-9 points, 2-8 workers, caller-supplied pools) with a '
        'schedule deciding chunk sizes, which worker takes which chunk and which worker proceeds; executed '
        'serially in a forked session and in parallel on the simulated pool. Non-trivial: at least two workers '
        'had work at the same time. Distinct by scenario hash.')
STEP = 'scheduling decisions'
STATE_MEASURE = 'hash of the (worker, item) completion sequence of a call'
REAL = ['sm_uncertainty, np_uncertainty, sm_covariance, likelihood_contour_data', 'predictions in really forked workers',
        'pickling of tasks and results']
STUB = ['multiprocessing.Pool scheduling (task hand-out, result collection, chunk sizes)']
ASSUMPTIONS = ['the simulated pool offers the multiprocessing.Pool interface; log-likelihood functions are deterministic']


def generate(rng, idx, tier):
    par.register_custom()
    fams = world.families()
    keys = list(fams)
    obs = [par.custom_spec(rng) for _ in range(2)]
    if rng.random() < 0.55:
        obs += world.pick_obs(rng, fams[world.pick_family(rng, idx)], want=1)
    secs = sorted({x for s in obs[2:] for x in world.used_sectors(s)}) or ['sb']
    wcs = [world.gen_wc(rng, secs, smeft=0.01) for _ in range(2)]
    if rng.random() < 0.5:
        # values which depend on the options of the running
        wcs[0] = dict(type=rng.choice(['flavio', 'wilson']), eft='WET', basis='flavio', scale=160,
                      wc={rng.choice(['C7_bs', 'C8_bs', 'CS_bsmumu']): rng.choice([0.5, -0.3])}, opt={})
        obs[0] = par.custom_spec(rng, ['sim bin'])
    for w in wcs:
        if not w.get('sm') and rng.random() < 0.5:
            w['opt'] = rng.choice([{'qcd_order': 0}, {'mb_matchingscale': 4.0}, {'parameters': {'alpha_s': 0.14}},
                                   {'qcd_order': 0, 'parameters': {'m_b': 5.5}}])
    ops = []
    lls = list(par.GOOD_LL)
    if rng.random() < 0.85:
        lls.remove('flavio')
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        if rng.random() < 0.2:
            ops.append(rng.choice([['setdef', 'm_b', 4.3], ['draw', 3], ['seed', rng.randrange(99)],
                                   ['setdef', 'alpha_s', 0.12]]))
        ops.append(par.gen_call(rng, obs, wcs, lls))
    style = rng.choice(['random', 'random', 'fifo', 'lifo', 'burst'])
    n = 120
    if style == 'random':
        sched = [rng.randrange(64) for _ in range(n)]
    elif style == 'fifo':
        sched = []
    elif style == 'lifo':
        sched = [rng.choice([7, 3, 63]) for _ in range(n)]
    else:
        sched = [v for _ in range(n // 6) for v in [rng.randrange(64)] * 6]
    return dict(obs=obs, wcs=wcs, ops=ops, seed=rng.randrange(1 << 30), sched=sched, cpus=rng.choice([1, 2, 4]))


def _sequence(sc, serial, ctx=None):
    par.register_custom()
    np.random.seed(sc['seed'])
    wcs = {}

    def wc(i):
        if i not in wcs:
            wcs[i] = world.make_wc(sc['wcs'][i])
        return wcs[i]
    out = []
    sim = seams.current
    for op in sc['ops']:
        if isinstance(op, list):
            par.env_step(op)
            out.append(None)
            continue
        pool = None
        n0 = len(sim.trace) if sim else 0
        if not serial and op.get('pool'):
            pool = par.caller_pool(op)
        out.append(world.outcome(lambda: par.run_call(op, sc['obs'], wc, serial, pool)))
        if sim:
            # caller's pool is the caller's to clean up
            if pool is not None:
                pool.terminate()
            tr = sim.trace[n0:]
            ctx.count('call:' + op['k'])
            ctx.fp(op['k'], [t for t in tr if t[0] == 'item'])
            act = None
            for t in tr:
                if t[0] == 'item':
                    if act is not None and act != t[1]:
                        ctx.nontrivial = True
                    act = t[1]
            ctx.probe('out_of_order', int(any(a[2] > b[2] for a, b in zip(*(lambda l: (l, l[1:]))([t for t in tr if t[0] == 'item'])))))
    return out, float(np.random.random())


def execute(sc, ctx):
    ser, r1 = core.in_fork(_sequence, sc, True)
    with seams.Sim(ctx, sc['sched'], sc['cpus']):
        par_, r2 = _sequence(sc, False, ctx)
    for op, a, b in zip(sc['ops'], ser, par_):
        if a is None:
            continue
        ctx.log('result', op['k'], b)
        if not world.same_outcome(a, b, rtol=1e-9, atol=1e-300):
            raise core.Violation('differs:' + op['k'], 'serial %s, parallel %s for %r on %r' % (
                world.short(a), world.short(b), op, [sc['obs'][i] for i in op.get('os', [op.get('o')]) if i is not None]))
        if op['k'] == 'contour' and b[0] == 'ok':
            z = dict(b[1][1])['z']
            want = par.contour_direct(op)
            flat = ['a', [op['steps']] * 2, [v for row in want for v in row]]
            if not world.same(z, flat, 1e-6 if op['ll'] == 'f32' else 1e-9, 1e-300):
                raise core.Violation('contour', 'contour data %s, log-likelihood on the grid %s for %r' % (
                    world.short(z), world.short(flat), op))
    if r1 != r2:
        raise core.Violation('random-state', 'random state after the calls differs: %r (serial) %r (parallel)' % (r1, r2))
