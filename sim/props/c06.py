"""C06: concurrent threads get the values they would get alone."""
import json
import random

import numpy as np
import flavio
from .. import core, world, session, trace
from .c07 import make_function, gen_def, name_of, register, PARS

ID = 'C06'
TIERS = {'quick': dict(runs=20000, seconds=40), 'thorough': dict(runs=1000000, seconds=780)}
SHRINK_LISTS = ('cands', 'before', 'threads', 'switches')
RULE = ('a case is 2-4 caller threads with 1-4 calls each (predictions, likelihoods, matching/running, incomplete inputs) '
        'on shared observables, parameter dictionaries, Wilson objects and likelihood objects, after 0-2 calls made '
        'before the threads start, under one seeded schedule: at every chosen source line of flavio the simulator '
        'decides which thread runs next and for how many lines. Each value is compared with the same call alone in a '
        'pristine forked session; calls made after the threads have ended are compared, too. Non-trivial: at least one '
        'switch inside a call. Distinct by scenario hash.')
STEP = 'thread switches'
STATE_MEASURE = 'hash of (function preempted, calls running in the two threads)'
REAL = ['all flavio code', 'wilson', 'real threads, run one at a time', 'lru caches, numpy/scipy']
STUB = ['choice of the running thread (token passed at flavio source lines)', 'locks created by flavio (cooperative)']
ASSUMPTIONS = ['threads switch between source lines of flavio functions (also inside callbacks from scipy); third-party code runs uninterrupted']
RUN_TIMEOUT = 150


def sweep(rng):
    """Many observables; those whose prediction changes something threads may share
    are computed at different points by two or three threads, with switches
    after the changes."""
    obs = world.sweep_obs(rng, 12)
    dep = world.used_parameters(rng.choice(obs))
    secs = sorted({x for s in obs[:4] for x in world.used_sectors(s)})
    pars = [{}, {'seed': rng.randrange(1 << 30)}, world.gen_par(rng, dep)]
    wcs = [{'sm': True}, world.gen_wc(rng, secs, smeft=0.)]
    cands = [[[['pred', o, rng.randrange(3), rng.choice([0, 0, 1]), False] for _ in range(rng.choice([1, 1, 2]))] for _ in range(rng.choice([2, 2, 3]))]
             for o in range(len(obs))]
    for c in cands:
        if c[0][0][2] == c[1][0][2]:
            c[1][0][2] = (c[0][0][2] + 1) % 3
    switches = [[rng.randrange(12), rng.choice([1, 1, 1, 2, 3])] for _ in range(60)]
    return dict(obs=obs, defs=[], pars=pars, wcs=wcs, liks=[], cands=cands, before=[], threads=[], switches=switches,
                hot=[['change', rng.random()] for _ in range(rng.choice([1, 2, 8]))])


def generate(rng, idx, tier):
    if idx % 4 == 3:
        return sweep(rng)
    fams = world.families()
    cheap = rng.random() < 0.7
    keys = list(fams)
    fam = world.pick_family(rng, idx)
    simple = rng.random() < 0.3
    obs, liks, defs = [], [], []
    if simple:
        # analytic observables: cheap, so that switches inside the likelihood are frequent
        defs = [gen_def(rng, i) for i in range(3)]
        for d in defs:
            d.pop('arg', None)
    else:
        obs = world.pick_obs(rng, fams[fam], want=rng.choice([1, 2]), cheap=cheap) or [['eps_K']]
        if rng.random() < 0.5:
            obs += [s for s in world.pick_obs(rng, fams[rng.choice(keys)], want=1, cheap=cheap) if s not in obs]
        lobs = world.pick_measured(rng, 1, [fam], cheap=cheap) if rng.random() < 0.4 else []
        lobs += [s for s in world.pick_measured(rng, 1, cheap=cheap) if s not in lobs]
        if lobs and rng.random() < 0.6:
            liks = [dict(obs=lobs)]
            if rng.random() < 0.4:
                liks[0]['fit'] = rng.choice([['m_b'], ['Vcb', 'Vub']])
    dep = world.used_parameters(rng.choice(obs)) if obs else PARS
    secs = sorted({x for s in obs for x in world.used_sectors(s)}) if obs else ['sb']
    if simple:
        pars = [{'set': {p: rng.choice([-2., -1., 1., 0.5, 2.]) for p in PARS}} for _ in range(3)]
    else:
        pars = [{}, world.gen_par(rng, dep, 'one'), world.gen_par(rng, dep)]
    wcs = [world.gen_wc(rng, secs, smeft=0. if cheap else 0.2) for _ in range(2)]
    if not simple and any(w.get('eft') == 'SMEFT' for w in wcs):
        # matching to the SMEFT depends on the CKM parameters of the point
        pars[1:] = [{'set': {rng.choice(['Vcb', 'Vub', 'Vus', 'gamma']): x}} for x in rng.sample([0.04, 0.0404, 0.043, 0.2], 2)]
    elif not simple and rng.random() < 0.3:
        pars[1:] = [{'set': {rng.choice([p for p in dep if p in ('Vcb', 'Vub', 'Vus', 'gamma')] or ['Vcb']): x}}
                    for x in rng.sample([0.0395, 0.0404, 0.043, 0.21], 2)]

    def call():
        p, w = rng.randrange(len(pars)), rng.randrange(len(wcs))
        k = rng.choice(['pred'] * 4 + ['ll'] * 4 + ['np', 'sm', 'mr', 'getwc', 'failpred'])
        if simple:
            if k == 'll' or rng.random() < 0.7:
                return ['sll', p, w]
            return ['spred', rng.randrange(len(defs)), p, w]
        if k == 'll' and liks:
            return ['ll', 0, p, w]
        if k == 'np':
            return ['np', rng.randrange(len(obs)), w]
        if k == 'sm':
            return ['sm', rng.randrange(len(obs))]
        if k == 'mr' and not wcs[w].get('sm') and wcs[w]['eft'] == 'WET':
            return ['mr', w, 4.8, 'WET', 'flavio', ['sb']]
        if k == 'getwc' and not wcs[w].get('sm') and wcs[w]['type'] == 'flavio' and wcs[w]['eft'] == 'WET':
            return ['getwc', w, 'bsmumu', 4.8, p]
        if k == 'failpred':
            return ['failpred', rng.randrange(len(obs)), p, w, rng.sample(dep, 1) if dep else []]
        return ['pred', rng.randrange(len(obs)), p, w, rng.random() < 0.3]
    if not simple and rng.random() < 0.3:
        # the same observable and Wilson object at different points
        ckm = rng.sample([0.0395, 0.0404, 0.043, 0.047], 2)
        pars[1:] = [{'set': {'Vcb': x}} for x in ckm]
        w0, o0 = rng.randrange(len(wcs)), rng.randrange(len(obs))
        if rng.random() < 0.4:
            wcs[w0] = {'type': 'wilson', 'eft': 'SMEFT', 'basis': 'Warsaw', 'scale': 91.1876, 'opt': {},
                       'wc': {rng.choice(['lq1_2223', 'phiq3_23', 'phil3_22', 'phiD', 'lq3_1111', 'll_1221', 'qq1_2323', 'phiud_23', 'lq1_2213']): 1e-7}}

        def call():
            return ['pred', o0, rng.choice([1, 2, 2, 1, 0]), w0, False]
    nt = rng.choice([2, 2, 2, 3, 4])
    threads = [[call() for _ in range(rng.randint(1, 3))] for _ in range(nt)]
    if rng.random() < 0.3:
        # all threads do the same things
        threads = [json.loads(json.dumps(threads[0])) for _ in range(nt)]
    before = [call() for _ in range(rng.choice([0, 0, 1, 2]))]
    style = rng.choice(['fine', 'mixed', 'mixed', 'coarse'])
    hi = {'fine': 40, 'mixed': 3000, 'coarse': 20000}[style]
    if simple:
        hi = {'fine': 8, 'mixed': 40, 'coarse': 150}[style]
    switches = []
    for _ in range(rng.choice([20, 100, 400])):
        switches.append([rng.randrange(12), max(1, int(hi ** rng.random()))])
    hot = None
    if rng.random() < 0.55:
        # switches inside of chosen functions only
        hot = [[rng.choice(['func', 'core', 'state', 'change', 'change']), rng.random()] for _ in range(rng.choice([1, 1, 2, 3]))]
        q = rng.choice([1, 2, 4, 12])
        switches = [[rng.randrange(12), rng.randint(1, q)] for _ in range(rng.choice([20, 100, 400]))]
        if rng.random() < 0.5:
            switches[0][1] = int(60 ** rng.random())
    return dict(obs=obs, defs=defs, pars=pars, wcs=wcs, liks=liks, threads=threads, before=before, switches=switches, hot=hot)


# ---------------------------------------------------------------- objects
def setup_simple(sc):
    for i, d in enumerate(sc['defs']):
        register(i, d)
        m = flavio.Measurement('sim meas %d' % i)
        m.add_constraint([name_of(i)], flavio.statistics.probability.NormalDistribution(0.3 * i, 0.5 + 0.1 * i))


class Objects:
    def __init__(self, sc):
        self.sc = sc
        if sc['defs']:
            setup_simple(sc)
        self.pars = [world.make_par(p) for p in sc['pars']]
        self.wcs = [world.make_wc(w) for w in sc['wcs']]
        self.liks = [session.make_lik(l) for l in sc['liks']]
        self.slik = None
        if sc['defs']:
            from flavio.statistics.likelihood import MeasurementLikelihood
            self.slik = MeasurementLikelihood([name_of(i) for i in range(len(sc['defs']))])

    def run(self, call):
        if call[0] == 'sll':
            return self.slik.log_likelihood_par(self.pars[call[1]], self.wcs[call[2]])
        if call[0] == 'spred':
            return flavio.Observable[name_of(call[1])].prediction_par(self.pars[call[2]], self.wcs[call[3]])
        return session.evaluate(call, lambda i: self.pars[i], lambda i: self.wcs[i], self.sc['obs'], lambda i: self.liks[i])


def alone(sc, call):
    return world.outcome(Objects(sc).run, call)


def functions(sc, call):
    """Functions a call runs, and the lines reached after a change of
    something threads share."""
    o = Objects(sc)
    with trace.ChangeProfiler(o.pars, keep=3, full=True) as p:
        world.outcome(o.run, call)
    return (sorted((c.co_filename, c.co_name, c.co_firstlineno, s) for c, s in p.state.items()),
            sorted((c.co_filename, c.co_name, c.co_firstlineno, l) for c, l in p.changes))


class FullTracer(trace.LineTracer):
    """All lines of flavio functions (of the hot ones, if chosen) are preemption points."""
    hot = None      # {(file, function, first line): None (all lines) or the lines}

    def __init__(self, sched, i):
        self.s, self.i = sched, i

    def _global(self, frame, event, arg):
        code = frame.f_code
        if not trace.flavio_file(code.co_filename) or code.co_name == '<module>':
            return None
        lines = None
        if self.hot is not None:
            lines = self.hot.get((code.co_filename, code.co_name, code.co_firstlineno), 0)
            if lines == 0:
                return None
        s, i = self.s, self.i

        def local(frame, event, arg):
            if event == 'line' and (lines is None or frame.f_lineno in lines):
                s.line(i, frame)
            return local
        return local


def choose_hot(sc, ctx, ask, threads):
    """Switches inside of chosen functions or after chosen lines only."""
    FullTracer.hot = None
    changes = set()
    if sc.get('hot'):
        funcs = set()
        for c in {json.dumps(t[0]): t[0] for t in threads}.values():
            f, ch = ask(functions, sc, c)
            funcs.update(map(tuple, f))
            changes.update(map(tuple, ch))
        funcs, changes = sorted(funcs), sorted(changes)
        if funcs:
            hot = FullTracer.hot = {}
            for mode, u in sc['hot']:
                if mode == 'change' and changes:
                    f = changes[int(u * len(changes))]
                    if hot.setdefault(f[:3], set()) is not None:
                        hot[f[:3]].add(f[3])
                    continue
                fs = [f for f in funcs if mode == 'func' or mode == 'core' and '/physics/' not in f[0]
                      or mode in ('state', 'change') and f[3]] or funcs
                hot[fs[int(u * len(fs))][:3]] = None
            ctx.log('hot', sorted((f[0].rsplit('/', 1)[-1],) + f[1:] + (sorted(l or ()),) for f, l in hot.items()))
            ctx.count('targeted')
    return changes


def execute(sc, ctx):
    ask = session.reference_server()
    o = Objects(sc)
    if 'cands' not in sc:
        choose_hot(sc, ctx, ask, sc['threads'])
        run_threads(sc, ctx, ask, o, sc['threads'])
        return
    for threads in sc['cands']:
        if choose_hot(sc, ctx, ask, [threads[0]]):
            run_threads(sc, ctx, ask, o, threads)
            ctx.count('sweep')


def run_threads(sc, ctx, ask, o, threads):
    calls = {}
    for c in sc['before'] + [c for t in threads for c in t]:
        calls[json.dumps(c)] = c
    want = {k: ask(alone, sc, c) for k, c in calls.items()}

    def check(c, got, who):
        w = want[json.dumps(c)]
        if not world.same_outcome(got, w):
            raise core.Violation('value' if got[0] == w[0] == 'ok' else 'error',
                                 '%s: %r on %r gave %s, alone it gives %s; threads %r'
                                 % (who, c, sc['obs'] or sc['defs'], world.short(got), world.short(w), threads))
    for c in sc['before']:
        check(c, world.outcome(o.run, c), 'before the threads')
    it = iter(sc['switches'])
    cur = [None] * len(threads)
    state = {'c': 0}

    def nxt():
        try:
            c, q = next(it)
        except StopIteration:
            return 0, 1 << 60
        return c, q

    def choose(n):
        c, state['q'] = nxt()
        return c % n

    def quantum():
        return state.get('q', 1 << 60)
    results = [[] for _ in threads]

    def body(i):
        def f():
            for c in threads[i]:
                cur[i] = c[0]
                results[i].append(world.outcome(o.run, c))
            return 'done'
        return f
    sched = trace.Scheduler([body(i) for i in range(len(threads))], choose, quantum, ctx, tracer=FullTracer)
    orig = sched._switch

    def switch(i, j, where):
        ctx.fp(where, cur[i], cur[j])
        orig(i, j, where)
    sched._switch = switch
    ends = sched.run()
    ctx.log('results', results)
    if sched.switches:
        ctx.nontrivial = True
        ctx.count('switches', sched.switches)
        ctx.fault('preemption', sched.switches)
    for i, t in enumerate(threads):
        if ends[i] != 'done':
            raise core.Violation('blocked', 'thread %d ended with %r; threads %r' % (i, ends[i], threads))
        for c, got in zip(t, results[i]):
            ctx.count('call:' + c[0])
            check(c, got, 'thread %d' % i)
    # nothing wrong has been remembered
    for c in calls.values():
        check(c, world.outcome(o.run, c), 'after the threads')
