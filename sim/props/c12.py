"""C12: saving replaces the file completely or leaves it alone."""
import os
import random
import threading
import types
import uuid

import numpy as np
import flavio
import flavio.measurements
import flavio.parameters
from flavio.statistics.likelihood import SMCovariance, MeasurementCovariance
from .. import core, world, trace, dists, fs
from ..store import RefStore
from . import c10, c11
from .c05 import par_exc
from .c06 import FullTracer

ID = 'C12'
TIERS = {'quick': dict(runs=20000, seconds=35), 'thorough': dict(runs=1000000, seconds=780)}
SHRINK_LISTS = ('ops', 'switches')
RULE = ('a case is 2-8 saves (SM covariance, measurement covariance, measurements, parameters; small to several buffer '
        'sizes) to 1-2 paths (plain, symbolic link, relative), some of them at the same time in scheduled threads, with '
        'at most one fault each: failing, short or torn write, full device, error of any file operation, interrupt, '
        'exception at a source line, process crash or power loss at the k-th file operation. The bytes at the path are '
        'checked at every file operation. Non-trivial: a fault fired or threads switched. Distinct by scenario hash.')
STEP = 'saves'
STATE_MEASURE = 'hash of (kind, fault, operation it struck, outcome, content held afterwards)'
REAL = ['flavio.statistics.likelihood (save/load)', 'flavio.measurements', 'flavio.parameters', 'flavio.util', 'pickle', 'yaml',
        'Python file objects above the raw device']
STUB = ['raw file operations (simulated device over real scratch files)', 'process crash (forked child ends)',
        'power loss (bytes not synced are cut off)', 'thread scheduling']
ASSUMPTIONS = ['renaming is atomic', 'data is on the medium once fsync returned']
OBSN = ['obs%d' % i for i in range(60)]
KINDS = ['sm', 'sm', 'meas', 'ms', 'par']


def gen_content(rng, kind):
    if kind in ('sm', 'meas'):
        n = rng.choice([1, 2, 3, 8, 40])
        return dict(kind=kind, n=n, seed=rng.randrange(10000), perm=rng.randrange(10000))
    if kind == 'ms':
        names = rng.sample(['verif m1', 'verif m2', 'verif m3'], rng.choice([1, 2, 3]))
        ents = [c11.gen_new(rng, n) for n in names]
        return dict(kind=kind, data=[[n, e[0]] for n, e in zip(names, ents)], cons=[e[1] for e in ents],
                    byname=rng.random() < 0.5)
    cons = []
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.6:
            ids, sp = c10.gen_group(rng, c11.PARS)
        else:
            i = rng.randrange(len(c11.PARS))
            ids, sp = [i], c10.gen_1d(rng, i)
        cons.append([ids, sp])
    return dict(kind=kind, cons=cons)


ACTIONS = ['err', 'err', 'short', 'torn', 'torn', 'full', 'full', 'interrupt', 'crash', 'crash_after', 'torncrash', 'powerloss', 'powerloss_after']
CRASH = ('crash', 'crash_after', 'torncrash', 'powerloss', 'powerloss_after')


def generate(rng, idx, tier):
    contents = [gen_content(rng, k) for k in ([rng.choice(KINDS)] * 2 if rng.random() < 0.5 else []) + [rng.choice(KINDS) for _ in range(rng.randint(1, 2))]]
    ops, switches = [], []
    for _ in range(rng.randint(2, 8)):
        path = rng.choice([0, 0, 0, 1])
        form = rng.choice(['abs', 'abs', 'rel', 'link'])
        c = rng.randrange(len(contents))
        r = rng.random()
        if r < 0.2:
            ops.append(['save', path, form, c, None])
        elif r < 0.72:
            ops.append(['save', path, form, c, ['fs', rng.random(), fs.gen_fault(rng, rng.choice([30, 300, 9000]), ACTIONS)]])
        elif r < 0.85:
            ops.append(['save', path, form, c, ['hit', rng.random(), rng.choice(['KeyboardInterrupt', 'MemoryError', 'ValueError'])]])
        else:
            ops.append(['both', path, form, c, rng.randrange(len(contents))])
            switches += [[rng.randrange(8), rng.choice([1, 1, 2, 3, 5, 9, 30])] for _ in range(40)]
    return dict(contents=contents, ops=ops, switches=switches, draw=rng.randrange(1000))


def matrix(c):
    r = np.random.RandomState(c['seed'])
    a = r.normal(size=(c['n'], c['n']))
    return np.array(OBSN[:c['n']])[random_perm(c['perm'], c['n'])].tolist(), r.normal(size=c['n']), a @ a.T


def random_perm(seed, n):
    return np.random.RandomState(seed).permutation(n)


class Content:
    """Something to save, and the check of what was loaded."""

    def __init__(self, c, tag):
        self.c = c
        k = c['kind']
        if k in ('sm', 'meas'):
            self.obs, self.central, self.cov = matrix(c)
            self.obj = self.holder(self.obs)
            if c['n'] == 1 and k == 'sm':
                self.obj.load_dict(dict(observables=self.obs, covariance=np.asarray(self.cov[0, 0])))
            elif c['n'] == 1:
                self.obj.load_dict(dict(observables=self.obs, central=float(self.central[0]), covariance=float(self.cov[0, 0])))
            else:
                self.obj.load_dict(dict(observables=self.obs, central=self.central, covariance=self.cov))
        elif k == 'par':
            self.obj = flavio.ParameterConstraints()
            self.ref = RefStore()
            for ids, sp in c['cons']:
                self.obj.add_constraint([c11.PARS[i] for i in ids], dists.build(sp))
                self.ref.add([c11.PARS[i] for i in ids], sp)
        else:
            self.obj = []
            for name, d in c['data']:
                self.obj.append(flavio.Measurement.from_yaml_dict(d, pname='observables'))

    def holder(self, obs):
        if self.c['kind'] == 'sm':
            return SMCovariance(list(obs))
        return MeasurementCovariance(types.SimpleNamespace(observables=list(obs)))

    def prepare(self, alone=True):
        """Saving by name needs the measurements to be the registered ones."""
        if self.c['kind'] == 'ms' and self.c['byname'] and alone:
            self.obj = [flavio.Measurement.from_yaml_dict(d, pname='observables') for _, d in self.c['data']]
            return [m.name for m in self.obj]
        return self.obj

    def save(self, path, what):
        k = self.c['kind']
        if k in ('sm', 'meas'):
            self.obj.save(path)
        elif k == 'par':
            flavio.parameters.write_file(path, self.obj)
        else:
            flavio.measurements.write_file(path, what)

    def check_load(self, path, ctx, where, rng):
        k = self.c['kind']
        try:
            if k in ('sm', 'meas'):
                obs = self.obs[::-1] if rng.random() < 0.5 else self.obs
                h = self.holder(obs)
                h.load(path)
                got = h.get(force=False)
                o = [self.obs.index(x) for x in obs]
                exp = self.cov[np.ix_(o, o)]
                if k == 'meas':
                    if not np.array_equal(np.ravel(got[0]), self.central[o]):
                        raise core.Violation('load', '%s: loaded central values %r, saved %r' % (where, got[0], self.central[o]))
                    got = got[1]
                if not np.array_equal(np.reshape(got, exp.shape), exp):
                    raise core.Violation('load', '%s: loaded covariance %r, saved %r' % (where, got, exp))
            elif k == 'par':
                c11.check(rng, flavio.parameters.read_file(path), c10.reloaded(self.ref), ctx, where)
            else:
                names = flavio.measurements.read_file(path)
                if names != [n for n, _ in self.c['data']]:
                    raise core.Violation('load', '%s: loaded %r, saved %r' % (where, names, [n for n, _ in self.c['data']]))
                for (name, d), cons in zip(self.c['data'], self.c['cons']):
                    m = flavio.Measurement[name]
                    r = RefStore()
                    for ids, sp in cons:
                        r.add([tuple(c11.OBS[i]) if isinstance(c11.OBS[i], list) else c11.OBS[i] for i in ids], sp)
                    c11.check(rng, m, c10.reloaded(r), ctx, where)
                    for f in ('inspire', 'experiment', 'url'):
                        if getattr(m, f) != d.get('metadata', {}).get(f, getattr(flavio.Measurement('verif none'), f)):
                            raise core.Violation('load', '%s: %s of %r is %r' % (where, f, name, getattr(m, f)))
        except core.Violation:
            raise
        except Exception as e:
            raise core.Violation('load', '%s: loading raised %r' % (where, e))


def execute(sc, ctx):
    root = core.scratch_dir()
    rng = random.Random(sc['draw'])
    ids = iter(range(1 << 30))
    uuid.uuid4 = lambda: uuid.UUID(int=random.Random('%d %d' % (ctx.steps, next(ids))).getrandbits(128), version=4)
    work = os.path.join(root, 'work')
    os.mkdir(work)
    os.mkdir(os.path.join(root, 'links'))
    os.chdir(work)
    for i in (0, 1):
        os.symlink(os.path.join(work, 'file%d' % i), os.path.join(root, 'links', 'link%d' % i))
    contents = [Content(c, i) for i, c in enumerate(sc['contents'])]
    final = []
    for i, c in enumerate(contents):
        p = os.path.join(root, 'clean%d' % i)
        c.save(p, c.prepare())
        final.append(slurp(p))
        c.check_load(p, ctx, 'file saved without faults', rng)
        os.unlink(p)
    held = {0: None, 1: None}            # path -> content index
    junk = set()
    it = iter(sc['switches'])

    def bytes_of(i):
        return None if i is None else final[i]

    for n, op in enumerate(sc['ops']):
        ctx.steps += 1
        _, pi, form, ci = op[:4]
        real = os.path.join(work, 'file%d' % pi)
        path = {'abs': real, 'rel': 'file%d' % pi, 'link': os.path.join(root, 'links', 'link%d' % pi)}[form]
        before = set(os.listdir(work))
        old = bytes_of(held[pi])
        c = contents[ci]
        what = c.prepare(op[0] == 'save')
        allowed = [old, final[ci]]
        if op[0] == 'both':
            allowed.append(final[op[4]])
        where = 'save %d %r of %s over %s' % (n, op, c.c['kind'], 'nothing' if held[pi] is None else contents[held[pi]].c['kind'])

        def observe(kind, p):
            now = slurp(real)
            if now not in allowed:
                raise core.Violation('partial', '%s: while saving (before %s of %s) the file holds %s' % (
                    where, kind, p if not p.startswith('work/.') else 'a temporary file', describe(now, allowed)))
            for q in (0, 1):
                if q != pi and slurp(os.path.join(work, 'file%d' % q)) != bytes_of(held[q]):
                    raise core.Violation('other', '%s changed another file' % where)

        def call():
            c.save(path, what)
        fault = op[4] if op[0] == 'save' else None
        fired = None
        crashed = False
        if op[0] == 'both':
            c2 = contents[op[4]]
            what2 = c2.prepare(False)
            out = concurrent([call, lambda: c2.save(path, what2)], it, ctx, root, observe)
            ctx.log(n, 'both', out)
            for o in out:
                if o[0] != 'ok':
                    raise core.Violation('concurrent', '%s: one of two saves at the same time gave %r' % (where, o))
            got = ('ok', None)
            ctx.nontrivial = True
        elif fault and fault[0] == 'fs':
            def count():
                with fs.FS(root) as d:
                    world.outcome(call)
                return d.n
            total = core.in_fork(count)
            for f in os.listdir(work):
                if f not in before:
                    os.unlink(os.path.join(work, f))
            restore(real, old)
            faults = [[min(int(fault[1] * total), total - 1), fault[2]]]
            if fault[2][0] in CRASH:
                def dying():
                    with fs.FS(root, None, faults, observe):
                        call()
                r = core.fork_call(dying, quiet=True)
                if r[0] == 'violation':
                    raise core.Violation(r[1], r[2])
                if r[0] == 'died' and os.waitstatus_to_exitcode(r[1]) == 137:
                    crashed = True
                    fired = fault[2][0]
                    ctx.fault('crash:' + fired)
                    got = ('crash', fired)
                elif r[0] == 'ok':
                    got = ('ok', None)       # not reached by this kind of fault
                else:
                    raise core.HarnessError('save in a child: %r' % (r,))
            else:
                dev = fs.FS(root, ctx, faults, observe)
                with dev:
                    got = outcome(call)
                fired = dev.fired[0][1:] if dev.fired else None
        elif fault:
            at = trace.pick(core.in_fork(trace.profile, call, world.outcome, ()), fault[1])
            for f in os.listdir(work):
                if f not in before:
                    os.unlink(os.path.join(work, f))
            restore(real, old)
            inj = trace.Cut(at, par_exc(fault[2]))
            with fs.FS(root, None, (), observe), inj:
                got = outcome(call)
            fired = inj.fired
            if fired:
                ctx.fault('cut:' + fault[2])
        else:
            with fs.FS(root, None, (), observe):
                got = outcome(call)
        if got[0] == 'violation':
            raise core.Violation(got[1], got[2])
        where += ' (%s -> %s)' % (fired, world.short(got))
        ctx.log(n, op, got[:2])
        ctx.count('save:' + c.c['kind'])
        if fired:
            ctx.nontrivial = True
        now = slurp(real)
        ctx.fp(c.c['kind'], (fault or [0])[0], str(fired)[:40], got[0], allowed.index(now) if now in allowed else -1)
        if now not in allowed:
            raise core.Violation('partial', '%s: the file holds %s' % (where, describe(now, allowed)))
        if got[0] == 'ok' and now == old and old not in allowed[1:]:
            raise core.Violation('lost', '%s: saving succeeded but the file has its previous content' % where)
        if got[0] == 'exc' and not fault:
            raise core.Violation('refused', '%s: saving failed without a fault' % where)
        if got[0] == 'exc' and fault[0] == 'fs' and fault[2][0] == 'short':
            raise core.Violation('refused', '%s: a short write made the save fail' % where)
        left = fs.open_files(root)
        if left and not crashed:
            raise core.Violation('open_file', '%s left open: %r' % (where, left))
        new = set(os.listdir(work)) - before - {'file%d' % pi}
        if new and not crashed:
            raise core.Violation('temporary', '%s left files behind: %r' % (where, sorted(new)))
        if not os.path.islink(os.path.join(root, 'links', 'link%d' % pi)):
            raise core.Violation('link', '%s replaced a symbolic link' % where)
        for i in ([ci] + ([op[4]] if op[0] == 'both' else [])):
            if now is not None and now == final[i]:
                held[pi] = i
        for q in (0, 1):
            if slurp(os.path.join(work, 'file%d' % q)) != bytes_of(held[q]):
                raise core.Violation('other', '%s changed another file' % where)
            if held[q] is not None:
                contents[held[q]].check_load(os.path.join(work, 'file%d' % q), ctx, where + '; then loading', rng)


def slurp(p):
    try:
        with fs.real_open(p, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


def restore(p, old):
    if slurp(p) != old:
        if old is None:
            os.unlink(p)
        else:
            with fs.real_open(p, 'wb') as f:
                f.write(old)


def describe(now, allowed):
    if now is None:
        return 'nothing, expected one of the contents of %r bytes' % [a and len(a) for a in allowed]
    for a in allowed:
        if a is not None and now == a[:len(now)]:
            return 'the first %d of %d bytes' % (len(now), len(a))
    return '%d bytes that were neither there before nor saved (%r...)' % (len(now), now[:40])


def outcome(call):
    try:
        call()
        return ('ok', None)
    except core.Violation as e:
        return ('violation', e.kind, e.msg)
    except (KeyboardInterrupt, Exception) as e:
        return ('exc', type(e).__name__, str(e)[:200])


def concurrent(calls, it, ctx, root, observe):
    state = {'q': 1}

    def choose(n):
        c, state['q'] = next(it, (0, 1 << 60))
        return c % n
    sched = trace.Scheduler([lambda c=c: outcome(c) for c in calls], choose, lambda: state['q'], ctx, tracer=FullTracer)

    def look(kind, p):
        observe(kind, p)
        i = sched.idents.get(threading.get_ident())
        if i is not None:
            sched.line(i, types.SimpleNamespace(f_code=types.SimpleNamespace(co_name='<%s>' % kind)))
    with fs.FS(root, None, (), look):
        out = sched.run()
    if sched.switches:
        ctx.fault('preemption', sched.switches)
    return out
