"""C10: the constraint store agrees with its update history."""
import math

import numpy as np
import yaml
import flavio
from .. import core, world, trace, dists
from ..store import RefStore
from .c05 import par_exc

ID = 'C10'
TIERS = {'quick': dict(runs=20000, seconds=35), 'thorough': dict(runs=1000000, seconds=780)}
SHRINK_LISTS = ('ops',)
RULE = ('a case is 5-25 store operations (set by string, dictionary or list of them, add uni- and multivariate, remove, '
        'copy, dump, reload, load into, rejected updates, updates cut by an exception inside the construction of the '
        'distribution) over 2-6 names and up to 4 stores; after every operation the queries of all stores are compared with '
        'a reference store. Non-trivial: at least one replacement or removal. Distinct by scenario hash.')
STEP = 'store operations'
STATE_MEASURE = 'hash of (operation kinds of the store so far, number of constraints and governed dimensions)'
REAL = ['flavio.classes.Constraints, ParameterConstraints, Measurement, WilsonCoefficientPriors', 'flavio.statistics.probability',
        'flavio._parse_errors', 'yaml', 'numpy/scipy']
STUB = ['delivery of the injected exception (raised at a chosen source line)']
ASSUMPTIONS = ['the reference densities of sim/dists.py', 'one distribution object is not attached to two groups of parameters of one store']
NAMES = {'pc': ['verif_a', 'verif_b', 'm_b', 'verif_c', 'Vcb', 'verif_d'],
         'ms': ['BR(Bs->mumu)', ['dBR/dq2(B0->K*mumu)', 1.1], 'DeltaM_s', ['dBR/dq2(B0->K*mumu)', 6.0], ['<FL>(B0->K*mumu)', 1.0, 6.0], 'eps_K'],
         'wp': ['C9_bsmumu', 'C10_bsmumu', 'C7_bs', 'CVLL_bsbs', 'verif_x', 'C7p_bs']}


def center(i):
    return 60. + 60. * i


def gen_string(rng, i):
    """A constraint string and the equivalent specification."""
    c = center(i)
    k = rng.randrange(9)
    s, t = rng.choice([1, 2, 3]), rng.choice([1, 4])
    n = lambda sd: {'distribution': 'normal', 'central_value': c, 'standard_deviation': sd}
    if k == 0:
        return '%d(%d)' % (c, s), n(float(s))
    if k == 1:
        return '%.1f(%d)' % (c, s), n(s / 10)
    if k == 2:
        return '%.1f ± %.1f' % (c, s), n(float(s))
    if k == 3:
        return '%.1f+-%.1f+-%.1f' % (c, s, t), n(math.hypot(s, t))
    if k == 4:
        return '%.1f +%.1f -%.1f' % (c, s, t), {'distribution': 'asymmetric_normal', 'central_value': c,
                                               'right_deviation': float(s), 'left_deviation': float(t)}
    if k == 5:
        return '[%d, %d]' % (c - s, c + s), {'distribution': 'uniform', 'central_value': c, 'half_range': float(s)}
    if k == 6:
        return '%.1f */ 1.%d' % (c, s), {'distribution': 'log_normal', 'central_value': c, 'factor': 1 + s / 10}
    if k == 7:
        return '%.2f' % c, {'distribution': 'delta', 'central_value': c}
    return '< %d @ 95%% CL' % (s * 4), {'distribution': 'gaussian_upper_limit', 'limit': 4. * s, 'confidence_level': .95}


def gen_1d(rng, i):
    sp = dists.gen_1d(rng, ['normal', 'normal', 'asymmetric_normal', 'half_normal', 'uniform', 'gaussian_upper_limit', 'log_normal',
                            'gamma_positive', 'numerical', 'delta'], c=center(i))
    if sp['distribution'] == 'log_normal':
        sp['factor'] = 1.1
    return sp


def gen_group(rng, names):
    n = rng.choice([2, 2, 3]) if len(names) > 2 else 2
    ids = rng.sample(range(len(names)), n)
    if n == 2 and rng.random() < 0.35:
        sp = dists.gen_mvnum(rng)
        for j, i in enumerate(ids):
            d = center(i) - sp['central_value'][j]
            sp['xi'][j] = [x + d for x in sp['xi'][j]]
            sp['central_value'][j] = center(i)
    else:
        sp = dists.gen_mvn(rng, n, c=[center(i) for i in ids])
    return ids, sp


def gen_set(rng, st, names):
    """An accepted update (kind, store, ...)."""
    k = rng.choice(['str', 'str', 'dict', 'dicts', 'add1', 'add1', 'mv', 'mv', 'mv', 'mv', 'into'])
    i = rng.randrange(len(names))
    if k == 'str':
        return ['str', st, i, *gen_string(rng, i)]
    if k == 'dict':
        return ['dict', st, i, gen_1d(rng, i)]
    if k == 'dicts':
        a, b = rng.choice([1., 2.]), rng.choice([0.5, 3.])
        return ['dicts', st, i, [{'distribution': 'normal', 'central_value': center(i), 'standard_deviation': x} for x in (a, b)]]
    if k == 'add1':
        return ['add', st, [i], gen_1d(rng, i), rng.random() < 0.3]
    if k == 'mv':
        ids, sp = gen_group(rng, names)
        return ['add', st, ids, sp, rng.random() < 0.3]
    entries = []
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.5:
            ids, sp = gen_group(rng, names)
            entries.append([ids, sp])
        else:
            i = rng.randrange(len(names))
            entries.append([[i], gen_1d(rng, i)])
    return ['into', st, entries]


BAD = ['string', 'unknown', 'args', 'none', 'both', 'badcov', 'unhashable', 'into_pname', 'into_dist', 'into_args', 'type', 'empty']


def generate(rng, idx, tier):
    nstores = 1
    kind = rng.choice(['pc', 'pc', 'ms', 'ms', 'wp'])
    names = NAMES[kind][:rng.choice([2, 3, 4, 6])]
    ops = []
    for _ in range(rng.randint(5, 25)):
        st = rng.randrange(nstores)
        r = rng.random()
        if r < 0.5:
            ops.append(gen_set(rng, st, names))
        elif r < 0.62:
            ops.append(['remove', st, rng.randrange(len(names))])
        elif r < 0.68:
            ops.append(['dump', st])
        elif r < 0.76 and nstores < 4:
            ops.append(['copy', st])
            nstores += 1
        elif r < 0.84 and nstores < 4:
            ops.append(['reload', st, rng.choice(['dict', 'yaml']), rng.choice(['parameters', 'observables'])])
            nstores += 1
        elif r < 0.92:
            ops.append(['bad', st, rng.choice(BAD), rng.sample(range(len(names)), 2)])
        else:
            ops.append(['hit', gen_set(rng, st, names), rng.random(), rng.choice(['KeyboardInterrupt', 'MemoryError', 'ValueError'])])
    return dict(kind=kind, names=names, ops=ops, draw=rng.randrange(1000))


def conv(specs):
    return {'distribution': 'normal', 'central_value': specs[0]['central_value'],
            'standard_deviation': math.sqrt(sum(s['standard_deviation']**2 for s in specs))}


def reduce(spec, keep):
    """Specification restricted to the dimensions `keep`."""
    if len(keep) == dists.ndim(spec):
        return spec
    cv = [spec['central_value'][k] for k in keep]
    if spec['distribution'] == 'multivariate_normal':
        c = dists.cov(spec)[np.ix_(keep, keep)]
        if len(keep) == 1:
            return {'distribution': 'normal', 'central_value': cv[0], 'standard_deviation': math.sqrt(c[0, 0])}
        return {'distribution': 'multivariate_normal', 'central_value': cv, 'covariance': c.tolist()}
    y = np.amax(np.array(spec['y']), axis=tuple(i for i in range(dists.ndim(spec)) if i not in keep))
    return {'distribution': 'numerical', 'x': list(spec['xi'][keep[0]]), 'y': y.tolist(), 'central_value': cv[0]}


def reloaded(ref):
    r = RefStore()
    for cid, (spec, ps) in ref.cons.items():
        g = ref.governed(cid)
        r.add([p for _, p in g], reduce(spec, [i for i, _ in g]))
    return r


def error(spec, i):
    """(right, left) error of component i."""
    k = spec['distribution']
    if k == 'multivariate_normal':
        return (math.sqrt(dists.cov(spec)[i, i]),) * 2
    if k == 'normal':
        return (spec['standard_deviation'],) * 2
    if k == 'asymmetric_normal':
        return spec['right_deviation'], spec['left_deviation']
    if k == 'delta':
        return 0., 0.
    d = dists.build(spec)
    return float(np.ravel(d.error_right)[0]), float(np.ravel(d.error_left)[0])


def close(a, b, tol=1e-7):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) == math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def bounds(spec, i):
    """Range any draw of component i lies in."""
    k = spec['distribution']
    c = spec.get('central_value', 0.)
    if k == 'multivariate_normal':
        s = 9 * math.sqrt(dists.cov(spec)[i, i])
        return c[i] - s, c[i] + s
    if k == 'multivariate_numerical':
        x = spec['xi'][i]
        h = (x[1] - x[0]) / 2 * (1 + 1e-9)
        return x[0] - h, x[-1] + h
    if k == 'normal':
        return c - 9 * spec['standard_deviation'], c + 9 * spec['standard_deviation']
    if k == 'asymmetric_normal':
        return c - 9 * spec['left_deviation'], c + 9 * spec['right_deviation']
    if k in ('half_normal', 'gaussian_upper_limit'):
        c, s = dists.half(spec)
        return min(c, c + 9 * s), max(c, c + 9 * s)
    if k == 'uniform':
        return c - spec['half_range'], c + spec['half_range']
    if k == 'log_normal':
        return c * spec['factor']**-9, c * spec['factor']**9
    if k == 'delta':
        return c, c
    if k == 'numerical':
        return spec['x'][0], spec['x'][-1]
    if k == 'gamma_distribution_positive':
        return 0., spec['loc'] + spec['scale'] * 80
    raise ValueError(k)


def query(rng, store, ref, fresh, ctx, where):
    def bad(kind, msg, *a):
        raise core.Violation(kind, '%s: %s' % (where, msg % a))
    ps = ref.params()
    if sorted(map(str, store.all_parameters)) != sorted(map(str, ps)):
        bad('parameters', 'the store lists %r, set and not removed are %r', store.all_parameters, ps)
    cen = store.get_central_all()
    for p in ps:
        e = ref.central(p)
        for v in (cen[p], store.get_central(p)):
            if np.size(v) != 1 or not close(np.ravel(v)[0], e):
                bad('central', 'central value of %r is %r, expected %r', p, v, e)
    if set(cen) != set(ps):
        bad('central', 'central values for %r, constrained are %r', list(cen), ps)
    if not ps:
        if store.get_random_all() or store.get_logprobability_all({}):
            bad('empty', 'an empty store gives draws or probabilities')
        return
    vals = {}
    for p in ps:
        i, cid = ref.map[p]
        lo, hi = bounds(ref.cons[cid][0], i)
        c = ref.central(p)
        vals[p] = c if rng.random() < 0.2 else c + (rng.uniform(lo, hi) - c) * 0.3
    for excl in ([], [rng.choice(ps)], rng.sample(ps, max(1, len(ps) // 2))):
        delta = rng.random() < 0.3
        form = rng.choice([list, tuple, set])
        got = sorted(float(v) for v in store.get_logprobability_all(dict(vals), exclude_parameters=form(excl), delta=delta).values())
        exp = sorted(ref.logprob(vals, excl=excl, delta=delta).values())
        if len(got) != len(exp) or not all(close(a, b) for a, b in zip(got, exp)):
            bad('logprob', 'log-probabilities (excluded %r, delta=%r) at %r are %r, expected %r', excl, delta, vals, got, exp)
    p = rng.choice(ps)
    i, cid = ref.map[p]
    spec = ref.cons[cid][0]
    for delta in (False, True):
        got = store.get_logprobability_single(p, vals[p], delta=delta)
        exp = (dists.delta_logpdf if delta else dists.logpdf)(spec, [vals[p]], [i])
        if np.size(got) != 1 or not close(np.ravel(got)[0], exp):
            bad('logprob_single', 'log-probability of %r = %r is %r, expected %r', p, vals[p], got, exp)
    # errors
    got = world.outcome(store.get_1d_errors_rightleft)
    if any(s['distribution'] == 'multivariate_numerical' for s, _ in ref.cons.values()):
        if got[0] != 'exc' or got[1] != 'NotImplementedError':
            bad('errors', 'errors with a multivariate numerical constraint: %r', got)
    elif got[0] != 'ok':
        bad('errors', 'errors failed: %r', got)
    else:
        er = store.get_1d_errors_rightleft()
        if set(er) != set(ps):
            bad('errors', 'errors for %r, constrained are %r', list(er), ps)
        for p in ps:
            i, cid = ref.map[p]
            e = error(ref.cons[cid][0], i)
            if not (close(er[p][0], e[0], 1e-5) and close(er[p][1], e[1], 1e-5)):
                bad('errors', 'errors of %r are %r, expected %r', p, er[p], e)
    # random draws: from the governing distributions and independent of the history
    size = rng.choice([None, 1, 3])
    seed = rng.randrange(10000)
    np.random.seed(seed)
    d = store.get_random_all(size=size)
    if set(d) != set(ps):
        bad('draw', 'draws for %r, constrained are %r', list(d), ps)
    for p in ps:
        v = np.asarray(d[p], dtype=float)
        if v.shape != (() if size is None else (size,)):
            bad('draw', 'draw of %r with size=%r has shape %r', p, size, v.shape)
        i, cid = ref.map[p]
        lo, hi = bounds(ref.cons[cid][0], i)
        eps = 1e-9 * (1 + abs(lo) + abs(hi))
        if not (np.all(v >= lo - eps) and np.all(v <= hi + eps)):
            bad('draw', 'draw of %r is %r, governed by %r', p, v, ref.cons[cid][0])
    np.random.seed(seed)
    f = fresh().get_random_all(size=size)
    for p in ps:
        if not np.allclose(f[p], d[p], rtol=1e-9, atol=0):
            bad('draw_history', 'seeded draw of %r is %r, a store with only the constraints in force gives %r', p, d[p], f[p])


def execute(sc, ctx):
    names = [tuple(n) if isinstance(n, list) else n for n in sc['names']]
    kind = sc['kind']
    count = [0]

    def new():
        count[0] += 1
        if kind == 'ms':
            m = flavio.Measurement('verif measurement %d' % count[0])
            m.inspire, m.url = 'Verif:2020', 'http://example.org'
            return m
        return flavio.ParameterConstraints() if kind == 'pc' else flavio.classes.WilsonCoefficientPriors()
    stores = [(new(), RefStore(), ['new'])]

    def data(entries, pname):
        out = []
        for ids, sp in entries:
            out.append({pname: [list(names[i]) if isinstance(names[i], tuple) else names[i] for i in ids],
                        'values': dict(sp) if len(ids) > 1 or core_even(sp) else [dict(sp)]})
        return out

    def core_even(sp):
        return len(repr(sp)) % 2 == 0

    def into(store, entries, pname='parameters'):
        d = data(entries, pname)
        for e in d:
            vs = e['values'] if isinstance(e['values'], list) else [e['values']]
            for v in vs:
                if v['distribution'] == 'gamma_distribution_positive':
                    v['distribution'] = 'gamma_positive'
        if kind == 'ms':
            d = {'arguments': {'name': store.name}, 'constraints': d}
        return type(store).from_yaml_dict(d, pname=pname, instance=store)

    def dd(sp):
        sp = dict(sp)
        if sp['distribution'] == 'gamma_distribution_positive':
            sp['distribution'] = 'gamma_positive'
        return sp

    def update(store, ref, op):
        """(function making the update, function updating the reference)"""
        k = op[0]
        if k == 'str':
            return lambda: store.set_constraint(names[op[2]], op[3]), lambda: ref.add([names[op[2]]], op[4])
        if k == 'dict':
            return lambda: store.set_constraint(names[op[2]], constraint_dict=dd(op[3])), lambda: ref.add([names[op[2]]], op[3])
        if k == 'dicts':
            return (lambda: store.set_constraint(names[op[2]], constraint_dict=[dict(s) for s in op[3]]),
                    lambda: ref.add([names[op[2]]], conv(op[3])))
        if k == 'add':
            ps = [names[i] for i in op[2]]
            ipc = True if op[4] and kind == 'pc' else None
            return lambda: store.add_constraint(list(ps), dists.build(op[3]), ipc), lambda: ref.add(ps, op[3])
        return lambda: into(store, op[2]), lambda: [ref.add([names[i] for i in ids], sp) for ids, sp in op[2]]

    def reject(store, k, ids):
        """A call that must be rejected."""
        p, q = names[ids[0]], names[ids[1]]
        n = {'distribution': 'normal', 'central_value': 1., 'standard_deviation': 1.}
        e = lambda *x: {'parameters': [list(i) if isinstance(i, tuple) else i for i in x[:-1]], 'values': x[-1]}
        wrap = lambda l: {'arguments': {'name': store.name}, 'constraints': l} if kind == 'ms' else l
        mvn = lambda c: {'distribution': 'multivariate_normal', 'central_value': [1., 2.], 'covariance': c}
        ok = [[1., 0.], [0., 1.]]
        return {
            'string': lambda: store.set_constraint(p, '1.0 about 0.3'),
            'unknown': lambda: store.set_constraint(p, constraint_dict=dict(n, distribution='nonsense')),
            'args': lambda: store.set_constraint(p, constraint_dict={'distribution': 'normal', 'central_value': 1.}),
            'none': lambda: store.set_constraint(p),
            'both': lambda: store.set_constraint(p, '1(1)', constraint_dict=n),
            'badcov': lambda: into_raw(store, wrap([e(p, q, mvn([[1., 2.], [2., 1.]]))])),
            'unhashable': lambda: store.add_constraint([p, ['x', 'y']], dists.build(mvn(ok))),
            'into_pname': lambda: into_raw(store, wrap([e(p, n), {'wrong': [q], 'values': n}])),
            'into_dist': lambda: into_raw(store, wrap([e(p, n), e(q, dict(n, distribution='nonsense'))])),
            'into_args': lambda: into_raw(store, wrap([e(p, q, mvn(ok)), e(q, {'distribution': 'normal'})])),
            'type': lambda: store.set_constraint(p, 1.5e3j),
            'empty': lambda: store.set_constraint(p, constraint_dict=[]),
        }[k]

    def into_raw(store, d):
        return type(store).from_yaml_dict(d, instance=store)
    import random
    rng = random.Random(sc['draw'])
    for n, op in enumerate(sc['ops']):
        ctx.steps += 1
        k = op[0]
        where = 'operation %d %r' % (n, op)
        inner = op[1] if k == 'hit' else op
        if inner[1] >= len(stores):
            continue
        store, ref, hist = stores[inner[1]]
        hist.append(k if k != 'bad' else 'bad:' + op[2])
        if k in ('str', 'dict', 'dicts', 'add', 'into'):
            f, g = update(store, ref, op)
            before = len(ref.map)
            r = world.outcome(f)
            if r[0] != 'ok':
                raise core.Violation('rejected', '%s: a valid update failed: %r' % (where, r))
            if any(p in ref.map for p in names):
                ctx.nontrivial = True
            g()
        elif k in ('remove', 'dump', 'copy', 'reload'):
            try:
                if k == 'remove':
                    if names[op[2]] in ref.map:
                        ctx.nontrivial = True
                    store.remove_constraint(names[op[2]])
                    ref.remove(names[op[2]])
                elif k == 'dump':
                    d = store.get_yaml_dict()
                    cons = d['constraints'] if isinstance(d, dict) else d
                    got = [tuple(p) if isinstance(p, list) else p for c in cons for p in c['parameters']]
                    if sorted(map(str, got)) != sorted(map(str, ref.params())):
                        raise core.Violation('dump', '%s: the dump has %r, constrained are %r' % (where, got, ref.params()))
                elif k == 'copy':
                    stores.append((store.copy(), ref.copy(), hist[:]))
                else:
                    pname = op[3]
                    if op[2] == 'dict':
                        new_store = type(store).from_yaml_dict(store.get_yaml_dict(pname=pname), pname=pname)
                    else:
                        new_store = type(store).from_yaml(store.get_yaml(pname=pname), pname=pname)
                    if kind == 'ms' and (new_store.name, new_store.inspire, new_store.url) != (store.name, 'Verif:2020', 'http://example.org'):
                        raise core.Violation('reload', '%s: metadata changed: %r' % (where, (new_store.name, new_store.inspire, new_store.url)))
                    stores.append((new_store, reloaded(ref), hist[:]))
            except core.Violation:
                raise
            except Exception as e:
                raise core.Violation('failed:' + k, '%s failed: %s: %s at %s' % (where, type(e).__name__, str(e)[:200], core.tb_tail(e)))
        elif k == 'bad':
            r = world.outcome(reject(store, op[2], op[3]))
            if r[0] == 'ok':
                raise core.Violation('accepted', '%s: an invalid update was accepted' % where)
            ctx.fault('rejected:' + op[2])
        elif k == 'hit':
            f, g = update(store, ref, inner)
            total = core.in_fork(_count_built, f)
            if not total:
                continue
            inj = BuildInjector(min(int(op[2] * total), total - 1), par_exc(op[3]))
            with inj:
                r = world.outcome(f)
            if inj.fired and r[0] == 'exc':
                ctx.fault('cut:' + op[3])
                where += ' (cut at %s)' % inj.fired
            elif r[0] == 'ok':
                g()
        ctx.log(op, [len(r.map) for _, r, _ in stores])
        ctx.fp(tuple(hist[-3:]), len(ref.cons), sorted(len(ref.governed(c)) for c in ref.cons))

        for i, (s, r, _) in enumerate(stores):
            def fresh(r=r):
                o = flavio.ParameterConstraints()
                for spec, ps in r.cons.values():
                    o.add_constraint(list(ps), dists.build(spec))
                return o
            try:
                query(rng, s, r, fresh, ctx, where + ', store %d' % i)
            except core.Violation:
                raise
            except Exception as e:
                raise core.Violation('query_failed', '%s, store %d: a query failed: %s: %s at %s'
                                     % (where, i, type(e).__name__, str(e)[:200], core.tb_tail(e)))


class BuildInjector(trace.Injector):
    """Raises only while a distribution is being parsed or constructed."""

    def line(self, frame):
        if frame.f_code.co_filename.endswith(('probability.py', '_parse_errors.py')):
            super().line(frame)


class BuildCounter(trace.Counter):
    def line(self, frame):
        if frame.f_code.co_filename.endswith(('probability.py', '_parse_errors.py')):
            self.n += 1


def _count_built(f):
    c = BuildCounter()
    with c:
        world.outcome(f)
    return c.n
