"""C15: random draws follow the constraints in force, jointly."""
import math
import random

import numpy as np
import scipy.stats
import flavio
import flavio.statistics.probability as fp
from flavio.statistics.likelihood import SMCovariance
from .. import core, world, dists
from ..store import RefStore

ID = 'C15'
TIERS = {'quick': dict(runs=20000, seconds=35), 'thorough': dict(runs=1000000, seconds=780)}
SHRINK_LISTS = ('ops', 'words')
RULE = ('a case builds a collection of constraints of 2-6 parameters by 2-10 updates (set, replace, partially supersede, remove, '
        'copy, draws in between) and then draws from it: (a) with the state of numpy\'s generator set so that seeded outputs are '
        'its smallest and largest numbers, (b) in two long series (one set at a time, many at once) whose frequencies, rank '
        'correlations and serial correlations are compared with the reference densities, or (c) through the uncertainty, error '
        'budget and covariance functions, recording every parameter set handed to an observable. Non-trivial: a replacement or '
        'removal happened before the draws, or an extreme output was consumed. Distinct by scenario hash.')
STEP = 'sets of parameters drawn'
STATE_MEASURE = 'hash of (mode, kinds of the distributions in force and governed dimensions)'
REAL = ['flavio.classes.Constraints.get_random_all', 'flavio.statistics.probability', 'flavio.functions (uncertainties, budgets, covariances)',
        'numpy.random (distribution algorithms)']
STUB = ['state of the Mersenne twister in mode (a)', 'a user-defined observable recording its parameters in mode (c)']
ASSUMPTIONS = ['the reference densities of sim/dists.py', 'statistical decisions use thresholds exceeded with probability < 1e-9 per comparison']
NAMES = ['verif_a', 'verif_b', 'verif_c', 'verif_d', 'verif_e', 'verif_f']


# -- distributions --------------------------------------------------------------

def scale(spec, f):
    """The distribution of f times the quantity."""
    out = dict(spec)
    lists = lambda v: [lists(x) for x in v] if isinstance(v, list) else v * f
    for k in ('central_value', 'standard_deviation', 'right_deviation', 'left_deviation', 'half_range', 'limit', 'loc', 'scale',
              'x', 'xi', 'scale_factor'):
        if k in spec:
            out[k] = lists(spec[k])
    if 'covariance' in spec:
        out['covariance'] = [[x * f * f for x in r] for r in spec['covariance']]
    return out


def gen_1d(rng):
    k = rng.choice(['base'] * 6 + ['numerical', 'numerical', 'gamma', 'counting', 'limit', 'discrete', 'lognormal', 'kde', 'general'])
    f = rng.choice([1., 1., 1., 1e-9, 4.5e-5, 120.])
    if k == 'base':
        return scale(dists.gen_1d(rng), f)
    if k == 'numerical':
        n = rng.choice([5, 12, 40])
        x = np.cumsum([rng.choice([0.2, 0.5, 1.0]) for _ in range(n)]) - rng.choice([0., 2.])
        y = [rng.choice([0., 0.2, 1., 3.]) if rng.random() < 0.5 else rng.random() for _ in range(n)]
        y[rng.randrange(1, n - 1)] = 2.
        return scale({'distribution': 'numerical', 'x': [float(v) for v in x], 'y': y, 'central_value': float(x[n // 2])}, f)
    if k == 'gamma':
        return {'distribution': 'gamma', 'a': rng.choice([1.5, 3., 20.]), 'loc': rng.choice([0., -2.]) * f, 'scale': f}
    if k == 'counting':
        b = rng.choice([0, 1, 2.5])
        return {'distribution': 'gamma_counting_process', 'scale_factor': f, 'counts_total': rng.choice([0, 2, 5]) + int(b), 'counts_background': b}
    if k == 'limit':
        return {'distribution': 'gamma_upper_limit', 'limit': f, 'confidence_level': rng.choice([.9, .95]),
                'counts_total': rng.choice([1, 3, 4]), 'counts_background': rng.choice([0, 1.5])}
    if k == 'discrete':
        a = rng.choice([-2, 0, 3])
        return {'distribution': 'discrete_uniform', 'lowest_value': a, 'highest_value': a + rng.choice([0, 1, 4])}
    if k == 'lognormal':
        return scale({'distribution': 'log_normal', 'central_value': rng.choice([-1., 3.]), 'factor': rng.choice([1.05, 2., 4.])}, f)
    if k == 'kde':
        g = random.Random(rng.randrange(100))
        return {'distribution': 'gaussian_kde', 'data': [f * (g.gauss(1, 1) if g.random() < .6 else g.gauss(5, .5)) for _ in range(200)], 'n_bins': 40}
    return {'distribution': 'general_gamma_counting_process', 'scale_factor': f, 'counts_total': rng.choice([3, 6]), 'counts_background': 2,
            'background_std': rng.choice([.5, 1.])}


def gen_group(rng, names):
    n = min(rng.choice([2, 2, 3, 4]), len(names))
    ids = rng.sample(range(len(names)), n)
    if n == 2 and rng.random() < 0.4:
        sp = dists.gen_mvnum(rng)
        if rng.random() < 0.5:       # no symmetry, ties, empty cells
            sp['y'] = [[rng.choice([0., 1., 1., 3.]) if rng.random() < .6 else rng.random() for _ in r] for r in sp['y']]
            sp['y'][0][0] += .1
    else:
        sp = dists.gen_mvn(rng, n)
        if n > 1 and rng.random() < 0.15 and 'correlation' in sp:
            sp['correlation'] = rng.choice([0.3, 0.9])
    return ids, scale(sp, rng.choice([1., 1., 1e-9, 30.]))


def build(sp):
    k = sp['distribution']
    if k in ('gaussian_kde', 'numerical'):
        d = {a: np.array(v) if isinstance(v, list) else v for a, v in sp.items() if a != 'distribution'}
        return (fp.GaussianKDE if k == 'gaussian_kde' else fp.NumericalDistribution)(**d)
    return dists.build(sp)


def ref1d(sp, dist):
    """(points, reference cdf at the points, lower end, upper end) of a
    univariate distribution."""
    k = sp['distribution']
    if k == 'delta':
        return None
    if k == 'discrete_uniform':
        x = np.arange(sp['lowest_value'], sp['highest_value'] + 1)
        return x, np.arange(1, len(x) + 1) / len(x), x[0], x[-1]
    if k in ('gamma_counting_process', 'gamma_upper_limit'):
        sf = sp.get('scale_factor', 1.)
        g = scipy.stats.gamma(sp['counts_total'] + 1, loc=-sp['counts_background'], scale=1)
        if k == 'gamma_upper_limit':
            p0 = g.cdf(0)
            sf = sp['limit'] / g.ppf(p0 + (1 - p0) * sp['confidence_level'])
        sp = {'distribution': 'gamma_distribution_positive', 'a': sp['counts_total'] + 1., 'loc': -sp['counts_background'] * sf, 'scale': sf}
        k = sp['distribution']
    if k in ('gaussian_kde', 'general_gamma_counting_process'):
        # compared with the density the distribution itself claims
        x, lp = np.asarray(dist.x), np.asarray(dist.logpdf(np.asarray(dist.x)))
        y = np.exp(lp)
        F = np.concatenate([[0], np.cumsum((y[1:] + y[:-1]) / 2 * np.diff(x))])
        return x, F, x[0], x[-1]
    if k == 'numerical':
        x, y = np.array(sp['x']), np.array(sp['y'])
        F = np.concatenate([[0], np.cumsum((y[1:] + y[:-1]) / 2 * np.diff(x))])
        return x, F / F[-1], x[0], x[-1]
    if k == 'gamma':
        d = scipy.stats.gamma(sp['a'], loc=sp['loc'], scale=sp['scale'])
        x = d.ppf(np.linspace(0, 1, 400)[1:-1])
        return x, d.cdf(x), sp['loc'], math.inf
    t = np.linspace(-9, 9, 6001)
    c = sp.get('central_value')
    lo, hi = -math.inf, math.inf
    if k == 'normal':
        x = c + t * sp['standard_deviation']
    elif k == 'asymmetric_normal':
        x = c + t * np.where(t > 0, sp['right_deviation'], sp['left_deviation'])
    elif k in ('half_normal', 'gaussian_upper_limit'):
        c, s = dists.half(sp)
        x = np.sort(c + (t + 9) / 2 * s)
        lo, hi = (c, math.inf) if s > 0 else (-math.inf, c)
    elif k == 'uniform':
        x = c + t / 9 * sp['half_range']
        lo, hi = x[0], x[-1]
        return x, np.linspace(0, 1, len(x)), lo, hi
    elif k == 'log_normal':
        x = np.sort(c * np.exp(t * math.log(sp['factor'])))
        lo, hi = (0., math.inf) if c > 0 else (-math.inf, 0.)
    elif k == 'gamma_distribution_positive':
        x = (t + 9) / 18 * (sp['a'] * 6 + 30) * sp['scale']
        lo = 0.
    y = np.array([math.exp(v) if not math.isnan(v) else 0. for v in (dists.logpdf_1d(sp, float(v)) for v in x)])
    F = np.concatenate([[0], np.cumsum((y[1:] + y[:-1]) / 2 * np.diff(x))])
    return x, F, lo, hi


def sides(sp, i, dist):
    """Support of component i."""
    k = sp['distribution']
    if k == 'multivariate_normal':
        return -math.inf, math.inf
    if k == 'multivariate_numerical':
        x = sp['xi'][i]
        h = (x[1] - x[0]) / 2
        return x[0] - h, x[-1] + h
    if k == 'delta':
        return sp['central_value'], sp['central_value']
    return ref1d(sp, dist)[2:]


# -- scenarios ------------------------------------------------------------------

def generate(rng, idx, tier):
    mode = rng.choice(['stat', 'stat', 'extreme', 'extreme', 'extreme', 'cov', 'unc', 'budget'])
    names = NAMES[:rng.choice([2, 3, 4, 6])]
    ops = []
    for _ in range(rng.randint(2, 10)):
        r = rng.random()
        i = rng.randrange(len(names))
        if r < 0.4:
            ops.append(['set', [i], gen_1d(rng)])
        elif r < 0.75:
            ops.append(['set', *gen_group(rng, names)])
        elif r < 0.85:
            ops.append(['remove', i])
        elif r < 0.93:
            ops.append(['draw', rng.choice([None, 1, 3])])
        else:
            ids, sp = ([i], gen_1d(rng)) if rng.random() < .5 else gen_group(rng, names)
            ops.append(['copy', ids, sp, rng.random() < .5])
    sc = dict(mode=mode, names=names, ops=ops, seed=rng.randrange(10**6))
    if mode == 'extreme':
        words = []
        for _ in range(rng.randint(1, 6)):
            p = rng.randrange(rng.choice([8, 40, 200]))
            v = rng.choice([0, 0xffffffff])
            words.append([p, v])
            if rng.random() < 0.8:
                words.append([p + 1, v if rng.random() < .9 else 0xffffffff - v])
        sc['words'] = words
        sc['gauss'] = rng.choice([None, None, 8.2, -8.2, 11.5])
        sc['sizes'] = [rng.choice([None, None, 1, 2, 7, 40]) for _ in range(rng.randint(1, 4))]
    elif mode != 'stat':
        sc['vary'] = rng.choice(['all', 'list', 'list', 'tuple', 'set', 'empty'])
        sc['fraction'] = rng.random()
        sc['n'] = rng.choice([2, 60, 600])
        sc['variant'] = rng.randrange(4)
    return sc


def temper(y):
    y ^= y >> 11
    y ^= (y << 7) & 0x9d2c5680
    y ^= (y << 15) & 0xefc60000
    y ^= y >> 18
    return y & 0xffffffff


def untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x & 0xffffffff
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xffffffff


def set_state(seed, words, gauss):
    r = random.Random(seed)
    key = [r.getrandbits(32) for _ in range(624)]
    for p, v in words:
        key[p % 624] = untemper(v)
        assert temper(key[p % 624]) == v
    np.random.set_state(('MT19937', np.array(key, dtype=np.uint32), 0, int(gauss is not None), gauss or 0.))


# -- checks ---------------------------------------------------------------------

def arrays(series, ps):
    return {p: np.array([float(np.ravel(d[p])[0]) for d in series]) for p in ps}


def check_draw(d, ref, size, bad):
    if set(d) != set(ref.params()):
        bad('draw', 'draws for %r, constrained are %r', list(d), ref.params())
    for p in ref.params():
        v = np.asarray(d[p], dtype=float)
        if v.shape != (() if size is None else (size,)):
            bad('shape', 'draw of %r with size=%r has shape %r', p, size, v.shape)


def check_support(v, p, ref, built, bad):
    i, cid = ref.map[p]
    sp = ref.cons[cid][0]
    if not np.all(np.isfinite(v)):
        bad('finite', 'draw of %r is %r, governed by %s', p, np.ravel(v)[~np.isfinite(np.ravel(v))][0], short(sp))
    lo, hi = sides(sp, i, built[cid])
    w = [abs(x) for x in (lo, hi) if math.isfinite(x)]
    eps = 1e-9 * max(w) if w else 0.
    out = (v < lo - eps) | (v > hi + eps)
    if np.any(out):
        bad('support', 'draw of %r is %r, outside [%r, %r] of %s', p, float(np.ravel(v)[np.ravel(out)][0]), lo, hi, short(sp))


def short(sp):
    return world.short(sp, 300) if len(repr(sp)) > 300 else repr(sp)


def empirical(v, x):
    return np.searchsorted(np.sort(v), x, side='right') / len(v)


def frequencies(data, ref, built, bad, cut):
    """Frequencies, joint and serial distribution of the rows `data`
    {parameter: array} of parameters that are varied."""
    ps = [p for p in ref.params() if p in data]
    n = len(data[ps[0]]) if ps else 0
    for p in ps:
        i, cid = ref.map[p]
        sp, dist = ref.cons[cid][0], built[cid]
        v = data[p]
        check_support(v, p, ref, built, bad)
        k = sp['distribution']
        if k == 'delta':
            if not np.all(np.isclose(v, sp['central_value'], rtol=1e-12, atol=0)):
                bad('frequency', 'draws of the fixed parameter %r: %r', p, v)
            continue
        if k == 'multivariate_normal':
            m, s = sp['central_value'][i], math.sqrt(dists.cov(sp)[i, i])
            x = m + s * np.linspace(-4, 4, 801)
            F = scipy.stats.norm.cdf(x, m, s)
        elif k == 'multivariate_numerical':
            y = np.array(sp['y']).sum(axis=tuple(a for a in range(len(sp['xi'])) if a != i))
            x = np.array(sp['xi'][i])
            h = (x[1] - x[0]) / 2
            x = np.append(x - h, x[-1] + h)
            F = np.append(0, np.cumsum(y)) / y.sum()
        else:
            x, F, lo, hi = ref1d(sp, dist)
        e = empirical(v, x)
        if k == 'discrete_uniform':
            e = empirical(v, x + 1e-6)
        elif n >= 500 and len(np.unique(v)) < 0.98 * n:
            bad('frequency', 'only %d different values in %d draws of %r: %s', len(np.unique(v)), n, p, short(sp))
        D = np.abs(e - F)
        j = int(np.argmax(D))
        if D[j] * math.sqrt(n) > cut:
            bad('frequency', '%.4f of %d draws of %r are below %r, the density has %.4f: %s', e[j], n, p, float(x[j]), F[j], short(sp))
        s = dist.support
        if dists.ndim(sp) == 1 and s is not None and n >= 500:
            w = 1e-9 * max(abs(s[0]), abs(s[1]))
            f = np.mean((v < s[0] - w) | (v > s[1] + w))
            if f > 0.02:
                bad('support', '%.3f of the draws of %r are outside the support %r of %s', f, p, tuple(map(float, s)), short(sp))
        # rows are independent of each other
        if n >= 500 and np.std(v) > 0:
            c = np.corrcoef(scipy.stats.rankdata(v[1:]), scipy.stats.rankdata(v[:-1]))[0, 1]
            if abs(c) * math.sqrt(n) > 6.5:
                bad('serial', 'successive draws of %r have correlation %.3f (%d draws)', p, c, n)
    if n < 500:
        return
    ranks = {p: scipy.stats.rankdata(data[p]) for p in ps if np.std(data[p]) > 0}
    for a in range(len(ps)):
        for b in range(a):
            p, q = ps[a], ps[b]
            if p not in ranks or q not in ranks:
                continue
            (i, c1), (j, c2) = ref.map[p], ref.map[q]
            exp = 0.
            if c1 == c2:
                sp = ref.cons[c1][0]
                if sp['distribution'] == 'multivariate_numerical':
                    cells(sp, data[ref_name(ref, c1, 0)], data[ref_name(ref, c1, 1)], p, bad)
                    continue
                c = dists.cov(sp)
                exp = 6 / math.pi * math.asin(c[i, j] / math.sqrt(c[i, i] * c[j, j]) / 2)
            got = np.corrcoef(ranks[p], ranks[q])[0, 1]
            if abs(got - exp) * math.sqrt(n) > 6.5 + (0 if c1 != c2 else 0.5):
                bad('joint' if c1 == c2 else 'independent', 'rank correlation of %r and %r in %d draws is %.3f, expected %.3f%s',
                    p, q, n, got, exp, ' (one constraint: %s)' % short(ref.cons[c1][0]) if c1 == c2 else ' (separate constraints)')


def ref_name(ref, cid, i):
    return ref.cons[cid][1][i]


def cells(sp, u, v, p, bad):
    y = np.array(sp['y'])
    prob = y / y.sum()
    n = len(u)
    ix, off = [], []
    for k, w in enumerate((u, v)):
        x = np.array(sp['xi'][k])
        d = x[1] - x[0]
        t = (w - x[0]) / d
        c = np.clip(np.rint(t).astype(int), 0, len(x) - 1)
        ix.append(c)
        off.append(t - c + .5)
    counts = np.zeros(y.shape)
    np.add.at(counts, tuple(ix), 1)
    if np.any(counts[prob == 0] > 0):
        # rounding at the edge of a cell at most
        if np.sum(counts[prob == 0]) > 2:
            bad('joint', '%d draws of %r are in cells without probability: %s', np.sum(counts[prob == 0]), p, short(sp))
    big = prob * n >= 10
    if np.sum(big) > 1:
        e = prob[big] * n
        chi2 = np.sum((counts[big] - e)**2 / e)
        k = np.sum(big)
        if (chi2 - k) / math.sqrt(2 * k) > 10:
            j = np.unravel_index(np.argmax(np.where(big, np.abs(counts - prob * n) / np.sqrt(prob * n + 1), 0)), y.shape)
            bad('joint', '%d of %d draws are in cell %r with probability %.4f (chi2 %.0f for %d cells): %s',
                counts[j], n, tuple(map(int, j)), prob[j], chi2, k, short(sp))
    for o in off:
        g = np.linspace(0, 1, 51)
        if np.max(np.abs(empirical(o, g) - g)) * math.sqrt(n) > 3.6:
            bad('joint', 'draws of %r are not uniform within the cells: %s', p, short(sp))
    if n >= 500:
        c = np.corrcoef(*off)[0, 1]
        if abs(c) * math.sqrt(n) > 6.5:
            bad('joint', 'positions within the cells have correlation %.3f in %d draws of %r: %s', c, n, p, short(sp))


# -- execution ------------------------------------------------------------------

def execute(sc, ctx):
    names, mode = sc['names'], sc['mode']
    np.random.seed(sc['seed'])
    if mode in ('budget', 'unc') or sc.get('variant') == 0:
        store = flavio.default_parameters
        for p in list(store.all_parameters):
            store.remove_constraint(p)
    else:
        store = flavio.ParameterConstraints()
    ref = RefStore()
    for p in names:
        flavio.Parameter(p)

    def bad(kind, msg, *a):
        raise core.Violation(kind, '%s: %s' % (mode, msg % a))
    hist = []
    for op in sc['ops']:
        hist.append(op[0])
        if op[0] in ('set', 'copy') and max(op[1]) >= len(names):
            continue
        if op[0] == 'set':
            if any(names[i] in ref.map for i in op[1]):
                ctx.nontrivial = True
            store.add_constraint([names[i] for i in op[1]], build(op[2]))
            ref.add([names[i] for i in op[1]], op[2])
        elif op[0] == 'remove':
            if op[1] < len(names) and names[op[1]] in ref.map:
                store.remove_constraint(names[op[1]])
                ref.remove(names[op[1]])
                ctx.nontrivial = True
        elif op[0] == 'draw':
            check_draw(store.get_random_all(size=op[1]), ref, op[1], bad)
            ctx.steps += op[1] or 1
        elif store is not flavio.default_parameters:
            other, oref = store.copy(), ref.copy()
            if op[3]:
                store, other, ref, oref = other, store, oref, ref
            other.add_constraint([names[i] for i in op[1]], build(op[2]))
            other.get_random_all()
    ctx.log(mode, hist, len(ref.map))
    ps = ref.params()
    built = {cid: build(sp) for cid, (sp, _) in ref.cons.items()}
    ctx.fp(mode, sorted((sp['distribution'], len(ref.governed(cid))) for cid, (sp, _) in ref.cons.items()), sc.get('vary'))
    if not ps:
        if store.get_random_all() != {}:
            bad('draw', 'an empty collection gives draws')
        return
    {'stat': run_stat, 'extreme': run_extreme, 'cov': run_cov, 'unc': run_unc, 'budget': run_budget}[mode](sc, ctx, store, ref, built, ps, bad)


def run_stat(sc, ctx, store, ref, built, ps, bad):
    np.random.seed(sc['seed'] + 1)
    n1, n2 = 2500, 50000
    ctx.nontrivial = True
    d = store.get_random_all(size=n2)
    check_draw(d, ref, n2, bad)
    frequencies({p: np.asarray(d[p], dtype=float) for p in ps}, ref, built, lambda k, m, *a: bad(k, 'drawn at once: ' + m, *a), 3.6)
    series = []
    for _ in range(n1):
        d = store.get_random_all()
        check_draw(d, ref, None, bad)
        series.append(d)
    frequencies(arrays(series, ps), ref, built, lambda k, m, *a: bad(k, 'drawn one by one: ' + m, *a), 3.6)
    for p in ps[:2]:
        i, cid = ref.map[p]
        v = np.asarray(built[cid].get_random())
        if v.shape != ((dists.ndim(ref.cons[cid][0]),) if dists.ndim(ref.cons[cid][0]) > 1 else ()):
            bad('shape', 'a draw from %s has shape %r', short(ref.cons[cid][0]), v.shape)
    ctx.steps += n1 + n2


def run_extreme(sc, ctx, store, ref, built, ps, bad):
    first = None
    for again in range(2):
        set_state(sc['seed'], sc['words'], sc['gauss'])
        out = []
        for size in sc['sizes']:
            try:
                d = store.get_random_all(size=size)
            except Exception as e:
                bad('failed', 'drawing with size=%r failed: %s: %s at %s', size, type(e).__name__, str(e)[:200], core.tb_tail(e))
            check_draw(d, ref, size, bad)
            for p in ps:
                check_support(np.asarray(d[p], dtype=float), p, ref, built, bad)
            out.append({p: np.asarray(d[p], dtype=float).copy() for p in ps})
            ctx.steps += size or 1
        pos = np.random.get_state()[2]
        if first is None:
            first = out
        else:
            for size, a, b in zip(sc['sizes'], first, out):
                for p in ps:
                    if not np.array_equal(a[p], b[p]):
                        bad('repeat', 'the same state of the generator gives %r and then %r for %r (size=%r)', a[p], b[p], p, size)
    for p, v in sc['words']:
        if p < pos:
            ctx.nontrivial = True
            ctx.fault('extreme:' + ('max' if v else '0'))
    if sc['gauss'] is not None:
        ctx.fault('extreme:gauss')
    ctx.log(first)


class Recorder:
    """A user-defined observable that depends on the parameters ps."""

    def __init__(self, name, ps, factor):
        self.rows = []
        self.name = name

        def f(wc, par):
            vals = {p: par[p] for p in ps}
            self.rows.append((dict(par), sum(factor(i) * vals[p] for i, p in enumerate(ps))))
            return self.rows[-1][1]
        o = flavio.Observable(name)
        flavio.classes.Prediction(name, f)


def varied(rows, ref, vary, bad):
    """Split the recorded rows: those not varied must be central."""
    for row, _ in rows:
        for p in ref.params():
            if p not in row:
                bad('row', '%r is missing in the parameters given to the observable', p)
            if p not in vary:
                c = ref_central(ref, p)
                if c is not None and not math.isclose(row[p], c, rel_tol=1e-9, abs_tol=1e-300):
                    bad('central', '%r is not to be varied and has the value %r, its central value is %r', p, row[p], c)
    return {p: np.array([float(r[p]) for r, _ in rows]) for p in ref.params() if p in vary}


BUILT = {}


def ref_central(ref, p):
    i, cid = ref.map[p]
    sp = ref.cons[cid][0]
    k = sp['distribution']
    if k in ('gamma_counting_process', 'gamma_upper_limit', 'gaussian_kde', 'general_gamma_counting_process', 'gamma', 'discrete_uniform'):
        return float(build(sp).central_value)
    return ref.central(p)


def choose(sc, ps):
    r = random.Random(sc['seed'])
    v = sc['vary']
    if v == 'all':
        return set(ps), 'all'
    if v == 'empty':
        return set(), []
    s = r.sample(ps, max(1, round(sc['fraction'] * len(ps))))
    return set(s), {'list': list, 'tuple': tuple, 'set': set}[v](s)


def run_cov(sc, ctx, store, ref, built, ps, bad):
    n = sc['n']
    unit = {p: typical(ref, p) for p in ps}
    vary, arg = choose(sc, ps)
    r1 = Recorder('verif_rec1', ps, lambda i: (1 + i) / unit[ps[i]])
    r2 = Recorder('verif_rec2', ps, lambda i: (-1)**i / unit[ps[i]])
    np.random.seed(sc['seed'] + 1)
    obs = ['verif_rec1', 'verif_rec2']
    if sc['variant'] % 2:
        c = SMCovariance(obs, vary_parameters=arg, par_obj=store).get(N=n)
    else:
        c = flavio.sm_covariance(obs, N=n, par_vary=arg, par_obj=None if store is flavio.default_parameters else store)
    ctx.steps += n
    if len(r1.rows) != n or len(r2.rows) != n:
        bad('rows', '%d and %d evaluations for N=%d', len(r1.rows), len(r2.rows), n)
    for (a, _), (b, _) in zip(r1.rows, r2.rows):
        if any(a[p] != b[p] for p in ps):
            bad('rows', 'two observables are evaluated at different parameters: %r, %r', {p: a[p] for p in ps}, {p: b[p] for p in ps})
    data = varied(r1.rows, ref, vary, bad)
    if data:
        frequencies(data, ref, built, bad, 3.6)
    e = np.cov(np.array([[v for _, v in r1.rows], [v for _, v in r2.rows]]))
    tol = 1e-9 * max(1., np.max(np.abs([v for _, v in r1.rows + r2.rows]))**2)
    if np.shape(c) != (2, 2) or not np.all(np.abs(c - e) <= tol + 1e-6 * np.abs(e)):
        bad('result', 'the covariance is %r, that of the predictions is %r', np.asarray(c).tolist(), e.tolist())


def typical(ref, p):
    c = ref_central(ref, p)
    i, cid = ref.map[p]
    sp = ref.cons[cid][0]
    for k in ('scale', 'limit', 'half_range', 'standard_deviation'):
        if isinstance(sp.get(k), float) and sp[k]:
            return abs(sp[k])
    return abs(c) or 1.


def run_unc(sc, ctx, store, ref, built, ps, bad):
    n = sc['n']
    unit = {p: typical(ref, p) for p in ps}
    r1 = Recorder('verif_rec1', ps, lambda i: (1 + i) / unit[ps[i]])
    np.random.seed(sc['seed'] + 1)
    if sc['variant'] % 2:
        u = flavio.sm_uncertainty('verif_rec1', N=n)
    else:
        u = flavio.np_uncertainty('verif_rec1', flavio.WilsonCoefficients(), N=n)
    ctx.steps += n
    if len(r1.rows) != n:
        bad('rows', '%d evaluations for N=%d', len(r1.rows), n)
    frequencies(varied(r1.rows, ref, set(ps), bad), ref, built, bad, 3.6)
    result(u, r1.rows, 1., bad, 'uncertainty')


def result(u, rows, norm, bad, what):
    v = np.array([x for _, x in rows])
    e = np.std(v) / norm
    if not abs(u - e) <= 1e-9 * np.max(np.abs(v)) / norm + 1e-3 * e:
        bad('result', 'the %s is %r, that of the predictions is %r', what, u, e)


def run_budget(sc, ctx, store, ref, built, ps, bad):
    n = sc['n']
    unit = {p: typical(ref, p) for p in ps}
    dep, _ = choose(dict(sc, vary='all' if sc['vary'] == 'all' else 'list'), ps)
    dep = [p for p in ps if p in dep]
    off = 1000.
    r = Recorder('verif_rec1', dep, lambda i: (1 + i) / unit[dep[i]])
    np.random.seed(sc['seed'] + 1)
    res = flavio.sm_error_budget('verif_rec1', N=n)
    ctx.steps += n
    groups = {}
    for p in dep:
        groups.setdefault(ref.map[p][1], []).append(p)
    got = {frozenset([k] if isinstance(k, str) else k) for k in res}
    if got != {frozenset(g) for g in groups.values()} or len(res) != len(groups):
        bad('groups', 'the error budget has %r, the parameters in common constraints are %r', list(res), list(groups.values()))
    central = {p: ref_central(ref, p) for p in ps}
    split = {cid: [] for cid in groups}
    for row, val in r.rows:
        # parameters of an AwareDict row that is central belong to no group
        moved = {ref.map[p][1] for p in ps if row[p] != central[p] and not math.isclose(row[p], central[p], rel_tol=1e-12)}
        if len(moved) > 1 or moved - set(groups):
            bad('central', 'in a row of the error budget %r are varied together, grouped are %r',
                [p for p in ps if ref.map[p][1] in moved], list(groups.values()))
        for p in ps:
            if p not in dep and not math.isclose(row[p], central[p], rel_tol=1e-9, abs_tol=1e-300):
                bad('central', '%r is varied although the observable does not depend on it', p)
        for cid in moved:
            split[cid].append((row, val))
    c = abs(sum((1 + i) / unit[p] * central[p] for i, p in enumerate(dep)))
    for cid, g in groups.items():
        sp = ref.cons[cid][0]
        rows = split[cid]
        discrete = sp['distribution'] in ('delta', 'discrete_uniform')
        if discrete:
            continue
        if len(rows) != n:
            bad('rows', '%d rows with %r varied, N=%d', len(rows), g, n)
        data = {p: np.array([float(x[p]) for x, _ in rows]) for p in g}
        if sp['distribution'] == 'multivariate_numerical' and len(g) < 2:
            continue
        frequencies(data, ref, built, bad, 3.6)
        if c > 1e-6 * max(abs(v) for _, v in rows):
            u = [v for k, v in res.items() if frozenset([k] if isinstance(k, str) else k) == frozenset(g)][0]
            result(u, rows, c, bad, 'error budget of %r' % g)
