"""Parallel evaluations: calls, custom observables and log-likelihood
functions shared by C01, C02 and C03."""
import functools

import numpy as np
import flavio
from flavio.plots.plotfunctions import likelihood_contour_data
from . import core, world, seams, session


class SimError(Exception):
    pass


# ---------------------------------------------------------------- observables
def _cen(name):
    return float(flavio.default_parameters.get_central(name))


def _lin(wc_obj, par):
    return par['m_b'] + 2 * par['m_c']


def _q2(wc_obj, par, q2):
    return par['m_b'] * q2 + par['alpha_s']


def _bin(wc_obj, par, q2min, q2max):
    c = 0
    if wc_obj is not flavio.physics.eft._wc_sm:
        wc = wc_obj.get_wc('bsmumu', 4.8, par)
        c = abs(wc['C9_bsmumu']) + 3 * abs(wc['C7_bs']) + 2 * abs(wc['C8_bs']) + abs(wc['CS_bsmumu'])
    return (q2max - q2min) * par['m_b'] + (q2max + q2min) * par['m_t'] * (1 + c)


def _int(wc_obj, par):
    return int(1e6 * par['alpha_s'])


def _some(wc_obj, par):
    if par['alpha_s'] > RAISE_ABOVE[0]:
        fail('observable fails')
    return par['m_b']


RAISE_ABOVE = [1e9]
RAISED = []
FAIL = {'SimError': lambda m: SimError(m), 'ArithmeticError': ArithmeticError, 'ZeroDivisionError': ZeroDivisionError,
        'FloatingPointError': FloatingPointError, 'OverflowError': OverflowError, 'KeyError': KeyError, 'ValueError': ValueError,
        'LinAlgError': np.linalg.LinAlgError, 'RuntimeError': RuntimeError, 'TypeError': TypeError, 'IndexError': IndexError,
        'MemoryError': MemoryError, 'OSError': OSError, 'NotImplementedError': NotImplementedError,
        'AttributeError': AttributeError, 'AssertionError': AssertionError}
RAISE_AS = ['SimError']


def fail(msg):
    """An observable or log-likelihood fails."""
    RAISED.append(msg)
    raise FAIL[RAISE_AS[0]](msg)


CUSTOM = {'sim lin': (None, _lin), 'sim q2': (['q2'], _q2), 'sim bin': (['q2min', 'q2max'], _bin),
          'sim int': (None, _int), 'sim some': (None, _some)}


def register_custom():
    for name, (args, f) in CUSTOM.items():
        if name not in flavio.Observable.instances:
            o = flavio.Observable(name)
            if args:
                o.arguments = args
            flavio.classes.Prediction(name, f)


def custom_spec(rng, names=('sim lin', 'sim q2', 'sim bin', 'sim int')):
    n = rng.choice(list(names))
    args = CUSTOM[n][0]
    if not args:
        return [n]
    if len(args) == 1:
        return [n, rng.choice([1.0, 3.2, 16.0])]
    return [n] + list(rng.choice(world.BINS))


# ---------------------------------------------------------------- likelihoods
def ll_quad(x):
    return -(x[0] - 0.3)**2 - 3 * (x[1] - 1.2)**2 * (1 + x[0]**2)


def ll_intfirst(x):
    if x[0] + x[1] < 1.7:
        return 0
    return -0.77 * (x[0] + x[1])


def ll_int(x):
    return -int(10 * x[0]) - 3 * int(7 * x[1])


def ll_np(x):
    return np.float64(-x[0]**2 + 0.1 * x[1])


def ll_f32(x):
    return np.float32(-x[0]**2 + 0.1 * x[1])


def ll_0d(x):
    return np.array(-x[0] * x[1])


def ll_inf(x):
    return -np.inf if x[0] > 1.2 else -abs(x[1])


def ll_bool(x):
    return bool(x[0] > x[1])


def ll_raise(x):
    if x[0] > 1.4 and x[1] > 1.4:
        fail('log likelihood fails')
    return -x[0] * x[1]


def ll_scaled(x, scale=1., shift=0.):
    return -scale * (x[0] - shift)**2 - x[1]**2


class LLObject:
    def __init__(self, a):
        self.a = a
        self.calls = 0

    def __call__(self, x):
        self.calls += 1
        return -self.a * abs(x[0]) - x[1]**2

    def log_likelihood(self, x):
        self.calls += 1
        return -self.a * x[0]**2 - abs(x[1])


_ml = None


def ll_flavio(x):
    """A real fit: measurement likelihood at two Wilson coefficients."""
    global _ml
    if _ml is None:
        from flavio.statistics.likelihood import MeasurementLikelihood
        _ml = MeasurementLikelihood(['BR(Bs->mumu)', 'S_psiK'], include_measurements=None)
    w = flavio.WilsonCoefficients()
    w.set_initial({'C10_bsmumu': x[0], 'C10p_bsmumu': x[1]}, 160, 'WET', 'flavio')
    return _ml.log_likelihood(flavio.default_parameters.get_central_all(), w)


def ll_vector(x):
    return np.array([x[0], x[1]])


def ll_string(x):
    return 'x'


def make_closure():
    a = 0.3
    return lambda x: -a * x[0]**2 - x[1]**2


LL = {'vector': lambda: ll_vector, 'string': lambda: ll_string, 'closure': make_closure, 'quad': lambda: ll_quad, 'intfirst': lambda: ll_intfirst, 'int': lambda: ll_int,
      'np': lambda: ll_np, 'f32': lambda: ll_f32, '0d': lambda: ll_0d, 'inf': lambda: ll_inf,
      'bool': lambda: ll_bool, 'raise': lambda: ll_raise,
      'partial': lambda: functools.partial(ll_scaled, scale=2.5, shift=0.4),
      'object': lambda: LLObject(1.7), 'method': lambda: LLObject(0.6).log_likelihood,
      'flavio': lambda: ll_flavio}


# ---------------------------------------------------------------- generation
def gen_call(rng, obs, wcs, lls, maxN=9, kinds=('unc', 'smunc', 'cov', 'contour', 'contour')):
    k = rng.choice(list(kinds))
    N = rng.choice([1, 2, 3, 4, 5, 7, maxN])
    th = rng.choice([2, 2, 3, 4, N, N + 1, N + 3, 8])
    th = min(max(th, 2), 8)
    c = dict(k=k, threads=th)
    if k in ('unc', 'smunc'):
        c.update(o=rng.randrange(len(obs)), N=N, kw=rng.choice(['pos', 'kw', 'mixed', 'kwrev']))
        if k == 'unc':
            c['w'] = rng.randrange(len(wcs))
    elif k == 'cov':
        n = rng.randint(2, 4)
        c.update(os=[rng.randrange(len(obs)) for _ in range(n)], N=max(N, 2),
                 form=rng.choice(['tuple', 'tuple', 'dict', 'mixed']))
        if rng.random() < 0.5:
            c['vary'] = rng.choice([['m_b'], ['m_b', 'alpha_s'], ['m_t', 'm_c', 'Vcb'], [],
                                    ['B->K BSZ a0_f+', 'm_b', 'Vub']])
        if rng.random() < 0.3:
            c['parobj'] = rng.choice(['copy', 'wide', 'missing'])
    else:
        c.update(ll=rng.choice(lls), steps=rng.choice([1, 2, 2, 3, 3, 4]),
                 box=[rng.choice([-1., 0.1, 0.5]), rng.choice([1., 2.]), rng.choice([0.2, -2.]), rng.choice([1.5, 3.])],
                 n_sigma=rng.choice([1, 2, [1, 2], [1, 2, 3]]))
        if c['box'][0] > 0 and rng.random() < 0.4:
            c['xscale'] = 'log'
        if c['box'][2] > 0 and rng.random() < 0.4:
            c['yscale'] = 'log'
        if rng.random() < 0.35:
            c['pool'] = rng.randint(1, 5)
        if c['ll'] == 'flavio':
            c['steps'] = min(c['steps'], 2)
    return c


GOOD_LL = [l for l in LL if l not in ('raise', 'vector', 'string', 'closure')]


def par_obj(kind):
    if kind is None:
        return None
    p = flavio.default_parameters.copy()
    if kind == 'wide':
        p.set_constraint('m_b', '4.2 ± 0.5')
        p.set_constraint('alpha_s', '0.118 + 0.003 - 0.001')
    elif kind == 'missing':
        p.remove_constraint('m_b')
        p.remove_constraint('GF')
    return p


def run_call(c, obs, wc, serial=False, pool=None):
    """The call, serially or in parallel."""
    th = 1 if serial else c['threads']
    k = c['k']
    if k in ('unc', 'smunc'):
        s = obs[c['o']]
        args, kw = list(s[1:]), {}
        names = world.args_of(s[0]) or []
        if c['kw'] == 'kw':
            kw, args = dict(zip(names, args)), []
        elif c['kw'] == 'kwrev':
            kw, args = dict(list(zip(names, args))[::-1]), []
        elif c['kw'] == 'mixed' and len(args) > 1:
            kw, args = dict(zip(names[1:], args[1:])), args[:1]
        if k == 'unc':
            return flavio.np_uncertainty(s[0], wc(c['w']), *args, N=c['N'], threads=th, **kw)
        return flavio.sm_uncertainty(s[0], *args, N=c['N'], threads=th, **kw)
    if k == 'cov':
        lst = []
        for n, o in enumerate(c['os']):
            s = obs[o]
            if len(s) > 1 and (c['form'] == 'dict' or c['form'] == 'mixed' and n % 2):
                lst.append(dict(name=s[0], **world.kw_of(s)))
            else:
                lst.append(world.obs_tuple(s))
        kw = {}
        if c.get('vary') is not None:
            kw['par_vary'] = c['vary']
        if c.get('parobj'):
            kw['par_obj'] = par_obj(c['parobj'])
        return flavio.sm_covariance(lst, N=c['N'], threads=th, **kw)
    kw = dict(xscale=c.get('xscale', 'linear'), yscale=c.get('yscale', 'linear'),
              n_sigma=tuple(c['n_sigma']) if isinstance(c['n_sigma'], list) else c['n_sigma'],
              steps=c['steps'], threads=th)
    if pool is not None and not serial:
        kw['pool'] = pool
    b = c['box']
    return likelihood_contour_data(LL[c['ll']](), b[0], b[1], b[2], b[3], **kw)


def caller_pool(c):
    from multiprocessing import Pool
    return Pool(c['pool'])


def contour_direct(c):
    """What likelihood_contour_data is documented to return: -2 log L on the grid."""
    b, n = c['box'], c['steps']
    f = LL[c['ll']]()

    def axis(lo, hi, scale):
        if scale == 'log':
            return np.logspace(np.log10(lo), np.log10(hi), n)
        return np.linspace(lo, hi, n)
    xs, ys = axis(b[0], b[1], c.get('xscale')), axis(b[2], b[3], c.get('yscale'))
    return [[float(-2 * float(f(np.array([x, y])))) for x in xs] for y in ys]


def env_step(e):
    """State changes between calls, the same in both executions."""
    if e[0] == 'setdef':
        session.set_default(e[1], e[2])
    elif e[0] == 'seed':
        np.random.seed(e[1])
    elif e[0] == 'draw':
        np.random.random(e[1])
