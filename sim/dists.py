"""Probability distributions as small JSON specs, with an independent
reference implementation of their densities (for C07, C10, C15, C16)."""
import bisect
import math

import numpy as np

LOG2PI = math.log(2 * math.pi)


def gen_1d(rng, kinds=None, c=None, nonzero=False):
    """A univariate distribution spec around c."""
    k = rng.choice(kinds or ['normal', 'normal', 'normal', 'asymmetric_normal', 'half_normal', 'uniform',
                             'gaussian_upper_limit', 'log_normal', 'gamma_positive', 'numerical', 'delta'])
    c = rng.choice([0.5, 1.0, 2.5, -1.5, 3.0]) if c is None else c
    s = rng.choice([0.1, 0.3, 1.0, 2.0])
    if k == 'normal':
        return {'distribution': k, 'central_value': c, 'standard_deviation': s}
    if k == 'asymmetric_normal':
        return {'distribution': k, 'central_value': c, 'right_deviation': s, 'left_deviation': s * rng.choice([0.5, 2.0, 1.0])}
    if k == 'half_normal':
        return {'distribution': k, 'central_value': c, 'standard_deviation': s * rng.choice([1, -1])}
    if k == 'uniform':
        return {'distribution': k, 'central_value': c, 'half_range': s * 3}
    if k == 'gaussian_upper_limit':
        return {'distribution': k, 'limit': s * 4, 'confidence_level': rng.choice([0.9, 0.95])}
    if k == 'log_normal':
        return {'distribution': k, 'central_value': abs(c) or 1.0, 'factor': 1 + s}
    if k == 'gamma_positive':
        return {'distribution': 'gamma_distribution_positive', 'a': rng.choice([2.0, 4.0, 1.5]), 'loc': rng.choice([0., -1.0, -3.0]) * min(s, 1.), 'scale': s}
    if k == 'numerical':
        n = rng.choice([30, 61])
        x = np.linspace(c - 4 * s, c + 4 * s, n)
        y = np.exp(-np.abs((x - c) / s)**rng.choice([1.5, 2, 3]) / 2)
        return {'distribution': k, 'x': [float(v) for v in x], 'y': [float(v) for v in y],
                'central_value': float(x[int(np.argmax(y))])}
    if k == 'delta':
        return {'distribution': k, 'central_value': c}
    raise ValueError(k)


def gen_corr(rng, n):
    a = [[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
    m = np.array(a) @ np.array(a).T + np.eye(n) * 0.5
    d = np.sqrt(np.diag(m))
    m = m / np.outer(d, d)
    if n > 1 and rng.random() < 0.15:
        # one of them is uncorrelated
        i = rng.choice([0, 0, rng.randrange(n)])
        m[i, :], m[:, i] = 0, 0
        m[i, i] = 1
    return m


def gen_mvn(rng, n, c=None):
    corr = gen_corr(rng, n)
    sd = [rng.choice([0.2, 0.5, 1.0, 2.0]) for _ in range(n)]
    cv = [rng.choice([0.5, 1.0, 2.5, -1.5, 3.0]) for _ in range(n)] if c is None else list(c)
    if rng.random() < 0.5:
        return {'distribution': 'multivariate_normal', 'central_value': cv,
                'covariance': (corr * np.outer(sd, sd)).tolist()}
    return {'distribution': 'multivariate_normal', 'central_value': cv, 'standard_deviation': sd,
            'correlation': corr.tolist()}


def gen_mvnum(rng):
    """Two-dimensional numerical distribution."""
    n = [rng.choice([7, 11]), rng.choice([9, 13])]
    c = [rng.choice([0.5, 1.0, -1.5]) for _ in range(2)]
    s = [rng.choice([0.3, 1.0]) for _ in range(2)]
    xi = [np.linspace(c[i] - 3 * s[i], c[i] + 3 * s[i], n[i]) for i in range(2)]
    rho = rng.choice([0., 0.5, -0.7])
    g = np.meshgrid(*xi, indexing='ij')
    u, v = (g[0] - c[0]) / s[0], (g[1] - c[1]) / s[1]
    y = np.exp(-(u**2 - 2 * rho * u * v + v**2) / (1 - rho**2) / 2)
    return {'distribution': 'multivariate_numerical', 'xi': [x.tolist() for x in xi], 'y': y.tolist(),
            'central_value': list(map(float, c))}


def _cls(name):
    import flavio.statistics.probability as p
    if name == 'gamma_distribution_positive':
        return p.GammaDistributionPositive
    return p.string_to_class(name)


def build(spec):
    """flavio distribution."""
    d = {k: v for k, v in spec.items() if k != 'distribution'}
    if spec['distribution'] == 'numerical':
        d['x'], d['y'] = np.array(d['x']), np.array(d['y'])
    return _cls(spec['distribution'])(**d)


def ndim(spec):
    if spec['distribution'] in ('multivariate_normal', 'multivariate_numerical'):
        return len(spec['central_value'])
    return 1


def central(spec):
    k = spec['distribution']
    if k == 'gaussian_upper_limit':
        return 0.
    if k == 'gamma_distribution_positive':
        return max(spec['loc'] + (spec['a'] - 1) * spec['scale'], 0)
    return spec['central_value']


def cov(spec):
    if 'covariance' in spec:
        c = np.array(spec['covariance'], dtype=float)
    else:
        sd = np.array(spec['standard_deviation'], dtype=float)
        corr = spec.get('correlation')
        n = len(sd)
        if corr is None:
            corr = np.eye(n)
        elif isinstance(corr, (int, float)):
            corr = np.eye(n) + (1 - np.eye(n)) * corr
        c = np.array(corr) * np.outer(sd, sd)
    return c


def _nlog(x, c, s):
    return -0.5 * ((x - c) / s)**2 - math.log(s) - 0.5 * LOG2PI


def logpdf_1d(spec, x):
    """Log density at a float."""
    k = spec['distribution']
    if k == 'normal':
        return _nlog(x, spec['central_value'], spec['standard_deviation'])
    if k == 'asymmetric_normal':
        r, l, c = spec['right_deviation'], spec['left_deviation'], spec['central_value']
        n = math.log(2) - math.log(r + l) - 0.5 * LOG2PI
        return n - 0.5 * ((x - c) / (r if x >= c else l))**2
    if k in ('half_normal', 'gaussian_upper_limit'):
        c, s = half(spec)
        if (x - c) * s < 0:
            return -math.inf
        return math.log(2) + _nlog(x, c, abs(s))
    if k == 'uniform':
        c, h = spec['central_value'], spec['half_range']
        return -math.log(2 * h) if c - h <= x < c + h else -math.inf
    if k == 'log_normal':
        c, s = spec['central_value'], math.log(spec['factor'])
        z = x * math.copysign(1, c)
        if z <= 0:
            return -math.inf
        return _nlog(math.log(z), math.log(abs(c)), s) - math.log(z)
    if k == 'delta':
        return 0. if x == spec['central_value'] else -math.inf
    if k == 'gamma_distribution_positive':
        import scipy.special
        a, loc, sc = spec['a'], spec['loc'], spec['scale']
        if x < 0:
            return -math.inf
        z = (x - loc) / sc
        if z <= 0:
            return -math.inf if a > 1 else math.nan
        norm = scipy.special.gammaincc(a, -loc / sc)
        return (a - 1) * math.log(z) - z - math.lgamma(a) - math.log(sc) - math.log(norm)
    if k == 'numerical':
        xs, ys = spec['x'], spec['y']
        if not xs[0] <= x <= xs[-1]:
            return -math.inf
        norm = sum((ys[i] + ys[i + 1]) / 2 * (xs[i + 1] - xs[i]) for i in range(len(xs) - 1))
        i = min(max(bisect.bisect_right(xs, x) - 1, 0), len(xs) - 2)
        t = (x - xs[i]) / (xs[i + 1] - xs[i])
        y = (ys[i] * (1 - t) + ys[i + 1] * t) / norm
        return math.log(y) if y > 0 else -math.inf
    raise ValueError(k)


def half(spec):
    if spec['distribution'] == 'half_normal':
        return spec['central_value'], spec['standard_deviation']
    import scipy.special
    q = math.sqrt(2) * scipy.special.erfinv(spec['confidence_level'])
    return 0., spec['limit'] / q


def _mvnum(xi, y, x):
    """Multilinear interpolation of the log density; -inf outside."""
    xi = [np.asarray(a) for a in xi]
    y = np.asarray(y)
    vol = np.prod([a[1] - a[0] for a in xi])
    yn = y / y.sum() / vol
    with np.errstate(divide='ignore'):
        ly = np.log(yn)
    ly[np.isneginf(ly)] = -1e100
    idx, ts = [], []
    for a, v in zip(xi, x):
        if not a[0] <= v <= a[-1]:
            return -math.inf
        i = min(max(int(np.searchsorted(a, v, side='right')) - 1, 0), len(a) - 2)
        idx.append(i)
        ts.append((v - a[i]) / (a[i + 1] - a[i]))
    out = 0.
    n = len(xi)
    for m in range(1 << n):
        w, p = 1., []
        for d in range(n):
            b = (m >> d) & 1
            w *= ts[d] if b else 1 - ts[d]
            p.append(idx[d] + b)
        if w:
            out += w * ly[tuple(p)]
    return out


def logpdf_mv(spec, xs, keep):
    """Log density of the components `keep` (positions), values xs in the same
    order; other components are marginalised (normal) / profiled (numerical)."""
    if spec['distribution'] == 'multivariate_normal':
        c = cov(spec)[np.ix_(keep, keep)]
        d = np.array([xs[i] - spec['central_value'][k] for i, k in enumerate(keep)])
        sd = np.sqrt(np.diag(c))
        r = c / np.outer(sd, sd)
        z = d / sd
        return float(-0.5 * z @ np.linalg.solve(r, z) - 0.5 * np.linalg.slogdet(r)[1]
                     - np.sum(np.log(sd)) - 0.5 * len(keep) * LOG2PI)
    if spec['distribution'] == 'multivariate_numerical':
        xi, y = spec['xi'], np.array(spec['y'])
        drop = tuple(i for i in range(len(xi)) if i not in keep)
        if drop:
            y = np.amax(y, axis=drop)
        xr = [xi[k] for k in keep]
        if len(keep) == 1:
            return logpdf_1d({'distribution': 'numerical', 'x': list(xr[0]), 'y': y.tolist()}, xs[0])
        return _mvnum(xr, y, xs)
    raise ValueError(spec['distribution'])


def logpdf(spec, xs, keep=None):
    if ndim(spec) == 1:
        return logpdf_1d(spec, xs[0])
    return logpdf_mv(spec, xs, list(range(ndim(spec))) if keep is None else list(keep))


def delta_logpdf(spec, xs, keep=None):
    c = central(spec)
    if ndim(spec) == 1:
        return logpdf_1d(spec, xs[0]) - logpdf_1d(spec, c)
    keep = list(range(ndim(spec))) if keep is None else list(keep)
    return logpdf_mv(spec, xs, keep) - logpdf_mv(spec, [c[k] for k in keep], keep)
