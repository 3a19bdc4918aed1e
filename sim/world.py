"""flavio-specific helpers: scenarios refer to observables, parameter points
and Wilson points by small JSON specs; values are compared after encoding."""
import collections
import math
import re
import random

import numpy as np
import flavio
import wilson
from wilson import wcxf

# observables needing data files that can only be downloaded
SKIP_ARGS = {'qmin', 'qmax', 'mTmin', 'mTmax'}
SKIP_PREFIX = ('dsigma', 'sigma(', 'R_')
BAD = set()


def family(name):
    f = flavio.Observable[name].prediction.function
    mod = getattr(f, '__module__', '?')
    if mod == 'flavio.classes':
        mod = 'flavio.classes:' + str(flavio.Observable[name].arguments)
    return mod


_fam = None


def families():
    """module -> observables (names), deterministic order."""
    global _fam
    if _fam is None:
        d = collections.OrderedDict()
        for name, o in flavio.Observable.instances.items():
            if o.prediction is None:
                continue
            if o.arguments and set(o.arguments) & SKIP_ARGS:
                continue
            if 'dileptons' in family(name):
                continue
            d.setdefault(family(name), []).append(name)
        _fam = d
    return _fam


def pick_family(rng, idx):
    """All families in turn; every other time one with many different observables."""
    keys = list(families())
    if idx % 2 == 0:
        return keys[idx // 2 % len(keys)]
    return rng.choices(keys, [len({shape(n) for n in families()[k]}) ** 0.5 for k in keys])[0]


ARG_CHOICES = {
    'q2': [3.2, 5.0, 16.0, 1.5, 0.7, 8.5, 0.05, 0.1],
    'cl': [0.3, -0.5, 0.8, 0.0],
    'cV': [0.2, -0.7, 0.5],
    'phi': [0.4, 2.1, 4.0],
    'me_E': [0.5, 0.3, 0.7],
    'E': [209., 189., 200.],
}
BINS = [(1.1, 2.5), (1.1, 6.0), (4.0, 6.0), (15.0, 19.0), (1.0, 2.0), (2.0, 4.0),
        (0.05, 0.09), (0.1, 0.98), (16.0, 17.0), (5.0, 8.0), (0.2, 0.8)]


def arg_candidates(rng, arguments):
    if not arguments:
        return [()]
    out = []
    for _ in range(6):
        vals, b = [], rng.choice(BINS)
        for a in arguments:
            if a.endswith('min'):
                vals.append(b[0])
            elif a.endswith('max'):
                vals.append(b[1])
            else:
                vals.append(rng.choice(ARG_CHOICES.get(a, [1.0, 2.0, 0.5])))
        out.append(tuple(vals))
    return out


# the ee->WW predictions exist only at tabulated energies
def args_of(name):
    return flavio.Observable[name].arguments


_shapes = {}


def shape(name):
    """Observables predicted by the same code (functions passed to it included)."""
    r = _shapes.get(name)
    if r is None:
        def key(f, depth=0):
            c = getattr(f, '__code__', None)
            if c is None:
                return type(f).__name__ if not isinstance(f, type) else f.__name__
            k = '%s:%d' % (c.co_name, c.co_firstlineno)
            for cell in (f.__closure__ or ()) if depth < 3 else ():
                try:
                    v = cell.cell_contents
                except ValueError:
                    continue
                if callable(v):
                    k += ',' + key(v, depth + 1)
            return k
        r = _shapes[name] = key(flavio.Observable[name].prediction.function)
    return r


_all_shapes = None


def sweep_obs(rng, want):
    """Observables with as many different codes as possible, without
    integration over bins for most."""
    global _all_shapes
    if _all_shapes is None:
        d = {}
        for fam, names in families().items():
            for n in names:
                d.setdefault((fam, shape(n)), []).append(n)
        _all_shapes = list(d.values())
    out = []
    for names in rng.sample(_all_shapes, min(len(_all_shapes), 2 * want)):
        if len(out) >= want:
            break
        if all(n[0] == '<' for n in names) and rng.random() < 0.6:
            continue
        out += pick_obs(rng, names, want=1, tries=2, cheap=True)
    return out or [['eps_K']]


def pick_obs(rng, names, par=None, want=1, tries=40, allow_zero=False, cheap=False):
    """Observable specs [name, arg...] which evaluate to a finite number at the
    given point. Runs flavio: call in a throw-away fork."""
    par = par or flavio.default_parameters.get_central_all()
    sm = flavio.physics.eft._wc_sm
    out = []
    if cheap:      # without integration over a bin
        names = [n for n in names if n[0] != '<'] or names
    shapes = {}
    for n in names:
        shapes.setdefault(shape(n), []).append(n)
    shapes = list(shapes.values())
    for _ in range(tries):
        if len(out) >= want:
            break
        n = rng.choice(rng.choice(shapes) if rng.random() < 0.7 else names)
        for a in arg_candidates(rng, args_of(n)):
            try:
                v = flavio.Observable[n].prediction_par(par, sm, *a)
                ok = np.all(np.isfinite(np.asarray(v, dtype=complex)))
                if ok and not allow_zero and np.all(np.asarray(v) == 0) and rng.random() < 0.7:
                    ok = False
            except Exception:
                ok = False
            if ok:
                s = [n] + list(a)
                if s not in out:
                    out.append(s)
                break
    return out


def obs_tuple(spec):
    return spec[0] if len(spec) == 1 else tuple(spec)


def kw_of(spec):
    return dict(zip(args_of(spec[0]) or [], spec[1:]))


# ---------------------------------------------------------------- parameters
class RecDict(dict):
    def __init__(self, d):
        super().__init__(d)
        self.used = set()

    def __getitem__(self, k):
        self.used.add(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        self.used.add(k)
        return dict.get(self, k, d)

    def copy(self):
        c = RecDict(self)
        c.used = self.used
        return c
    __copy__ = copy


def used_parameters(spec):
    d = RecDict(flavio.default_parameters.get_central_all())
    try:
        flavio.Observable[spec[0]].prediction_par(d, flavio.physics.eft._wc_sm, *spec[1:])
    except Exception:
        pass
    return sorted(k for k in d.used if k in flavio.default_parameters._parameters)


def used_config(spec):
    """(renormalization scale keys, auxiliary quantities) read by the SM
    prediction, determined by recording reads of the configuration."""
    cfg = flavio.config
    keep = cfg['renormalization scale'], cfg['implementation']
    a, b = RecDict(keep[0]), RecDict(keep[1])
    cfg['renormalization scale'], cfg['implementation'] = a, b
    try:
        flavio.Observable[spec[0]].prediction_par(flavio.default_parameters.get_central_all(),
                                                  flavio.physics.eft._wc_sm, *spec[1:])
    except Exception:
        pass
    finally:
        cfg['renormalization scale'], cfg['implementation'] = keep
    return sorted(k for k in a.used if k in keep[0]), sorted(k for k in b.used if k in keep[1])


def gen_par(rng, dep, kind=None):
    """A parameter-point spec."""
    kind = kind or rng.choice(['central', 'one', 'one', 'one', 'few', 'random'])
    if kind == 'central':
        return {}
    if kind == 'random':
        return {'seed': rng.randrange(1 << 30)}
    cen = None
    out = {}
    n = 1 if kind == 'one' else rng.randint(2, 5)
    pool = dep or sorted(flavio.default_parameters._parameters)
    for k in rng.sample(pool, min(n, len(pool))):
        c = float(flavio.default_parameters.get_central(k))
        f = rng.choice([0.97, 1.02, 1.05, 0.9, 1.001])
        out[k] = c * f if c != 0 else rng.choice([0.01, -0.02, 0.1])
    return {'set': out}


def make_par(spec, base=None):
    if 'seed' in spec:
        st = np.random.get_state()
        np.random.seed(spec['seed'] % (2**32))
        d = (base or flavio.default_parameters).get_random_all()
        np.random.set_state(st)
        d = {k: float(v) for k, v in d.items()}
    else:
        d = (base or flavio.default_parameters).get_central_all()
    d.update(spec.get('set', {}))
    return d


# ---------------------------------------------------------------- Wilson points
class RecWC(flavio.WilsonCoefficients):
    def __init__(self):
        super().__init__()
        self.rec = set()

    def match_run(self, scale, eft, basis, sectors='all'):
        self.rec.add((scale, eft, basis, sectors))
        return super().match_run(scale, eft, basis, sectors)


def used_sectors(spec):
    w = RecWC()
    w.set_initial({'C7_bs': 1e-30, 'C9_bsmumu': 1e-30}, 160, 'WET', 'flavio')
    try:
        flavio.np_prediction(spec[0], w, *spec[1:])
    except Exception:
        pass
    out = set()
    for _, eft, basis, sec in w.rec:
        if sec == 'all':
            out.add('all')
        else:
            out.update(sec)
    return sorted(out)


def gen_wc(rng, sectors, smeft=0.05):
    r = rng.random()
    if r < 0.15 or not sectors:
        return {'sm': True}
    typ = rng.choice(['wilson', 'wilson', 'flavio'])
    if rng.random() < smeft:
        names = ['phiq3_23', 'phil3_22', 'lq1_2223', 'lq3_1111', 'phiD', 'll_1221', 'dB_33', 'phie_11']
        b = wcxf.Basis['SMEFT', 'Warsaw'].all_wcs
        names = [n for n in names if n in b]
        return {'type': typ, 'eft': 'SMEFT', 'basis': 'Warsaw', 'scale': rng.choice([91.1876, 91.1876, 1000, 2000]),
                'wc': {rng.choice(names): rng.choice([1e-8, -3e-8])}, 'opt': {}}
    secs = wcxf.Basis['WET', 'flavio'].sectors
    s = [x for x in sectors if x in secs]
    names = sorted(secs[rng.choice(s)]) if s else ['C9_bsmumu', 'C10_bsmumu', 'C7_bs']
    wc = {}
    for _ in range(rng.choice([1, 1, 2])):
        n = rng.choice(names)
        size = 1e-7 if re.match(r'C\d?[VST]\d?(LL|LR|RL|RR)', n) else 0.5
        wc[n] = rng.choice([-1., 1., 0.3]) * size
    return {'type': typ, 'eft': 'WET', 'basis': 'flavio', 'scale': rng.choice([160, 91.1876, 4.8]),
            'wc': wc, 'opt': {}}


def make_wc(spec):
    if spec is None or spec.get('sm'):
        return flavio.physics.eft._wc_sm
    if spec['type'] == 'wilson':
        w = wilson.Wilson(dict(spec['wc']), spec['scale'], spec['eft'], spec['basis'])
    else:
        w = flavio.WilsonCoefficients()
        w.set_initial(dict(spec['wc']), spec['scale'], spec['eft'], spec['basis'])
    for k, v in spec.get('opt', {}).items():
        w.set_option(k, v)
    return w


# ---------------------------------------------------------------- outcomes
def norm(v):
    """Plain comparable form of a result."""
    if isinstance(v, (bool, str)) or v is None:
        return v
    if isinstance(v, (int, float, np.integer, np.floating)):
        return float(v)
    if isinstance(v, (complex, np.complexfloating)):
        return ['c', float(v.real), float(v.imag)]
    if isinstance(v, np.ndarray):
        return ['a', list(v.shape), [norm(x) for x in v.ravel().tolist()]]
    if isinstance(v, dict):
        return ['d', sorted(([_key(k), norm(x)] for k, x in v.items()), key=lambda t: t[0])]
    if isinstance(v, (set, frozenset)):
        return ['s', sorted((_key(x) for x in v))]
    if isinstance(v, (list, tuple)):
        return ['l', [norm(x) for x in v]]
    if isinstance(v, wcxf.WC):
        return ['wc', v.eft, v.basis, float(v.scale), norm(v.dict)]
    return repr(v)


def _key(k):
    if isinstance(k, tuple):
        return '(' + ','.join(_key(x) for x in k) + ')'
    if isinstance(k, (int, float, np.integer, np.floating)) and not isinstance(k, bool):
        return repr(float(k))
    return str(k)


RTOL = 1e-7


def same(a, b, rtol=RTOL, atol=0.):
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (math.isnan(a) and math.isnan(b)):
            return True
        if math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= max(rtol * max(abs(a), abs(b)), atol)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    return a == b


def outcome(fn, *args, **kw):
    """('ok', plain value) or ('exc', type name, message)."""
    try:
        return ('ok', norm(fn(*args, **kw)))
    except (KeyboardInterrupt, Exception) as e:
        return ('exc', type(e).__name__, str(e)[:300])


def same_outcome(a, b, rtol=RTOL, atol=0.):
    if a[0] != b[0]:
        return False
    if a[0] == 'ok':
        return same(a[1], b[1], rtol, atol)
    return a[1] == b[1]


def short(o, n=300):
    s = repr(o)
    return s if len(s) < n else s[:n] + '...'


# ---------------------------------------------------------------- measurements
_measured = None


def measured():
    """Observable specs constrained by at least one measurement, with finite
    predictions expected, deterministic order."""
    global _measured
    if _measured is None:
        fams = families()
        ok = {n for v in fams.values() for n in v}
        out, seen = [], set()
        for m in flavio.Measurement.instances.values():
            if m.name.startswith('Pseudo'):
                continue
            for o in m.all_parameters:
                t = (o,) if isinstance(o, str) else tuple(o)
                if t not in seen and t[0] in ok:
                    seen.add(t)
                    out.append([t[0]] + [float(x) for x in t[1:]])
        _measured = out
    return _measured


_bad_measured = None


def pick_measured(rng, want, fams=None, cheap=False):
    """Measured observables; with `fams`, from these families only."""
    out = []
    cand = [s for s in measured() if fams is None or family(s[0]) in fams]
    if cheap:
        cand = [s for s in cand if s[0][0] != '<'] or cand
    if not cand:
        return []
    par = flavio.default_parameters.get_central_all()
    sm = flavio.physics.eft._wc_sm
    for _ in range(want * 6):
        if len(out) >= want:
            break
        s = rng.choice(cand)
        if s in out:
            continue
        try:
            v = flavio.Observable[s[0]].prediction_par(par, sm, *s[1:])
            if np.isfinite(v):
                out.append(s)
        except Exception:
            pass
    return out
