"""A simulated flavio session: live objects (parameter dictionaries, Wilson
objects, default parameters, configuration) driven by operations, and the
semantic state needed to redo any single call in a pristine session."""
import copy
import json

import numpy as np
import flavio
from . import core, world


def impl_choices(slow=False):
    """quantity -> implementations, deterministic. The full QCDF amplitudes
    take several seconds per prediction."""
    d = {}
    for name, inst in flavio.classes.Implementation.instances.items():
        if name.endswith('QCDF') and not slow:
            continue
        d.setdefault(inst.quantity, []).append(name)
    return {q: v for q, v in d.items() if len(v) > 1 and q in flavio.config['implementation']}


# values for the parametrisations of the CKM matrix other than the default one
CKM_PARAMETERS = {'t12': 0.2269, 't13': 0.00375, 't23': 0.0421, 'delta': 1.21,
                  'laC': 0.2250, 'A': 0.83, 'rhobar': 0.16, 'etabar': 0.36, 'beta': 0.39}


class Sem:
    """Semantic state; JSON-able."""

    def __init__(self, sc):
        self.pars = [json.loads(json.dumps(p)) for p in sc.get('pars', [])]
        self.wcs = [json.loads(json.dumps(w)) for w in sc.get('wcs', [])]
        self.defaults = {}
        self.impl = {}
        self.cfg = {}

    def env(self):
        return {'defaults': self.defaults, 'impl': self.impl, 'cfg': self.cfg}


def set_default(name, value):
    """User changes the central value of a default parameter."""
    flavio.default_parameters.set_constraint(name, constraint_dict={
        'distribution': 'normal', 'central_value': value,
        'standard_deviation': abs(value) * 0.01 or 0.01})


def apply_env(env):
    for k, v in env['defaults'].items():
        set_default(k, v)
    for q, i in env['impl'].items():
        flavio.config['implementation'][q] = i
    for path, v in env['cfg'].items():
        d = flavio.config
        *head, last = path.split('|')
        for h in head:
            d = d[h]
        d[last] = v


def make_lik(spec):
    from flavio.statistics.likelihood import Likelihood, MeasurementLikelihood
    obs = [world.obs_tuple(s) for s in spec['obs']]
    kw = {k: spec[k] for k in ('exclude_measurements', 'include_measurements') if spec.get(k)}
    if spec.get('fit') is not None:
        return Likelihood(observables=obs, fit_parameters=spec['fit'], **kw)
    return MeasurementLikelihood(obs, **kw)


def eval_lik(lik, par, wc, excl=None, delta=False):
    kw = {}
    if excl:
        kw['exclude_observables'] = [world.obs_tuple(s) for s in excl]
    if delta:
        kw['delta'] = True
    f = getattr(lik, 'log_likelihood', None) or lik.log_likelihood_par
    return f(par, wc, **kw)


def evaluate(call, pars, wcs, obs, liks=None):
    """One read-only API call; `pars`/`wcs` are callables index -> object."""
    kind = call[0]
    if kind == 'pred':
        _, o, p, w, kwform = call
        s = obs[o]
        ob = flavio.Observable[s[0]]
        if kwform:
            return ob.prediction_par(pars(p), wcs(w), **world.kw_of(s))
        return ob.prediction_par(pars(p), wcs(w), *s[1:])
    if kind == 'np':
        s = obs[call[1]]
        return flavio.np_prediction(s[0], wcs(call[2]), *s[1:])
    if kind == 'sm':
        s = obs[call[1]]
        return flavio.sm_prediction(s[0], *s[1:])
    if kind == 'deppar':
        s = obs[call[1]]
        return flavio.functions.get_dependent_parameters_sm(s[0], *s[1:])
    if kind == 'depwc':
        s = obs[call[1]]
        return flavio.functions.get_dependent_wcs(s[0], *s[1:])
    if kind == 'unc':
        _, o, w, seed, N = call
        s = obs[o]
        np.random.seed(seed)
        return flavio.np_uncertainty(s[0], wcs(w), *s[1:], N=N)
    if kind == 'smunc':
        _, o, seed, N = call
        s = obs[o]
        np.random.seed(seed)
        return flavio.sm_uncertainty(s[0], *s[1:], N=N)
    if kind == 'budget':
        _, o, seed, N = call
        s = obs[o]
        np.random.seed(seed)
        return flavio.sm_error_budget(s[0], *s[1:], N=N)
    if kind == 'cov':
        _, os_, seed, N = call
        np.random.seed(seed)
        return flavio.sm_covariance([world.obs_tuple(obs[o]) for o in os_], N=N)
    if kind == 'mr':
        _, w, scale, eft, basis, sectors = call
        return wcs(w).match_run(scale, eft, basis, 'all' if sectors == 'all' else tuple(sectors))
    if kind == 'getwc':
        _, w, sector, scale, p = call
        return wcs(w).get_wc(sector, scale, pars(p))
    if kind == 'll':
        return eval_lik(liks(call[1]), pars(call[2]), wcs(call[3]), call[4] if len(call) > 4 else None)
    if kind == 'cit':
        s = obs[call[1]]
        return flavio.Observable[s[0]].theory_citations(*s[1:])
    if kind == 'failpred':
        # a call with an incomplete parameter dictionary: normally fails
        _, o, p, w, missing = call
        s = obs[o]
        d = dict(pars(p))
        for m in missing:
            d.pop(m, None)
        return flavio.Observable[s[0]].prediction_par(d, wcs(w), *s[1:])
    raise core.HarnessError('unknown call %r' % (call,))


def wc_indices(call):
    k = call[0]
    return {'pred': [3], 'failpred': [3], 'll': [3], 'np': [2], 'unc': [2], 'mr': [1], 'getwc': [1]}.get(k, [])


def par_indices(call):
    return {'pred': [2], 'failpred': [2], 'll': [2], 'getwc': [4]}.get(call[0], [])


class Session:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.obs = sc['obs']
        self.sem = Sem(sc)
        self.memo = {}
        self.refserver = None
        self._pars = {}
        self._wcs = {}
        self._liks = {}
        self.saved_defaults = {}

    # live objects, built on first use
    def par(self, i):
        if i not in self._pars:
            self._pars[i] = world.make_par(self.sem.pars[i])
        return self._pars[i]

    def wc(self, i):
        if i not in self._wcs:
            self._wcs[i] = world.make_wc(self.sem.wcs[i])
        return self._wcs[i]

    def lik(self, i):
        if i not in self._liks:
            self._liks[i] = make_lik(self.sc['liks'][i])
        return self._liks[i]

    # -- reference
    def ref_key(self, call):
        need = {'call': call, 'env': self.sem.env(),
                'w': [self.sem.wcs[call[i]] for i in wc_indices(call)],
                'p': [self.sem.pars[call[i]] for i in par_indices(call)]}
        return json.dumps(need, sort_keys=True)

    def mutate(self, op):
        """State-changing operations. Returns True if handled."""
        k = op[0]
        sem = self.sem
        if k == 'opt':
            _, w, key, val = op
            if sem.wcs[w].get('sm'):
                return True
            self.wc(w).set_option(key, val)
            sem.wcs[w].setdefault('opt', {})[key] = val
        elif k == 'setinit':
            _, w, wcd, scale = op
            s = sem.wcs[w]
            if s.get('sm') or s['type'] != 'flavio':
                return True
            self.wc(w).set_initial(dict(wcd), scale, 'WET', 'flavio')
            # set_initial starts over with default options
            sem.wcs[w] = {'type': 'flavio', 'eft': 'WET', 'basis': 'flavio', 'scale': scale,
                          'wc': wcd, 'opt': {}}
        elif k == 'mutpar':
            _, p, name, val = op
            self.par(p)[name] = val
            sem.pars[p].setdefault('set', {})[name] = val
        elif k == 'setdef':
            _, name, val = op
            if name not in self.saved_defaults:
                d = flavio.default_parameters
                self.saved_defaults[name] = (list(d._constraints), copy.copy(d._parameters))
            set_default(name, val)
            sem.defaults.pop(name, None)      # order of the last update
            sem.defaults[name] = val
        elif k == 'impl':
            _, q, i = op
            flavio.config['implementation'][q] = i
            sem.impl[q] = i
        elif k == 'cfg':
            _, path, val = op
            apply_env({'defaults': {}, 'impl': {}, 'cfg': {path: val}})
            sem.cfg[path] = val
        else:
            return False
        return True


def reference_server():
    """Fork a pristine server; returns ask(fn_name, payload) evaluating each
    request in a fork of the server."""
    import os
    import pickle
    import struct
    from .seams import _send, _recv
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(w1)
            os.close(r2)
            core._die_with_parent()
            while True:
                data = _recv(r1)
                if data is None:
                    break
                fn, args = pickle.loads(data)
                res = core.fork_call(fn, *args, timeout=100)
                _send(w2, pickle.dumps(res))
        finally:
            os._exit(0)
    os.close(r1)
    os.close(w2)

    def ask(fn, *args):
        _send(w1, pickle.dumps((fn, args)))
        data = _recv(r2)
        if data is None:
            raise core.HarnessError('reference server died')
        res = pickle.loads(data)
        if res[0] != 'ok':
            raise core.HarnessError('reference failed: %r' % (res,))
        return res[1]
    ask.fds = (w1, r2)
    return ask


def ref_outcome(call, env, wspec, pspec, obs, liks=()):
    """Evaluates one call in a pristine session (runs in a fork)."""
    apply_env(env)
    wi, pi = wc_indices(call), par_indices(call)
    wmap = {call[i]: s for i, s in zip(wi, wspec)}
    pmap = {call[i]: s for i, s in zip(pi, pspec)}
    # defaults changed after a parameter dictionary was built do not affect it
    return world.outcome(lambda: evaluate(call, lambda i: pmap[i], lambda i: world.make_wc(wmap[i]), obs,
                                          lambda i: make_lik(liks[i])))
