"""C17: registries and implementation choices take effect at once."""
import collections
import math
import random

import numpy as np
import flavio
from flavio.classes import Observable, Prediction, AuxiliaryQuantity, Implementation, Measurement, Parameter
from flavio.statistics.likelihood import MeasurementLikelihood, Likelihood
from .. import core, world, dists
from ..store import RefStore

ID = 'C17'
TIERS = {'quick': dict(runs=20000, seconds=35), 'thorough': dict(runs=1000000, seconds=780)}
SHRINK_LISTS = ('ops',)
RULE = ('a case is 6-30 definitions, redefinitions, deletions, selections and failing definitions of observables, predictions, '
        'auxiliary quantities, implementations, parameters and measurements (user-defined ones and ones of flavio), after each of '
        'which look-ups, searches, listings, predictions, likelihoods and combinations are compared with a reference model of the '
        'current definitions; for implementations shipped with flavio with values computed in a fork that made only that choice. '
        'Non-trivial: a redefinition, deletion or failing definition. Distinct by scenario hash.')
STEP = 'definitions'
STATE_MEASURE = 'hash of (last three operation kinds, sizes of the registries)'
REAL = ['flavio.classes', 'flavio.functions', 'flavio.config', 'flavio.statistics.likelihood', 'implementations shipped with flavio']
STUB = ['user-defined predictions and implementations (linear functions)']
ASSUMPTIONS = ['the taxonomy entry of a deleted observable is not specified', 'observables built from others may use the predictions '
               'these have when they are built or the current ones']
OBS = ['verif_a', 'verif_b', 'verif_c', 'verif_q', 'verif_r', 'eps_K', 'BR(Bs->mumu)']
ARGS = {'verif_q': ['q2'], 'verif_r': ['q2']}
AUX = ['verif x', 'verif y']
IMPL = ['verif impl 1', 'verif impl 2', 'verif impl 3']
MEAS = ['verif m1', 'verif m2', 'LHCb Bs->mumu 2013']
PARS = ['verif_p', 'm_b']
REALQ = [('B->K form factor', ['dBR/dq2(B+->Kmumu)', 3.0], ['B->K BSZ3', 'B->K BCL3', 'B->K BCL4', 'B->K BCL3-IW']),
         ('B->K* form factor', ['dBR/dq2(B0->K*mumu)', 3.0], ['B->K* BSZ2', 'B->K* BSZ3', 'B->K* SSE']),
         ('B->D form factor', ['dBR/dq2(B+->Dtaunu)', 6.0], ['B->D CLN', 'B->D BCL3', 'B->D BSZ3']),
         ('CKM matrix', ['BR(Bd->mumu)'], ['Tree', 'Wolfenstein', 'Standard']),
         ('B->pi form factor', ['dBR/dq2(B0->pimunu)', 10.0], ['B->pi BCL4-LMVD', 'B->pi BCL3', 'B->pi BSZ3']),
         ('Bs->phill spectator scattering', ['dBR/dq2(Bs->phimumu)', 3.0], ['Bs->phill QCDF', 'Bs->phill QCDF interpolated'])]
BAD = ['pred', 'impl', 'ff_unknown', 'ff_args', 'ff_nopred', 'delobs', 'delimpl', 'delmeas', 'meas', 'unhashable', 'regex', 'taxonomy']


def generate(rng, idx, tier):
    ops = []
    real = rng.choice(range(len(REALQ)))
    for _ in range(rng.randint(6, 30)):
        k = rng.choice(['obs', 'obs', 'pred', 'pred', 'pred', 'ff', 'delobs', 'aux', 'impl', 'impl', 'delimpl', 'sel', 'sel', 'real', 'real',
                        'meas', 'setm', 'setm', 'setm', 'delm', 'delaux', 'lik', 'bad', 'bad', 'bad', 'par', 'desc', 'clear', 'unsel'])
        if k == 'clear' and rng.random() < .7:
            k = 'setm'
        o, s = rng.choice(OBS), rng.randrange(1, 50)
        if k == 'obs':
            op = [k, o if rng.random() < .9 else 'verif_new%d' % s, s]
        elif k == 'pred':
            op = [k, o, s, rng.choice([None, None] + AUX)]
        elif k == 'ff':
            op = [k, rng.choice(OBS[:3]), rng.sample(OBS[:3], 2), s]
            if rng.random() < .3:
                op = [k, 'verif_r', ['verif_q', 'verif_r'], s]
        elif k in ('delobs', 'desc'):
            op = [k, o, s]
        elif k in ('aux', 'delaux'):
            op = [k, rng.choice(AUX)]
        elif k == 'impl':
            op = [k, rng.choice(IMPL), rng.choice(AUX), s]
        elif k == 'delimpl':
            op = [k, rng.choice(IMPL)]
        elif k == 'sel':
            op = [k, rng.choice(AUX), rng.choice(IMPL)]
        elif k == 'unsel':
            op = [k, rng.choice(AUX)]
        elif k == 'real':
            op = [k, real if rng.random() < .8 else rng.randrange(len(REALQ)), rng.randrange(4)]
        elif k in ('meas', 'delm', 'clear'):
            op = [k, rng.choice(MEAS)]
        elif k == 'setm':
            op = [k, rng.choice(MEAS), [rng.choice(OBS), rng.choice([1.0, 4.0])], rng.choice([1., 2.5, 10.]), rng.choice([.1, 1., 2.])]
            if rng.random() < .3:
                a, b = rng.sample(OBS[:4], 2)
                op = ['setm2', op[1], [a, 1.0], [b, 4.0], dists.gen_mvn(rng, 2)]
        elif k == 'par':
            op = [k, rng.choice(PARS)]
        elif k == 'lik':
            op = [k, rng.sample(OBS, 2)]
        else:
            op = [k, rng.choice(BAD), o, rng.choice(IMPL), rng.choice(MEAS)]
        ops.append(op)
        if rng.random() < .15:
            # an implementation in use and its redefinition
            a, im, s = rng.choice(AUX), rng.choice(IMPL), rng.randrange(1, 50)
            some = [['aux', a], ['impl', im, a, s], ['sel', a, im], ['pred', o, s, a]]
            some += rng.choice([[['impl', im, a, s + 7]], [['aux', a]], [['delimpl', im], ['impl', im, a, s + 9]], [['delaux', a], ['aux', a]],
                                [['impl', rng.choice(IMPL), a, s + 3]], [['sel', a, rng.choice(IMPL)]]])
            ops += some if rng.random() < .7 else rng.sample(some, 3)
        if rng.random() < .08:
            ops += likelihood_in_use(rng)
    return dict(ops=ops, q=rng.randrange(1000))


def likelihood_in_use(rng):
    """A likelihood of measured user-defined observables and redefinitions of what it depends on."""
    a, b = rng.sample(OBS[:5], 2)
    x, im = rng.choice(AUX), rng.choice(IMPL)
    s = rng.randrange(1, 50)
    m = rng.choice(MEAS[:2])
    out = [['obs', a, 1], ['obs', b, 2], ['pred', a, s, None], ['pred', b, s + 1, None]]
    aux = rng.random() < .5
    if aux:
        out += [['aux', x], ['impl', im, x, s], ['sel', x, im], ['pred', b, s + 1, x]]
    if rng.random() < .7:
        out.append(['meas', m])
    out += [['setm', m, [a, 1.0], rng.choice([50., 100.]), 100.], ['setm', rng.choice([m, MEAS[1]]), [b, 4.0], 70., 100.], ['lik', [a, b]]]
    for _ in range(rng.randint(1, 4)):
        t = s + rng.randrange(3, 40)
        more = [['pred', a, t, None], ['pred', b, t, x if aux else None], ['pred', rng.choice(OBS[:3]), t, None], ['desc', a, t],
                ['setm', m, [a, 1.0], rng.choice([20., 200.]), 90.], ['meas', m], ['ff', a, rng.sample(OBS[:3], 2), t], ['par', 'verif_p'],
                ['delobs', b], ['lik', [b, a]]]
        if aux:
            more += [['impl', im, x, t], ['impl', IMPL[0], x, t], ['sel', x, IMPL[0]], ['aux', x], ['unsel', x], ['sel', x, im]] * 2
        out.append(rng.choice(more))
    return out


def spec(name, arg):
    return (name, arg) if name in ARGS else name


def real_value(state, i):
    """Value for a choice of implementations, in a fork made before the history."""
    for q, name in state.items():
        flavio.config['implementation'][q] = name
    o = REALQ[i][1]
    return world.outcome(lambda: flavio.sm_prediction(*o))


def execute(sc, ctx):
    P = flavio.default_parameters.get_central_all()
    par = dict(P)
    sm = flavio.WilsonCoefficients()
    fullconf = {q: flavio.config['implementation'].get(q) for q, _, _ in REALQ}
    used = sorted({op[1] for op in sc['ops'] if op[0] == 'real'})
    # reference values of the shipped implementations
    refs, st = {}, dict(fullconf)
    for op in [None] + sc['ops']:
        if op and op[0] == 'real':
            q, o, names = REALQ[op[1]]
            st[q] = names[op[2] % len(names)]
        for i in used:
            key = (i, tuple(sorted(st.items())))
            if key not in refs and (op is None or op[0] == 'real'):
                refs[key] = core.in_fork(real_value, dict(st), i)
    st = dict(fullconf)
    # reference model
    classes = {'obs': Observable, 'aux': AuxiliaryQuantity, 'impl': Implementation, 'meas': Measurement, 'par': Parameter}
    reg = {k: collections.OrderedDict((n, c[n]) for n in c.find('')) for k, c in classes.items()}
    base_tax = Observable.taxonomy_dict()
    meta = {n: dict(tex=o.tex, description=o.description, arguments=o.arguments) for n, o in reg['obs'].items() if n in OBS}
    pred = {n: ('real',) for n in reg['obs']}
    impl, conf, tax = {}, {}, {}
    meas = {n: None for n in reg['meas']}       # None: as shipped
    real_of = {n: [o if isinstance(o, str) else o[0] for o in reg['meas'][n].all_parameters] for n in reg['meas']}
    shipped = {o: core.in_fork(lambda o=o: world.outcome(lambda: flavio.sm_prediction(o))) for o in OBS if o in reg['obs']}
    liks = []
    rng = random.Random(sc['q'])

    class Gone(Exception):
        pass

    def linear(s, aux):
        def f(wc, pd, *args, **kw):
            v = s + 2 * pd['m_b'] + sum(args) + sum(kw.values())
            if aux is not None:
                v += AuxiliaryQuantity[aux].prediction(pd, wc)
            return v
        return f

    def aux_value(a):
        if a not in reg['aux'] or a not in conf or conf[a] not in reg['impl']:
            raise Gone(a)
        return impl[conf[a]][1] * par['m_s']

    def value(p, args):
        """Values a prediction may have."""
        if p is None:
            raise Gone()
        if p[0] == 'real':
            return None
        if p[0] == 'user':
            return [p[1] + 2 * par['m_b'] + sum(args) + (aux_value(p[2]) if p[2] else 0)]
        cur = [pred[o] if o in reg['obs'] else None for o in p[1]]
        out = []
        for parts in (p[2], cur) if cur != p[2] else (p[2],):
            try:
                vs = [value(x, args) for x in parts]
            except (Gone, RecursionError):
                out.append(math.nan)
                continue
            if any(v is None for v in vs):
                return None
            for a in vs[0]:
                for b in vs[1]:
                    out.append(p[3] * a - b)
        return out

    def bad(kind, msg, *a):
        raise core.Violation(kind, '%s: %s' % (where, msg % a))

    def add(k, name, o):
        reg[k][name] = o

    def ref_add(m, names, sp):
        if meas.get(m) is None:
            return
        meas[m].add(names, sp)

    def check_registry():
        for k, c in classes.items():
            if c.find('') != list(reg[k]):
                a, b = c.find(''), list(reg[k])
                diff = [x for x in zip(a + [None] * 9, b) if x[0] != x[1]][:3]
                bad('registry', 'the %s names are not as defined (order of definition, redefined ones in place); differences: %r, %d instead of %d',
                    c.__name__, diff, len(a), len(b))
            names = [n for n in reg[k] if n.startswith('verif')] + rng.sample(list(reg[k]), 3 if len(reg[k]) > 3 else len(reg[k]))
            for n in names:
                if c[n] is not reg[k][n] or c.get_instance(n) is not reg[k][n] or reg[k][n].name != n:
                    bad('lookup', '%s[%r] is not the object defined last under this name', c.__name__, n)
            for rx in ('^verif', 'mumu', 'q$'):
                import re
                if c.find(rx) != [n for n in reg[k] if re.search(rx, n)]:
                    bad('find', '%s.find(%r) is %r', c.__name__, rx, c.find(rx))
        for k, pool in (('obs', OBS), ('aux', AUX), ('impl', IMPL), ('meas', MEAS)):
            for n in pool:
                if n not in reg[k] and world.outcome(lambda: classes[k][n])[0] == 'ok':
                    bad('lookup', '%s[%r] exists although it has been deleted', classes[k].__name__, n)
        shown = Implementation.show_all()
        for n, o in reg['impl'].items():
            if n not in shown.get(o.quantity, {}) or shown[o.quantity][n] != o.description:
                bad('show_all', 'the list of implementations of %r is %r, defined is %r', o.quantity, shown.get(o.quantity), n)
        if sum(map(len, shown.values())) != len(reg['impl']):
            bad('show_all', 'the list of implementations has %d entries, defined are %d', sum(map(len, shown.values())), len(reg['impl']))

    def measuring(n):
        out = []
        for m in reg['meas']:
            names = real_of[m] if meas[m] is None else [o if isinstance(o, str) else o[0] for o in meas[m].params()]
            if n in names:
                out.append(m)
        return out

    def check_observable(n):
        o = reg['obs'][n]
        if n in meta:
            for a in ('tex', 'description', 'arguments'):
                if getattr(o, a) != meta[n][a]:
                    bad('attribute', '%s of %r is %r, set was %r', a, n, getattr(o, a), meta[n][a])
        got = Observable[n].get_measurements()
        if got != measuring(n):
            bad('measurements', 'the measurements of %r are %r, in force are %r', n, got, measuring(n))
        t = Observable.taxonomy_dict()
        for s in tax.get(n, []):
            x = t
            for node in s.split(' :: ') + [n]:
                if node not in x:
                    bad('taxonomy', '%r is not in the taxonomy under %r', n, s)
                x = x[node]
        args = [4.0] if n in ARGS and meta[n]['arguments'] else []
        if meta.get(n, {}).get('arguments'):
            f = Observable.argument_format((n, 4.0), 'dict')
            if f != {'name': n, 'q2': 4.0}:
                bad('argument_format', '%r', f)
        elif n in OBS and Observable.argument_format(n, 'dict') != {'name': n}:
            bad('argument_format', '%r', Observable.argument_format(n, 'dict'))
        try:
            exp = value(pred[n], args)
        except Gone:
            exp = [math.nan]
        ways = {'sm_prediction': lambda: flavio.sm_prediction(n, *args),
                'keyword': lambda: flavio.sm_prediction(n, **({'q2': 4.0} if args else {})),
                'np_prediction': lambda: flavio.np_prediction(n, sm, *args),
                'prediction_par': lambda: Observable[n].prediction_par(dict(par), sm, *args),
                'prediction_central': lambda: Observable[n].prediction_central(flavio.default_parameters, sm, *args)}
        for w in rng.sample(list(ways), 2):
            r = world.outcome(ways[w])
            if exp is None:
                if pred[n][0] == 'real' and n in shipped and st == fullconf and not world.same_outcome(r, shipped[n]):
                    bad('value', '%s of %r is %r, as shipped %r', w, n, r, shipped[n])
                continue
            ok = r[0] == 'ok' and any(not math.isnan(e) and abs(r[1] - e) < 1e-9 * (1 + abs(e)) for e in exp)
            ok = ok or r[0] == 'exc' and any(math.isnan(e) for e in exp)
            if not ok:
                bad('value', '%s of %r is %r, by the current definitions %r (nan: undefined)', w, n, r, exp)
        return exp

    def check_likelihood(names, lik, fresh):
        specs = [spec(n, 4.0 if n == names[1] else 1.0) for n in names]
        vals, tot = {}, 0.
        for s, n in zip(specs, names):
            try:
                v = value(pred[n] if n in reg['obs'] else None, list(s[1:]) if isinstance(s, tuple) else [])
            except Gone:
                v = [math.nan]
            if n in meta and isinstance(s, tuple) != bool(meta[n]['arguments']):
                # other arguments than the likelihood has
                v = [math.nan]
            if v is None or len(v) > 1:
                return
            vals[s] = v[0]
        if any(meas[m] is None and set(real_of[m]) & set(names) for m in reg['meas']):
            return
        delta = rng.random() < .5
        r = world.outcome(lambda: float(np.ravel(lik.log_likelihood_par(dict(par), sm, delta=delta))[0]))
        if any(math.isnan(v) for v in vals.values()):
            if r[0] == 'ok':
                bad('likelihood', 'the likelihood of %r is %r, but it has no prediction', specs, r)
            return
        for m in reg['meas']:
            if meas[m] is not None:
                tot += meas[m].total(vals, only=specs, delta=delta)
        if r[0] != 'ok' or not (r[1] == tot or abs(r[1] - tot) <= 1e-8 * (1 + abs(tot))):
            bad('likelihood', '%s likelihood of %r is %r%s, by the current definitions %r', 'a new' if fresh else 'the', specs, r,
                ' relative to its maximum' if delta else '', tot)

    def check_combination(n):
        s = spec(n, 4.0)
        cons = []
        for m in reg['meas']:
            if meas[m] is None:
                if n in real_of[m]:
                    return
            elif s in meas[m].map:
                i, cid = meas[m].map[s]
                sp = meas[m].cons[cid][0]
                cons.append((sp['central_value'], sp['standard_deviation']) if sp['distribution'] == 'normal' else
                            (sp['central_value'][i], math.sqrt(dists.cov(sp)[i, i])))
        r = world.outcome(lambda: (lambda c: [float(c.central_value), float(c.error_right)])(
            flavio.combine_measurements(n, q2=4.0) if n in ARGS else flavio.combine_measurements(n)))
        if r[0] == 'ok':
            r = ('ok', r[1][1])
        if not cons:
            if r[0] == 'ok':
                bad('combination', 'a combination of no measurement of %r: %r', s, r)
            return
        if n in ARGS and (n not in reg['obs'] or not meta[n]['arguments']):
            return
        w = [1 / x[1]**2 for x in cons]
        c, e = sum(a * x[0] for a, x in zip(w, cons)) / sum(w), sum(w)**-.5
        if r[0] != 'ok' or abs(r[1][0] - c) > 1e-3 * (abs(c) + e) or abs(r[1][1] - e) > 2e-3 * e:
            bad('combination', 'the combination of the measurements of %r is %r, by those in force %r', s, r, (c, e))

    def reject(op):
        _, k, o, im, m = op
        alive = list(reg['obs'])
        return {
            'pred': lambda: Prediction('verif_unknown', linear(1, None)),
            'impl': lambda: Implementation(im, 'verif unknown quantity', linear(1, None)),
            'ff_unknown': lambda: Observable.from_function(o, [alive[0], 'verif_unknown'], lambda a, b: a),
            'ff_args': lambda: Observable.from_function(o, ['eps_K', 'dBR/dq2(B0->K*mumu)'], lambda a, b: a),
            'ff_nopred': lambda: Observable.from_function(o, ['verif_nopred', 'verif_nopred'], lambda a, b: a),
            'delobs': lambda: Observable.del_instance('verif_unknown'),
            'delimpl': lambda: Implementation.del_instance('verif_unknown'),
            'delmeas': lambda: Measurement.del_instance('verif_unknown'),
            'meas': lambda: reg['meas'][m].set_constraint(o, 'nonsense ± 1'),
            'unhashable': lambda: Observable(['verif_list']),
            'regex': lambda: Observable.find('('),
            'taxonomy': lambda: reg['obs']['verif_nopred'].add_taxonomy(None),
        }[k]

    where = 'start'
    add('obs', 'verif_nopred', Observable('verif_nopred'))
    meta['verif_nopred'] = dict(tex='', description='', arguments=None)
    pred['verif_nopred'] = None
    hist = []
    for n, op in enumerate(sc['ops']):
        k = op[0]
        where = 'operation %d %r' % (n, op)
        hist.append(k)
        ctx.steps += 1
        touched = None
        if k == 'obs':
            o = op[1]
            if o in reg['obs']:
                ctx.nontrivial = True
            a = ARGS.get(o)
            add('obs', o, Observable(o, arguments=list(a) if a else None))
            meta[o] = dict(tex='', description='', arguments=a)
            pred[o], touched = None, o
            if op[2] % 3 == 0:
                s = 'verif :: category %d' % (op[2] % 4)
                Observable[o].add_taxonomy(s)
                tax[o] = [s]
            else:
                tax.pop(o, None)
        elif k == 'pred':
            if op[1] not in reg['obs']:
                continue
            if pred[op[1]] is not None:
                ctx.nontrivial = True
            Prediction(op[1], linear(op[2], op[3]))
            pred[op[1]], touched = ('user', op[2], op[3]), op[1]
        elif k == 'ff':
            comp = op[2]
            if any(o not in reg['obs'] or pred[o] is None or (pred[o][0] == 'ff' and op[1] in pred[o][1]) for o in comp) or op[1] in comp:
                continue
            if len({str(meta[o]['arguments']) for o in comp}) > 1:
                continue
            f = op[3]
            r = Observable.from_function(op[1], list(comp), lambda a, b, f=f: f * a - b)
            add('obs', op[1], Observable[op[1]])
            if r is not Observable[op[1]]:
                bad('lookup', 'from_function returned another object than the one registered')
            meta[op[1]] = dict(tex='', description='', arguments=meta[comp[0]]['arguments'])
            tax.pop(op[1], None)
            pred[op[1]], touched = ('ff', comp, [pred[o] for o in comp], f), op[1]
        elif k == 'delobs':
            if op[1] not in reg['obs']:
                continue
            del Observable[op[1]]
            del reg['obs'][op[1]]
            tax.pop(op[1], None)
            meta.pop(op[1], None)
            ctx.nontrivial = True
        elif k == 'desc':
            if op[1] not in reg['obs'] or op[1] not in meta:
                continue
            o = Observable[op[1]]
            o.tex = meta[op[1]]['tex'] = 'tex %d' % op[2]
            o.set_description('description %d' % op[2])
            meta[op[1]]['description'] = 'description %d' % op[2]
        elif k == 'aux':
            add('aux', op[1], AuxiliaryQuantity(op[1]))
        elif k == 'delaux':
            if op[1] not in reg['aux']:
                continue
            del AuxiliaryQuantity[op[1]]
            del reg['aux'][op[1]]
            ctx.nontrivial = True
        elif k == 'impl':
            if op[2] not in reg['aux']:
                continue
            if op[1] in reg['impl']:
                ctx.nontrivial = True
            s = op[3]
            add('impl', op[1], Implementation(op[1], op[2], lambda wc, pd, s=s: s * pd['m_s']))
            reg['impl'][op[1]].set_description('scale %d' % s)
            impl[op[1]] = (op[2], s)
        elif k == 'delimpl':
            if op[1] not in reg['impl']:
                continue
            Implementation.del_instance(op[1])
            del reg['impl'][op[1]]
            ctx.nontrivial = True
        elif k == 'sel':
            flavio.config['implementation'][op[1]] = op[2]
            conf[op[1]] = op[2]
        elif k == 'unsel':
            flavio.config['implementation'].pop(op[1], None)
            conf.pop(op[1], None)
        elif k == 'real':
            q, o, names = REALQ[op[1]]
            flavio.config['implementation'][q] = st[q] = names[op[2] % len(names)]
            if st[q] != fullconf[q]:
                ctx.nontrivial = True
        elif k == 'par':
            add('par', op[1], Parameter(op[1]))
        elif k == 'meas':
            if op[1] in reg['meas']:
                ctx.nontrivial = True
            add('meas', op[1], Measurement(op[1]))
            meas[op[1]] = RefStore()
        elif k in ('setm', 'setm2'):
            m = op[1]
            if m not in reg['meas']:
                add('meas', m, Measurement(m))
                meas[m] = RefStore()
            if meas[m] is None:
                continue
            if k == 'setm':
                names, sp = [spec(*op[2])], {'distribution': 'normal', 'central_value': op[3], 'standard_deviation': op[4]}
            else:
                names, sp = [spec(*op[2]), spec(*op[3])], op[4]
            Measurement[m].add_constraint(list(names), dists.build(sp))
            meas[m].add(names, sp)
        elif k == 'delm':
            if op[1] not in reg['meas']:
                continue
            del Measurement[op[1]]
            del reg['meas'][op[1]]
            ctx.nontrivial = True
        elif k == 'clear':
            Measurement.clear_all()
            reg['meas'].clear()
            ctx.nontrivial = True
        elif k == 'lik':
            specs = [spec(o, 4.0 if i else 1.0) for i, o in enumerate(op[1])]
            r = world.outcome(lambda: liks.append((op[1], MeasurementLikelihood(list(specs)))))
        elif k == 'bad':
            if op[1] == 'meas' and op[4] not in reg['meas'] or op[1] == 'ff_args' and not {'eps_K', 'dBR/dq2(B0->K*mumu)'} <= set(reg['obs']):
                continue
            r = world.outcome(reject(op))
            if r[0] == 'ok':
                bad('accepted', 'an invalid definition was accepted')
            ctx.fault('rejected:' + op[1])
            ctx.nontrivial = True
        check_registry()
        names = [o for o in OBS if o in reg['obs'] and (o in meta)]
        for o in {*([touched] if touched else []), *rng.sample(names, min(2, len(names)))}:
            check_observable(o)
        for a in AUX:
            try:
                e = aux_value(a)
            except Gone:
                e = None
            if a in reg['aux']:
                r = world.outcome(lambda: AuxiliaryQuantity[a].prediction(dict(par), sm))
                if (r[0] == 'ok') != (e is not None) or e is not None and abs(r[1] - e) > 1e-9 * abs(e):
                    bad('auxiliary', 'the auxiliary quantity %r is %r, by the implementation selected %r', a, r, e)
        for i in used:
            o = REALQ[i][1]
            if k == 'real' or rng.random() < .1:
                r = world.outcome(lambda: flavio.sm_prediction(*o))
                e = refs[(i, tuple(sorted(st.items())))]
                if not world.same_outcome(r, e):
                    bad('implementation', '%r is %r, in a session that only selected %r it is %r', o, r, {q: v for q, v in st.items() if v != fullconf[q]}, e)
        for names, lik in liks[-3:]:
            check_likelihood(names, lik, False)
        check_combination(rng.choice(OBS))
        ctx.log(k, len(reg['obs']), len(reg['meas']), len(reg['impl']))
        ctx.fp(tuple(hist[-3:]), len([o for o in OBS if o in reg['obs']]), len([m for m in MEAS if m in reg['meas']]), len(impl))
    # nothing else has changed
    t = Observable.taxonomy_dict()

    def cover(a, b, path):
        for x in a:
            if x not in b:
                bad('taxonomy', 'the entry %r is gone', path + [x])
            cover(a[x], b[x], path + [x])
    cover(base_tax, t, [])
