"""C11: loading measurements or parameters is all-or-nothing."""
import math
import os
import random

import numpy as np
import yaml
import flavio
import flavio.measurements
import flavio.parameters
from .. import core, world, trace, dists, fs, net
from ..store import RefStore
from . import c10
from .c05 import par_exc

ID = 'C11'
TIERS = {'quick': dict(runs=20000, seconds=35), 'thorough': dict(runs=1000000, seconds=780)}
SHRINK_LISTS = ('ops',)
RULE = ('a case is 2-8 loads of generated measurement files (both formats, uni- and multivariate, by path or URL) and '
        'parameter files (metadata, values, correlated values, dumps), overlapping in names with each other and with '
        'registered ones; a load is intact or meets one fault: failing or short read at the k-th file operation, failed '
        'download, text cut or altered at a byte, an invalid entry at some position, an exception at a source line. After '
        'each load registries and constraints are compared with a reference. Non-trivial: a fault fired or an entry replaced '
        'an earlier one. Distinct by scenario hash.')
STEP = 'loads'
STATE_MEASURE = 'hash of (file kind, fault, outcome, number of entries known before)'
REAL = ['flavio.measurements', 'flavio.parameters', 'flavio.classes', 'yaml', 'Python file objects above the raw device']
STUB = ['raw file reads and opens (simulated device over real scratch files)', 'requests (scripted responses)',
        'delivery of the injected exception']
ASSUMPTIONS = ['the reference densities of sim/dists.py']
OBS = c10.NAMES['ms']
KNOWN_NAMES = ['PDG B->taunu 2018', 'HFAG rad 2014']
PARS = ['m_b', 'Vcb', 'm_c', 'alpha_s', 'verif_p1', 'verif_p2']


def fname(sp):
    sp = dict(sp)
    if sp['distribution'] == 'gamma_distribution_positive':
        sp['distribution'] = 'gamma_positive'
    return sp


def err_string(rng, i):
    """A string with errors; (string, central value, standard deviation)."""
    c = c10.center(i)
    s, t = rng.choice([1, 2, 3]), rng.choice([1, 4])
    k = rng.randrange(4)
    if k == 0:
        return '%d(%d)' % (c, s), c, float(s)
    if k == 1:
        return '%.1f ± %.1f' % (c, s), c, float(s)
    if k == 2:
        return '%.1f +%.1f -%.1f' % (c, s, t), c, math.sqrt(s * t)
    return '%.1f ± %.1f ± %.1f' % (c, s, t), c, math.hypot(s, t)


def gen_corr(rng, n):
    """(as written, matrix)"""
    m = np.round(dists.gen_corr(rng, n), 3)
    if rng.random() < 0.4:
        # one of the quantities is uncorrelated
        i = rng.choice([0, 0, n - 1])
        m[i] = m[:, i] = 0.
    np.fill_diagonal(m, 1.)
    k = rng.choice([0, 1, 2, 2])
    if k == 0:
        r = rng.choice([0.1, -0.2, 0.4])
        return r, (np.eye(n) * (1 - r) + r).tolist()
    if k == 1:
        return [[1] + m[i, i + 1:].tolist() for i in range(n)], m.tolist()
    return m.tolist(), m.tolist()


def obs_dict(i, extra=None):
    o = OBS[i]
    if isinstance(o, str):
        return o
    return dict({'name': o[0]}, **dict(zip(flavio.Observable[o[0]].arguments, o[1:])))


def gen_old(rng):
    """An entry of the hand-written format: (data, [[observable indices, spec]])."""
    k = rng.choice(['dict', 'dict', 'list', 'corrdict', 'corrlist', 'mv'])
    plain = [i for i, o in enumerate(OBS) if isinstance(o, str)]
    argd = [i for i, o in enumerate(OBS) if not isinstance(o, str)]
    d, cons = {}, []
    for f in ('inspire', 'experiment', 'url'):
        if rng.random() < 0.5:
            d[f] = 'verif %s %d' % (f, rng.randrange(9))
    if k in ('dict', 'list'):
        ids = rng.sample(plain if k == 'dict' else argd, rng.choice([1, 2, 3]))
        vals = []
        for i in ids:
            if rng.random() < 0.5:
                v, sp = c10.gen_string(rng, i)
            else:
                sp = c10.gen_1d(rng, i)
                v = fname(sp)
                if k == 'dict' and rng.random() < 0.5:
                    v = [v]
            cons.append([[i], sp])
            vals.append((i, v))
        d['values'] = {OBS[i]: v for i, v in vals} if k == 'dict' else [dict(obs_dict(i), value=v) for i, v in vals]
    elif k in ('corrdict', 'corrlist'):
        ids = rng.sample(plain if k == 'corrdict' else argd, rng.choice([2, 3]))
        st = [err_string(rng, i) for i in ids]
        w, m = gen_corr(rng, len(ids))
        d['values'] = ({OBS[i]: s[0] for i, s in zip(ids, st)} if k == 'corrdict'
                       else [dict(obs_dict(i), value=s[0]) for i, s in zip(ids, st)])
        d['correlation'] = w
        cons.append([ids, {'distribution': 'multivariate_normal', 'central_value': [s[1] for s in st],
                           'standard_deviation': [s[2] for s in st], 'correlation': m}])
    else:
        ids, sp = c10.gen_group(rng, OBS)
        d['observables'] = [obs_dict(i) for i in ids]
        d['values'] = sp
        cons.append([ids, sp])
    return d, cons


def gen_new(rng, name):
    cons = []
    left = list(range(len(OBS)))
    for _ in range(rng.choice([1, 2])):
        if rng.random() < 0.5:
            ids, sp = c10.gen_group(rng, OBS)
        else:
            i = rng.randrange(len(OBS))
            ids, sp = [i], c10.gen_1d(rng, i)
        if set(ids) <= set(left):
            left = [i for i in left if i not in ids]
            cons.append([ids, sp])
    meta = {f: 'verif %s %d' % (f, rng.randrange(9)) for f in ('inspire', 'experiment', 'url') if rng.random() < 0.5}
    d = {'arguments': {'name': name}}
    if meta:
        d['metadata'] = meta
    d['constraints'] = [{'observables': [list(OBS[i]) if not isinstance(OBS[i], str) else OBS[i] for i in ids],
                         'values': fname(sp) if len(ids) > 1 or rng.random() < 0.5 else [fname(sp)]} for ids, sp in cons]
    return d, cons


def gen_file(rng):
    """kind, data, names -> constraints"""
    kind = rng.choice(['old', 'old', 'old', 'new', 'new', 'newdict', 'values', 'values', 'corr', 'corr', 'meta', 'pnew'])
    if kind in ('old', 'new', 'newdict'):
        names = rng.sample(['verif m1', 'verif m2', 'verif m3', 'verif m4'] + KNOWN_NAMES, 1 if kind == 'newdict' else rng.choice([1, 2, 3]))
        ents = [gen_old(rng) if kind == 'old' else gen_new(rng, n) for n in names]
        data = [[n, e[0]] for n, e in zip(names, ents)]
        return dict(kind=kind, data=data, cons=[e[1] for e in ents])
    if kind == 'meta':
        names = rng.sample(PARS + ['verif_p3'], rng.choice([1, 2, 3]))
        return dict(kind=kind, cons=[], data=[[n, rng.choice([{'tex': '$%s%d$' % (n, rng.randrange(9)), 'description': 'd%d' % rng.randrange(9)},
                                                              {'description': 'e%d' % rng.randrange(9)}, {'tex': 't%d' % rng.randrange(9), 'description': None}])] for n in names])
    if kind == 'values':
        ids = rng.sample(range(len(PARS)), rng.choice([1, 2, 3]))
        data, cons = [], []
        for i in ids:
            if rng.random() < 0.6:
                v, sp = c10.gen_string(rng, i)
            else:
                sp = c10.gen_1d(rng, i)
                v = fname(sp)
            data.append([PARS[i], v])
            cons.append([[i], sp])
        return dict(kind=kind, data=data, cons=cons)
    if kind == 'corr':
        data, cons = [], []
        left = list(range(len(PARS)))
        for _ in range(rng.choice([1, 2])):
            ids = rng.sample(left, 2)
            st = [err_string(rng, i) for i in ids]
            w, m = gen_corr(rng, 2)
            data.append({'values': [{PARS[i]: s[0]} for i, s in zip(ids, st)], 'correlation': w})
            cons.append([ids, {'distribution': 'multivariate_normal', 'central_value': [s[1] for s in st],
                               'standard_deviation': [s[2] for s in st], 'correlation': m}])
            left = [i for i in left if i not in ids]
        return dict(kind=kind, data=data, cons=cons)
    data, cons = [], []
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.5:
            ids, sp = c10.gen_group(rng, PARS)
        else:
            i = rng.randrange(len(PARS))
            ids, sp = [i], c10.gen_1d(rng, i)
        data.append({'parameters': [PARS[i] for i in ids], 'values': fname(sp)})
        cons.append([ids, sp])
    return dict(kind=kind, data=data, cons=cons)


def plain(f):
    """The Python data of a file."""
    if f['kind'] in ('old', 'values', 'meta'):
        return {k: v for k, v in f['data']}
    if f['kind'] == 'new':
        return [d for _, d in f['data']]
    if f['kind'] == 'newdict':
        return f['data'][0][1]
    return f['data']


def text(data, style):
    return yaml.dump(data, sort_keys=False, allow_unicode=style % 2 == 0, default_flow_style=[None, False, True][style % 3])


BADS = ['missing', 'string', 'dist', 'args', 'type', 'unknownobs', 'name']


def invalidate(f, pos, kind):
    """The file's data with one entry made invalid, or None."""
    import copy
    f = copy.deepcopy(f)
    d = f['data']
    i = pos % len(d)
    k = f['kind']
    if k == 'meta':
        d[i][1] = {'string': 'text', 'type': 3, 'missing': None}.get(kind, 7)
    elif k == 'values':
        d[i][1] = {'string': '1.0 about 0.3', 'dist': {'distribution': 'nonsense'}, 'args': {'distribution': 'normal', 'central_value': 1.},
                   'type': {'central_value': 1.}, 'missing': None}.get(kind, '1.0 / 3')
        if kind == 'name':
            d[i][0] = 'verif_unknown'
            d[i][1] = '1.0(1)'
    elif k == 'corr':
        if kind == 'missing':
            del d[i]['correlation']
        elif kind == 'string':
            n = list(d[i]['values'][1])[0]
            d[i]['values'][1][n] = '1.0 about 2'
        elif kind == 'name':
            d[i]['values'][1] = {'verif_unknown': '1.0(1)'}
        elif kind == 'dist':
            d[i]['correlation'] = [[1, 3.], [3., 1]]
        elif kind == 'type':
            d[i]['correlation'] = [[1, 0.1, 0.2], [1, 0.2], [1]]
        else:
            del d[i]['values']
    elif k == 'pnew':
        if kind == 'missing':
            del d[i]['values']
        elif kind == 'name':
            d[i]['wrong'] = d[i].pop('parameters')
        elif kind == 'args':
            d[i]['values'] = {'distribution': 'normal', 'central_value': 1.}
        else:
            d[i]['values'] = {'distribution': 'nonsense'}
    elif k == 'old':
        e = d[i][1]
        if kind in ('missing', 'name'):
            del e['values']
        elif kind == 'type':
            d[i][1] = 'some text'
        elif isinstance(e['values'], list):
            v = e['values'][-1]
            if kind == 'unknownobs':
                v['name'] = 'verif no such observable'
            elif kind == 'args':
                del v[list(v)[1]]
            else:
                v['value'] = '1.0 about 3'
        elif 'observables' in e:
            e['values'] = {'distribution': 'nonsense'} if kind != 'args' else {'distribution': 'multivariate_normal', 'central_value': [1., 2.]}
        else:
            n = list(e['values'])[-1]
            e['values'][n] = {'string': '1.0 about 3', 'dist': {'distribution': 'nonsense'}}.get(kind, {'distribution': 'normal'}) \
                if 'correlation' not in e else '1.0 about 3'
    else:
        e = d[i][1]
        c = e['constraints'][-1]
        if kind == 'missing':
            del e['constraints']
        elif kind == 'name':
            del e['arguments']
        elif kind == 'unknownobs':
            c['wrong'] = c.pop('observables')
        elif kind == 'type':
            e['constraints'] = 7
        else:
            c['values'] = {'distribution': 'nonsense'} if kind != 'args' else {'distribution': 'normal'}
    return f


def generate(rng, idx, tier):
    files = [gen_file(rng) for _ in range(rng.randint(2, 5))]
    ops = []
    for _ in range(rng.randint(2, 8)):
        f = rng.randrange(len(files))
        kind = files[f]['kind']
        mode = 'url' if kind == 'old' and rng.random() < 0.3 else 'file'
        r = rng.random()
        if r < 0.3:
            fault = None
        elif r < 0.5 and mode == 'file':
            k = rng.choice(['err', 'err', 'short', 'interrupt'])
            fault = ['fs', rng.random(), fs.gen_fault(rng, 300, ['readerr' if k == 'err' else k])]
        elif r < 0.5:
            fault = ['net', rng.choice([['raise', 'ConnectionError'], ['raise', 'Timeout'], ['raise', 'ChunkedEncodingError'],
                                        ['status', 404, '<html><body>Not found</body></html>'], ['status', 500, 'error: internal error'],
                                        ['status', 503, '{}'], ['status', 404, ''], ['status', 502, 'SAME'], ['status', 404, 'SAME'], ['status', 429, 'SAME']])]
        elif r < 0.65:
            fault = ['text', rng.choice(['cut', 'cut', 'drop', 'byte']), rng.random(), rng.choice([':', '#', '\t', '"', '[', '-', 'x', '\n', '0', '{'])]
        elif r < 0.83:
            fault = ['bad', rng.randrange(4), rng.choice(BADS)]
        else:
            fault = ['hit', rng.random(), rng.choice(['KeyboardInterrupt', 'MemoryError', 'ValueError', 'KeyError'])]
        ops.append([f, mode, fault, rng.randrange(6)])
    return dict(files=files, ops=ops, draw=rng.randrange(1000))


def registry():
    """Everything loading can change, by public queries."""
    ms = [(n, id(m), m.inspire, m.experiment, m.url, m.description, [(str(p), repr(world.outcome(m.get_central, p))) for p in m.all_parameters])
          for n, m in flavio.Measurement.instances.items()]
    ps = [(n, id(p), p.tex, p.description) for n, p in flavio.Parameter.instances.items()]
    return ms, ps, list(flavio.Observable.instances)


def execute(sc, ctx):
    root = core.scratch_dir()
    obs = [tuple(o) if isinstance(o, list) else o for o in OBS]
    rng = random.Random(sc['draw'])
    ms = {}                                # name -> RefStore or None (content not known)
    meta = {}
    store, sref = flavio.ParameterConstraints(), RefStore()
    for i in (0, 3):
        sp = {'distribution': 'normal', 'central_value': c10.center(i), 'standard_deviation': 1.}
        store.add_constraint([PARS[i]], dists.build(sp))
        sref.add([PARS[i]], sp)
    known = {n: True for n in flavio.Parameter.instances}
    response = [None]
    net.install(lambda url: response[0])

    def entries(f, data):
        """Entries of parsed data of a measurement file: {name: entry}."""
        if f['kind'] == 'old':
            return data if isinstance(data, dict) else None
        l = [data] if isinstance(data, dict) else data
        try:
            return {d['arguments']['name']: d for d in l}
        except Exception:
            return None

    for n, (fi, mode, fault, style) in enumerate(sc['ops']):
        ctx.steps += 1
        f = sc['files'][fi]
        kind = f['kind']
        bad = None
        src = f
        if fault and fault[0] == 'bad':
            src = invalidate(f, fault[1], fault[2])
            bad = True
        txt = text(plain(src), style)
        if fault and fault[0] == 'text':
            i = min(int(fault[2] * len(txt)), len(txt) - 1)
            txt = {'cut': txt[:i], 'drop': txt[:i] + txt[i + 1:], 'byte': txt[:i] + fault[3] + txt[i + 1:]}[fault[1]]
        path = os.path.join(root, 'file%d.yml' % n)
        with fs.real_open(path, 'w', encoding='utf8') as h:
            h.write(txt)
        response[0] = ('ok', txt)
        if fault and fault[0] == 'net':
            response[0] = tuple(txt if x == 'SAME' else x for x in fault[1])

        def call():
            if kind in ('old', 'new', 'newdict'):
                if mode == 'url':
                    return flavio.measurements.read_url('http://example.org/x.yml')
                return flavio.measurements.read_file(path)
            if kind == 'values':
                return flavio.parameters.read_file_values(path, store)
            if kind == 'corr':
                return flavio.parameters.read_file_values_correlated(path, store)
            if kind == 'meta':
                return flavio.parameters.read_file_metadata(path, store)
            result[0] = flavio.parameters.read_file(path)
        result = [None]
        before = registry() + (str(store.get_yaml_dict()),)
        inj = dev = None
        if fault and fault[0] == 'fs':
            def count():
                with fs.FS(root) as d:
                    world.outcome(call)
                return d.n
            total = core.in_fork(count)
            dev = fs.FS(root, ctx, [[min(int(fault[1] * total), total - 1), fault[2]]])
            with dev:
                got = raw_outcome(call)
            fired = bool(dev.fired)
        elif fault and fault[0] == 'hit':
            at = trace.pick(core.in_fork(trace.profile, call, world.outcome, ()), fault[1])
            inj = trace.Cut(at, par_exc(fault[2]))
            with inj:
                got = raw_outcome(call)
            fired = bool(inj.fired)
            if fired:
                ctx.fault('cut:' + fault[2])
        else:
            with fs.FS(root, ctx):
                got = raw_outcome(call)
            fired = fault is not None
            if fired:
                ctx.fault(':'.join(str(x) for x in fault[:2] + fault[2:3] if isinstance(x, str)))
        where = 'load %d of %s file %r by %s with %r%s: %s' % (
            n, kind, fi, mode, fault, ' (at %s)' % inj.fired if inj and inj.fired else '', world.short(got))
        ctx.log(n, kind, mode, fault, got)
        ctx.count('load:' + kind)
        ctx.fp(kind, mode, (fault or [0])[0], got[0], len(ms), len(sref.map))
        left = fs.open_files(root)
        if left:
            raise core.Violation('open_file', '%s left open: %r' % (where, left))
        after = registry() + (str(store.get_yaml_dict()),)
        late = False
        if got[0] == 'exc':
            changed = [what for a, b, what in zip(before, after, ('measurements', 'parameters', 'observables', 'constraints')) if a != b]
            late = bool(changed) and fault is not None and fault[0] in ('fs', 'hit')
            if changed and not late:
                raise core.Violation('partial:' + changed[0], '%s failed but changed the %s: %r\n%s' % (
                    where, changed[0], difference(before, after), txt[:600]))
            needed = [p for ids, _ in f['cons'] for p in ids] if kind in ('values', 'corr') else []
            valid = all(PARS[i] in known for i in needed)
            if fault is None and valid:
                raise core.Violation('rejected', '%s: an intact file was rejected\n%s' % (where, txt[:600]))
            if fault and fault[0] == 'fs' and fault[2][0] == 'short' and valid:
                raise core.Violation('rejected', '%s: a short read made the load fail\n%s' % (where, txt[:600]))
        if late and (not fired or bad):
            raise core.Violation('partial', '%s failed but changed %r' % (where, difference(before, after)))
        if late:
            # the failure came after everything had been read: all of the file must be there
            ctx.count('late failure')
            where += ' [failed but changed %r]' % (difference(before, after),)
        if got[0] == 'ok' or late:
            if bad:
                raise core.Violation('accepted', '%s: a file with an invalid entry was accepted\n%s' % (where, txt[:600]))
            if fault and fault[0] == 'net':
                raise core.Violation('accepted', '%s: a failed download was accepted' % where)
            data = yaml.safe_load(txt)
            if kind in ('old', 'new', 'newdict'):
                ent = entries(f, data)
                if ent is None or not late and sorted(map(str, got[2])) != sorted(map(str, ent)):
                    raise core.Violation('names', '%s: the file has %r' % (where, None if ent is None else list(ent)))
                for (name, d), cons in zip(f['data'], f['cons']):
                    if name in ent:
                        if name in ms:
                            ctx.nontrivial = True
                        if ent[name] == d or ent[name] == yaml.safe_load(text(d, style)):
                            r = ms[name] = RefStore()
                            for ids, sp in cons:
                                r.add([obs[i] for i in ids], sp)
                            meta[name] = d if kind == 'old' else d.get('metadata', {})
                        else:
                            ms[name] = None
                for name in ent:
                    if name not in flavio.Measurement.instances or late and not changed_entry(name, before, after) or flavio.Measurement[name].name != name:
                        raise core.Violation('missing', '%s: %r is not registered' % (where, name))
                    if name not in [x for x, _ in f['data']]:
                        ms[name] = None
                # other measurements are untouched
                a = [m for m in registry()[0] if m[0] not in ent]
                if a != [m for m in before[0] if m[0] not in ent]:
                    raise core.Violation('others', '%s changed other measurements' % where)
            elif kind == 'meta':
                for name, info in data.items():
                    p = flavio.Parameter[name]
                    for k in ('tex', 'description') if isinstance(info, dict) else ():
                        if info.get(k) is not None and getattr(p, k) != info[k]:
                            raise core.Violation('content', '%s: %s of %s is %r, the file has %r' % (where, k, name, getattr(p, k), info[k]))
                    known[name] = True
                a = [m for m in registry()[1] if m[0] not in data]
                if a != [m for m in before[1] if m[0] not in data]:
                    raise core.Violation('others', '%s changed other parameters' % where)
            elif fault and fault[0] == 'text' and data != yaml.safe_load(text(plain(f), style)):
                return                         # content not known
            elif kind == 'pnew' and late:
                raise core.Violation('partial', where)
            elif kind == 'pnew':
                r = RefStore()
                for ids, sp in f['cons']:
                    r.add([PARS[i] for i in ids], sp)
                check(rng, result[0], r, ctx, where + ', result')
            else:
                for ids, sp in f['cons']:
                    if any(PARS[i] in sref.map for i in ids):
                        ctx.nontrivial = True
                    sref.add([PARS[i] for i in ids], sp)
        check(rng, store, sref, ctx, where + ', parameter constraints')
        for name, r in ms.items():
            if r is not None:
                m = flavio.Measurement[name]
                check(rng, m, r, ctx, where + ', measurement %r' % name)
                for k in ('inspire', 'experiment', 'url'):
                    if k in meta[name] and getattr(m, k) != meta[name][k]:
                        raise core.Violation('content', '%s: %s of %r is %r, the file has %r' % (where, k, name, getattr(m, k), meta[name][k]))


def difference(before, after):
    for a, b in zip(before, after):
        if a != b:
            if isinstance(a, str):
                return 'constraints'
            return [x[0] if isinstance(x, tuple) else x for x in b if x not in a][:3] or [x[0] for x in a if x not in b][:3] or 'order'


def changed_entry(name, before, after):
    return dict((m[0], m) for m in before[0]).get(name) != dict((m[0], m) for m in after[0])[name]


def raw_outcome(call):
    try:
        return ('ok', None, call())
    except (KeyboardInterrupt, Exception) as e:
        return ('exc', type(e).__name__, str(e)[:200])


def check(rng, store, ref, ctx, where):
    def fresh():
        o = flavio.ParameterConstraints()
        for spec, ps in ref.cons.values():
            o.add_constraint(list(ps), dists.build(spec))
        return o
    try:
        c10.query(rng, store, ref, fresh, ctx, where)
    except core.Violation as e:
        raise core.Violation('content:' + e.kind, e.msg if hasattr(e, 'msg') else str(e))
