"""C13: included YAML files are used completely or loading fails."""
import io
import json
import os
import random
import warnings

import numpy as np
import yaml
import flavio
import flavio.io.yaml
from flavio.statistics.likelihood import MeasurementLikelihood, Likelihood
from .. import core, world, trace, dists, fs
from . import c10, c11
from .c05 import par_exc

ID = 'C13'
TIERS = {'quick': dict(runs=100000, seconds=35), 'thorough': dict(runs=3000000, seconds=780)}
SHRINK_LISTS = ('ops',)
RULE = ('a case is a tree of generated YAML files in nested directories (mappings, lists, scalars, !include and '
        '!include_merge_list with relative, absolute and .. paths, literals that look like paths, missing, unparsable and '
        'non-list files) loaded 1-6 times (stream, relative stream, string, nameless stream, as likelihood), each with at most one '
        'fault: error of the k-th open or read, short read, interrupt, exception at a source line, changed or removed file. '
        'The result is compared with a reference interpreter of the tree. Non-trivial: at least 2 files were read. Distinct by scenario hash.')
STEP = 'loads'
STATE_MEASURE = 'hash of (mode, fault, operation it struck, outcome, files read)'
REAL = ['flavio.io.yaml', 'flavio.io.instanceio', 'flavio.statistics.likelihood', 'yaml', 'Python file objects above the raw device']
STUB = ['raw file opens and reads (simulated device over real scratch files)', 'delivery of the injected exception']
ASSUMPTIONS = []
DIRS = ['', 'sub', 'sub/deep', 'other']
MEASURED = ['BR(Bs->mumu)', 'DeltaM_s', 'DeltaM_d', 'eps_K', 'BR(B->Xsgamma)', 'BR(B+->taunu)', 'BR(B0->mumu)', 'S_psiK']
WORDS = MEASURED + ['x', '', '.', '..', 'sub', 'no/such/file.yml', 'f0.yml/x', 'missing.yml', '/verif no such file', 'name with blanks', 'a' * 300,
                    'sub/../missing', '~', '1.5 +- 2', 'deep', 'no.yml', 'f1', 'F0.yml', ' f0.yml']


def scalar(rng):
    k = rng.random()
    if k < 0.5:
        return rng.choice(WORDS)
    return rng.choice([1, 0, -3, 2.5, True, None, 'true', '3', 'é', 'a: b', '# c', '- d'])


class Gen:
    def __init__(self, rng, nfiles):
        self.rng, self.n = rng, nfiles
        self.dirs = [''] + [rng.choice(DIRS) for _ in range(nfiles - 1)]
        self.words = 0

    def node(self, i, depth=0):
        """A node of file i: [kind, ...]"""
        rng = self.rng
        k = rng.random()
        if k < 0.28 and i + 1 < self.n:
            return ['inc', self.ref(i)]
        if k < 0.55 and (i + 1 < self.n or rng.random() < 0.3):
            return ['merge', self.items(i)]
        if depth < 2 and k < 0.72:
            return ['map', [['k%d' % j, self.node(i, depth + 1)] for j in range(rng.randint(0, 3))]]
        if depth < 2 and k < 0.88:
            return ['seq', [self.node(i, depth + 1) for j in range(rng.randint(0, 3))]]
        return ['val', scalar(rng)]

    def items(self, i, words=None):
        rng = self.rng
        out = []
        for _ in range(rng.randint(0, 5)):
            if rng.random() < 0.5 and i + 1 < self.n:
                out.append(['file', self.ref(i)])
            elif words or rng.random() < 0.8:
                out.append(['val', rng.choice(words) if words else scalar(rng)])
            else:
                out.append(['val', rng.choice([{'name': 'dBR/dq2(B0->K*mumu)', 'q2': 1.1}, ['f0.yml', 2], {'l': [1, [2]]}, []])])
        return out

    def ref(self, i):
        rng = self.rng
        r = rng.random()
        j = rng.randrange(i + 1, self.n)
        return [j, rng.choice(['rel', 'rel', 'rel', 'abs', 'dot', 'up'])] if r < 0.95 else [None, rng.choice(['rel', 'abs'])]


def twins(rng, mode):
    """The same relative names with different content below different directories."""
    n = 5 + rng.randint(0, 2)
    g = Gen(rng, n)
    a, b = rng.sample(DIRS[1:], 2)
    dirs = ['', a, b, a, b] + [rng.choice(DIRS) for _ in range(n - 5)]

    def wrap(inner):
        form = rng.choice(['rel', 'rel', 'rel', 'dot', 'abs'])
        if mode == 'tree':
            out = [['k%d' % j, g.node(4)] for j in range(rng.randint(0, 2))]
            for j in inner:
                out.insert(rng.randint(0, len(out)), ['in%d' % j, ['inc', [j, form]]])
            return ['map', out]
        return ['merge', [['file', [j, form]] for j in inner for _ in range(rng.choice([1, 1, 2]))] + g.items(4)]
    files = [['', wrap(rng.sample([1, 2, 3, 4], 4) if rng.random() < 0.3 else rng.sample([1, 2], 2))]]
    files += [[a, wrap([3])], [b, wrap([4])]]
    for i in range(3, n):
        files.append([dirs[i], ['map', [['v', ['val', i]], ['w', g.node(i)]]] if mode == 'tree' else
                      ['merge', [['val', 'word %d' % i]] + g.items(i)]])
    return [f + [rng.randrange(6)] for f in files]


def generate(rng, idx, tier):
    n = rng.choice([1, 2, 3, 4, 6])
    g = Gen(rng, n)
    mode = rng.choice(['tree', 'tree', 'tree', 'lists', 'lists', 'ml', 'lik'])
    files = []
    for i in range(n):
        if mode == 'tree':
            node = g.node(i) if i or rng.random() < 0.3 else ['map', [['k%d' % j, g.node(i)] for j in range(rng.randint(1, 3))]]
            if rng.random() < 0.3:
                node = ['merge', g.items(i)]
        else:
            words = MEASURED if mode in ('ml', 'lik') else None
            node = ['merge', g.items(i, words)] if rng.random() < 0.7 else ['seq', [['val', rng.choice(words or WORDS)] for _ in range(rng.randint(0, 3))]]
            if words and i == 0:
                node = ['map', [['observables', ['merge', g.items(0, words) + [['val', rng.choice(words)]]]]]]
        files.append([g.dirs[i], node, rng.randrange(6)])
    if mode in ('tree', 'lists') and rng.random() < 0.35:
        files = twins(rng, mode)
        n = len(files)
    pars = []
    if mode == 'lik':
        for i in rng.sample(range(len(c11.PARS) - 2), rng.choice([1, 2])):
            pars.append([[i], c10.gen_1d(rng, i)])
    ops = []
    for _ in range(rng.randint(1, 6)):
        how = rng.choice(['stream', 'stream', 'rel', 'string', 'nameless', 'fd']) if mode in ('tree', 'lists') else rng.choice(['stream', 'rel'])
        r = rng.random()
        if r < 0.25:
            fault = None
        elif r < 0.6:
            k = rng.choice(['err', 'err', 'err', 'short', 'interrupt'])
            fault = ['fs', rng.random(), fs.gen_fault(rng, 100, [k]) if k != 'err' else
                     ['err', rng.choice(['EACCES', 'EMFILE', 'ENFILE', 'EIO', 'ESTALE', 'ELOOP', 'ENOMEM', 'EISDIR', 'EINVAL', 'ENOENT', 'ENOTDIR', 'EPERM', 'ETIMEDOUT', 'EINTR'])]]
        elif r < 0.75:
            fault = ['hit', rng.random(), rng.choice(['KeyboardInterrupt', 'MemoryError', 'ValueError', 'KeyError'])]
        elif r < 0.85:
            fault = ['gone', rng.randrange(n)]
        elif r < 0.95:
            fault = ['bad', rng.randrange(n), rng.choice(['a: [1', 'a: b: c', '\t- x', 'some text', 'a: 1', '', '5', '[1, 2', 'x: !include', '- "open', 'x: &a 1\ny: *b', '{a: 1, b: 2}', 'null', '- !nonsense 1'])]
        else:
            fault = ['chdir']
        ops.append([how, fault])
    return dict(files=files, mode=mode, ops=ops, pars=pars, draw=rng.randrange(1000))


class Fails(Exception):
    """The reference says loading has to fail."""


class Tree:
    def __init__(self, sc, root):
        self.sc, self.root = sc, root
        self.override = {}
        self.read = []

    def path(self, i):
        # files in different directories have the same names
        d = self.sc['files'][i][0]
        return os.path.join(self.root, d, 'f%d.yml' % sum(f[0] == d for f in self.sc['files'][:i]))

    def written(self, i, ref, base):
        """How a reference in file i (directory base) is written."""
        j, form = ref
        p = os.path.join(self.root, 'nothing.yml') if j is None else self.path(j)
        if form == 'abs':
            return p
        r = os.path.relpath(p, base)
        if form == 'dot':
            return './' + r
        if form == 'up':
            return '../' + os.path.basename(base) + '/' + r
        return r

    # text of a file
    def text(self, i):
        base = os.path.dirname(self.path(i))
        style = self.sc['files'][i][2]

        def emit(node):
            k = node[0]
            if k == 'inc':
                return '!include ' + quote(self.written(i, node[1], base), style)
            if k == 'merge':
                return '!include_merge_list [' + ', '.join(
                    quote(self.written(i, x[1], base), style) if x[0] == 'file' else flow(x[1]) for x in node[1]) + ']'
            if k == 'map':
                return '{' + ', '.join('%s: %s' % (a, emit(b)) for a, b in node[1]) + '}'
            if k == 'seq':
                return '[' + ', '.join(emit(b) for b in node[1]) + ']'
            return flow(node[1])
        node = self.sc['files'][i][1]
        extra = ''
        if i == 0 and self.sc['mode'] == 'lik':
            extra = 'par_obj: !include pars.yml\nfit_parameters: !include_merge_list [fit.yml, m_c]\n'
        if style % 2 and node[0] == 'map' and node[1]:
            return extra + ''.join('%s: %s\n' % (a, emit(b)) for a, b in node[1])
        if style % 2 and node[0] == 'seq' and node[1]:
            return ''.join('- %s\n' % emit(b) for b in node[1])
        if style % 2 and node[0] == 'merge' and node[1]:
            return '!include_merge_list\n' + ''.join('- %s\n' % (
                quote(self.written(i, x[1], base), style) if x[0] == 'file' else flow(x[1])) for x in node[1])
        if extra:
            return extra + ''.join('%s: %s\n' % (a, emit(b)) for a, b in node[1])
        return emit(node) + '\n'

    # value of a file
    def value(self, i, root=True):
        """root: False if the text is loaded without a path."""
        if i in self.override:
            t = self.override[i]
            if t is None:
                raise Fails('missing file')
            self.read.append(i)
            try:
                return yaml.safe_load(t)
            except yaml.YAMLError as e:
                raise Fails(str(e))
        self.read.append(i)

        def val(node):
            k = node[0]
            if k == 'inc':
                j, form = node[1]
                if j is None or not root and form != 'abs':
                    raise Fails('include')
                return self.value(j)
            if k == 'merge':
                out = []
                for x in node[1]:
                    if x[0] == 'file':
                        j, form = x[1]
                        if j is not None and (root or form == 'abs') and self.override.get(j, '') is not None:
                            v = self.value(j)
                            if not isinstance(v, list):
                                raise Fails('not a list')
                            out += v
                        else:
                            out.append(self.written(i, x[1], os.path.dirname(self.path(i))))
                    else:
                        v = x[1]
                        if isinstance(v, str) and root:
                            p = os.path.join(os.path.dirname(self.path(i)), v)
                            if os.path.isfile(p):
                                raise core.HarnessError('literal %r is a file' % v)
                        out.append(v)
                return out
            if k == 'map':
                return {a: val(b) for a, b in node[1]}
            if k == 'seq':
                return [val(b) for b in node[1]]
            return node[1]
        return val(self.sc['files'][i][1])


def quote(s, style):
    return '"%s"' % s if style % 3 else "'%s'" % s


def flow(v):
    return json.dumps(v, ensure_ascii=False)


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def execute(sc, ctx):
    warnings.simplefilter('ignore')
    root = os.path.realpath(core.scratch_dir())
    top = os.path.join(root, 'top')
    for d in DIRS:
        os.makedirs(os.path.join(top, d), exist_ok=True)
    os.makedirs(os.path.join(root, 'elsewhere'))
    tree = Tree(sc, top)
    n = len(sc['files'])
    if sc['mode'] == 'lik':
        write(os.path.join(top, 'pars.yml'), yaml.dump([{'parameters': [c11.PARS[i] for i in ids], 'values': c11.fname(sp)} for ids, sp in sc['pars']]))
        write(os.path.join(top, 'fit.yml'), '- m_b\n- Vcb\n')
    for m, (how, fault) in enumerate(sc['ops']):
        ctx.steps += 1
        tree.override = {}
        tree.read = []
        if fault and fault[0] == 'gone' and fault[1] > 0:
            tree.override = {fault[1]: None}
        elif fault and fault[0] == 'bad':
            tree.override = {fault[1]: fault[2]}
        for i in range(n):
            p = tree.path(i)
            t = tree.override.get(i, tree.text(i))
            if t is None:
                if os.path.exists(p):
                    os.unlink(p)
            else:
                write(p, t)
        named = how in ('stream', 'rel')
        try:
            exp = ('ok', None, tree.value(0, named))
        except Fails as e:
            exp = ('fails', str(e))
        if len(tree.read) > 1:
            ctx.nontrivial = True
        os.chdir(os.path.join(root, 'elsewhere'))
        if how == 'rel':
            os.chdir(top)
        text = tree.override.get(0, tree.text(0))
        load = {'tree': flavio.io.yaml.load_include, 'lists': flavio.io.yaml.load_include,
                'ml': MeasurementLikelihood.load, 'lik': Likelihood.load}[sc['mode']]

        def call():
            if how == 'string':
                return load(text)
            if how == 'nameless':
                return load(io.StringIO(text))
            if how == 'fd':
                with fs.real_open(fs.real['open'](tree.path(0), os.O_RDONLY), 'r') as f:
                    return load(f)
            with open('f0.yml' if how == 'rel' else tree.path(0), 'r', encoding='utf8') as f:
                if fault and fault[0] == 'chdir' and how == 'stream':
                    os.chdir(os.path.join(root, 'elsewhere'))
                return load(f)
        inj = dev = None
        fired = None
        if fault and fault[0] == 'fs':
            def count():
                with fs.FS(root) as d:
                    world.outcome(call)
                return d.n
            total = core.in_fork(count)
            if not total:
                continue
            dev = fs.FS(root, None, [[min(int(fault[1] * total), total - 1), fault[2]]])
            with dev:
                got = c11.raw_outcome(call)
            if dev.fired:
                fired = dev.fired[0][1:]
                ctx.fault('fs:' + '_'.join(str(x) for x in fired))
        elif fault and fault[0] == 'hit':
            at = trace.pick(core.in_fork(trace.profile, call, world.outcome, ()), fault[1])
            inj = trace.Cut(at, par_exc(fault[2]))
            with inj:
                got = c11.raw_outcome(call)
            if inj.fired:
                fired = ('cut', fault[2])
                ctx.fault('cut:' + fault[2])
        else:
            with fs.FS(root):
                got = c11.raw_outcome(call)
            if fault:
                ctx.fault(':'.join(str(x) for x in fault[:1]))
        where = 'load %d (%s, %s) with %r -> %s: %s\n%s' % (m, sc['mode'], how, fault, fired, world.short((got[0], got[1], plain(got[2]) if got[0] == 'ok' else got[2])),
                                                      '\n'.join('%s: %s' % (os.path.relpath(tree.path(i), top), tree.override.get(i, tree.text(i))) for i in range(n))[:1500])
        ctx.log(m, how, fault, fired, got[:2])
        ctx.count('load:' + sc['mode'])
        ctx.fp(sc['mode'], how, fired, (fault or [0])[0], got[:2], len(tree.read))
        left = fs.open_files(root)
        if left:
            raise core.Violation('open_file', '%s\nleft open: %r' % (where, left))
        notfound = fired and fired[0] == 'err' and fired[2] == 'open' and fired[1] in ('ENOENT', 'ENOTDIR', 'EINVAL', 'EISDIR')
        if got[0] == 'exc':
            if exp[0] == 'ok' and (not fired or fired[0] == 'short'):
                if sc['mode'] in ('tree', 'lists'):
                    raise core.Violation('refused', '%s\nexpected %r' % (where, exp[2]))
                if valid(sc, exp[2]):
                    raise core.Violation('refused', '%s\nexpected %r' % (where, exp[2]))
            continue
        if notfound:
            continue                       # as if the file did not exist
        if exp[0] != 'ok':
            raise core.Violation('accepted', '%s\nloading has to fail: %s' % (where, exp[1]))
        if sc['mode'] in ('tree', 'lists'):
            g = plain(got[2])
            if g != plain(exp[2]) or repr(g) != repr(plain(exp[2])):
                raise core.Violation('content', '%s\nexpected %r' % (where, plain(exp[2])))
        else:
            check_likelihood(sc, got[2], exp[2], where)


def write(p, t):
    with fs.real_open(p, 'w', encoding='utf8') as f:
        f.write(t)


def obs_key(o):
    if isinstance(o, dict):
        return tuple([o['name']] + [o[a] for a in flavio.Observable[o['name']].arguments])
    return o


def valid(sc, v):
    """Whether the value is a valid definition of a likelihood."""
    if not isinstance(v, dict) or not isinstance(v.get('observables'), list):
        return False
    for o in v['observables']:
        if isinstance(o, dict):
            if 'name' not in o:
                return False
        elif o not in MEASURED:
            return False
    return True


def check_likelihood(sc, lik, exp, where):
    if not valid(sc, exp):
        raise core.Violation('accepted', '%s\nnot the definition of a likelihood: %r' % (where, exp))
    obs = []
    for o in map(obs_key, exp['observables']):
        if o not in obs:
            obs.append(o)
    if list(lik.observables) != obs:
        raise core.Violation('content', '%s\nobservables are %r, expected %r' % (where, lik.observables, obs))
    if sc['mode'] != 'lik':
        return
    if list(lik.fit_parameters) != ['m_b', 'Vcb', 'm_c']:
        raise core.Violation('content', '%s\nfit parameters are %r' % (where, lik.fit_parameters))
    central = lik.par_obj.get_central_all()
    want = dict(flavio.default_parameters.get_central_all())
    for ids, sp in sc['pars']:
        for k, i in enumerate(ids):
            want[c11.PARS[i]] = dists.central(sp)[k] if dists.ndim(sp) > 1 else np.ravel(dists.central(sp))[0]
    for p in want:
        if not np.isclose(central[p], want[p], rtol=1e-9, atol=0):
            raise core.Violation('content', '%s\n%s is %r, expected %r' % (where, p, central[p], want[p]))
