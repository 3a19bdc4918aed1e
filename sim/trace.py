"""Interruption injector and deterministic thread scheduler, both driven by
source-line events in flavio's files."""
import ast
import dis
import operator
import os
import sys
import threading
import types
import _thread

import numpy as np

_repo = os.path.realpath(os.environ.get('VERIF_REPO', '/repo')) + os.sep
_files = {}


def _excluded_lines(path):
    """Lines at which raising would not be a faithful interruption: headers of
    `with` statements (the event fires again around __exit__), bodies of
    finally/except clauses."""
    ex = set()
    try:
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read())
    except Exception:
        return None
    for node in ast.walk(tree):
        if isinstance(node, (ast.With, ast.AsyncWith)):
            last = max([n.end_lineno or n.lineno for n in
                        [i.context_expr for i in node.items]])
            ex.update(range(node.lineno, last + 1))
        if isinstance(node, ast.Try):
            for part in (node.finalbody, *[h.body for h in node.handlers]):
                for st in part:
                    ex.update(range(st.lineno, (st.end_lineno or st.lineno) + 1))
            for h in node.handlers:
                ex.add(h.lineno)
            ex.add(node.lineno)
    return ex


def _eligible_file(filename):
    r = _files.get(filename)
    if r is None:
        path = os.path.realpath(filename)
        r = False
        if path.startswith(_repo) and os.sep + 'flavio' + os.sep in path[len(_repo) - 1:]:
            base = os.path.basename(path)
            if not base.startswith('test_') and base != 'citations.py':
                lines = _excluded_lines(path)
                if lines is not None:
                    r = lines
                    if r == set():
                        r = frozenset([-1])
        _files[filename] = r
    return r


def flavio_file(filename):
    r = _flavio.get(filename)
    if r is None:
        path = os.path.realpath(filename)
        r = _flavio[filename] = (path.startswith(_repo) and os.sep + 'flavio' + os.sep in path[len(_repo) - 1:]
                                 and not os.path.basename(path).startswith('test_'))
    return r


def prepare():
    """Look at the source files once, before forking."""
    for m in list(sys.modules.values()):
        f = getattr(m, '__file__', None)
        if isinstance(f, str):
            _eligible_file(f)
            flavio_file(f)


_flavio = {}
_skip_names = {'<module>', '__enter__', '__exit__', '__del__', '<lambda>'}


class LineTracer:
    """Calls self.line(frame) at each eligible line event of this thread."""

    def install(self):
        sys.settrace(self._global)

    def uninstall(self):
        sys.settrace(None)

    def _global(self, frame, event, arg):
        code = frame.f_code
        ex = _eligible_file(code.co_filename)
        if ex is False or code.co_name in _skip_names:
            return None
        line = self.line

        def local(frame, event, arg):
            if event == 'line' and frame.f_lineno not in ex:
                line(frame)
            return local
        return local


class Counter(LineTracer):
    def __init__(self):
        self.n = 0

    def line(self, frame):
        self.n += 1

    def __enter__(self):
        self.install()
        return self

    def __exit__(self, *a):
        self.uninstall()


_MUTATE = {'append', 'update', 'pop', 'setdefault', 'clear', 'extend', 'add', 'insert', 'remove', 'sort', 'fill', 'discard', 'popitem', 'copyto'}
_SESSION = {'environ', 'seterr', 'simplefilter', 'filterwarnings', 'chdir', 'seed', 'set_state', 'geterr', 'catch_warnings', 'errstate', '__dict__'}
_stateful = {}


def stateful(code, g):
    """Whether a function (code object, globals) writes to something it may share: attributes,
    globals, containers held by globals, closures or arguments. Only used to
    choose where to interrupt or preempt."""
    r = _stateful.get(code)
    if r is None:
        try:
            r = _is_stateful(code, g)
        except Exception:
            r = False
        _stateful[code] = r
    return r


def _is_stateful(code, g):
    stores = shared = False
    args = set(code.co_varnames[:code.co_argcount + code.co_kwonlyargcount])
    ins = list(dis.get_instructions(code))
    for n, i in enumerate(ins):
        o, a = i.opname, i.argval
        if o in ('STORE_GLOBAL', 'DELETE_GLOBAL', 'STORE_ATTR', 'DELETE_ATTR'):
            return True
        if o in ('STORE_SUBSCR', 'DELETE_SUBSCR', 'STORE_SLICE'):
            stores = True
            if n > 1 and ins[n - 2].opname in ('LOAD_FAST', 'LOAD_DEREF') and (ins[n - 2].opname == 'LOAD_DEREF' or ins[n - 2].argval in args):
                return True
        if o in ('LOAD_METHOD', 'LOAD_ATTR'):
            if a in _SESSION:
                return True
            if a in _MUTATE:
                stores = True
                if n and (ins[n - 1].opname == 'LOAD_DEREF' or ins[n - 1].opname == 'LOAD_FAST' and ins[n - 1].argval in args - {'self'}):
                    return True
            if a == 'config':
                shared = True
        if o == 'LOAD_GLOBAL':
            v = g.get(a)
            if isinstance(v, (dict, list, set)) or (v is not None and not callable(v) and not isinstance(
                    v, (types.ModuleType, int, float, complex, str, tuple, bytes, frozenset))):
                shared = True
    return stores and shared


_mon = sys.monitoring
_TOOL = 4


class _Monitor:
    """Line events by sys.monitoring; locations that are of no interest (any
    more) cost nothing."""

    def __enter__(self):
        _mon.use_tool_id(_TOOL, 'verif')
        _mon.register_callback(_TOOL, _mon.events.LINE, self._line)
        _mon.restart_events()
        _mon.set_events(_TOOL, _mon.events.LINE)
        return self

    def __exit__(self, *a):
        _mon.set_events(_TOOL, 0)
        _mon.register_callback(_TOOL, _mon.events.LINE, None)
        _mon.free_tool_id(_TOOL)

    def _line(self, code, line):
        ex = _eligible_file(code.co_filename)
        if ex is False or code.co_name in _skip_names or line in ex:
            return _mon.DISABLE
        return self.line(code, line)


class Profiler(_Monitor):
    """Which lines a call executes, and how often (up to `keep`)."""

    def __init__(self, keep=12):
        self.keep = keep
        self.locs = {}
        self.state = {}

    def line(self, code, line):
        k = (code, line)
        n = self.locs[k] = self.locs.get(k, 0) + 1
        if code not in self.state:
            self.state[code] = stateful(code, sys._getframe(2).f_globals)
        if n >= self.keep:
            return _mon.DISABLE


class Watch:
    """Detects that something a computation may share has changed since the
    previous event: the given dictionaries, globals of the module of the running
    and the previously running function (containers, small arrays and attributes of
    objects among them), and attributes of `self`. Only used to choose where
    to interrupt or preempt."""

    def __init__(self, dicts=()):
        self.dicts = [(d, dict(d)) for d in dicts]
        self.modules = {}      # id(globals) -> [globals, signature]
        self.selfs = {}        # id(self) -> [self, signature]
        self.last = None

    # a signature is (objects compared by identity - kept alive, so that
    # identities are not reused -, values compared by equality)
    @staticmethod
    def _container(v, sig):
        t = type(v)
        if isinstance(v, dict):
            sig[1].append(len(v))
            if len(v) < 1000:
                sig[0].extend(v.values())
        elif t is list or t is set:
            sig[1].append(len(v))
            if t is list and v:
                sig[0].append(v[-1])
        elif 0 < v.nbytes <= 4096 and not v.dtype.hasobject:
            sig[1].append(v.tobytes())

    def _attributes(self, o, sig):
        d = getattr(o, '__dict__', None)
        if type(d) is not dict or len(d) > 300:
            return
        sig[0].extend(d.values())
        for v in list(d.values()):
            if _is_container(v):
                self._container(v, sig)

    def _module(self, g):
        sig = ([], [])
        sig[0].extend(g.values())
        for v in list(g.values()):
            if _is_container(v):
                self._container(v, sig)
            elif type(v) is type:
                if v.__module__ == g.get('__name__'):
                    for x in list(vars(v).values()):
                        if isinstance(x, (dict, list, set)):
                            self._container(x, sig)
            elif type(v) is types.FunctionType:
                if v.__dict__:
                    self._container(v.__dict__, sig)
                if v.__defaults__:
                    for x in v.__defaults__:
                        if isinstance(x, (dict, list, set)):
                            self._container(x, sig)
            elif not isinstance(v, _SCALAR) and str(type(v).__module__).startswith('flavio'):
                self._attributes(v, sig)
        return sig

    @staticmethod
    def _same(a, b):
        return a[1] == b[1] and len(a[0]) == len(b[0]) and all(map(operator.is_, a[0], b[0]))

    def changed(self, frame):
        r = False
        for n, (d, c) in enumerate(self.dicts):
            if d != c:
                self.dicts[n] = (d, dict(d))
                r = True
        g = frame.f_globals
        for m in ([g] if self.last is None or self.last is g else [self.last, g]):
            e = self.modules.get(id(m))
            sig = self._module(m)
            if e is None:
                self.modules[id(m)] = [m, sig]
            elif not self._same(e[1], sig):
                e[1] = sig
                r = True
        self.last = g
        code = frame.f_code
        if code.co_argcount and code.co_varnames[0] == 'self' and code.co_name != '__init__':
            o = frame.f_locals.get('self')
            sig = ([], [])
            self._attributes(o, sig)
            e = self.selfs.get(id(o))
            if e is None:
                self.selfs[id(o)] = [o, sig]
            elif not self._same(e[1], sig):
                e[1] = sig
                r = True
        return r


def _is_container(v):
    return isinstance(v, (dict, list, set)) or type(v) is np.ndarray


_SCALAR = (int, float, complex, str, tuple, bytes, frozenset, types.ModuleType, types.BuiltinFunctionType, type(None))


class ChangeProfiler(Profiler):
    """In addition, the points reached just after something shared has changed."""

    def __init__(self, dicts=(), keep=12, full=False):
        super().__init__(keep)
        self.watch = None if dicts is None else Watch(dicts)
        self.changes = {}
        self.full = full

    def _line(self, code, line):
        if self.full:
            if not flavio_file(code.co_filename) or code.co_name == '<module>':
                return _mon.DISABLE
            return self.line(code, line)
        return super()._line(code, line)

    def line(self, code, line):
        n = self.locs.get((code, line), 0)
        f = sys._getframe(1)
        while f.f_code is not code:
            f = f.f_back
        if self.watch is not None and n < 5:
            try:
                if self.watch.changed(f):
                    self.changes.setdefault((code, line), []).append(n)
            except Exception:
                pass
        n = self.locs[code, line] = n + 1
        if code not in self.state:
            self.state[code] = stateful(code, f.f_globals)
        if n >= self.keep:
            return _mon.DISABLE


class DirtyProfiler(Profiler):
    """The points at which one of the given dictionaries and lists differs
    from what it was in the beginning."""

    def __init__(self, objects):
        super().__init__(2)
        self.base = [(o, o.copy()) for o in objects if isinstance(o, (dict, list, set))]
        self.dirty = {}

    def line(self, code, line):
        n = self.locs.get((code, line), 0)
        self.locs[code, line] = n + 1
        for o, c in self.base:
            try:
                if o != c:
                    self.dirty.setdefault((code, line), []).append(n)
                    break
            except Exception:
                pass
        if n >= self.keep:
            return _mon.DISABLE


def dirty(fn, outcome, objects):
    """[(function, line, [visits])...] at which an object of the caller has
    been changed."""
    with DirtyProfiler(objects) as p:
        outcome(fn)
    return sorted((_key(c), l, v) for (c, l), v in p.dirty.items())


def _key(c):
    return os.path.relpath(os.path.realpath(c.co_filename), _repo), c.co_name, c.co_firstlineno


def profile(fn, outcome, dicts=None, full=False):
    """Where `fn` can be interrupted; the points of change are determined if
    the dictionaries to be watched are given. ([((file, function, first line), line, times)...], functions writing to
    shared objects, [(function, line, [visits just after a change])...])."""
    with ChangeProfiler(dicts, full=full) as p:
        outcome(fn)
    key = {c: _key(c) for c in p.state}
    return (sorted((key[c], l, n) for (c, l), n in p.locs.items()), sorted({key[c] for c, s in p.state.items() if s}),
            sorted((key[c], l, v) for (c, l), v in p.changes.items()))


def position(prof, mode, u, v):
    """The point of execution chosen by u, v in [0, 1): uniformly over the
    executed lines weighted with their frequency, over distinct lines, over
    functions, over the functions outside of flavio/physics, over those
    writing to shared objects or over the points just after shared objects have
    changed, so that rarely executed code is reached as well.
    A point is (function, line, how many times the line was reached before)."""
    locs, state, changes = prof
    if not locs:
        return None
    if mode[:6] == 'change':
        if changes:
            x = changes[min(int(u * len(changes)), len(changes) - 1)]
            return x[0], x[1], x[2][min(int(v * len(x[2])), len(x[2]) - 1)]
        if mode == 'change!':
            return None
        mode = 'state'
    if mode == 'core':
        locs = [x for x in locs if not x[0][0].startswith('flavio/physics')] or locs
    if mode == 'state':
        locs = [x for x in locs if x[0] in state] or locs
    if mode == 'uniform':
        r = u * sum(x[2] for x in locs)
        for x in locs:
            if r < x[2]:
                break
            r -= x[2]
        return x[0], x[1], min(int(r), x[2] - 1)
    if mode in ('func', 'core', 'state'):
        funcs = sorted({x[0] for x in locs})
        u *= len(funcs)
        f = funcs[min(int(u), len(funcs) - 1)]
        u -= int(u)
        locs = [x for x in locs if x[0] == f]
    x = locs[min(int(u * len(locs)), len(locs) - 1)]
    return x[0], x[1], min(int(v * x[2]), x[2] - 1)


def pick(prof, u):
    """Point chosen by a single number."""
    return position(prof, MODES[int(u * 6000) % len(MODES)], u, u * 1e6 % 1)


MODES = ['uniform', 'line', 'func', 'func', 'core', 'core', 'state', 'change', 'change', 'change']


class Cut(_Monitor):
    """Raises `exc` at a point given by `position`."""

    def __init__(self, at, exc):
        (self.file, self.func, self.first), self.lineno, self.left = at
        self.exc = exc
        self.fired = None

    def line(self, code, line):
        if self.fired or line != self.lineno or code.co_name != self.func or code.co_firstlineno != self.first:
            return _mon.DISABLE
        if os.path.relpath(os.path.realpath(code.co_filename), _repo) != self.file:
            return _mon.DISABLE
        if self.left == 0:
            self.fired = '%s:%d %s' % (self.file, line, self.func)
            raise self.exc
        self.left -= 1


class Injector(LineTracer):
    """Raises `exc` at the k-th (0-based) eligible line event."""

    def __init__(self, k, exc, optional=False):
        self.k, self.exc = k, exc
        self.n = 0
        self.fired = None

    def line(self, frame):
        n = self.n
        self.n += 1
        if n == self.k and self.fired is None:
            self.fired = '%s:%d %s' % (os.path.relpath(os.path.realpath(frame.f_code.co_filename), _repo),
                                       frame.f_lineno, frame.f_code.co_name)
            raise self.exc

    def __enter__(self):
        self.install()
        return self

    def __exit__(self, *a):
        self.uninstall()


# ---------------------------------------------------------------- threads
_sched = None


def active_scheduler():
    s = _sched
    if s is not None and _thread.get_ident() in s.idents:
        return s
    return None


class Deadlock(BaseException):
    pass


class Scheduler:
    """Runs callables in real threads, exactly one at a time; at each chosen
    preemption point the next thread and the number of lines it may run are
    taken from the decision source."""

    def __init__(self, funcs, choose, quantum, ctx, max_switches=20000, tracer=None):
        self.funcs = funcs
        self.tracer = tracer or _ThreadTracer
        self.choose = choose          # choose(n) -> int in [0, n)
        self.quantum = quantum        # quantum() -> number of lines
        self.ctx = ctx
        n = len(funcs)
        self.locks = [_thread.allocate_lock() for _ in range(n)]
        for l in self.locks:
            l.acquire()
        self.done_lock = _thread.allocate_lock()
        self.done_lock.acquire()
        self.alive = set(range(n))
        self.waiting = set()          # threads that found a lock taken since the last progress
        self.left = 1
        self.cur = None
        self.idents = {}
        self.results = [None] * n
        self.switches = 0
        self.max_switches = max_switches
        self.dead = False

    def run(self):
        global _sched
        _sched = self
        try:
            for i in range(len(self.funcs)):
                t = threading.Thread(target=self._thread, args=(i,), daemon=True)
                t.start()
            self._hand(self._pick(None))
            self.done_lock.acquire()
        finally:
            _sched = None
        return self.results

    def _pick(self, me, exclude=()):
        cands = [i for i in sorted(self.alive) if i not in exclude]
        return cands[self.choose(len(cands))]

    def _hand(self, i):
        self.cur = i
        self.left = self.quantum()
        self.locks[i].release()

    def _thread(self, i):
        self.idents[_thread.get_ident()] = i
        self.locks[i].acquire()
        tr = self.tracer(self, i)
        try:
            tr.install()
            try:
                self.results[i] = self.funcs[i]()
            finally:
                tr.uninstall()
        except BaseException as e:
            self.results[i] = ('thread-exc', type(e).__name__, str(e)[:300])
        self.alive.discard(i)
        self.waiting.discard(i)
        self.ctx.log('end', i)
        if self.dead or not self.alive:
            self.done_lock.release()
            return
        cands = [j for j in sorted(self.alive)]
        self._hand(cands[self.choose(len(cands))])

    def line(self, i, frame):
        self.waiting.clear()
        self.left -= 1
        if self.left > 0:
            return
        if self.switches >= self.max_switches or len(self.alive) == 1:
            self.left = 1 << 60
            return
        j = self._pick(i)
        if j == i:
            self.left = self.quantum()
            return
        self._switch(i, j, frame.f_code.co_name)

    def _switch(self, i, j, where):
        self.switches += 1
        self.ctx.steps += 1
        self.ctx.log('switch', i, j, where)
        self._hand(j)
        self.locks[i].acquire()

    def blocked(self):
        """The running thread found a lock taken."""
        i = self.idents[_thread.get_ident()]
        self.waiting.add(i)
        others = [j for j in sorted(self.alive) if j not in self.waiting]
        if not others:
            self.dead = True
            raise Deadlock('all threads wait for locks')
        j = others[self.choose(len(others))]
        self._switch(i, j, '<lock>')


class _ThreadTracer(LineTracer):
    def __init__(self, sched, i):
        self.s, self.i = sched, i

    def line(self, frame):
        self.s.line(self.i, frame)
