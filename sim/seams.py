"""Seams installed before flavio is imported.  With no simulation active they
fall through to the real implementations."""
import errno
import multiprocessing
import multiprocessing.pool
import concurrent.futures
import concurrent.futures.process
import concurrent.futures.thread
import os
import pickle
import struct
import sys
import threading
import _thread
import traceback

current = None            # the active simulation (Sim) or None


class Sim:
    """Decisions of one simulated execution: an explicit list of integers
    (taken modulo the number of alternatives, 0 when used up), so a schedule
    can be minimised and replayed."""

    def __init__(self, ctx, sched=(), cpus=4, faults=None):
        self.ctx = ctx
        self.sched = list(sched)
        self.pos = 0
        self.cpus = cpus
        self.pools = []
        self.item = 0              # items executed so far, over all pools
        self.nsteps = 0
        self.fired = []
        self.faults = faults or {}  # {'start': [pool numbers], 'items': {k: spec}, 'feed': [..]}
        self.trace = []

    def choose(self, n):
        if n <= 1:
            return 0
        if self.pos < len(self.sched):
            v = self.sched[self.pos] % n
        else:
            v = 0
        self.pos += 1
        return v

    def __enter__(self):
        global current
        self._prev = current
        current = self
        return self

    def __exit__(self, *a):
        global current
        current = self._prev
        for p in self.pools:
            p._kill()


EXC = {'MemoryError': MemoryError, 'ValueError': ValueError, 'OSError': OSError,
       'ArithmeticError': ArithmeticError, 'KeyError': KeyError,
       'RuntimeError': RuntimeError, 'KeyboardInterrupt': KeyboardInterrupt}


class InjectedFault(Exception):
    pass


def make_exc(name):
    if name == 'InjectedFault':
        return InjectedFault('injected')
    return EXC[name]('injected')


# ---------------------------------------------------------------- pool
class _Worker:
    def __init__(self, pool, num, initializer, initargs):
        self.num = num
        self.chunk = None       # (job, chunk index, number of items left)
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for w in pool._workers:
                    os.close(w.fd_in)
                    os.close(w.fd_out)
                _worker_main(r1, w2, initializer, initargs, num)
            except BaseException:
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.fd_in, self.fd_out = w1, r2
        self.alive = True

    def request(self, obj):
        data = pickle.dumps(obj)
        _send(self.fd_in, data)
        out = _recv(self.fd_out)
        if out is None:
            raise RuntimeError('simulated worker died')
        return pickle.loads(out)

    def stop(self):
        if self.alive:
            self.alive = False
            for fd in (self.fd_in, self.fd_out):
                try:
                    os.close(fd)
                except OSError:
                    pass
            try:
                os.waitpid(self.pid, 0)
            except ChildProcessError:
                pass


def _send(fd, data):
    data = struct.pack('<Q', len(data)) + data
    mv = memoryview(data)
    while mv:
        n = os.write(fd, mv)
        mv = mv[n:]


def _recv(fd):
    def exact(n):
        b = b''
        while len(b) < n:
            x = os.read(fd, n - len(b))
            if not x:
                return None
            b += x
        return b
    h = exact(8)
    if h is None:
        return None
    return exact(struct.unpack('<Q', h)[0])


def _worker_main(rfd, wfd, initializer, initargs, num):
    """Runs in the forked worker: executes one item at a time on request."""
    global current
    current = None
    p = multiprocessing.process.current_process()
    try:
        p._config['daemon'] = True
        p.name = 'ForkPoolWorker-%d' % (num + 1)
    except Exception:
        pass
    if initializer is not None:
        initializer(*initargs)
    func = items = None
    while True:
        data = _recv(rfd)
        if data is None:
            return
        msg = pickle.loads(data)
        if msg[0] == 'chunk':
            try:
                func, mode, items = pickle.loads(msg[1])
                items = list(items)
                reply = ('ok', None)
            except BaseException as e:
                # real workers die here with an unpickling error; report it
                reply = ('unpickle', repr(e))
        elif msg[0] == 'item':
            k, fault = msg[1], msg[2]
            try:
                if fault and fault[0] == 'before':
                    raise make_exc(fault[1])
                arg = items[k]
                if fault and fault[0] == 'inside':
                    from sim import trace
                    with trace.Injector(fault[2], make_exc(fault[1]), optional=True):
                        val = _call(func, mode, arg)
                else:
                    val = _call(func, mode, arg)
                if fault and fault[0] == 'after':
                    raise make_exc(fault[1])
                reply = ('ok', val)
            except Exception as e:
                reply = ('exc', e, traceback.format_exc())
            except BaseException as e:
                reply = ('exc', RuntimeError('worker got %r' % (e,)), '')
        try:
            out = pickle.dumps(reply)
        except Exception as e:
            out = pickle.dumps(('exc', multiprocessing.pool.MaybeEncodingError(e, reply[1]), ''))
        _send(wfd, out)


def _call(func, mode, arg):
    if mode == 'star':
        return func(*arg)
    if mode == 'apply':
        return func(*arg[0], **arg[1])
    return func(arg)


class RemoteTraceback(Exception):
    def __init__(self, tb):
        self.tb = tb

    def __str__(self):
        return self.tb


class _Job:
    def __init__(self, pool, func, mode, items, chunksize, callback=None, error_callback=None, single=False):
        self.pool = pool
        self.mode = mode
        self.single = single
        self.callback, self.error_callback = callback, error_callback
        self.n = len(items)
        self.results = [None] * self.n
        self.have = [False] * self.n
        self.order = []                 # completion order of items
        self.chunks = []
        self.error = None
        self.item_error = {}
        for i in range(0, self.n, chunksize):
            self.chunks.append((i, items[i:i + chunksize]))
        self.left = len(self.chunks)
        self.func = func
        self._called = False

    # AsyncResult interface
    def ready(self):
        return self.left == 0

    def successful(self):
        if not self.ready():
            raise ValueError('{0!r} not ready'.format(self))
        return self.error is None

    def wait(self, timeout=None):
        self.pool._drive(lambda: self.left == 0)

    def get(self, timeout=None):
        self.wait()
        if self.error is not None:
            raise self.error
        return self.results[0] if self.single else self.results

    def finish_chunk(self):
        self.left -= 1
        if self.left == 0:
            if self.error is None and self.callback:
                self.callback(self.results[0] if self.single else self.results)
            elif self.error is not None and self.error_callback:
                self.error_callback(self.error)


class SimPool:
    """multiprocessing.Pool with really forked workers stepped one item at a
    time; the simulation decides chunking, which worker takes which chunk, which
    worker proceeds, and which items fail."""

    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None, inprocess=False):
        sim = current
        self.sim = sim
        self._state = 'RUN'
        self._workers = []
        self._queue = []        # pending chunks: (job, chunk index)
        self._inprocess = inprocess
        if processes is None:
            processes = sim.cpus
        processes = int(processes)
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        num = len(sim.pools)
        sim.ctx.log('pool', num, processes)
        sim.ctx.count('pools')
        if num in sim.faults.get('start', ()):
            sim.ctx.fault('pool_start_failed')
            sim.fired.append('start')
            raise OSError(errno.EAGAIN, 'Resource temporarily unavailable (injected)')
        sim.pools.append(self)
        self._processes = processes
        self._feed_fault = num in sim.faults.get('feed', ())
        if not inprocess:
            for i in range(processes):
                self._workers.append(_Worker(self, i, initializer, initargs))
        else:
            for i in range(processes):
                w = object.__new__(_Worker)
                w.num, w.chunk, w.alive = i, None, False
                self._workers.append(w)
            if initializer:
                initializer(*initargs)

    # -- scheduling
    def _drive(self, cond):
        while not cond():
            if not self._step():
                raise RuntimeError('pool has nothing to do but the result is not there')

    def _step(self):
        sim = self.sim
        busy = [w for w in self._workers if w.chunk is not None]
        idle = [w for w in self._workers if w.chunk is None]
        acts = [('step', w) for w in busy]
        if self._queue and idle and self._state != 'TERMINATE':
            acts = [('take', w) for w in idle] + acts
        if not acts:
            return False
        kind, w = acts[sim.choose(len(acts))]
        sim.ctx.steps += 1
        sim.nsteps += 1
        if sim.nsteps in sim.faults.get('interrupt', ()):
            # the user interrupts the parent while it waits for results
            sim.fired.append('interrupt')
            sim.ctx.fault('parent_interrupted')
            sim.ctx.log('interrupt')
            raise KeyboardInterrupt
        if kind == 'take':
            job, ci = self._queue.pop(0)
            start, items = job.chunks[ci]
            sim.ctx.log('take', w.num, start, len(items))
            sim.trace.append(('take', w.num, start, len(items)))
            try:
                if self._inprocess:
                    w.local = (job.func, job.mode, list(items))
                    rep = ('ok', None)
                else:
                    if self._feed_fault:
                        self._feed_fault = False
                        sim.ctx.fault('feed_failed')
                        sim.fired.append('feed')
                        raise OSError(errno.EPIPE, 'Broken pipe (injected)')
                    payload = multiprocessing.reduction.ForkingPickler.dumps((job.func, job.mode, items))
                    rep = w.request(('chunk', bytes(payload)))
            except Exception as e:
                # as multiprocessing: the job fails with the pickling error
                if job.error is None:
                    job.error = e
                for j in range(start, start + len(items)):
                    job.item_error[j] = e
                    job.order.append(j)
                job.finish_chunk()
                return True
            if rep[0] != 'ok':
                raise RuntimeError('worker could not unpickle task: %s' % rep[1])
            w.chunk = [job, ci, 0]
            return True
        job, ci, k = w.chunk
        start, items = job.chunks[ci]
        fault = sim.faults.get('items', {}).get(str(sim.item))
        if fault and fault[0] == 'inside' and self._inprocess:
            fault = ['before', fault[1]]
        idx = sim.item
        sim.item += 1
        if fault:
            sim.ctx.fault('worker_' + fault[0])
            sim.fired.append('item')
        if self._inprocess:
            func, mode, its = w.local
            try:
                if fault and fault[0] == 'before':
                    raise make_exc(fault[1])
                v = _call(func, mode, its[k])
                if fault:
                    raise make_exc(fault[1])
                rep = ('ok', v)
            except Exception as e:
                rep = ('exc', e, '')
        else:
            rep = w.request(('item', k, fault))
        sim.ctx.log('item', idx, w.num, start + k, rep[0])
        sim.trace.append(('item', w.num, start + k))
        if rep[0] == 'ok':
            job.results[start + k] = rep[1]
            job.have[start + k] = True
            job.order.append(start + k)
            w.chunk[2] += 1
            if w.chunk[2] == len(items):
                w.chunk = None
                job.finish_chunk()
        else:
            e = rep[1]
            e.__cause__ = RemoteTraceback(rep[2])
            if job.error is None:
                job.error = e
            # the rest of the chunk is not evaluated
            for j in range(start + k, start + len(items)):
                job.item_error[j] = e
                job.order.append(j)
            w.chunk = None
            job.finish_chunk()
        return True

    # -- submission
    def _check_running(self):
        if self._state != 'RUN':
            raise ValueError('Pool not running')

    def _submit(self, func, mode, items, chunksize, **kw):
        self._check_running()
        items = list(items)
        if chunksize is None:
            c, extra = divmod(len(items), len(self._workers) * 4)
            if extra:
                c += 1
            alts = [c or 1, 1, max(1, len(items)), max(1, len(items) // 2)]
            chunksize = alts[self.sim.choose(4)]
        job = _Job(self, func, mode, items, max(1, chunksize), **kw)
        for ci in range(len(job.chunks)):
            self._queue.append((job, ci))
        return job

    def map(self, func, iterable, chunksize=None):
        return self._submit(func, 'map', iterable, chunksize).get()

    def starmap(self, func, iterable, chunksize=None):
        return self._submit(func, 'star', iterable, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, 'map', iterable, chunksize, callback=callback, error_callback=error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, 'star', iterable, chunksize, callback=callback, error_callback=error_callback)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._submit(func, 'apply', [(args, kwds)], 1, callback=callback,
                            error_callback=error_callback, single=True)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        job = self._submit(func, 'map', iterable, chunksize)

        def gen():
            for i in range(job.n):
                self._drive(lambda: job.have[i] or i in job.item_error)
                if i in job.item_error:
                    raise job.item_error[i]
                yield job.results[i]
        return gen()

    def imap_unordered(self, func, iterable, chunksize=1):
        job = self._submit(func, 'map', iterable, chunksize)

        def gen():
            for k in range(job.n):
                self._drive(lambda: len(job.order) > k)
                i = job.order[k]
                if i in job.item_error:
                    raise job.item_error[i]
                yield job.results[i]
        return gen()

    # -- life cycle
    def close(self):
        if self._state == 'RUN':
            self._state = 'CLOSE'

    def terminate(self):
        self._state = 'TERMINATE'
        self._queue = []
        self._kill()

    def join(self):
        if self._state == 'RUN':
            raise ValueError('Pool is still running')
        while self._state == 'CLOSE' and self._step():
            pass
        self._kill()

    def _kill(self):
        for w in self._workers:
            w.chunk = None
            if w.alive:
                w.stop()

    def __enter__(self):
        self._check_running()
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError('pool objects cannot be passed between processes or pickled')

    def __repr__(self):
        return '<SimPool state=%s size=%d>' % (self._state, len(self._workers))


class SimExecutor(concurrent.futures.Executor):
    """concurrent.futures interface; tasks run at submission on the worker the
    simulation picks."""

    def __init__(self, max_workers=None, *a, inprocess=False, initializer=None, initargs=(), **kw):
        self._pool = SimPool(max_workers, initializer, initargs, inprocess=inprocess)

    def submit(self, fn, /, *args, **kwargs):
        f = concurrent.futures.Future()
        if self._pool._state != 'RUN':
            raise RuntimeError('cannot schedule new futures after shutdown')
        f.set_running_or_notify_cancel()
        try:
            f.set_result(self._pool.apply(fn, args, kwargs))
        except BaseException as e:
            f.set_exception(e)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        return self._pool.imap(_Star(fn), list(zip(*iterables)), chunksize)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._pool.close()
        self._pool.join()


class _Star:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, args):
        return self.fn(*args)


def _dispatch(name, real, sim_factory, simtypes):
    class Meta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, real) or isinstance(obj, simtypes)

        def __getattr__(cls, attr):
            return getattr(real, attr)

    class Seam(metaclass=Meta):
        def __new__(cls, *a, **k):
            if current is None:
                return real(*a, **k)
            return sim_factory(*a, **k)
    Seam.__name__ = Seam.__qualname__ = name
    return Seam


# ---------------------------------------------------------------- locks
_real_lock = threading.Lock
_real_rlock = threading.RLock
_repo = os.path.realpath(os.environ.get('VERIF_REPO', '/repo')) + os.sep


class CoopLock:
    """Lock created by flavio code: cooperative under the thread scheduler."""

    def __init__(self, real):
        self._l = real()

    def acquire(self, blocking=True, timeout=-1):
        from sim import trace
        s = trace.active_scheduler()
        if s is None or not blocking:
            return self._l.acquire(blocking, timeout) if blocking else self._l.acquire(False)
        while not self._l.acquire(False):
            s.blocked()
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _lock_factory(real):
    def factory():
        f = sys._getframe(1)
        if os.path.realpath(f.f_code.co_filename).startswith(_repo):
            return CoopLock(real)
        return real()
    return factory


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    from . import fs
    fs.install()
    mp = multiprocessing.pool
    real_pool, real_tpool = mp.Pool, mp.ThreadPool
    mp.Pool = _dispatch('Pool', real_pool, SimPool, SimPool)
    mp.ThreadPool = _dispatch('ThreadPool', real_tpool,
                              lambda processes=None, initializer=None, initargs=():
                              SimPool(processes, initializer, initargs, inprocess=True), SimPool)
    cf = concurrent.futures
    real_pe = cf.process.ProcessPoolExecutor
    real_te = cf.thread.ThreadPoolExecutor
    pe = _dispatch('ProcessPoolExecutor', real_pe, SimExecutor, SimExecutor)
    te = _dispatch('ThreadPoolExecutor', real_te,
                   lambda *a, **k: SimExecutor(*a, inprocess=True, **{x: y for x, y in k.items() if x != 'thread_name_prefix'}),
                   SimExecutor)
    cf.process.ProcessPoolExecutor = cf.ProcessPoolExecutor = pe
    cf.thread.ThreadPoolExecutor = cf.ThreadPoolExecutor = te
    threading.Lock = _lock_factory(_real_lock)
    threading.RLock = _lock_factory(_real_rlock)


def after_import():
    """Nothing is cached at import time that the seams would miss."""
