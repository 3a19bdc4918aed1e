"""File-system seam: file operations below a scratch directory go through a
simulated device that can fail, be short, tear writes, be full, crash the
process or interrupt it at the k-th operation.  Everything else falls through
to the real functions."""
import builtins
import errno
import io
import os

from . import core

current = None
real = {n: getattr(os, n) for n in ('open', 'close', 'write', 'read', 'replace', 'rename', 'link', 'unlink', 'remove',
                                    'fsync', 'truncate', 'ftruncate', 'chmod', 'symlink')}
real_open = io.open


class FS:
    """faults: list of [operation number, action]; actions:
    ['err', NAME] the operation fails; ['short', n] a read or write is limited to n bytes;
    ['torn', n, NAME] n bytes are written, then the error; ['full', n] from here on the device
    takes n more bytes; ['crash'] the process ends before the operation; ['crash_after'];
    ['torncrash', n]; ['interrupt'] KeyboardInterrupt; ['powerloss'], ['powerloss_after']:
    crash that also loses what was written since the last fsync."""

    def __init__(self, root, ctx=None, faults=(), observer=None):
        self.root = os.path.realpath(root)
        self.ctx = ctx
        self.faults = {k: a for k, a in faults}
        self.n = 0
        self.fds = {}
        self.ops = []
        self.fired = []
        self.space = None
        self.observer = observer
        self.unsynced = {}                   # name -> bytes known to be on the medium

    def covers(self, path):
        try:
            if isinstance(path, int):
                p = os.readlink('/proc/self/fd/%d' % path)
                return p.startswith(self.root + os.sep)
            p = os.path.realpath(os.fsdecode(path))
        except (TypeError, ValueError, OSError):
            return False
        return p == self.root or p.startswith(self.root + os.sep)

    def name(self, path):
        try:
            if isinstance(path, int):
                path = os.readlink('/proc/self/fd/%d' % path)
            return os.path.relpath(os.path.realpath(os.fsdecode(path)), self.root)
        except (TypeError, ValueError, OSError):
            return '?'

    def fault(self, what):
        self.fired.append((self.n - 1,) + tuple(what))
        if self.ctx is not None:
            self.ctx.fault('fs:' + '_'.join(str(w) for w in what[:1] + [x for x in what[1:] if isinstance(x, str)]))

    def op(self, kind, path):
        """Called before an operation; returns the action for reads/writes."""
        k = self.n
        self.n += 1
        self.ops.append((kind, path))
        if self.observer:
            self.observer(kind, path)
        a = self.faults.get(k)
        if a is None:
            return None
        if a[0] == 'err':
            self.fault([a[0], a[1], kind])
            raise OSError(getattr(errno, a[1]), os.strerror(getattr(errno, a[1])), path)
        if a[0] == 'interrupt':
            self.fault([a[0], kind])
            raise KeyboardInterrupt('injected')
        if a[0] in ('crash', 'powerloss'):
            self.end(a[0] == 'powerloss')
        if a[0] == 'full' and kind in ('write', 'open'):
            self.space = a[1]
            self.fault(['full', kind])
            return None
        return a

    def end(self, power=False):
        if power:
            for name, n in self.unsynced.items():
                p = os.path.join(self.root, name)
                if os.path.isfile(p) and os.path.getsize(p) > n:
                    real['truncate'](p, n)
        os._exit(137)

    def done(self, a):
        if a and a[0] in ('crash_after', 'powerloss_after'):
            self.end(a[0] == 'powerloss_after')

    def wrote(self, name, synced):
        self.unsynced.setdefault(name, synced)

    def synced(self, name):
        self.unsynced.pop(name, None)

    def moved(self, old, new):
        self.unsynced.pop(new, None)
        if old in self.unsynced:
            self.unsynced[new] = self.unsynced.pop(old)

    def __enter__(self):
        global current
        self._prev = current
        current = self
        return self

    def __exit__(self, *a):
        global current
        current = self._prev


class Raw(io.FileIO):
    """An open file on the simulated device."""
    _fs = None

    def __init__(self, fs, file, mode, closefd=True, opener=None):
        self._name = fs.name(file)
        a = fs.op('open', self._name) if not isinstance(file, int) else None
        super().__init__(file, mode, closefd, opener)
        self._fs = fs
        if 'w' in mode or 'x' in mode:
            fs.unsynced[self._name] = 0
        fs.done(a)

    def readinto(self, b):
        fs = self._fs
        if fs is not current:
            return super().readinto(b)
        a = fs.op('read', self._name)
        if a and a[0] == 'short' and len(b) > a[1]:
            fs.fault(['short', 'read'])
            m = memoryview(b)[:max(1, a[1])]
            return super().readinto(m)
        r = super().readinto(b)
        fs.done(a)
        return r

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        b = bytearray(n)
        k = self.readinto(b)
        return bytes(b[:k])

    def readall(self):
        out = []
        while True:
            b = bytearray(1 << 16)
            k = self.readinto(b)
            if not k:
                return b''.join(out)
            out.append(bytes(b[:k]))

    def write(self, b):
        fs = self._fs
        if fs is not current:
            return super().write(b)
        fs.wrote(self._name, os.fstat(self.fileno()).st_size)
        return device_write(fs, self._name, b, super().write)

    def truncate(self, size=None):
        fs = self._fs
        a = fs.op('truncate', self._name) if fs is current else None
        r = super().truncate(size)
        fs.done(a)
        return r

    def close(self):
        fs = self._fs
        if self.closed or fs is not current:
            return super().close()
        try:
            a = fs.op('close', self._name)
        except BaseException:
            super().close()
            raise
        super().close()
        fs.done(a)


def device_write(fs, name, b, write):
    a = fs.op('write', name)
    m = memoryview(b).cast('B')
    if fs.space is not None:
        if fs.space <= 0:
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), name)
        n = write(m[:fs.space])
        fs.space -= n
        return n
    if a and a[0] == 'short' and len(m) > a[1]:
        fs.fault(['short', 'write'])
        return write(m[:max(1, a[1])])
    if a and a[0] == 'torn':
        n = min(a[1], len(m))
        if n:
            write(m[:n])
        fs.fault(['torn', a[2]])
        raise OSError(getattr(errno, a[2]), os.strerror(getattr(errno, a[2])), name)
    if a and a[0] == 'torncrash':
        n = min(a[1], len(m))
        if n:
            write(m[:n])
        fs.end()
    n = write(b)
    fs.done(a)
    return n


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = current
    if fs is None or not fs.covers(file) or not isinstance(mode, str):
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not set(mode) <= set('rwxabt+') or sum(c in mode for c in 'rwxa') != 1:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)   # raises
    binary = 'b' in mode
    raw = Raw(fs, file, mode.replace('b', '').replace('t', ''), closefd, opener)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if '+' in mode:
            buf = io.BufferedRandom(raw, size)
        elif 'r' in mode:
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    fs = current
    if fs is None or dir_fd is not None or not fs.covers(path):
        return real['open'](path, flags, mode, dir_fd=dir_fd)
    a = fs.op('open', fs.name(path))
    fd = real['open'](path, flags, mode)
    fs.fds[fd] = fs.name(path)
    if flags & os.O_TRUNC:
        fs.unsynced[fs.name(path)] = 0
    fs.done(a)
    return fd


def _os_close(fd):
    fs = current
    if fs is None or fd not in fs.fds:
        return real['close'](fd)
    name = fs.fds.pop(fd)
    try:
        a = fs.op('close', name)
    finally:
        real['close'](fd)
    fs.done(a)


def _os_write(fd, data):
    fs = current
    if fs is None or fd not in fs.fds:
        return real['write'](fd, data)
    fs.wrote(fs.fds[fd], os.fstat(fd).st_size)
    return device_write(fs, fs.fds[fd], data, lambda m: real['write'](fd, m))


def _os_read(fd, n):
    fs = current
    if fs is None or fd not in fs.fds:
        return real['read'](fd, n)
    a = fs.op('read', fs.fds[fd])
    if a and a[0] == 'short':
        fs.fault(['short', 'read'])
        n = max(1, min(n, a[1]))
    r = real['read'](fd, n)
    fs.done(a)
    return r


def _path_op(name, which=0):
    def f(*args, **kw):
        fs = current
        if fs is None or len(args) <= which or not fs.covers(args[which]):
            return real[name](*args, **kw)
        target = fs.name(args[which])
        old = fs.name(args[0])
        a = fs.op(name, target)
        r = real[name](*args, **kw)
        if name == 'fsync':
            fs.synced(target)
        elif name in ('replace', 'rename', 'link'):
            fs.moved(old, target)
        fs.done(a)
        return r
    f.__name__ = name
    return f


def install():
    """Put the seam in place (falls through while no FS is active)."""
    if builtins.open is sim_open:
        return
    builtins.open = io.open = sim_open
    os.open, os.close, os.write, os.read = _os_open, _os_close, _os_write, _os_read
    for n in ('replace', 'rename', 'link'):
        setattr(os, n, _path_op(n, 1))
    for n in ('unlink', 'remove', 'fsync', 'truncate', 'ftruncate', 'chmod'):
        setattr(os, n, _path_op(n))


def open_files(root):
    """Names of the files below root this process has open."""
    root = os.path.realpath(root)
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if p.startswith(root):
            out.append(os.path.relpath(p, root))
    return sorted(out)


def gen_fault(rng, nbytes, kinds):
    """A fault action."""
    k = rng.choice(kinds)
    if k == 'err':
        return ['err', rng.choice(['EIO', 'EACCES', 'EMFILE', 'ENOSPC', 'EROFS', 'EINTR', 'ESTALE'])]
    if k == 'readerr':
        return ['err', rng.choice(['EIO', 'EACCES', 'EMFILE', 'ENOMEM', 'ESTALE', 'EINVAL', 'EISDIR'])]
    if k == 'short':
        return ['short', rng.choice([1, 2, 7, rng.randrange(1, max(2, nbytes))])]
    if k == 'torn':
        return ['torn', rng.randrange(0, max(1, nbytes)), rng.choice(['ENOSPC', 'EIO', 'EDQUOT'])]
    if k == 'full':
        return ['full', rng.randrange(0, max(1, nbytes))]
    if k == 'torncrash':
        return ['torncrash', rng.randrange(0, max(1, nbytes))]
    return [k]
