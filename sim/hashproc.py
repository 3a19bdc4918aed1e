"""Fork servers: fresh interpreters that imported flavio under another
string-hash seed and another heap layout, each forking one child per request
(for C09)."""
import os
import pickle
import signal
import socket
import struct
import subprocess
import sys

from . import core

VERIF = core.VERIF
servers = []          # socket paths, in order of SEEDS


def start(seeds):
    """Start one server per hash seed; call before the workers are forked."""
    procs = []
    for i, (hs, shift) in enumerate(seeds):
        path = os.path.join(core.scratch_root(), 'h%d' % i)
        r, w = os.pipe()
        env = dict(os.environ, PYTHONHASHSEED=str(hs), VERIF_SHIFT=str(shift))
        p = subprocess.Popen([sys.executable, '-B', '-W', 'ignore', os.path.join(VERIF, 'sim', 'hashmain.py'), path, str(w)],
                             env=env, pass_fds=(w,), preexec_fn=core._die_with_parent, stdin=subprocess.DEVNULL,
                             stdout=None if os.environ.get('VERIF_DEBUG') else subprocess.DEVNULL)
        os.close(w)
        procs.append((p, r, path))
    for p, r, path in procs:
        if os.read(r, 1) != b'1':
            raise core.HarnessError('interpreter with another hash seed did not start')
        os.close(r)
        servers.append(path)


def _read(s, n):
    out = b''
    while len(out) < n:
        b = s.recv(min(n - len(out), 1 << 20))
        if not b:
            return None
        out += b
    return out


def ask(i, fn, *args, timeout=200):
    """fn(*args) in a fresh fork of server i; `fn` is a module-level function."""
    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    try:
        s.connect(servers[i % len(servers)])
        data = pickle.dumps((fn, args, timeout))
        s.sendall(struct.pack('<Q', len(data)) + data)
        h = _read(s, 8)
        res = _read(s, struct.unpack('<Q', h)[0]) if h else None
    finally:
        s.close()
    if res is None:
        raise core.HarnessError('no answer from interpreter %d' % i)
    res = pickle.loads(res)
    if res[0] == 'violation':
        raise core.Violation(res[1], res[2])
    if res[0] != 'ok':
        raise core.HarnessError('interpreter %d: %r' % (i, res))
    return res[1]


def serve(path, fd):
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    ls = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    ls.bind(path)
    ls.listen(64)
    os.write(fd, b'1')
    os.close(fd)
    while True:
        c, _ = ls.accept()
        pid = os.fork()
        if pid == 0:
            try:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                core._die_with_parent()
                ls.close()
                h = _read(c, 8)
                fn, args, timeout = pickle.loads(_read(c, struct.unpack('<Q', h)[0]))
                res = core.fork_call(_run, fn, args, timeout=timeout, group=True, quiet=True)
                data = pickle.dumps(res)
                c.sendall(struct.pack('<Q', len(data)) + data)
            finally:
                os._exit(0)
        c.close()


def _run(fn, args):
    os.chdir(core.scratch_dir())
    return fn(*args)
