"""Simulation core: seeds, forked runs, search loop, minimisation, replay,
evidence.

One integer (VERIF_SEED) decides everything: run `i` of property P is the pure
function scenario = P.generate(Random(f"{seed}/{P}/{i}")), result =
P.execute(scenario).  Every run is executed in a child forked from a pristine
session (flavio imported, nothing computed), so runs cannot influence each
other and a scenario file replays on its own.
"""
import contextlib
import ctypes
import gc
import hashlib
import json
import multiprocessing
import os
import pickle
import random
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get('VERIF_JOBS') or os.cpu_count() or 4)
REPLAYS = os.path.join(VERIF, 'replays')


class Violation(Exception):
    """The property is broken. `kind` is the violation class used for
    minimisation and for known findings."""

    def __init__(self, kind, msg):
        super().__init__(kind, msg)
        self.kind, self.msg = kind, msg


class HarnessError(Exception):
    pass


# ---------------------------------------------------------------- processes
_libc = ctypes.CDLL(None, use_errno=True)
_mmap = _libc.mmap
_mmap.restype = ctypes.c_void_p
_mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]


def _die_with_parent():
    try:
        _libc.prctl(1, signal.SIGKILL)
    except Exception:
        pass


def _read_exact(fd, n, deadline):
    buf = b''
    while len(buf) < n:
        left = deadline - time.monotonic()
        if left <= 0:
            return None, 'timeout'
        r, _, _ = select.select([fd], [], [], left)
        if not r:
            return None, 'timeout'
        b = os.read(fd, min(1 << 20, n - len(buf)))
        if not b:
            return None, 'died'
        buf += b
    return buf, None


def _write_all(fd, data):
    mv = memoryview(data)
    while mv:
        n = os.write(fd, mv)
        mv = mv[n:]


def private_shared_memory():
    """Forked runs must not share flavio's shared memory (citations): give
    this process (and its future workers) a copy of its own."""
    import multiprocessing.heap
    import multiprocessing.sharedctypes as sc
    fl = sys.modules.get('flavio')
    if fl is None:
        return
    cit = getattr(fl, 'citations', None)
    for k, v in list(getattr(cit, '__dict__', {}).items()):
        if isinstance(v, sc.SynchronizedArray):
            # a copy with a lock of its own
            new = multiprocessing.Array(v.get_obj()._type_, len(v))
            new[:] = v[:]
            cit.__dict__[k] = new
    # any other shared memory: remap at the same address
    heap = multiprocessing.heap.BufferWrapper._heap
    for arena in list(getattr(heap, '_arenas', [])):
        try:
            size = arena.size
            addr = ctypes.addressof(ctypes.c_char.from_buffer(arena.buffer))
        except Exception:
            continue
        if getattr(arena, '_verif_pid', None) == os.getpid():
            continue
        data = ctypes.string_at(addr, size)
        got = _mmap(addr, size, 3, 0x01 | 0x20 | 0x10, -1, 0)
        if got != addr:
            raise HarnessError('cannot remap shared memory')
        ctypes.memmove(addr, data, size)
        arena._verif_pid = os.getpid()


def huge_pages():
    """Ask for huge pages for the memory in use, which makes forking several
    times faster. Without effect where the kernel does not support it."""
    try:
        libc = ctypes.CDLL(None)
        adv = libc.madvise
        adv.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
        size = 1 << 21
        with open('/proc/self/maps') as f:
            maps = [l.split() for l in f]
        for m in maps:
            if m[1] != 'rw-p' or m[4] != '0' or (len(m) > 5 and m[5] != '[heap]' and m[5].startswith('[')):
                continue
            lo, hi = (int(x, 16) for x in m[0].split('-'))
            lo, hi = (lo + size - 1) & -size, hi & -size
            if hi > lo and adv(lo, hi - lo, 14) == 0:       # MADV_HUGEPAGE
                for p in range(lo, hi, size):
                    adv(p, size, 25)                        # MADV_COLLAPSE
    except Exception:
        pass


def fork_call(fn, *args, timeout=120, group=False, quiet=False):
    """Run fn(*args) in a forked child. Returns ('ok', value), ('exc', repr,
    traceback), ('violation', kind, msg), ('timeout',) or ('died', status)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            if group:
                os.setpgid(0, 0)
            _die_with_parent()
            private_shared_memory()
            if quiet and not os.environ.get('VERIF_DEBUG'):
                dn = os.open(os.devnull, os.O_RDWR)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            try:
                out = ('ok', fn(*args))
            except Violation as e:
                out = ('violation', e.kind, e.msg)
            except BaseException as e:
                out = ('exc', repr(e)[:2000], traceback.format_exc()[-4000:])
            try:
                data = pickle.dumps(out)
            except BaseException as e:
                data = pickle.dumps(('exc', 'unpicklable result: %r' % (e,), ''))
            _write_all(w, struct.pack('<Q', len(data)) + data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    if group:
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
    deadline = time.monotonic() + timeout
    try:
        hdr, err = _read_exact(r, 8, deadline)
        if err is None:
            data, err = _read_exact(r, struct.unpack('<Q', hdr)[0], deadline)
    finally:
        os.close(r)
    if err is None:
        res = pickle.loads(data)
    else:
        res = None
        if err == 'timeout':
            with contextlib.suppress(OSError):
                os.kill(pid, signal.SIGKILL)
    if group:
        # also end whatever the run left behind
        if err is None:
            # let the child exit by itself first
            for _ in range(200):
                p, st = os.waitpid(pid, os.WNOHANG)
                if p:
                    break
                time.sleep(0.001)
            else:
                p = 0
            with contextlib.suppress(OSError):
                os.killpg(pid, signal.SIGKILL)
            if not p:
                os.waitpid(pid, 0)
            return res
        with contextlib.suppress(OSError):
            os.killpg(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if res is not None:
        return res
    return ('timeout',) if err == 'timeout' else ('died', st)


def tb_tail(e):
    """Innermost flavio frame of an exception."""
    tb, out = e.__traceback__, ''
    while tb is not None:
        f = tb.tb_frame.f_code
        if '/flavio/' in f.co_filename:
            out = '%s:%d %s' % (os.path.basename(f.co_filename), tb.tb_lineno, f.co_name)
        tb = tb.tb_next
    return out


def in_fork(fn, *args, timeout=120):
    """Value of fn(*args) computed in a forked copy of this process."""
    res = fork_call(fn, *args, timeout=timeout)
    if res[0] == 'ok':
        return res[1]
    if res[0] == 'violation':
        raise Violation(res[1], res[2])
    raise HarnessError('forked computation failed: %r' % (res,))


# ---------------------------------------------------------------- scratch
_scratch_root = None


def scratch_root():
    global _scratch_root
    if _scratch_root is None:
        _scratch_root = tempfile.mkdtemp(prefix='verif-sim-')
    return _scratch_root


def scratch_dir():
    """A fresh directory, removed at the end of the check."""
    return tempfile.mkdtemp(dir=scratch_root())


# ---------------------------------------------------------------- runs
class Ctx:
    """Per-run recorder: event log, counters, probes, state fingerprints."""

    def __init__(self):
        self.events = []
        self.counts = {}
        self.faults = {}
        self.probes = {}
        self.fps = set()
        self.steps = 0
        self.nontrivial = False

    def log(self, *a):
        self.events.append(a)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n
        self.nontrivial = True

    def probe(self, k, n=1):
        self.probes[k] = self.probes.get(k, 0) + n

    def fp(self, *a):
        self.fps.add(hashlib.sha1(repr(a).encode()).hexdigest()[:12])

    def digest(self):
        return hashlib.sha1(repr(self.events).encode()).hexdigest()

    def export(self):
        return dict(counts=self.counts, faults=self.faults, probes=self.probes,
                    fps=sorted(self.fps), steps=self.steps, nontrivial=self.nontrivial,
                    digest=self.digest(), nevents=len(self.events))


def _flavio_frames(tb):
    """Does a traceback run through the code under test?"""
    repo = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
    return 'File "%s/flavio/' % repo in tb


def _exec_child(mod, scenario):
    ctx = Ctx()
    viol = None
    os.chdir(scratch_dir())
    try:
        mod.execute(scenario, ctx)
    except Violation as e:
        viol = (e.kind, e.msg)
        ctx.log('violation', e.kind)
    except HarnessError as e:
        # a reference execution failed in flavio
        if not _flavio_frames(str(e)):
            raise
        viol = ('unexpected-exception', 'the code raised where no failure is expected: ' + str(e)[-1500:])
        ctx.log('violation', viol[0])
    except Exception as e:
        if not _flavio_frames(traceback.format_exc()):
            raise
        viol = ('unexpected-exception', 'the code raised where no failure is expected: ' + traceback.format_exc()[-1500:])
        ctx.log('violation', viol[0])
    out = ctx.export()
    out['violation'] = viol
    if os.environ.get('VERIF_EVENTS'):
        out['events'] = [repr(e) for e in ctx.events]
    return out


def run_scenario(mod, scenario, timeout=None):
    """Execute a scenario in a pristine forked session."""
    res = fork_call(_exec_child, mod, scenario,
                    timeout=timeout or getattr(mod, 'RUN_TIMEOUT', 120),
                    group=True, quiet=True)
    if res[0] == 'ok':
        return res[1]
    return {'error': res}


def gen_scenario(mod, seed, idx, tier):
    def g():
        rng = random.Random('%s/%s/%s' % (seed, mod.ID, idx))
        sc = mod.generate(rng, idx, tier)
        return json.dumps(sc)
    res = fork_call(g, timeout=120, quiet=True)
    if res[0] != 'ok':
        return None, res
    return json.loads(res[1]), None


def scenario_key(sc):
    return hashlib.sha1(json.dumps(sc, sort_keys=True).encode()).hexdigest()


# ---------------------------------------------------------------- search
def _worker(mod, seed, tier, w, nw, nruns, deadline, fd):
    def send(obj):
        data = json.dumps(obj).encode()
        _write_all(fd, struct.pack('<Q', len(data)) + data)
    for idx in range(w, nruns, nw):
        if time.monotonic() > deadline:
            break
        t0 = time.monotonic()
        sc, err = gen_scenario(mod, seed, idx, tier)
        if sc is None:
            send(dict(idx=idx, error=['generate'] + [str(e) for e in err]))
            continue
        out = run_scenario(mod, sc)
        out['idx'] = idx
        out['key'] = scenario_key(sc)
        out['t'] = time.monotonic() - t0
        if 'error' in out:
            out['error'] = [str(e) for e in out['error']]
        if out.get('violation') or 'error' in out or idx < 3:
            out['scenario'] = sc
        send(out)
    send(dict(done=w))


def search(mod, seed, tier, nruns, budget, known=(), stop_on_violation=True, progress=False):
    """Seeded search. Returns aggregate."""
    agg = dict(runs=0, counts={}, faults={}, probes={}, fps=set(), keys=set(),
               nontrivial_keys=set(), steps=0, violations=[], errors=[], samples=[],
               known_hits={}, digests={}, cpu=0.0, slow=[])
    deadline = time.monotonic() + budget
    pids, fds = [], {}
    sys.stdout.flush()
    for w in range(NPROC):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for f in fds:
                    os.close(f)
                os.setpgid(0, 0)
                _die_with_parent()
                _worker(mod, seed, tier, w, NPROC, nruns, deadline, wr)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(wr)
        pids.append(pid)
        fds[r] = b''
    open_fds = set(fds)
    stop = False
    done = set()
    hard = deadline + getattr(mod, 'RUN_TIMEOUT', 120) + 150
    while open_fds and not stop:
        if time.monotonic() > hard:
            agg['errors'].append('worker did not finish')
            break
        rl, _, _ = select.select(list(open_fds), [], [], 5)
        for fd in rl:
            b = os.read(fd, 1 << 20)
            if not b:
                open_fds.discard(fd)
                os.close(fd)
                continue
            fds[fd] += b
            while len(fds[fd]) >= 8:
                n = struct.unpack('<Q', fds[fd][:8])[0]
                if len(fds[fd]) < 8 + n:
                    break
                msg = json.loads(fds[fd][8:8 + n])
                fds[fd] = fds[fd][8 + n:]
                if 'done' in msg:
                    done.add(msg['done'])
                    continue
                if 'error' in msg:
                    agg['errors'].append(msg)
                    if len(agg['errors']) > 5:
                        stop = True
                    continue
                agg['runs'] += 1
                agg['cpu'] += msg['t']
                agg['slow'] = sorted(agg['slow'] + [(round(msg['t'], 1), msg['idx'])], reverse=True)[:8]
                for k in ('counts', 'faults', 'probes'):
                    for a, v in msg[k].items():
                        agg[k][a] = agg[k].get(a, 0) + v
                agg['fps'].update(msg['fps'])
                agg['keys'].add(msg['key'])
                if msg['nontrivial']:
                    agg['nontrivial_keys'].add(msg['key'])
                agg['steps'] += msg['steps']
                agg['digests'][msg['idx']] = msg['digest']
                if 'scenario' in msg and msg['idx'] < 3:
                    agg['samples'].append((msg['idx'], msg['scenario']))
                if msg['violation']:
                    kf = match_known(known, msg['violation'])
                    if kf:
                        agg['known_hits'][kf] = agg['known_hits'].get(kf, 0) + 1
                    else:
                        agg['violations'].append(msg)
                        if stop_on_violation:
                            stop = True
    if stop:
        for p in pids:
            with contextlib.suppress(OSError):
                os.killpg(p, signal.SIGKILL)
    for p in pids:
        with contextlib.suppress(OSError):
            os.kill(p, signal.SIGKILL) if stop else None
        with contextlib.suppress(ChildProcessError):
            os.waitpid(p, 0)
    if not stop and len(done) != NPROC:
        agg['errors'].append('only %d of %d workers finished' % (len(done), NPROC))
    agg['samples'] = [s for _, s in sorted(agg['samples'], key=lambda x: x[0])]
    return agg


# ---------------------------------------------------------------- known findings
def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get('known', []) if k['property'] == prop]


def match_known(known, violation):
    import re
    for k in known:
        if k['kind'] == violation[0] and re.search(k['match'], violation[1], re.S):
            return k['id']
    return None


# ---------------------------------------------------------------- minimise
def _ddmin(items, test):
    """Smallest sublist (1-minimal) for which test(sublist) holds."""
    n = 2
    items = list(items)
    while len(items) >= 1:
        chunk = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items):
            cand = items[:i] + items[i + chunk:]
            if test(cand):
                items = cand
                n = max(n - 1, 2)
                reduced = True
            else:
                i += chunk
        if not reduced:
            if chunk == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(mod, scenario, kind, known, budget=60):
    deadline = time.monotonic() + budget
    best = [scenario]
    trials = [0]

    def fails(sc):
        if time.monotonic() > deadline:
            return False
        trials[0] += 1
        if hasattr(mod, 'normalise'):
            sc = mod.normalise(json.loads(json.dumps(sc)))
            if sc is None:
                return False
        out = run_scenario(mod, sc, timeout=60)
        v = out.get('violation')
        if v and v[0] == kind and not match_known(known, v):
            best[0] = sc
            return True
        return False

    for _round in range(3):
        before = json.dumps(best[0], sort_keys=True)
        for key in getattr(mod, 'SHRINK_LISTS', ('ops',)):
            cur = best[0]
            path = key.split('.')

            def get(sc):
                for p in path:
                    if not isinstance(sc, dict) or p not in sc:
                        return None
                    sc = sc[p]
                return sc if isinstance(sc, list) else None

            def put(sc, val):
                sc = json.loads(json.dumps(sc))
                d = sc
                for p in path[:-1]:
                    d = d[p]
                d[path[-1]] = val
                return sc
            if not get(cur):
                continue
            _ddmin(get(cur), lambda sub: fails(put(best[0], sub)))
        if hasattr(mod, 'simplify'):
            progress = True
            while progress and time.monotonic() < deadline:
                progress = False
                for cand in mod.simplify(best[0]):
                    if fails(cand):
                        progress = True
                        break
        if json.dumps(best[0], sort_keys=True) == before:
            break
    return best[0], trials[0]


# ---------------------------------------------------------------- main
def write_evidence(mod, tier, seed, agg, wall, nviol, extra=None):
    hours = max(wall, 1e-9) / 3600.
    cov = dict(
        evaluations=agg['runs'],
        distinct_nontrivial=len(agg['nontrivial_keys']),
        rule=mod.RULE,
        samples=[json.dumps(s)[:3000] for s in agg['samples'][:3]] or ['none'],
        simulated_runs=agg['runs'],
        runs_per_hour=round(agg['runs'] / hours, 1),
        seeds_per_hour=round(agg['runs'] / hours, 1),
        simulated_time='%d simulator steps (%s)' % (agg['steps'], getattr(mod, 'STEP', 'operations')),
        fault_kinds_fired=dict(sorted(agg['faults'].items())),
        distinct_states=len(agg['fps']),
        distinct_states_measure=getattr(mod, 'STATE_MEASURE', 'hash of abstract state after each step'),
        counts=dict(sorted(agg['counts'].items())),
        probes=dict(sorted(agg['probes'].items())),
        real_components=mod.REAL,
        stubbed_components=mod.STUB,
        known_findings_hit=agg['known_hits'],
    )
    cov.update(extra or {})
    ev = dict(property=mod.ID, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2),
              violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', mod.ID + '.json')
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=False)
    os.replace(tmp, path)


def save_replay(mod, seed, idx, scenario, violation, note=''):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-%s.json' % (mod.ID, scenario_key(scenario)[:12]))
    with open(path, 'w') as f:
        json.dump(dict(property=mod.ID, seed=seed, run=idx, violation=violation,
                       note=note, scenario=scenario), f, indent=1)
    return path


def replay_fresh(path, prop):
    """Replay in a fresh interpreter; returns violation kind or None."""
    env = dict(os.environ)
    p = subprocess.run([sys.executable, '-B', '-W', 'ignore', os.path.join(VERIF, 'sim', 'main.py'),
                        prop, '--replay', path, '--quiet'], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, timeout=300)
    out = p.stdout.decode(errors='replace')
    for line in out.splitlines():
        if line.startswith('REPLAY-RESULT '):
            return json.loads(line[len('REPLAY-RESULT '):])
    return {'error': 'no result (rc %s): %s' % (p.returncode, out[-500:])}


def check(mod, tier, seed, budget=None, runs=None, jobs=None):
    t0 = time.monotonic()
    known = load_known(mod.ID)
    cfg = mod.TIERS[tier]
    nruns = runs or cfg['runs']
    budget = budget or cfg['seconds']
    print('SIM property=%s tier=%s VERIF_SEED=%d jobs=%d runs<=%d budget=%ds'
          % (mod.ID, tier, seed, NPROC, nruns, budget), flush=True)
    rc = 0
    # known findings are re-executed on every run
    for k in known:
        out = run_scenario(mod, k['scenario'])
        v = out.get('violation')
        if v and match_known([k], v):
            print('KNOWN-FINDING: property=%s %s' % (mod.ID, k['what']), flush=True)
        else:
            print('note: known finding %s no longer shows: %r' % (k['id'], out.get('violation') or out.get('error')), flush=True)
    agg = search(mod, seed, tier, nruns, budget, known)
    nviol = 0
    if agg['violations']:
        msg = agg['violations'][0]
        kind, text = msg['violation']
        sc = msg['scenario']
        print('found: run=%d kind=%s\n%s' % (msg['idx'], kind, text), flush=True)
        again = run_scenario(mod, sc)
        v2 = again.get('violation')
        if not v2 or v2[0] != kind:
            print('HARNESS-ERROR violation did not reproduce from its scenario: %r' % (v2 or again.get('error'),))
            rc = 3
        else:
            nviol = 1
            mini, trials = minimise(mod, sc, kind, known, budget=cfg.get('shrink', 60))
            out = run_scenario(mod, mini)
            v3 = out.get('violation')
            if not v3 or v3[0] != kind:
                mini, v3 = sc, v2
            path = save_replay(mod, seed, msg['idx'], mini, v3,
                               note='minimised with %d trials' % trials)
            fresh = replay_fresh(path, mod.ID)
            if not (fresh.get('violation') and fresh['violation'][0] == kind):
                # fall back to the unminimised scenario
                path = save_replay(mod, seed, msg['idx'], sc, v2, note='unminimised')
                fresh = replay_fresh(path, mod.ID)
            ok = bool(fresh.get('violation') and fresh['violation'][0] == kind)
            print('minimised: %s\n%s' % (v3[0], v3[1]))
            print('scenario: %s' % json.dumps(mini)[:4000])
            print('replay in a fresh process: %s' % ('reproduced' if ok else 'NOT reproduced %r' % (fresh,)))
            print('VIOLATION property=%s replay=%s' % (mod.ID, path), flush=True)
            rc = 1
    elif agg['errors']:
        print('HARNESS-ERROR %s' % json.dumps(agg['errors'][:2], default=str)[:6000])
        rc = 3
    elif agg['runs'] == 0:
        print('HARNESS-ERROR no run completed')
        rc = 3
    wall = time.monotonic() - t0
    write_evidence(mod, tier, seed, agg, wall, nviol)
    print('runs=%d distinct_nontrivial=%d states=%d steps=%d faults=%s probes=%s wall=%.1fs'
          % (agg['runs'], len(agg['nontrivial_keys']), len(agg['fps']), agg['steps'],
             json.dumps(agg['faults'], sort_keys=True), json.dumps(agg['probes'], sort_keys=True), wall))
    if os.environ.get('VERIF_DEBUG'):
        print('slowest runs:', agg['slow'])
    if rc == 0:
        print('OK property=%s' % mod.ID)
    return rc, agg
