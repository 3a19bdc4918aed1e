"""Digests of flavio's shared state and of caller objects, to detect
modifications. Values are compared, not representations: lists, tuples and
arrays with the same numbers are equal; attributes that look like caches,
attributes added later and private attributes filled lazily are ignored."""
import hashlib
import os
import pickle
import sys
import types
import warnings

import numpy as np
import flavio
import flavio.statistics.likelihood
import wilson

IGNORE = ('cache', 'memo')
ATOMS = (str, bytes, bool, type(None), int, float, complex)


def _ignored(name):
    n = name.lower()
    return any(i in n for i in IGNORE)


class Snapper:
    """Remembers which attributes existed at the first look at each object."""

    def __init__(self):
        self.attrs = {}
        self.keep = []

    def names(self, obj):
        k = id(obj)
        if k not in self.attrs:
            self.keep.append(obj)
            self.attrs[k] = tuple(sorted(
                n for n, v in vars(obj).items()
                if not _ignored(n) and not (n.startswith('_') and v is None)))
        return self.attrs[k]

    def walk(self, h, v, depth=0, seen=None):
        t = type(v)
        if t is float or t is np.float64:
            h.update(b'f%r' % float(v) if v == v else b'nan')
        elif t is bool or isinstance(v, np.bool_):
            h.update(b'f%r' % float(v))
        elif t is int or isinstance(v, np.integer):
            h.update(b'f%r' % float(v) if abs(v) < 1e300 else b'i%d' % v)
        elif t is str:
            h.update(b's' + v.encode('utf8', 'surrogatepass'))
        elif v is None:
            h.update(b'N')
        elif isinstance(v, (complex, np.complexfloating)):
            h.update(repr(complex(v)).encode())
        elif isinstance(v, np.floating):
            h.update(b'f%r' % float(v))
        elif isinstance(v, np.ndarray):
            if v.dtype == object:
                self.seq(h, v.ravel().tolist(), depth, seen)
            elif v.ndim == 0:
                self.walk(h, v.item(), depth, seen)
            elif v.size > 4096 and v.dtype == float and v.flags.c_contiguous:
                h.update(b'B' + str(v.shape).encode() + _buffer(memoryview(v.reshape(-1)).cast('B')))
            elif np.iscomplexobj(v) or v.size > 64:
                h.update(b'A' + str(v.shape).encode() + np.ascontiguousarray(v, dtype=complex).tobytes())
            else:
                self.seq(h, v.tolist(), depth, seen)
        elif isinstance(v, dict):
            if self.enter(h, v, seen):
                h.update(b'{')
                for k, x in v.items():
                    self.walk(h, k, depth + 1, seen)
                    h.update(b':')
                    self.walk(h, x, depth + 1, seen)
                    h.update(b',')
                h.update(b'}')
        elif isinstance(v, (list, tuple)):
            if self.big(v):
                a = np.asarray(v)
                h.update(b'A' + str(a.shape).encode() + np.ascontiguousarray(a, dtype=complex).tobytes())
            else:
                self.seq(h, v, depth, seen)
        elif isinstance(v, (set, frozenset)):
            h.update(b'S')
            for s in sorted(map(repr, v)):
                h.update(s.encode() + b',')
        elif isinstance(v, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, type)):
            h.update(b'F%s' % getattr(v, '__qualname__', '?').encode() + b'%d' % (id(v) if isinstance(v, types.FunctionType) else 0))
            self.keep.append(v)
        elif getattr(t, '__module__', '').split('.')[0] in ('flavio', 'wilson', 'wcxf', 'sim') and hasattr(v, '__dict__'):
            if self.enter(h, v, seen):
                h.update(b'O' + t.__name__.encode())
                d = vars(v)
                for n in self.names(v):
                    h.update(n.encode() + b'=')
                    self.walk(h, d.get(n, '<gone>'), depth + 1, seen)
        else:
            h.update(b'?' + t.__name__.encode())

    @staticmethod
    def big(v):
        if len(v) <= 64:
            return False
        try:
            return np.asarray(v).dtype.kind in 'fiuc'
        except Exception:
            return False

    def enter(self, h, v, seen):
        if id(v) in seen:
            h.update(b'@%d' % seen[id(v)])
            return False
        seen[id(v)] = len(seen)
        return True

    def seq(self, h, v, depth, seen):
        h.update(b'[')
        for x in v:
            self.walk(h, x, depth + 1, seen)
            h.update(b',')
        h.update(b']')

    def numbers(self, d):
        """Digest of a dictionary of numbers (and its order)."""
        try:
            if any(isinstance(x, str) for x in d.values()):
                raise ValueError
            return hashlib.sha1(np.fromiter(d.values(), float, len(d)).tobytes() + '|'.join(d).encode()).hexdigest()
        except Exception:
            return self.h(list(d.items()))

    def h(self, v):
        h = hashlib.sha1()
        self.walk(h, v, 0, {})
        return h.hexdigest()


def constraints_digest(s, c, out, name):
    """Constraint collection: structure by position, one digest per constraint."""
    ids = {}
    for i, (con, ps) in enumerate(c._constraints):
        ids[id(con)] = i
        out['%s constraint %d %s' % (name, i, ps[:2])] = s.h([con, list(ps)])
    out[name + ' parameters'] = s.h([[p, n, ids.get(id(con), -1)] for p, (n, con) in c._parameters.items()])


def _buffer(b):
    """Fingerprint of a large buffer, by sums of its words."""
    if len(b) < 4096:
        return bytes(b)
    n = len(b) // 8
    a = np.frombuffer(b[:8 * n], dtype=np.uint64)
    k = n // 64 * 64
    return b'%d' % len(b) + a[:k].reshape(64, -1).sum(axis=1, dtype=np.uint64).tobytes() + a[k:].tobytes() + bytes(b[8 * n:])


class Marks:
    """Serialised form of the constraint collections at the first look; where
    it is unchanged the slower digest is as well."""

    def __init__(self):
        self.seen = {}

    @staticmethod
    def mark(c):
        try:
            bufs = []
            h = hashlib.sha1(pickle.dumps([c._constraints, c._parameters], 5, buffer_callback=bufs.append))
            for b in bufs:
                h.update(_buffer(b.raw()))
            return h.digest()
        except Exception:
            return None

    def digest(self, s, c, out, name):
        m = self.mark(c)
        old = self.seen.get(name)
        if m is not None and old is not None and old[0] == m:
            out.update(old[1])
            return
        part = {}
        constraints_digest(s, c, part, name)
        if old is None:
            self.seen[name] = self.mark(c), part
        out.update(part)


_module_tables = None


def module_tables():
    """Public tables of numbers/strings in flavio's modules."""
    global _module_tables
    if _module_tables is None:
        out, have = [], set()
        for mn, m in sorted(sys.modules.items()):
            if not (mn == 'flavio' or mn.startswith('flavio.')) or 'test' in mn.rsplit('.', 1)[-1]:
                continue
            if not isinstance(m, types.ModuleType):
                continue
            for n, v in sorted(vars(m).items()):
                if n.startswith('_') or _ignored(n):
                    continue
                if isinstance(v, (dict, list, np.ndarray)) and len(v if np.ndim(v) or isinstance(v, (dict, list)) else [0]):
                    if id(v) not in have:
                        have.add(id(v))
                        out.append((mn + '.' + n, v))
        _module_tables = out
    return _module_tables


def shared(s, marks):
    """name -> digest of the shared state (without the part given by `cheap`)."""
    out = {}
    marks.digest(s, flavio.default_parameters, out, 'default parameters')
    for cls in (flavio.Parameter, flavio.Observable, flavio.classes.AuxiliaryQuantity, flavio.classes.Implementation,
                flavio.Measurement, flavio.statistics.likelihood.FastLikelihood):
        inst = getattr(cls, 'instances', {})
        out[cls.__name__ + ' names'] = s.h(list(inst))
        for n, o in inst.items():
            if cls is flavio.Measurement:
                marks.digest(s, o, out, 'Measurement ' + n)
                out['Measurement %s data' % n] = s.h({k: v for k, v in vars(o).items() if k in ('name', 'inspire', 'experiment', 'url', 'description')})
            elif cls is flavio.Observable:
                out['Observable ' + n] = s.h([o.name, o.description, o.arguments, o.tex, id(o.prediction), getattr(o.prediction, 'function', None)])
            else:
                out['%s %s' % (cls.__name__, n)] = s.h({k: v for k, v in vars(o).items() if k in s.names(o) and k != 'quantity_obj'})
    out['taxonomy'] = s.h(flavio.Observable.taxonomy_dict())
    out['wilson default options'] = s.h([wilson.Wilson._default_options, flavio.WilsonCoefficients._default_options])
    for n, v in module_tables():
        out['table ' + n] = s.h(v)
    return out


def cheap(s):
    """The part of the shared state that is quick to look at."""
    out = {}
    out['config'] = s.h(flavio.config)
    w = flavio.physics.eft._wc_sm
    out['SM Wilson coefficients'] = s.h([w.wc, w._options])
    out['process'] = s.h([os.getcwd(), dict(os.environ), np.geterr(), repr(np.geterrcall()), [repr(f) for f in warnings.filters],
                          id(warnings.showwarning), repr(sorted(np.get_printoptions().items(), key=lambda t: t[0]))])
    out['active citations'] = str(id(flavio.citations))
    return out


def rng_state():
    st = np.random.get_state()
    return hashlib.sha1(st[1].tobytes() + repr((st[0], st[2], st[3], st[4])).encode()).hexdigest()


def diff(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
