"""Reference model of a constraint collection (flavio.classes.Constraints):
the constraint set last governs each parameter."""
import math

from . import dists


class RefStore:
    def __init__(self):
        self.cons = {}        # cid -> (spec, [parameters])   in order of insertion
        self.map = {}         # parameter -> (position, cid)   in order of (re)insertion
        self.n = 0

    def add(self, params, spec):
        self.n += 1
        for p in params:
            self.remove(p)
        self.cons[self.n] = (spec, list(params))
        for i, p in enumerate(params):
            self.map[p] = (i, self.n)
        return self.n

    def remove(self, p):
        if p not in self.map:
            return
        _, cid = self.map.pop(p)
        if not any(c == cid for _, c in self.map.values()):
            del self.cons[cid]

    def copy(self):
        c = RefStore()
        c.cons, c.map, c.n = dict(self.cons), dict(self.map), self.n
        return c

    def params(self):
        return list(self.map)

    def central(self, p):
        i, cid = self.map[p]
        spec = self.cons[cid][0]
        c = dists.central(spec)
        return c if dists.ndim(spec) == 1 else c[i]

    def governed(self, cid, only=None, excl=()):
        """[(position, parameter)] governed by a constraint, after exclusions."""
        spec, ps = self.cons[cid]
        return [(i, p) for i, p in enumerate(ps) if self.map.get(p) == (i, cid)
                and p not in excl and (only is None or p in only)]

    def logprob(self, values, only=None, excl=(), delta=False):
        """cid -> log probability."""
        out = {}
        for cid, (spec, ps) in self.cons.items():
            k = self.governed(cid, only, excl)
            if not k:
                continue
            f = dists.delta_logpdf if delta else dists.logpdf
            xs = [values[p] for _, p in k]
            out[cid] = f(spec, xs, [i for i, _ in k] if dists.ndim(spec) > 1 else None)
        return out

    def total(self, values, only=None, excl=(), delta=False):
        # plain sum; -inf and nan propagate
        s = 0.
        for v in self.logprob(values, only, excl, delta).values():
            s += v
        return s
