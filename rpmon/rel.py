"""Helpers for the relation monitors."""
import numpy as np
from .core import R, fn, flat, brief, Inconclusive
from .engine import SPECS, DEFAULT


class Env:
    """one relation task: counted library calls and workload draws"""

    def __init__(self, log, rng):
        self.log, self.rng = log, rng
        self.r = R(rng, wide=False)

    def __call__(self, name, *a, **k):
        self.log.call(name)
        return fn(name)(*a, **k)

    def cols(self, name, n, **over):
        """valid columns for an element-wise function"""
        s = SPECS[name]
        r = R(self.rng, s.func, wide=False)
        c = s.gen(r, n)
        c.update(over)
        v = getattr(s, "valid", None)
        if v is not None:
            m = np.broadcast_to(v(c), (n,))
            c = {k: x[m] for k, x in c.items()}
        return c

    def run(self, name, cols, opt=None, **over):
        """array call of an element-wise function"""
        s = SPECS[name]
        o = {p: DEFAULT for p in s.opts}
        o.update(opt or {})
        c = dict(cols)
        c.update(over)
        a, k = s.build(c, o)
        return self(name, *a, **k)

    def each(self, name, cols, opt=None, **over):
        """scalar calls row by row, stacked"""
        s = SPECS[name]
        o = {p: DEFAULT for p in s.opts}
        o.update(opt or {})
        c = dict(cols)
        c.update(over)
        n = len(next(iter(c.values())))
        rows = []
        for i in range(n):
            a, k = s.build({p: (int(v[i]) if p in s.intargs else float(v[i])) for p, v in c.items() if p in s.args}, o)
            rows.append([np.ravel(x)[0] if np.size(x) == 1 else x for x in flat(self(name, *a, **k))])
        return [np.array(x) for x in zip(*rows)]


def relation(f):
    """turn f(env, log, n) into a task body"""
    def body(log, rng):
        f(Env(log, rng), log)
    body.__name__ = f.__name__
    return body
