"""A controlled random source.

`install()` (called before freegs is imported) routes numpy.random and the
standard random module through one object.  While a script is active every
draw becomes a choice point with a finite list of outcomes; `explore` runs a
function under every script (depth-first, optionally with a bound on the
number of draws that differ from the first outcome)."""

import itertools
import numpy as np

UNIT = [0.2, 0.8]
NORMAL = [1.0, -1.0]


class Script:
    def __init__(self, prefix, unit=UNIT, normal=NORMAL):
        self.prefix, self.log = list(prefix), []
        self.unit, self.normal = unit, normal
        self.prob = 1.0

    def pick(self, n):
        """Index of the chosen outcome out of n"""
        k = len(self.log)
        c = self.prefix[k] if k < len(self.prefix) else 0
        if c >= n:
            raise AssertionError("choice out of range: the code is not deterministic")
        self.log.append((c, n))
        self.prob /= n
        return c


_active = None


def _shape(size, f):
    if size is None:
        return f()
    out = np.empty(size)
    flat = out.reshape(-1)
    for i in range(flat.size):
        flat[i] = f()
    return out


def _unit(size=None):
    return _shape(size, lambda: _active.unit[_active.pick(len(_active.unit))])


def _rand(*d):
    return _unit(d if d else None)


def _uniform(low=0.0, high=1.0, size=None):
    return _shape(size, lambda: low + (high - low) * _unit())


def _normal(loc=0.0, scale=1.0, size=None):
    return _shape(size, lambda: loc + scale * _active.normal[_active.pick(len(_active.normal))])


def _randn(*d):
    return _normal(size=d if d else None)


def _randint(low, high=None, size=None, dtype=int):
    if high is None:
        low, high = 0, low
    if high <= low:
        raise ValueError("low >= high")
    f = lambda: int(low) + _active.pick(int(high) - int(low))
    return f() if size is None else _shape(size, f).astype(int)


def _pyrandint(a, b):
    return _randint(a, b + 1)


def _sample(pop, k):
    pop = list(pop)
    return [pop.pop(_active.pick(len(pop))) for _ in range(k)]


def _choice(a, size=None, replace=True, p=None):
    seq = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
    if size is None:
        return seq[_active.pick(len(seq))]
    n = int(np.prod(size))
    out = [seq[_active.pick(len(seq))] for _ in range(n)] if replace else _sample(seq, n)
    return np.array(out).reshape(size)


def _permutation(x):
    seq = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
    return np.array(_sample(seq, len(seq)))


def _shuffle(x):
    x[:] = _sample(list(x), len(x))


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import random as pyr

    def route(mod, name, f):
        orig = getattr(mod, name, None)
        if orig is None:
            return

        def call(*a, **k):
            return f(*a, **k) if _active is not None else orig(*a, **k)

        setattr(mod, name, call)

    nr = np.random
    for name, f in dict(
        random=_unit, random_sample=_unit, ranf=_unit, sample=_unit, rand=_rand, uniform=_uniform, normal=_normal,
        randn=_randn, standard_normal=lambda size=None: _normal(size=size), randint=_randint, choice=_choice,
        permutation=_permutation, shuffle=_shuffle, seed=lambda *a, **k: None,
    ).items():
        route(nr, name, f)
    for name, f in dict(
        random=_unit, uniform=lambda a=0.0, b=1.0: _uniform(a, b), gauss=lambda mu=0.0, sigma=1.0: _normal(mu, sigma),
        normalvariate=lambda mu=0.0, sigma=1.0: _normal(mu, sigma), randint=_pyrandint, randrange=_randint,
        choice=_choice, sample=lambda p, k, **kw: _sample(p, k), shuffle=_shuffle, seed=lambda *a, **k: None,
    ).items():
        route(pyr, name, f)

    class Gen:
        random = staticmethod(_unit)
        uniform = staticmethod(_uniform)
        normal = staticmethod(_normal)
        choice = staticmethod(lambda a, size=None, replace=True, p=None, **k: _choice(a, size, replace, p))
        permutation = staticmethod(_permutation)
        shuffle = staticmethod(_shuffle)

        @staticmethod
        def integers(low, high=None, size=None, dtype=int, endpoint=False):
            if high is None:
                low, high = 0, low
            return _randint(low, high + (1 if endpoint else 0), size)

    orig = nr.default_rng
    nr.default_rng = lambda *a, **k: Gen() if _active is not None else orig(*a, **k)


def run(func, prefix, **kw):
    global _active
    s = Script(prefix, **kw)
    _active = s
    try:
        return func(), s
    finally:
        _active = None


def explore(func, visit, bound=None, start=(), **kw):
    """Run func under every script extending `start`; visit(result, script)"""
    stack = [list(start)]
    n = 0
    while stack:
        pre = stack.pop()
        res, s = run(func, pre, **kw)
        n += 1
        visit(res, s)
        dev = sum(1 for c in pre if c)
        for k in range(len(s.log) - 1, len(pre) - 1, -1):
            if bound is not None and dev + 1 > bound:
                break
            c, m = s.log[k]
            for alt in range(m - 1, 0, -1):
                stack.append([x[0] for x in s.log[:k]] + [alt])
    return n
