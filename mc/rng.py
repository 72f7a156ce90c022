"""Random sources whose every answer is a choice of the explorer."""
import contextlib
import random

import numpy as np


class Scripted:
    """Stands in for a numpy Generator, the numpy.random module and the random module.
    Continuous draws are restricted to a few points (given as fractions of the range)."""

    def __init__(self, ch, points=(0.0, 0.5, 1 - 2 ** -40)):
        self.ch = ch
        self.points = points
        self.calls = []
        self.weight = 1.0  # probability of the answers so far; None once a continuous draw was made

    def _w(self, x):
        if self.weight is not None:
            self.weight = None if x is None else self.weight * x

    # -- helpers
    def _one(self, options):
        return options[self.ch.choose(len(options))]

    def _shape(self, size):
        if size is None:
            return None
        return (int(size),) if np.isscalar(size) else tuple(int(s) for s in size)

    def _fill(self, size, draw):
        shape = self._shape(size)
        if shape is None:
            return draw()
        n = int(np.prod(shape)) if shape else 1
        vals = [draw() for _ in range(n)]
        if vals and isinstance(vals[0], (list, tuple)):
            return np.array(vals)
        out = np.array(vals)
        return out.reshape(shape) if out.size == n else out

    # -- numpy Generator / numpy.random
    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        opts = list(range(int(a))) if np.isscalar(a) and not isinstance(a, str) else a
        n = len(opts)
        if n == 0 and (size is None or np.prod(size) > 0):
            raise ValueError("a cannot be empty")
        if p is not None:
            pp = [float(x) for x in p]
            if len(pp) != n:
                raise ValueError("a and p must have same size")
            if any(x < 0 for x in pp):
                raise ValueError("probabilities are not non-negative")
            if abs(sum(pp) - 1) > 1e-7:
                raise ValueError("probabilities do not sum to 1")
            idx = [i for i, x in enumerate(pp) if x > 0]
        else:
            idx = list(range(n))
        self.calls.append(("choice", n, size))
        if replace or size is None:
            def draw():
                i = self._one(idx)
                self._w(pp[i] if p is not None else 1.0 / n)
                return opts[i]

            if getattr(a, "dtype", None) == object and size is not None:
                shape = self._shape(size)
                out = np.empty(int(np.prod(shape)), dtype=object)
                for j in range(out.size):
                    out[j] = draw()
                return out.reshape(shape)
            return self._fill(size, draw)
        self._w(None)
        k = int(np.prod(self._shape(size)))
        if k > len(idx):
            raise ValueError("Cannot take a larger sample than population when replace is False")
        left = list(idx)
        out = []
        for _ in range(k):
            out.append(opts[left.pop(self.ch.choose(len(left)))])
        return np.array(out).reshape(self._shape(size))

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        hi = int(high) + (1 if endpoint else 0)
        if hi <= low:
            raise ValueError("low >= high")
        def draw():
            self._w(1.0 / (hi - int(low)))
            return int(low) + self.ch.choose(hi - int(low))

        return self._fill(size, draw)

    def randint(self, low, high=None, size=None):
        if size is None and high is not None:
            # random.randint(a, b) is inclusive; numpy's is not: decided by the caller through `py`
            return int(low) + self.ch.choose(int(high) - int(low) + (1 if self.py else 0))
        return self.integers(low, high, size)

    py = False

    def uniform(self, low=0.0, high=1.0, size=None):
        self._w(None)
        return self._fill(size, lambda: low + self._one(self.points) * (high - low))

    def random(self, size=None):
        self._w(None)
        return self._fill(size, lambda: self._one(self.points))

    def normal(self, loc=0.0, scale=1.0, size=None):
        self._w(None)
        return self._fill(size, lambda: loc + scale * self._one((-1.5, 0.0, 0.75)))

    def permutation(self, x):
        xs = list(range(x)) if np.isscalar(x) else list(x)
        out = []
        while xs:
            out.append(xs.pop(self.ch.choose(len(xs))))
        return np.array(out)

    def shuffle(self, x):
        xs = list(x)
        for i in range(len(xs)):
            x[i] = xs.pop(self.ch.choose(len(xs)))

    def multinomial(self, n, pvals, size=None):
        assert size is None
        self._w(None)
        idx = [i for i, q in enumerate(pvals) if q > 0]
        out = np.zeros(len(pvals), dtype=int)
        for _ in range(int(n)):
            out[self._one(idx)] += 1
        return out


class PyScripted(Scripted):
    py = True

    def choice(self, seq):
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        return seq[self.ch.choose(len(seq))]

    def choices(self, population, weights=None, cum_weights=None, k=1):
        w = weights or [1] * len(population)
        ok = [p for p, x in zip(population, w) if x > 0]
        return [ok[self.ch.choose(len(ok))] for _ in range(k)]

    def sample(self, population, k):
        left = list(population)
        if k > len(left):
            raise ValueError("Sample larger than population")
        return [left.pop(self.ch.choose(len(left))) for _ in range(k)]

    def randrange(self, start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        return r[self.ch.choose(len(r))]

    def normalvariate(self, mu=0.0, sigma=1.0):
        return self.normal(mu, sigma)

    gauss = normalvariate

    def seed(self, *a, **k):
        self.calls.append(("seed", a))

    def getrandbits(self, k):
        return self.ch.choose(1 << k)


@contextlib.contextmanager
def closed(ch, points=(0.0, 0.5, 1 - 2 ** -40)):
    """Every random source the library reaches (numpy.random, random) answers from `ch`."""
    g, p = Scripted(ch, points), PyScripted(ch, points)
    saved = []

    def patch(obj, name, val):
        if hasattr(obj, name):
            saved.append((obj, name, getattr(obj, name)))
            setattr(obj, name, val)

    patch(np.random, "default_rng", lambda seed=None: g)
    for n in ("choice", "uniform", "random", "normal", "permutation", "shuffle", "multinomial", "randint"):
        patch(np.random, n, getattr(g, n))
    patch(np.random, "RandomState", type("RandomState", (), {"__new__": lambda cls, seed=None: g}))
    patch(np.random, "rand", lambda *s: g.random(s or None))
    patch(np.random, "seed", p.seed)
    for n in ("choice", "choices", "uniform", "random", "sample", "randint", "randrange", "shuffle", "normalvariate",
              "gauss", "seed", "getrandbits"):
        patch(random, n, getattr(p, n))
    patch(random, "_inst", p)
    try:
        yield g, p
    finally:
        for obj, name, val in reversed(saved):
            setattr(obj, name, val)
