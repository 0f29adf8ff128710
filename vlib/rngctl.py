"""Controlled random source: numpy's global random functions answer from an explicit decision sequence.

`Controlled(perms, jitter, shuffle)` patches np.random while active:
  permutation(x)  -> the next permutation of `perms` (list of index lists), a fixed irregular one when exhausted
  shuffle(x)      -> identity or reversal (alternating when 'alt')
  uniform(lo, hi) -> a fixed position inside [lo, hi): fraction(s) from `jitter`, cycled
  rand/random/... -> a fixed pseudo-random sequence
The invariants that are checked hold for any random source; exact reference comparisons are made only when the code asked
for permutations the way the reference expects (`used`)."""
import numpy as np


class Controlled:
    NAMES = ('permutation', 'shuffle', 'uniform', 'rand', 'random', 'random_sample', 'normal', 'standard_normal', 'randn', 'seed', 'default_rng')

    def __init__(self, perms=(), jitter=(0.5,), shuffle='id'):
        self.perms = [list(p) for p in perms]
        self.jitter = list(jitter)
        self.shuf = shuffle
        self.used = []           # (array that was permuted, permutation)
        self.k = self.j = self.s = 0
        self.rs = np.random.RandomState(20240101)     # for requests that have no decision
        self.gen = np.random.default_rng

    def permutation(self, x):
        a = np.arange(x) if np.isscalar(x) else np.array(x)
        n = len(a)
        p = self.perms[self.k] if self.k < len(self.perms) else None
        self.k += 1
        if p is None or len(p) != n:
            p = list(self.rs.permutation(n))
        self.used.append((a.copy(), list(p)))
        return a[np.array(p, dtype=int)] if n else a

    def shuffle(self, x, *a):
        self.s += 1
        if self.shuf == 'rev' or (self.shuf == 'alt' and self.s % 2):
            x[:] = np.array(x)[::-1].copy() if not isinstance(x, list) else x[::-1]

    def _frac(self, size):
        n = 1 if size is None else int(np.prod(size))
        out = []
        for _ in range(n):
            out.append(self.jitter[self.j % len(self.jitter)])
            self.j += 1
        return out[0] if size is None else np.array(out).reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast(low, high).shape
        return low + (np.asarray(high) - low) * self._frac(size)

    def _u(self, size=None):
        return self.rs.random_sample(size)

    def rand(self, *shape):
        return self._u(shape or None)

    def random(self, size=None):
        return self._u(size)

    random_sample = random

    def normal(self, loc=0.0, scale=1.0, size=None):
        from scipy.stats import norm
        return loc + scale * norm.ppf(self._u(size))

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *shape):
        return self.normal(size=shape or None)

    def default_rng(self, *a):
        self.s += 1
        return self.gen(1000 + self.s)

    def seed(self, *a, **k):
        pass

    def __enter__(self):
        self.old = {n: getattr(np.random, n) for n in self.NAMES}
        for n in self.NAMES:
            setattr(np.random, n, getattr(self, n))
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(np.random, n, f)
