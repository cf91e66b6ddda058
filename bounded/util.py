import random

import numpy as np

from lib import pauliref as pr
from lib.bounded import Unscripted


def arr(rows):
    """numpy array (u1) of '0101..' strings or lists."""
    if isinstance(rows, str):
        return np.array([int(c) for c in rows], dtype="u1")
    return np.array([[int(c) for c in r] for r in rows], dtype="u1")


def bits(op, n):
    return "".join(map(str, pr.to_row(op, n)))


def state(rows, n):
    return np.array([pr.to_row(r, n) for r in rows], dtype="u1")


def rows_of(tab):
    return [pr.from_row(r) for r in np.asarray(tab)]


def stabs_of(tab):
    r = rows_of(tab)
    return r[len(r) // 2:]


class Uniform:
    """Lazily sampled uniform random number; comparisons branch exactly."""

    def __init__(self, tree):
        self.tree, self.lo, self.hi = tree, 0.0, 1.0

    def __lt__(self, c):
        c = float(c)
        if c <= self.lo:
            return False
        if c >= self.hi:
            return True
        p = (c - self.lo) / (self.hi - self.lo)
        if self.tree.branch([p, 1 - p]) == 0:
            self.hi = c
            return True
        self.lo = c
        return False

    __le__ = __lt__

    def __gt__(self, c):
        return not self < c

    __ge__ = __gt__


class ExactRng:
    """Stand-in for numpy's Generator which explores every outcome exactly."""

    def __init__(self, tree):
        self.tree = tree

    def random(self, size=None):
        if size is None:
            return Uniform(self.tree)
        return np.array([Uniform(self.tree) for _ in range(int(size))], dtype=object)

    def choice(self, a, size=None, replace=True, p=None):
        if size is not None or not replace:
            raise Unscripted("choice(size)")
        a = range(a) if isinstance(a, (int, np.integer)) else a
        a = list(a)
        if p is None:
            p = [1 / len(a)] * len(a)
        p = [float(v) for v in p]
        if len(p) != len(a) or abs(sum(p) - 1) > 1e-6 or min(p) < 0:
            raise ValueError("probabilities do not sum to 1")
        return a[self.tree.branch(p)]

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if size is not None:
            raise Unscripted("integers(size)")
        if high is None:
            low, high = 0, low
        k = high - low + (1 if endpoint else 0)
        return low + self.tree.branch([1 / k] * k)

    def uniform(self, low=0.0, high=1.0, size=None):
        if (low, high) != (0.0, 1.0):
            raise Unscripted("uniform(low, high)")
        return self.random(size)

    def binomial(self, n, p, size=None):
        if n != 1 or size is not None:
            raise Unscripted("binomial")
        return self.tree.branch([1 - float(p), float(p)])

    def __getattr__(self, name):
        raise Unscripted(name)


class Tree:
    """Enumerate all paths of a program with random branches."""

    def __init__(self, limit=200000):
        self.limit = limit

    def branch(self, probs):
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
        else:
            k = next((i for i, p in enumerate(probs) if p > 0), 0)
            self.prefix.append(k)
            self.opts.append(probs)
        self.opts[self.pos] = probs
        self.weight *= probs[k]
        self.pos += 1
        return k

    def paths(self, fn):
        """Yield (weight, fn(rng)) over all paths of non-zero probability."""
        self.prefix, self.opts = [], []
        for _ in range(self.limit):
            self.pos, self.weight = 0, 1.0
            res = fn(ExactRng(self))
            yield self.weight, res
            del self.prefix[self.pos:], self.opts[self.pos:]
            while self.prefix:
                nxt = next((i for i in range(self.prefix[-1] + 1, len(self.opts[-1]))
                            if self.opts[-1][i] > 0), None)
                if nxt is None:
                    self.prefix.pop()
                    self.opts.pop()
                else:
                    self.prefix[-1] = nxt
                    break
            else:
                return
        raise Unscripted("too many paths")


class use_rng:
    def __init__(self, rng):
        self.rng = rng

    def __enter__(self):
        import plaquette

        self.old = plaquette.rng
        plaquette.rng = self.rng

    def __exit__(self, *a):
        import plaquette

        plaquette.rng = self.old


def np_rng(seed):
    return np.random.default_rng(seed)


def sub_rng(*key):
    return random.Random("/".join(map(str, key)))
