"""Random answers as explored choices.

A ChoiceRandom asks a Chooser for every random decision; the Chooser walks a choice tree depth first. The explorer runs
the program once per leaf: all decision vectors with at most `dev` departures from the default answer 0 (dev=None: all).
"""
import itertools
import random


class Chooser:
    def __init__(self, prefix):
        self.prefix = prefix
        self.trace = []      # (taken, arity)

    def pick(self, n):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise AssertionError('replay diverged: choice %d of %d at point %d' % (c, n, i))
        self.trace.append((c, n))
        return c


def explore(run, dev=None, limit=None, max_points=None):
    """run(chooser) is executed for every decision vector; yields (decisions, result)."""
    stack = [((), 0)]
    count = 0
    while stack:
        prefix, used = stack.pop()
        ch = Chooser(prefix)
        res = run(ch)
        count += 1
        yield [c for c, n in ch.trace], res
        if limit is not None and count >= limit:
            return
        if dev is not None and used >= dev:
            continue
        taken = [c for c, n in ch.trace]
        hi = len(ch.trace) if max_points is None else min(max_points, len(ch.trace))
        for i in range(hi - 1, len(prefix) - 1, -1):
            for alt in range(ch.trace[i][1] - 1, 0, -1):
                stack.append((tuple(taken[:i]) + (alt,), used + 1))


class Shifted:
    """The same choice tree, explored around another base run: answer 0 stands for the answer that the stream `salt` gives at this point"""

    def __init__(self, chooser, salt):
        self.ch, self.x = chooser, 2654435761 * (salt + 1) % 2 ** 32

    def pick(self, n):
        self.x = (1664525 * self.x + 1013904223) % 2 ** 32
        return (self.ch.pick(n) + (self.x >> 8)) % n


class ChoiceRandom(random.Random):
    """random.Random whose every answer is chosen by the explorer. `floats` is the alphabet of random()."""

    def __new__(cls, *a, **k):
        return super().__new__(cls, 0)

    def __init__(self, chooser, floats=(0.999999, 0.0), perms='all', max_range=None):
        super().__init__(0)
        self.ch = chooser
        self.floats = floats
        self.max_range = max_range

    def random(self):
        return self.floats[self.ch.pick(len(self.floats))]

    def _idx(self, n):
        return self.ch.pick(n)

    def randint(self, a, b):
        return a + self._idx(b - a + 1)

    def randrange(self, start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        return r[self._idx(len(r))]

    def choice(self, seq):
        return seq[self._idx(len(seq))]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        pop = list(population)
        if cum_weights is not None:
            weights = [b - a for a, b in zip([0] + list(cum_weights), cum_weights)]
        if weights is not None:
            idx = [i for i, w in enumerate(weights) if w > 0] or list(range(len(pop)))
        else:
            idx = list(range(len(pop)))
        return [pop[idx[self._idx(len(idx))]] for _ in range(k)]

    def sample(self, population, k, *, counts=None):
        pop = list(population)
        if counts is not None:      # long multisets: every rotation
            pop = [x for x, c in zip(pop, counts) for _ in range(c)]
            c = self._idx(len(pop))
            return (pop[c:] + pop[:c])[:k]
        subsets = list(itertools.combinations(range(len(pop)), k))
        return [pop[i] for i in subsets[self._idx(len(subsets))]]

    def shuffle(self, x):
        n = len(x)
        if n > 4:       # long sequences: identity, reversal, and every single transposition with position 0
            c = self._idx(n + 1)
            if c == n:
                x[:] = x[::-1]
            elif c:
                x[0], x[c] = x[c], x[0]
            return
        perms = list(itertools.permutations(range(n)))
        p = perms[self._idx(len(perms))]
        x[:] = [x[i] for i in p]

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def gauss(self, mu=0.0, sigma=1.0):
        return mu + sigma * (-1, 0, 1)[self.ch.pick(3)]

    def getrandbits(self, k):
        return self.ch.pick(2) if k == 1 else 0


class ChoiceRandomState:
    """Stand-in for numpy.random.RandomState: only shuffle is decided by the explorer, the rest is a fixed stream."""

    def __init__(self, chooser):
        import numpy as np
        self._ch = chooser
        self._np = np.random.default_rng(0)

    def shuffle(self, x):
        ChoiceRandom(self._ch).shuffle(x)

    def permutation(self, x):
        import numpy as np
        a = np.arange(x) if isinstance(x, int) else np.array(list(x))
        self.shuffle(a)
        return a

    def __getattr__(self, name):
        return getattr(self._np, name)
