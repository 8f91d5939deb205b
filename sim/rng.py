"""The random generators of NumPy behind a seam: permutations of the global generator, or of an instance, chosen by the plan."""
import random

import numpy as np

STYLES = ('real', 'real', 'identity', 'reverse', 'rotate', 'swap', 'riffle')


def arrange(style, n, rng):
    """a permutation of range(n)"""
    o = list(range(n))
    if style == 'reverse':
        o.reverse()
    elif style == 'rotate' and n:
        k = rng.randrange(n)
        o = o[k:] + o[:k]
    elif style == 'swap' and n > 1:
        i, j = rng.randrange(n), rng.randrange(n)
        o[i], o[j] = o[j], o[i]
    elif style == 'riffle':
        o = o[::2] + o[1::2]
    return np.array(o, dtype=np.int64)


class Adversary(np.random.RandomState):
    """a generator whose permutations are the chosen ones (each of them could come from the real generator)"""

    def __init__(self, seed, style):
        super(Adversary, self).__init__(seed & 0xffffffff)
        self.style, self.rng = style, random.Random(seed)

    def permutation(self, x):
        if self.style == 'real':
            return super(Adversary, self).permutation(x)
        if isinstance(x, (int, np.integer)):
            return arrange(self.style, int(x), self.rng)
        x = np.asarray(x)
        return x[arrange(self.style, len(x), self.rng)]

    def shuffle(self, x):
        if self.style == 'real':
            return super(Adversary, self).shuffle(x)
        o = arrange(self.style, len(x), self.rng)
        if isinstance(x, np.ndarray):
            x[...] = x[o]
        else:
            x[:] = [x[i] for i in o]


class Global:
    """makes an adversary the global generator of NumPy"""

    def __init__(self, seed, style):
        self.r, self.style = Adversary(seed, style), style

    def __enter__(self):
        m = np.random.mtrand
        self.saved = m._rand, np.random.permutation, np.random.shuffle
        if self.style != 'real':
            m._rand = self.r
            np.random.permutation, np.random.shuffle = self.r.permutation, self.r.shuffle
        return self

    def __exit__(self, *a):
        m = np.random.mtrand
        m._rand, np.random.permutation, np.random.shuffle = self.saved
        return False


def state(r=None):
    s = (r or np.random).get_state()
    return (s[0], s[1].tolist(), s[2], s[3], s[4])


def consume(how, rng):
    """another user of the global generator"""
    if how == 'rand':
        np.random.rand(1 + rng.randrange(9))
    elif how == 'seed':
        np.random.seed(rng.randrange(1 << 31))
    elif how == 'shuffle':
        np.random.shuffle(np.arange(5))
    elif how == 'normal':
        np.random.normal(size=3)
    else:
        random.random()


def bounds(q):
    c = [0] + [i for i in range(1, len(q)) if q[i] != q[i - 1]] + [len(q)]
    return list(zip(c, c[1:])) if len(q) else []


def part_error(part, X, y, q, ids):
    """None, or why part does not hold exactly the rows of the given queries of (X, y, q), in their order"""
    keep = np.array([int(v) in ids for v in q.tolist()], dtype=bool).reshape(len(q))
    if part.X.shape != (int(keep.sum()), X.shape[1]) or part.y.shape != (int(keep.sum()),):
        return '%s rows instead of %d' % (part.X.shape, keep.sum())
    if not np.array_equal(part.X, X[keep]):
        return 'other features'
    if not np.array_equal(part.y, y[keep]):
        return 'other labels'
    eq = q[keep]
    b = bounds(eq)
    if [int(v) for v in part.query_ids] != [int(eq[s]) for s, _ in b] or [int(v) for v in part.query_offsets] != [s for s, _ in b] + [len(eq)]:
        return 'queries %s %s instead of %s' % (part.query_ids.tolist(), part.query_offsets.tolist(), [(int(eq[s]), s, e) for s, e in b])
    if part.n_queries != len(b) or part.n_instances != len(eq) or part.n_features != X.shape[1]:
        return 'wrong sizes'
    return None


def disjoint_cover(groups, ids):
    """None, or why the groups of query ids do not partition ids"""
    seen = {}
    for k, g in enumerate(groups):
        for v in g:
            v = int(v)
            if v in seen:
                return 'query %d is in part %d and in part %d' % (v, seen[v], k)
            if v not in ids:
                return 'query %d does not exist' % v
            seen[v] = k
    missing = ids - set(seen)
    return 'query %d is in no part' % min(missing) if missing else None
