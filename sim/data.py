"""Generated datasets, their SVMlight text, and helpers to compare."""
import bz2, gzip, io as _io, random

import numpy as np


def values(rng, n, kind):
    """single-precision values of several shapes"""
    if kind == 'small':
        return np.array([rng.randrange(-4, 5) for _ in range(n)], dtype=np.float32)
    if kind == 'dyadic':
        return np.array([rng.randrange(-64, 65) / 8 for _ in range(n)], dtype=np.float32)
    if kind == 'wild':
        out = []
        for _ in range(n):
            t = rng.random()
            if t < .3:
                out.append(0.0)
            elif t < .6:
                out.append(rng.gauss(0, 1))
            elif t < .8:
                out.append(rng.gauss(0, 1) * 10 ** rng.randrange(-30, 30))
            elif t < .9:
                out.append(float(rng.randrange(-2**24, 2**24)))
            else:
                out.append(rng.choice([3.4028234e38, -3.4028234e38, 1.1754944e-38, 1e-45, -0.0, 16777217., 0.1]))
        return np.array(out, dtype=np.float32)
    return np.array([rng.random() for _ in range(n)], dtype=np.float32)


def query_sizes(rng, rows, nq):
    nq = max(1, min(nq, rows))
    cuts = sorted(rng.sample(range(1, rows), nq - 1)) if nq > 1 else []
    cuts = [0] + cuts + [rows]
    return [b - a for a, b in zip(cuts, cuts[1:])]


def table(seed, rows, cols, nq, kind='wild', qids='any', labels='graded'):
    """(X, y, qid of every row); queries are contiguous"""
    rng = random.Random(seed)
    X = values(rng, rows * cols, kind).reshape(rows, cols)
    if labels == 'graded':
        y = np.array([rng.choice([0, 0, 0, 1, 1, 2, 3, 4]) for _ in range(rows)], dtype=np.float32)
    else:
        y = values(rng, rows, kind)
    sizes = query_sizes(rng, rows, nq)
    n = len(sizes)
    if qids == 'seq':
        ids = list(range(1, n + 1))
    elif qids == 'sorted':
        ids = sorted(rng.sample(range(0, 10 * n + 10), n))
    else:
        ids = rng.sample(range(0, 10 * n + 10), n)
        if rng.random() < .2:
            ids = [i + rng.choice([2**20, 2**31 - 10 * n - 11]) for i in ids] if rng.random() < .5 else [i + rng.randrange(2**20) for i in ids]
            ids = ids if len(set(ids)) == n else list(range(n))
    q = np.concatenate([np.full(s, i, dtype=np.int32) for s, i in zip(sizes, ids)])
    return X, y, q


def num(rng, v, style):
    v = np.float32(v)
    if style == 'int' and float(v).is_integer() and abs(v) < 1e6:
        return str(int(v)) if not (v == 0 and np.signbit(v)) else '-0'
    if style == 'exp':
        return '%.9e' % float(v)
    if style == 'long':
        return repr(float(v))
    return '%.9g' % float(v)


def render(seed, X, y, q=None, sparse=False, comments=False, eol='\n', final_eol=True, zero_based=False):
    """the text of the dataset; with sparse the zeros are left out (at random)"""
    rng = random.Random(seed)
    out = []
    rows, cols = X.shape
    full_row = rng.randrange(rows)      # some row mentions every feature, so that the width is defined
    for i in range(rows):
        if comments and rng.random() < .1:
            out.append('# ' + rng.choice(['a comment', 'qid:7 1:2', '', '3 qid:1 1:1']))
        st = rng.choice(['g', 'g', 'int', 'exp', 'long'])
        parts = [num(rng, y[i], rng.choice(['int', 'g']))]
        if q is not None:
            parts.append('qid:%d' % q[i])
        n = 0
        for j in range(cols):
            v = X[i, j]
            zero = v == 0 and not np.signbit(v)
            if sparse and zero and rng.random() < .8 and not (i == full_row and j == cols - 1):
                continue
            parts.append('%d:%s' % (j + 1, num(rng, v, st)))
            n += 1
        if q is None and n == 0:    # the loader wants something after the label
            parts.append('1:%s' % num(rng, X[i, 0], 'g'))
        sep = '  ' if rng.random() < .05 else '\t' if rng.random() < .05 else ' '
        line = sep.join(parts)
        if rng.random() < .1:
            line += ' '
        if comments and rng.random() < .2:
            line += rng.choice([' # doc 17', ' #', '# 5:3', ' #docid = GX000 inc = 1'])
        out.append(line)
    s = eol.join(out)
    return (s + (eol if final_eol else '')).encode()


def pack(data, ext, level=6, members=1):
    if ext == '.gz':
        n = max(1, len(data) // members)
        cut = [data[i:i + n] for i in range(0, len(data), n)] if members > 1 else [data]
        return b''.join(gzip.compress(c, level, mtime=0) for c in cut)
    if ext == '.bz2':
        n = max(1, len(data) // members)
        cut = [data[i:i + n] for i in range(0, len(data), n)] if members > 1 else [data]
        return b''.join(bz2.compress(c, max(1, level)) for c in cut)
    return data


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a.view(np.uint32) if a.dtype == np.float32 else a,
                                                                        b.view(np.uint32) if b.dtype == np.float32 else b)


def parse(text, first=1):
    """independent reading of SVMlight text, for complete rows; returns (X, y, qids)"""
    rows, ys, qs, width = [], [], [], 0
    for line in text.decode().split('\n'):
        if line.startswith('#'):
            continue
        line = line.split('#')[0].split()
        if not line:
            continue
        ys.append(np.float32(float(line[0])))
        d = {}
        for t in line[1:]:
            k, v = t.split(':')
            if k == 'qid':
                qs.append(int(v))
            else:
                k = int(k) + 1 - first
                if k < 1:
                    raise ValueError('bad feature index')
                d[k] = np.float32(float(v))
                width = max(width, k)
        rows.append(d)
    X = np.zeros((len(rows), width), dtype=np.float32)
    for i, d in enumerate(rows):
        for k, v in d.items():
            X[i, k - 1] = v
    return X, np.array(ys, dtype=np.float32), np.array(qs, dtype=np.int32)
