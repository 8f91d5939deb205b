"""Metrics drawn by plans, and their values computed by fresh objects in processes that evaluated nothing else."""
import os
import pickle
import random
import warnings

import numpy as np

CUTOFFS = [None, None, 1, 2, 3, 5, 10]
CLASSES = ('NDCG', 'NDCG', 'NDCG', 'DCG', 'MSE', 'RMSE', 'ERR', 'MAP', 'MRR', 'Pfound', 'RBP', 'Precision', 'Recall', 'Kendalltau', 'SpearmanRho',
           'PrecisionMax')


def draw(rng, classes=CLASSES):
    c = rng.choice(classes)
    kw = {}
    if c not in ('Kendalltau', 'SpearmanRho'):
        kw['cutoff'] = rng.choice(CUTOFFS)
    if c in ('NDCG', 'MAP', 'Recall') and rng.random() < .5:
        kw['no_relevant_results'] = rng.choice([0., .5, 1.])
    if c in ('NDCG', 'DCG') and rng.random() < .6:
        kw['implementation'] = rng.choice(['flat', 'exp'])
    if c in ('MRR', 'RBP', 'Precision', 'Recall') and rng.random() < .6:
        kw['threshold'] = rng.choice([1, 2, 3])
    if c == 'RBP' and rng.random() < .6:
        kw['p'] = rng.choice([.5, .8, .95])
    if c == 'Pfound' and rng.random() < .6:
        kw['p_abandonment'] = rng.choice([.15, .3, 0., 1.])
    return [c, kw]


def draw_some(rng, most=3, classes=CLASSES):
    """a few metrics, often differing in little"""
    out = [draw(rng, classes)]
    while len(out) < most and rng.random() < .5:
        out.append(draw(rng, (out[0][0],) if rng.random() < .6 else classes))
    return out


def scaled(arrays, scales):
    """the datasets, some of them with labels up to the given grade only"""
    return [(X, np.minimum(y, np.float32(s)) if s else y, q) for (X, y, q), s in zip(arrays, list(scales) + [None] * len(arrays))]


def make(spec):
    import rankeval.metrics as M
    from rankeval.metrics.precision_max import PrecisionMax
    c = PrecisionMax if spec[0] == 'PrecisionMax' else getattr(M, spec[0])
    return c(**spec[1])


def predictions(seed, n, kind=None):
    """scores without ties, or with many of them"""
    rng = random.Random(seed)
    if seed % 4:
        v = [k / 8 for k in range(n)]
        rng.shuffle(v)
    else:
        v = [rng.randrange(-3, 4) / 2 for _ in range(n)]
    return np.array(v, dtype=np.float64 if seed % 3 == 0 else np.float32)


def norm(r):
    """what an evaluation returned, comparable"""
    if isinstance(r, tuple):
        return ('dataset', float(r[0]), tuple(np.asarray(r[1], dtype=np.float64).tolist()))
    return ('query', float(r))


def attempt(fn):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return norm(fn())
        except Exception as e:
            return ('raised', type(e).__name__)


def same(a, b):
    if len(a) != len(b) or a[0] != b[0]:
        return False
    return repr(a[1:]) == repr(b[1:])      # NaN equals NaN, -0.0 differs from 0.0 in repr only


def consistent(spec, r, m, d, y_pred, bounds):
    """None, or how the values of the queries within an evaluation differ from evaluating the queries one by one"""
    if r[0] != 'dataset':
        return None
    avg, det = r[1:]
    if len(det) != len(bounds):
        return '%d values for %d queries' % (len(det), len(bounds))
    for i, (a, b) in enumerate(bounds):
        v = float(m.eval_per_query(d.y[a:b], y_pred[a:b]))
        if spec[0] == 'MSE':
            v /= len(d.y)
        if not (np.isnan(v) and np.isnan(det[i])) and not abs(v - det[i]) <= 1e-5 * max(1, abs(v)):
            return 'query %d has %r in the evaluation of the dataset, %r alone' % (i, det[i], v)
    e = np.nansum(det) if spec[0] == 'MSE' else (np.nanmean(det) if not np.isnan(det).all() else np.nan)
    if not (np.isnan(e) and np.isnan(avg)) and not abs(e - avg) <= 1e-5 * max(1, abs(e)):
        return 'the summary %r is not the one of the values (%r)' % (avg, e)
    return None


def isolated(fn):
    """the (picklable) value of fn() computed in a forked process, which keeps nothing of it"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            b = pickle.dumps(fn())
            o = 0
            while o < len(b):
                o += os.write(w, b[o:o + 65536])
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(buf)
