"""Shared by the checks that score models: generated model + dataset, reference scores, comparison, immutability."""
import copy
import hashlib
import mmap
import os
import random
import resource

import numpy as np

from sim import data, models
from sim.core import Invalid

ARRAYS = ['trees_root', 'trees_weight', 'trees_left_child', 'trees_right_child', 'trees_nodes_value', 'trees_nodes_feature']
F32 = np.float32


def draw_model(rng, tier, formats=('QuickRank', 'QuickRank', 'QuickRank', 'LightGBM', 'XGBoost', 'ScikitLearn', 'Jforests', 'CatBoost')):
    big = rng.random() < (.15 if tier == 'quick' else .3)
    n_trees, size = rng.randrange(8, 41) if big else rng.choice([1, 1, 2, 3, 4, 5, 6, 9, 12]), rng.randrange(4, 40) if big else rng.randrange(1, 8)
    if rng.random() < .006:
        n_trees, size = rng.choice([(2, 300), (300, 2)])       # more than a byte holds
    return {'mseed': rng.randrange(1 << 30), 'n_trees': n_trees, 'size': size, 'n_feat': rng.choice([1, 2, 3, 5, 8, 20]) if rng.random() < .98 else 40000,
            'format': rng.choice(formats), 'leaf': rng.choice([0, 0, .3]),
            'rate': rng.choice([1, 1, 1, .5, .25, 2]), 'base': rng.choice([None, None, 0, .5, -1.25, 3]),
            'keep': round(rng.random(), 3) if rng.random() < .25 else None, 'how': rng.choice(['load', 'copy', 'plain'])}


def draw_data(rng, tier, n_feat, vals='dyadic'):
    big = rng.random() < (.15 if tier == 'quick' else .3)
    big = big and n_feat < 1000
    return {'dseed': rng.randrange(1 << 30), 'rows': rng.randrange(30, 200) if big else rng.choice([1, 2, 3, 4, 5, 7, 9, 12, 16, 23] if n_feat < 1000 else [1, 2, 3]),
            'cols': n_feat + rng.choice([0, 0, 0, 1, 4]), 'nq': rng.randrange(1, 9), 'vals': vals,
            'layout': rng.choice(['C', 'C', 'C', 'F', 'slice', 'rev'])}


def make_trees(p, vals='dyadic', thrs=None):
    rng = random.Random(p['mseed'])
    thrs = thrs or rng.choice(['half', 'dyadic', 'dyadic'])
    if p['format'] == 'CatBoost':
        f = {'dyadic': models.dyadic, 'wild': models.wild}
        t = {'half': models.half, 'wild': models.wild, 'dyadic': models.dyadic}[thrs]
        return [models.complete_tree(rng, p['n_feat'], rng.randrange(1, 2 + min(4, p['size'])), f[vals], t) for _ in range(p['n_trees'])]
    leaf = 0 if p['format'] in ('Jforests', 'LightGBM') else p['leaf']
    return models.ensemble(p['mseed'], p['n_trees'], p['size'], p['n_feat'], vals, thrs, weights=p['format'] in ('QuickRank', 'Jforests'),
                           leaf_trees=leaf)


def make_model(p, scratch, vals='dyadic', thrs=None, name='model', n_trees_known=None):
    """(model, reference trees as loaded, learning rate, base score)"""
    from rankeval.model import RTEnsemble
    trees = make_trees(p, vals, thrs)
    path = os.path.join(scratch, name + '.txt')
    fmt = p['format']
    fbase, frate = (1.5, .5) if fmt == 'ScikitLearn' else (0, 1)
    models.write(trees, path, fmt, p['mseed'], fbase, frate)
    kw = {}
    rate, base = p['rate'], p['base']
    keep = None
    if p['keep'] is not None:
        keep = 1 + int(p['keep'] * len(trees))
        keep = min(keep, len(trees))
    if fmt == 'ScikitLearn':
        rate, base = frate, fbase      # described by the file
    else:
        kw['learning_rate'] = rate
        if base is not None:
            kw['base_score'] = base
        elif fmt == 'XGBoost':
            base = .5
        else:
            base = 0
    if keep and p['how'] == 'load':
        kw['n_trees'] = keep
    m = RTEnsemble(path, format=fmt, **kw)
    if keep and p['how'] != 'load':
        m = m.copy(n_trees=keep)
    elif p['how'] == 'copy':
        m = m.copy()
    if keep:
        trees = trees[:keep]
    if fmt == 'XGBoost':
        for t in trees:
            t.value = [np.nextafter(v, F32(-np.inf)) if f >= 0 else v for v, f in zip(t.value, t.feature)]
    return m, trees, rate, base


def make_dataset(p, kind=None):
    from rankeval.dataset import Dataset
    X, y, q = data.table(p['dseed'], p['rows'], p['cols'], p['nq'], kind=kind or p['vals'])
    lay = p.get('layout', 'C')
    if lay == 'F':
        X = np.asfortranarray(X)
    elif lay == 'slice':
        b = np.full((X.shape[0], X.shape[1] + 3), 77, dtype=F32)
        b[:, 1:-2] = X
        X = b[:, 1:-2]
    elif lay == 'rev':
        X = X[::-1].copy()[::-1]
    return Dataset(X, y, q)


def draw_wide(rng, p):
    """a table with more cells than 32 bits count, hardly any of which is there"""
    cols = rng.choice([1 << 16, 1 << 17])
    p['wide'] = {'cols': cols, 'rows': (rng.choice([1 << 31, 1 << 32]) // cols) + rng.randrange(1, 6), 'feature': rng.randrange(cols), 'wseed': rng.randrange(1 << 30)}
    p.update(n_trees=1, size=1, n_feat=3, cols=3, rows=3, format='LightGBM', leaf=0, keep=None, extra=[], p=.001, how='load')


def make_wide(p, m, trees):
    """the dataset, a column of which decides; and the only split of the model set on it"""
    from rankeval.dataset import Dataset
    w = p['wide']
    n, f, c = w['rows'], w['feature'], w['cols']
    try:
        resource.setrlimit(resource.RLIMIT_AS, (n * c * 4 + (6 << 30), resource.getrlimit(resource.RLIMIT_AS)[1]))
        # pages never written are all the same one; there is no room for a copy of the table
        X = np.frombuffer(mmap.mmap(-1, n * c * 4, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000), dtype=F32).reshape(n, c)
    except (ValueError, OSError, MemoryError):
        raise Invalid('no address space')
    rng = random.Random(w['wseed'])
    t = trees[0]
    if t.feature[0] < 0:
        raise Invalid('no split')
    t.feature[0], t.value[0] = f, F32(rng.choice([-.5, .5]))
    m.trees_nodes_feature[m.trees_root[0]], m.trees_nodes_value[m.trees_root[0]] = f, t.value[0]
    for d in {n - 1, (1 << 31) // c, (1 << 32) // c} | {rng.randrange(n) for _ in range(6)}:
        if d < n:
            X[d, f] = rng.choice([-1, 1])
    y = np.array([0, 1, 2, 4], dtype=F32)[np.random.RandomState(w['wseed']).randint(0, 4, n)]
    y[X[:, f] != 0] = 1024
    narrow = copy.deepcopy(trees)
    narrow[0].feature[0] = 0
    q = np.repeat(np.arange(n // 16 + 1, dtype=np.int32), 16)[:n]
    # the same with the column that decides alone

    class Wide(Dataset):
        # hashed and compared without reading all the cells
        __hash__ = object.__hash__
        __eq__ = object.__eq__
    return Wide(X, y, q), Dataset(X[:, f:f + 1].copy(), y.copy(), q), narrow


def leaf_nodes(model, trees):
    """for every tree, the node of the model for each node of the reference"""
    out = []
    L, R = model.trees_left_child, model.trees_right_child
    for k, t in enumerate(trees):
        mp = {}
        stack = [(int(model.trees_root[k]), 0)]
        while stack:
            a, i = stack.pop()
            mp[i] = a
            if t.feature[i] >= 0:
                stack += [(int(L[a]), t.left[i]), (int(R[a]), t.right[i])]
        out.append(mp)
    return out


class Reference:
    """float64 scores of the reference trees on one dataset; exact when the values are dyadic"""

    def __init__(self, model, trees, ds, rate, base):
        X = np.array(ds.X)
        y, part, leaf = models.scores(trees, X, float(F32(rate)), 0.0)
        self._set(model, trees, y, part, leaf, base)

    def prefix(self, model, n):
        """the reference of another model made of the first n trees"""
        r = Reference.__new__(Reference)
        part = self.raw[0][:, :n]
        r._set(model, self.raw[2][:n], part.sum(axis=1), part, self.raw[1][:, :n], self.raw[3])
        return r

    def _set(self, model, trees, y, part, leaf, base):
        self.raw = part, leaf, trees, base
        self.mag = np.abs(part).sum(axis=1) + abs(base or 0)
        part = part.copy()
        self.y = y + (base or 0)
        if base:
            part[:, 0] += base
        self.part = part
        mp = leaf_nodes(model, trees)
        self.leaf = np.array([[mp[k][leaf[d, k]] for k in range(len(trees))] for d in range(leaf.shape[0])]).reshape(leaf.shape)
        self.n = len(trees)

    def basic(self, y, exact=True):
        """None or what is wrong"""
        if not isinstance(y, np.ndarray) or y.shape != self.y.shape:
            return 'wrong shape of the scores: %r' % (getattr(y, 'shape', type(y)),)
        if exact:
            bad = ~(y.astype(np.float64) == self.y)
        else:
            bad = ~(np.abs(y.astype(np.float64) - self.y) <= self.mag * (self.n + 4) * 1.2e-7 + 1e-37)
        if bad.any():
            d = int(np.where(bad)[0][0])
            return '%d of %d scores differ, document %d has %r instead of %r' % (bad.sum(), y.size, d, float(y[d]), float(self.y[d]))
        return None

    def detailed(self, r, exact=True):
        if not isinstance(r, tuple) or len(r) != 3:
            return 'not a triple'
        y, part, leaf = r
        e = self.basic(y, exact)
        if e:
            return e
        if part.shape != self.part.shape or leaf.shape != self.leaf.shape:
            return 'wrong shapes: %r %r' % (part.shape, leaf.shape)
        if not np.array_equal(leaf, self.leaf):
            d, k = [int(i[0]) for i in np.where(leaf != self.leaf)]
            return 'document %d, tree %d: leaf %d instead of %d' % (d, k, leaf[d, k], self.leaf[d, k])
        if exact:
            bad = ~(part.astype(np.float64) == self.part)
        else:
            bad = ~(np.abs(part.astype(np.float64) - self.part) <= (np.abs(self.part) + self.mag[:, None] * (np.arange(self.n) == 0)) * 1e-6 + 1e-37)
        if bad.any():
            d, k = [int(i[0]) for i in np.where(bad)]
            return 'document %d, tree %d: contribution %r instead of %r' % (d, k, float(part[d, k]), float(self.part[d, k]))
        s = part.astype(np.float64).sum(axis=1)
        if not (np.abs(s - y) <= (0 if exact else self.mag * (self.n + 4) * 3e-7 + 1e-37)).all():
            return 'the contributions do not add up to the scores'
        return None


def snap_dataset(ds):
    h = hashlib.md5()
    for a in (ds.X, ds.y, ds.query_ids, ds.query_offsets):
        a = np.ascontiguousarray(a)
        h.update(repr((a.shape, a.dtype.str)).encode() + a.tobytes())
    return h.hexdigest(), ds.n_instances, ds.n_features, ds.n_queries, ds.name


def snap_model(m):
    h = hashlib.md5()
    for n in ARRAYS:
        a = np.ascontiguousarray(getattr(m, n))
        h.update(repr((n, a.shape, a.dtype.str)).encode() + a.tobytes())
    return h.hexdigest(), int(m.n_trees), int(m.n_nodes), m.learning_rate, m.base_score, m.name
