"""C13: feature importance does not depend on the parallel schedule."""
import numpy as np

from sim import models, omp, scoring
from sim.checks.c10 import Scoring
from sim.core import Invalid, Violation


def reference(trees, X, y):
    """float64 evaluation, one node at a time: (importance, count, magnitude of the terms added up)"""
    n, f = X.shape
    imp, cnt, mag = np.zeros(f), np.zeros(f, dtype=int), np.zeros(f)
    y = y.astype(np.float64)
    pred = np.zeros(n)
    for t in trees:
        target = y - pred
        out = np.full(n, target.mean())
        stack = [(0, np.arange(n))] if t.feature[0] >= 0 else []
        while stack:
            i, docs = stack.pop()
            ft = t.feature[i]
            cnt[ft] += 1
            go = X[docs, ft] <= t.value[i]
            pre = (target[docs] - out[docs]) ** 2
            for side in (docs[go], docs[~go]):
                if len(side):
                    out[side] = target[side].mean()
            post = (target[docs] - out[docs]) ** 2
            imp[ft] += (pre - post).sum() / n
            mag[ft] += (pre + post).sum() / n
            for c, side in ((t.left[i], docs[go]), (t.right[i], docs[~go])):
                if t.feature[c] >= 0 and len(side) > 1:
                    stack.append((c, side))
        pred += out * float(t.weight)
    return imp, cnt, mag


class C13(Scoring):
    id = 'C13'
    real = ['rankeval.analysis.feature and _efficient_feature(_impl) (compiled by setup.py, every memory access instrumented)', 'NumPy', 'xarray']
    assumptions = ['importance under squared error (the default metric)', 'a node reached by less than two documents is not evaluated',
                   'results equal up to rounding (relative 1e-4 of the terms added up); counts exact',
                   'some split improves the error when normalisation is asked']

    def preload(self):
        super().preload()
        import rankeval.analysis.feature  # noqa

    def generate(self, rng, tier):
        p = scoring.draw_model(rng, tier)
        p.update(scoring.draw_data(rng, tier, p['n_feat']))
        p.update(omp.draw(rng))
        p['leaf'] = rng.choice([0, .3, .6])
        p['seed'] = rng.randrange(1 << 30)
        p['normalize'] = rng.random() < .5
        p['metric'] = rng.choice(['none', 'MSE'])
        p['extra'] = [omp.draw(rng) for _ in range(rng.randrange(0, 3))]
        p['decs'] = None
        p['many'] = rng.random() < (.001 if tier == 'quick' else .0002)
        if p['many']:
            # one feature used more than 65536 times
            p.update(n_trees=65600, size=1, n_feat=2, cols=2, format='LightGBM', leaf=0, keep=None, rows=3, threads=2, extra=[], p=.01)
        elif rng.random() < .004:
            # more documents than small integers hold
            p.update(rows=rng.choice([40000, 70000]), n_trees=2, size=2, n_feat=3, cols=3, format='LightGBM', leaf=0, keep=None, extra=[], p=.001, nq=2)
        elif rng.random() < .002:
            scoring.draw_wide(rng, p)
        return p

    def execute(self, p, ctx):
        from rankeval.analysis.feature import feature_importance
        from rankeval.metrics import MSE
        if p['cols'] < p['n_feat']:
            raise Invalid('cols')
        omp.lib().simomp_disable()
        m, trees, rate, base = scoring.make_model(p, ctx.scratch)
        if models.diff(m, trees, weights=p['format'] in ('QuickRank', 'Jforests')):
            raise Invalid('loading is C04')
        if p.get('wide'):
            ds, narrow, trees = scoring.make_wide(p, m, trees)
        else:
            ds = narrow = scoring.make_dataset(p)
        if p.get('many'):
            for t in trees:
                t.feature[0] = 1
            m.trees_nodes_feature[m.trees_nodes_feature == 0] = 1
        imp, cnt, mag = reference(trees, np.array(narrow.X), np.array(narrow.y))
        if p.get('wide'):
            imp, cnt, mag = (np.bincount([p['wide']['feature']], a, ds.n_features) for a in (imp, cnt, mag))
        tol = mag * 1e-4 + 2e-6 * (1 + len(trees))
        norm = p['normalize'] and imp.max() > 10 * tol.max()
        snap = lambda: (None if p.get('wide') else scoring.snap_dataset(ds), scoring.snap_model(m))
        before = snap()
        for k, s in enumerate([p] + p['extra']):
            omp.start(s, p['decs'] if k == 0 else None)
            try:
                r = feature_importance(m, ds, metric=MSE() if p['metric'] == 'MSE' else None, normalize=norm)
            except MemoryError:
                if p.get('wide'):
                    raise Invalid('no memory for a copy of the table')
                raise
            finally:
                omp.stop(ctx, schedule=k == 0)
            what = 'with %d threads: ' % s['threads']
            gi, gc = np.asarray(r.values[0], dtype=np.float64), np.asarray(r.values[1])
            if gi.shape != imp.shape or gc.shape != cnt.shape:
                raise Violation('shape', what + 'wrong shape of the result')
            if not (gc == cnt).all():
                f = int(np.where(gc != cnt)[0][0])
                raise Violation('count', what + 'feature %d counted %r times instead of %d' % (f, gc[f], cnt[f]))
            want, t = imp, tol
            if norm:
                want, t = imp / imp.max(), 3 * (tol / imp.max() + imp * tol.max() / imp.max() ** 2)
            bad = ~(np.abs(gi - want) <= t)
            if bad.any():
                f = int(np.where(bad)[0][0])
                raise Violation('importance', what + 'feature %d has %r instead of %r' % (f, gi[f], want[f]))
            if snap() != before:
                raise Violation('modified', 'the analysis modified the dataset or the model')


CHECK = C13()
