"""One operation of the library drawn by a plan, on data of its own: what it is given, and how it is called."""
import io as pyio
import os

import numpy as np

from sim import data, metrics, models, streams

FAILING = ['ERR', 'ERR', 'ERR', 'SIGINT', 'SIGINT_EINTR', 'SHORT', 'EINTR']
FILES = ('load', 'dump', 'model', 'save', 'export')
FORMATS = ['QuickRank', 'LightGBM', 'XGBoost', 'ScikitLearn', 'Jforests']
OPS = ('load', 'load', 'load', 'dump', 'model', 'model', 'save', 'export', 'score', 'score', 'scorer', 'cached', 'copy', 'metric', 'metric', 'split', 'fold', 'subset', 'hash', 'node',
       'topology', 'importance', 'analysis', 'analysis', 'significance', 'variance')
PLOTS = ('model', 'tree', 'contribution', 'query', 'class', 'relevance', 'confusion', 'shape', 'feature')
ANALYSES = ('model', 'tree', 'contribution', 'query', 'class', 'relevance', 'confusion')
# operations which consume the global generator of NumPy, as they document
DRAWING = ('split', 'fold', 'significance', 'variance')
WITH_DATASET = ('plot', 'dump', 'score', 'scorer', 'cached', 'metric', 'split', 'fold', 'subset', 'hash', 'importance', 'analysis', 'significance', 'variance')
WITH_MODEL = ('plot', 'save', 'export', 'score', 'scorer', 'cached', 'copy', 'node', 'topology', 'importance', 'analysis', 'significance')
CALLBACKS = ('metric', 'importance', 'analysis', 'significance', 'variance')


def draw(rng, ops=OPS, formats=FORMATS):
    return {'seed': rng.randrange(1 << 30), 'op': rng.choice(ops), 'rows': rng.choice([4, 12, 60, 300]), 'cols': rng.randrange(1, 9), 'nq': rng.choice([2, 3, 5]),
            'n_trees': rng.randrange(1, 10), 'size': rng.randrange(1, 10), 'faults': [], 'format': rng.choice(formats), 'detailed': rng.random() < .5, 'kind': rng.choice(ANALYSES),
            'how': rng.randrange(6), 'metrics': metrics.draw_some(rng, 2), 'target': rng.choice(['.txt', '.gz', '.bz2', 'reader', 'reader', 'bytesio']), 'cache': rng.random() < .3}


INTS = {'rows': 1, 'cols': 1, 'n_trees': 1, 'size': 1}


def preload():
    import rankeval.dataset.dataset, rankeval.model, rankeval.metrics, rankeval.visualization.topological, gzip, bz2, locale, logging, resource  # noqa
    import rankeval.analysis.effectiveness, rankeval.analysis.feature, rankeval.analysis.statistical, rankeval.analysis.topological, rankeval.scoring  # noqa
    import rankeval.visualization.effectiveness, rankeval.visualization.feature  # noqa
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close(plt.figure())


class Operation:
    """stream_faults: by number of the call; spoil(metrics) may replace the metrics; learner: that of the user"""

    def __init__(self, p, ctx, damage=None):
        self.p, self.op, self.ctx = p, p['op'], ctx
        self.X, self.y, self.q = data.table(p['seed'], max(p['rows'], p['nq']), p['cols'], p['nq'], 'dyadic')
        trees = models.ensemble(p['seed'], p['n_trees'], p['size'], p['cols'])
        self.folder = os.path.join(ctx.scratch, 'd')
        os.mkdir(self.folder)
        self.mpath = os.path.join(ctx.scratch, 'm0.xml')
        models.write(trees, self.mpath)
        tg = self.target = p['target'] if self.op in ('load', 'dump') else '.txt'
        self.path = os.path.join(self.folder, 'file' + (tg if tg.startswith('.') else '.txt'))
        self.good = None
        if self.op == 'load':
            self.good = data.pack(data.render(p['seed'], self.X, self.y, self.q), tg if tg.startswith('.') else '.txt')
        elif self.op == 'model':
            models.write(trees, self.path, p['format'], p['seed'])
            with open(self.path, 'rb') as f:
                self.good = f.read()
        if damage is not None and self.good:
            k = int(damage * len(self.good))
            self.good = self.good[:k] if p['seed'] % 2 else self.good[:k] + b'\x00<x:\xff' + self.good[k + 5:]
            ctx.fault('DAMAGED_CONTENT')
        self.drawing = self.op in DRAWING
        self.stream_faults = {}
        self.make_metric = metrics.make
        self.learner = lambda a, b, c, d: d[:, 0] * 2

    def lines(self):
        """calls of the stream of the caller"""
        return len(self.X) + 2 if self.op == 'load' else len(self.X)

    def model(self):
        from rankeval.model import RTEnsemble
        return RTEnsemble(self.mpath)

    def dataset(self):
        from rankeval.dataset.dataset import Dataset
        return Dataset(self.X.copy(), self.y.copy(), self.q.copy())

    def prepare(self, kept=()):
        g, op, tg, p = dict(kept), self.op, self.target, self.p
        if self.good is not None and tg not in ('reader', 'bytesio'):
            with open(self.path, 'wb') as f:
                f.write(self.good)
        elif op in ('dump', 'save', 'export') and os.path.exists(self.path):
            os.unlink(self.path)
        if op == 'load' and tg == 'reader':
            g['stream'] = streams.Reader(self.good, self.stream_faults)
        elif op == 'load' and tg == 'bytesio':
            g['stream'] = pyio.BytesIO(self.good)
        elif op == 'dump' and tg in ('reader', 'bytesio'):
            g['stream'] = streams.Writer(self.stream_faults)
        if op in WITH_DATASET:
            g['dataset'] = self.dataset()
        if op in WITH_MODEL and 'model' not in g:
            g['model'] = self.model()
        if op in CALLBACKS or op == 'plot':
            g['metrics'] = [self.make_metric(s) for s in p['metrics']]
        if op == 'metric':
            g['y_pred'] = metrics.predictions(p['seed'], len(self.y))
        if op == 'hash':
            g['other'] = self.dataset()
        if op == 'plot':
            g['drawn'] = self.analyse(p['what_plot'], g['dataset'], g['model'], g['metrics'], False)
        return g

    def analyse(self, k, d, m, e, c):
        from rankeval.analysis import effectiveness as E
        from rankeval.analysis.feature import feature_importance
        from rankeval.analysis.topological import topological_analysis
        return {'model': lambda: E.model_performance([d], [m], e, cache=c), 'tree': lambda: E.tree_wise_performance([d], [m], e, step=2, cache=c),
                'contribution': lambda: E.tree_wise_average_contribution([d], [m], cache=c), 'query': lambda: E.query_wise_performance([d], [m], e, bins=5, cache=c),
                'class': lambda: E.query_class_performance([d], [m], e, [np.arange(d.n_queries) % 2], cache=c),
                'relevance': lambda: E.document_graded_relevance([d], [m], bins=5, cache=c), 'confusion': lambda: E.rank_confusion_matrix([d], [m], cache=c),
                'shape': lambda: topological_analysis(m), 'feature': lambda: feature_importance(m, d)}[k]()

    def work(self, g):
        from rankeval.analysis import statistical as S
        from rankeval.analysis.feature import feature_importance
        from rankeval.analysis.topological import topological_analysis
        from rankeval.dataset.dataset import Dataset
        from rankeval.model import RTEnsemble
        from rankeval.scoring import Scorer
        from rankeval.visualization.topological import export_graphviz
        p, op, how, path = self.p, self.op, self.p['how'], self.path
        d, m = g.get('dataset'), g.get('model')
        if op == 'load':
            return Dataset.load(g.get('stream', path))
        if op == 'dump':
            return d.dump(g.get('stream', path))
        if op == 'model':
            return RTEnsemble(path, format=p['format'], n_trees=None if how else 1)
        if op == 'save':
            return m.save(path)
        if op == 'export':
            return export_graphviz(m, out_file=None if how % 2 else path)
        if op == 'score':
            return m.score(d, detailed=p['detailed'])
        if op == 'scorer':
            s = Scorer(m, d)
            return [s.get_predicted_scores(), s.get_partial_predicted_scores(), s.get_predicted_leaves(), s] if how % 2 else s.score(p['detailed'])
        if op == 'cached':
            try:
                return [m.score(d, detailed=x, cache=True) for x in (False, p['detailed'])]
            finally:
                m.clear_cache()
        if op == 'copy':
            return m.copy(n_trees=1 if how % 2 else None)
        if op == 'metric':
            return [e.eval(d, g['y_pred']) for e in g['metrics']]
        if op == 'split':
            return d.split(.5, .2 if how % 2 else 0, random_state=[None, 3, np.random.RandomState(4)][how % 3])
        if op == 'fold':
            r = d.kfold(2, qids_only=how == 3)
            return list(r) if how % 2 else next(r)
        if op == 'subset':
            return [d.subset(d.query_ids[:1]), d.subset_features([0]), d.get_qids_dataset(), list(d.query_iterator()), d.get_query_sizes()]
        if op == 'hash':
            try:
                d.get_query_offsets(-5)
            except LookupError:
                pass
            return [hash(d), d == g['other'], d != g['other'], d == 3, str(d), hash(g['other'])]
        if op == 'node':
            return [m.is_leaf_node(0), str(m), hash(m), m == m]
        if op == 'topology':
            t = topological_analysis(m, include_leaves=bool(how % 2))
            return [t.describe_tree_height(), t.avg_tree_shape(), t.fullness_per_level(), t]
        if op == 'importance':
            return feature_importance(m, d, g['metrics'][0] if how % 2 else None)
        c = p['cache']
        if op == 'analysis':
            return self.analyse(p['kind'], d, m, g['metrics'], c)
        if op == 'plot':
            from rankeval.visualization import effectiveness as VE, feature as VF, topological as VT
            r = g['drawn']
            try:
                return {'model': lambda: VE.plot_model_performance(r, show_values=bool(how % 2)), 'tree': lambda: VE.plot_tree_wise_performance(r),
                        'contribution': lambda: VE.plot_tree_wise_average_contribution(r), 'query': lambda: VE.plot_query_wise_performance(r),
                        'class': lambda: VE.plot_query_class_performance(r, show_values=bool(how % 2)), 'relevance': lambda: VE.plot_document_graded_relevance(r),
                        'confusion': lambda: VE.plot_rank_confusion_matrix(r), 'shape': lambda: VT.plot_shape(r), 'feature': lambda: VF.plot_feature_importance(r)}[p['what_plot']]()
            finally:
                import matplotlib.pyplot as plt
                plt.close('all')
        if op == 'significance':
            return S.statistical_significance([d], m, m, g['metrics'][:1], n_perm=20)
        return S.bias_variance([d], [self.learner], g['metrics'][:1], L=2, k=2)
