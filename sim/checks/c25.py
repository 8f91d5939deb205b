"""C25: figures depict the results they are given, whatever was drawn or failed before."""
import math
import os
import random
import warnings

import numpy as np

from sim import inject, models, scoring
from sim.core import Check, Invalid, Violation

KINDS = ('perf', 'perf', 'tree', 'tree', 'contribution', 'query', 'query', 'class', 'class', 'relevance', 'confusion', 'feature', 'feature', 'shape', 'shape')
TITLES = {'perf': 'Model Performance', 'tree': 'Tree-Wise Performance', 'contribution': 'Tree-Wise Average Contribution', 'query': 'Query-Wise Performance',
          'class': 'Query Class Performance', 'relevance': 'Document Graded Relevance', 'confusion': 'Rank Confusion Matrix'}


def clean(a):
    """as a list, with None for what cannot be drawn"""
    a = np.ma.masked_invalid(np.ma.asarray(a, dtype=float)).ravel()
    return [None if m else float(v) for v, m in zip(a.data, np.ma.getmaskarray(a))]


def same(a, b, tol=1e-9):
    a, b = clean(a), clean(b)
    return len(a) == len(b) and all((x is None and y is None) or (x is not None and y is not None and abs(x - y) <= tol * max(1, abs(x), abs(y)))
                                    for x, y in zip(a, b))


def texts(fig):
    """all the texts of a figure, but those of the ticks"""
    out = [t.get_text() for t in fig.texts]
    for a in fig.axes:
        out += [a.get_title(), a.get_xlabel(), a.get_ylabel()] + [t.get_text() for t in a.texts]
        if a.get_legend() is not None:
            out += [t.get_text() for t in a.get_legend().get_texts()]
    return out


def all_axes(fig):
    out = []
    for a in fig.axes:
        out += [a] + list(getattr(a, 'parasites', ()))
    return out


def content(fig):
    """what a figure shows, as something that can be compared"""
    out = [texts(fig), tuple(fig.get_size_inches())]
    for a in all_axes(fig):
        out.append((type(a).__name__, a.get_xlim(), a.get_ylim(), [round(v, 6) for v in a.get_position().bounds]))
        for l in a.lines:
            out.append(('line', clean(l.get_xdata()), clean(l.get_ydata()), l.get_label(), str(l.get_color())))
        for p in a.patches:
            if hasattr(p, 'get_height'):
                out.append(('bar', p.get_x(), p.get_y(), p.get_width(), p.get_height(), p.get_facecolor()))
        for c in a.collections:
            if c.get_array() is not None:
                out.append(('mesh', np.shape(c.get_array()), clean(c.get_array())))
        out.append(('images', len(a.images), len(a.collections)))
    return repr(out)


class C25(Check):
    id = 'C25'
    runs = 500
    quick_seconds = 100
    lists = ('ops',)
    real = ['rankeval.visualization (effectiveness, feature, topological.plot_shape)', 'matplotlib (Agg), xarray, NumPy']
    stub = ['user interrupts and lack of memory raised at a chosen instruction of the library', 'failing allocations of arrays (NumPy constructors)',
            'results of analyses (generated values on the coordinates of the library)', 'figures of the user']
    measure = 'distinct histories (figures, options, outcomes and places of the faults)'
    level_rule = ('Each seed draws results of analyses and a history of up to nine figures, with figures of the user between them, some drawn under faults; '
                  'what each figure shows is compared with the result, and all the figures handed out before are compared with what they showed.')
    assumptions = ['geometry (where a bar, a cell or a legend lies on the page) is checked only as far as it identifies the value', 'values are non-negative, as the metrics are',
                   'datasets, models and metrics have different names']

    def preload(self):
        import rankeval.visualization.effectiveness, rankeval.visualization.feature, rankeval.visualization.topological, rankeval.metrics  # noqa
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        plt.close(plt.figure())

    def generate(self, rng, tier):
        p = {'seed': rng.randrange(1 << 30), 'ops': []}
        kinds = KINDS if rng.random() < .4 else rng.sample(KINDS, rng.choice([1, 2, 2, 3]))
        for _ in range(rng.randrange(1, 10)):
            k = rng.random()
            last = [o for o in p['ops'] if o['op'] != 'user']
            if k < .15:
                o = {'op': 'user', 'how': rng.choice(['new', 'empty', 'axes', 'one', 'draw', 'close', 'close_all', 'clf', 'style']), 's': rng.randrange(1 << 20)}
            elif last and k < .4:
                # the same names and sizes, with other values
                o = dict(rng.choice(last), vs=rng.randrange(1 << 30))
                o.pop('fault', None)
                if rng.random() < .2:
                    o['fault'] = inject.draw(rng)
                if rng.random() < .3:
                    o['compare'], o['default'] = rng.randrange(3), False
            else:
                o = {'op': rng.choice(kinds), 's': rng.randrange(1 << 30), 'nd': rng.choice([1, 1, 2, 3]), 'nm': rng.choice([1, 1, 2, 3]), 'ne': rng.choice([1, 1, 2, 3]),
                     'n': rng.choice([1, 2, 3, 5, 8, 20]), 'compare': rng.randrange(3), 'show': rng.random() < .4, 'nan': rng.random() < .25,
                     'default': rng.random() < .2, 'vs': rng.randrange(1 << 30)}
                if rng.random() < .2:
                    o['fault'] = inject.draw(rng)
            p['ops'].append(o)
        return p

    # ---- results
    def result(self, o, pool, scratch):
        import xarray as xr
        rng = np.random.RandomState(o['s'] % (1 << 31))
        k = o['op']
        sets, ms, mets = pool['sets'][:], pool['models'][:], pool['metrics'][:]
        for l in (sets, ms, mets):
            rng.shuffle(l)
        sets, ms, mets = sets[:o['nd']], ms[:o['nm']], mets[:o['ne']]
        n = o['n']
        ks, bins = np.arange(n) * (1 + o['s'] % 3) + 1, np.sort(rng.permutation(64)[:n]) / 64.
        rng = np.random.RandomState(o['vs'] % (1 << 31))
        if k == 'feature':
            imp = rng.randint(0, 40 if o['show'] else 4, size=n) / 32.
            cnt = rng.randint(0, 50 if o['show'] else 3, size=n).astype(float)
            return xr.DataArray(np.array([imp, cnt], dtype=np.float32), name='Feature Importance Analysis', coords=[['importance', 'count'], np.arange(n, dtype=np.int32)], dims=['type', 'feature'])
        if k == 'shape':
            from rankeval.analysis.topological import topological_analysis
            return topological_analysis(ms[0], include_leaves=o['show'])
        coords = {'perf': [mets], 'tree': [ks, mets], 'contribution': [np.arange(n)], 'query': [mets, bins],
                  'class': [mets, np.arange(n)], 'relevance': [np.arange(1 + n % 5), bins], 'confusion': [np.arange(1 + n % 5)] * 2}[k]
        names = {'perf': ['metric'], 'tree': ['k', 'metric'], 'contribution': ['trees'], 'query': ['metric', 'bin'], 'class': ['metric', 'classes'],
                 'relevance': ['label', 'bin'], 'confusion': ['label_i', 'label_j']}[k]
        shape = [len(c) for c in [sets, ms] + coords]
        v = rng.randint(0, 257, size=shape) / 256.
        if k == 'confusion':
            v = np.floor(v * 300)
        if k == 'contribution':
            v = v * 4 - 1
        if o['nan'] and k in ('tree', 'contribution', 'relevance'):
            # models of different sizes, empty bins
            v = v.astype(np.float32)
            axis = 3 if k == 'relevance' else 2
            w = np.moveaxis(v, axis, 2)
            for i in range(shape[1]):
                w[:, i, 1 + rng.randint(shape[axis]):] = np.nan
        if k == 'query':
            v = np.sort(v, axis=-1)
        return xr.DataArray(v.astype(np.float32), name=TITLES[k], coords=[sets, ms] + coords, dims=['dataset', 'model'] + names)

    def draw(self, o, r, V, F, T):
        k, kw = o['op'], {}
        c3 = ['models', 'metrics', 'datasets']
        if not o['default']:
            if k in ('perf', 'query', 'class'):
                kw['compare'] = c3[o['compare'] % 2]
            if k == 'tree':
                kw['compare'] = c3[o['compare']]
            if k in ('perf', 'class'):
                kw['show_values'] = o['show']
            if k == 'feature':
                kw['sort_by'] = ['gain', 'count'][o['compare'] % 2]
                kw['max_features'] = [None, 1, 3, 10, 30][o['s'] % 5]
                if o['s'] % 3 == 0:
                    kw['feature_names'] = ['name%d_' % i for i in range(o['n'])]
            if k == 'shape' and o['s'] % 2:
                kw['max_level'] = 1 + o['s'] % 5
        f = {'perf': V.plot_model_performance, 'tree': V.plot_tree_wise_performance, 'contribution': V.plot_tree_wise_average_contribution,
             'query': V.plot_query_wise_performance, 'class': V.plot_query_class_performance, 'relevance': V.plot_document_graded_relevance,
             'confusion': V.plot_rank_confusion_matrix, 'feature': F.plot_feature_importance, 'shape': T.plot_shape}[k]
        return kw, (lambda: f(r, **kw))

    # ---- what a figure must show
    def wrong(self, o, r, kw, figs):
        k = o['op']
        if k == 'feature':
            return self.wrong_feature(o, r, kw, figs)
        if k == 'shape':
            return self.wrong_shape(r, kw, figs)
        figs = list(figs)
        sets, ms = list(r.coords['dataset'].values), list(r.coords['model'].values)
        mets = list(r.coords['metric'].values) if 'metric' in r.dims else []
        compare = kw.get('compare', 'models')
        v = r.values
        over = ms if compare == 'datasets' else sets
        if len(figs) != len(over):
            return '%d figures for %d' % (len(figs), len(over))
        if len({id(f) for f in figs}) != len(figs):
            return 'the same figure is returned twice'
        everything = [str(x) for x in sets + ms + mets]
        for i, fig in enumerate(figs):
            axes = fig.axes
            title = ' '.join(texts(fig))
            if str(over[i]) not in title:
                return 'figure %d does not mention %s' % (i, over[i])
            if r.name not in title:
                return 'figure %d does not mention the analysis' % i
            for x in over:
                if x is not over[i] and str(x) in title.split():
                    return 'figure %d mentions %s' % (i, x)
            if k == 'perf':
                series, along = (ms, mets) if compare == 'models' else (mets, ms)
                vals = v[i] if compare == 'models' else v[i].T
                if len(axes) != 1:
                    return '%d axes' % len(axes)
                e = self.wrong_bars(axes[0], series, along, vals, kw)
            elif k == 'class':
                rows, series = (ms, mets) if compare == 'metrics' else (mets, ms)
                vals = v[i] if compare == 'metrics' else np.swapaxes(v[i], 0, 1)
                e = self.rows(axes, rows)
                for j, row in enumerate(rows):
                    e = e or self.foreign(fig, axes[j], row, rows, series)
                    e = e or self.wrong_bars(axes[j], series, list(r.coords['classes'].values), vals[j], kw, legend=j == len(rows) - 1)
            elif k in ('tree', 'query'):
                if k == 'tree':
                    a = np.moveaxis(v, 3, 2)        # dataset, model, metric, k
                    x = r.coords['k'].values
                else:
                    a, x = v * 100, r.coords['bin'].values
                a = a[:, i] if compare == 'datasets' else a[i]
                rows, series = {'models': (mets, ms), 'metrics': (ms, mets), 'datasets': (mets, sets)}[compare]
                if compare != 'metrics':
                    a = np.swapaxes(a, 0, 1)
                e = self.rows(axes, rows)
                for j, row in enumerate(rows):
                    e = e or self.foreign(fig, axes[j], row, rows, series)
                    e = e or self.wrong_lines(axes[j], series, x, a[j], legend=j == len(rows) - 1, best=k == 'tree')
            elif k == 'contribution':
                e = self.rows(axes, ms)
                for j, m in enumerate(ms):
                    e = e or self.wrong_lines(axes[j], [m], None, v[i][j:j + 1], legend=True, labels=False)
            elif k == 'relevance':
                e = self.rows(axes, ms)
                for j, m in enumerate(ms):
                    e = e or self.foreign(fig, axes[j], m, ms, [])
                    lines = list(axes[j].lines)
                    if not e and len(lines) != v.shape[2]:
                        e = '%d lines for %d labels' % (len(lines), v.shape[2])
                    for l, c in enumerate(r.coords['label'].values):
                        if not e and not (same(lines[l].get_xdata(), r.coords['bin'].values) and same(lines[l].get_ydata(), v[i][j][l])):
                            e = 'the line of label %d of %s does not show its values' % (c, m)
                if not e:
                    lg = axes[-1].get_legend()
                    t = [x.get_text() for x in lg.get_texts()] if lg is not None else []
                    if t != ['Label %d' % c for c in r.coords['label'].values]:
                        e = 'the legend is %r' % (t,)
                    elif [h.get_color() for h in lg.get_lines()] != [l.get_color() for l in axes[-1].lines]:
                        e = 'the legend has other colours'
            else:
                e = self.rows(axes, ms)
                for j, m in enumerate(ms):
                    if e:
                        break
                    e = self.foreign(fig, axes[j], m, ms, [])
                    mesh = [c for c in axes[j].collections if c.get_array() is not None]
                    if len(mesh) != 1:
                        e = '%d matrices' % len(mesh)
                        break
                    want = v[i][j].astype(float)
                    x, y = axes[j].get_xlabel(), axes[j].get_ylabel()
                    if (x, y) == ('Label i', 'Label j'):
                        want = want.T
                    elif (x, y) != ('Label j', 'Label i'):
                        e = 'the axes are labelled %r, %r' % (x, y)
                    with np.errstate(all='ignore'):
                        logs = np.log(want)
                    a = mesh[0].get_array()
                    if not e and not (same(a, want) or same(a, logs, 1e-5)):
                        e = 'the matrix of %s does not show its values' % m
            if e:
                return 'figure %d of %d: %s' % (i, len(figs), e)
        return None

    def rows(self, axes, rows):
        return None if len(axes) == len(rows) else '%d axes for %d' % (len(axes), len(rows))

    def foreign(self, fig, ax, row, rows, series):
        """a subplot, or the whole figure, must not carry the name of another subplot only"""
        mine = ' '.join([ax.get_title(), ax.get_ylabel(), ax.get_xlabel()]).split()
        for x in rows:
            if x is not row and str(x) in mine:
                return 'the row of %s is named %s' % (row, x)
        if str(row) not in mine and str(row) not in ' '.join(t.get_text() for t in fig.texts).split():
            return 'the row of %s is not named' % row
        if len(rows) > 1:
            named = [x for x in rows if str(x) in ' '.join(t.get_text() for t in fig.texts).split()]
            if len(named) == 1:
                return 'the figure of %d is named after %s' % (len(rows), named[0])
        return None

    def wrong_bars(self, ax, series, along, vals, kw, legend=True):
        groups = [c for c in ax.containers if hasattr(c, 'patches')]
        if len(groups) != len(series) or len(ax.patches) != len(series) * len(along):
            return '%d groups of %d bars' % (len(groups), len(ax.patches))
        for s, g in enumerate(groups):
            if not same([b.get_height() for b in g.patches], vals[s], 1e-6):
                return 'the bars of %s do not show its values' % (series[s],)
            x = [b.get_x() for b in g.patches]
            if x != sorted(x):
                return 'the bars are not in order'
        # every group of bars stands near its tick
        if [t.get_text() for t in ax.get_xticklabels()] != [str(a) for a in along]:
            return 'the ticks are labelled %r' % ([t.get_text() for t in ax.get_xticklabels()],)
        ticks = list(ax.get_xticks())
        for a in range(len(along)):
            for g in groups:
                b = g.patches[a]
                c = b.get_x() + b.get_width() / 2
                if min(range(len(ticks)), key=lambda t: abs(ticks[t] - c)) != a:
                    return 'a bar of %s stands by the tick of another' % (along[a],)
        edges = sorted((b.get_x(), b.get_x() + b.get_width()) for b in ax.patches)
        if any(edges[i][1] > edges[i + 1][0] + 1e-6 for i in range(len(edges) - 1)):
            return 'bars overlap'
        lo, hi = sorted(ax.get_ylim())
        top = max([b.get_height() for b in ax.patches if not math.isnan(b.get_height())] or [0])
        if lo > 0 or (hi < top and top > 0):
            return 'bars are cut at %r' % (hi,)
        if legend:
            lg = ax.get_legend()
            t = [x.get_text() for x in lg.get_texts()] if lg is not None else []
            if t != [str(s) for s in series]:
                return 'the legend is %r' % (t,)
            for h, g in zip(lg.get_patches(), groups):
                if h.get_facecolor() != g.patches[0].get_facecolor():
                    return 'the legend has other colours'
        if kw.get('show_values'):
            got = {}
            for t in ax.texts:
                got[round(t.get_position()[0], 4)] = (t.get_position()[1], float(t.get_text()))
            for g in groups:
                for b in g.patches:
                    y, n = got.get(round(b.get_x() + b.get_width() / 2, 4), (None, None))
                    if n is None or abs(n - b.get_height()) > .000501 or abs(y - b.get_height()) > 1e-6:
                        return 'the number %r stands on a bar of %r' % (n, b.get_height())
            if len(ax.texts) != len(ax.patches):
                return '%d numbers for %d bars' % (len(ax.texts), len(ax.patches))
        return None

    def wrong_lines(self, ax, series, x, vals, legend, best=False, labels=True):
        lines = list(ax.lines)
        if labels:
            named = [[l for l in lines if l.get_label() == str(s)] for s in series]
        else:
            named = [[l] for l in lines]
        if [len(l) for l in named] != [1] * len(series):
            return 'the lines are %r' % ([l.get_label() for l in lines],)
        for s, l, v in zip(series, named, vals):
            if not same(l[0].get_ydata(), v, 1e-6) or (x is not None and not same(l[0].get_xdata(), x)):
                return 'the line of %s does not show its values' % (s,)
            if x is None and not same(l[0].get_xdata(), range(len(v))):
                return 'the line of %s has other positions' % (s,)
        colours = [str(l[0].get_color()) for l in named]
        if len(set(colours)) != len(colours):
            return 'two lines have the same colour'
        if best:
            # the marked maxima
            marks = [(float(l.get_xdata()[0]), float(l.get_ydata()[0])) for l in lines if len(np.atleast_1d(l.get_xdata())) == 1 and l.get_marker() not in ('None', '', None)]
            want = []
            for v in vals:
                m = np.nanmax(v)
                want.append({(float(x[i]), float(m)) for i in range(len(x)) if v[i] == m})
            if len(marks) != len(want) or any(not any(near(m, c) for c in w) for m, w in zip(marks, want)):
                return 'the maxima are marked at %r' % (marks,)
        if legend:
            lg = ax.get_legend()
            t = [q.get_text() for q in lg.get_texts()] if lg is not None else []
            if t[:len(series)] != [str(s) for s in series] or t[len(series):] not in ([], ['Max']):
                return 'the legend is %r' % (t,)
            if [str(h.get_color()) for h in lg.get_lines()][:len(series)] != colours:
                return 'the legend has other colours'
        return None

    def wrong_feature(self, o, r, kw, fig):
        imp, cnt = [np.asarray(a, dtype=float) for a in r.values]
        n = len(imp)
        shown = n if kw.get('max_features', 10) is None else min(n, kw.get('max_features', 10))
        if len(fig.axes) != 2:
            return '%d axes' % len(fig.axes)
        a1, a2 = fig.axes
        by = {'Importance': None, 'Count': None}
        for a in fig.axes:
            if len(a.patches) != shown:
                return '%d bars for %d features' % (len(a.patches), shown)
        hs = [[b.get_height() for b in sorted(a.patches, key=lambda b: b.get_x())] for a in fig.axes]
        names = kw.get('feature_names')
        labels = [t.get_text().strip() for t in a1.get_xticklabels()][:shown]
        known = [s.strip() for s in names] if names else [str(i + 1) for i in range(n)]
        try:
            ids = [known.index(l) for l in labels]
        except ValueError:
            return 'the ticks are labelled %r' % (labels,)
        if len(set(ids)) != shown:
            return 'features appear twice: %r' % (labels,)
        ticks = list(a1.get_xticks())
        for j, f in enumerate(ids):
            if abs(hs[0][j] - imp[f]) > 1e-6 or abs(hs[1][j] - cnt[f]) > 1e-6:
                return 'feature %s has bars of %r and %r instead of %r and %r' % (known[f], hs[0][j], hs[1][j], imp[f], cnt[f])
            for a in (a1, a2):
                b = sorted(a.patches, key=lambda b: b.get_x())[j]
                c = b.get_x() + b.get_width() / 2
                if min(range(len(ticks)), key=lambda t: abs(ticks[t] - c)) != j:
                    return 'a bar of feature %s stands by another tick' % known[f]
        key = cnt if kw.get('sort_by') == 'count' else imp
        order = [key[f] for f in ids]
        if any(order[j] < order[j + 1] for j in range(shown - 1)) or (shown and shown < n and min(order) < max(key[f] for f in range(n) if f not in ids)):
            return 'the features are not the top ones in order: %r' % (order,)
        for a, h in ((a1, hs[0]), (a2, hs[1])):
            if shown and max(a.get_ylim()) < max(h):
                return 'bars are cut'
        if ('Count' if kw.get('sort_by') == 'count' else 'Importance') not in a1.get_title():
            return 'the title is %r' % a1.get_title()
        lg = a1.get_legend() or a2.get_legend()
        t = [x.get_text() for x in lg.get_texts()] if lg is not None else []
        if t != ['Importance', 'Count'] or [h.get_facecolor() for h in lg.get_patches()] != [a1.patches[0].get_facecolor(), a2.patches[0].get_facecolor()]:
            return 'the legend is %r' % (t,)
        return None

    def wrong_shape(self, r, kw, fig):
        ts = r.avg_tree_shape().toarray()
        levels = min(ts.shape[0], kw.get('max_level', 10) + 1)
        if str(r.model) not in ' '.join(texts(fig)):
            return 'the model is not named'
        mesh = [c for a in all_axes(fig) if a.name != 'rectilinear' or a not in fig.axes for c in a.collections if type(c).__name__ == 'QuadMesh']
        if len(mesh) != 1:
            return '%d meshes' % len(mesh)
        a = np.ma.asarray(mesh[0].get_array())
        co = np.asarray(mesh[0].get_coordinates())
        a = a.reshape(co.shape[0] - 1, co.shape[1] - 1)
        ang, rad = co[:, 0, 0], co[0, :, 1]
        # what is drawn in the sector of each node
        for l in range(levels):
            for c in range(2 ** l):
                want = ts[l, c] if c < ts.shape[1] else 0
                for da in (.3, .5, .7):
                    for dr in (.2, .8):
                        i, j = np.searchsorted(ang, (c + da) * np.pi / 2 ** l) - 1, np.searchsorted(rad, l + dr) - 1
                        if not (0 <= i < a.shape[0] and 0 <= j < a.shape[1]):
                            return 'nothing is drawn for node %d of level %d' % (c, l)
                        if np.ma.getmaskarray(a)[i, j] or abs(float(a[i, j]) - want) > 1e-6:
                            return 'node %d of level %d is drawn as %r instead of %r' % (c, l, a[i, j], want)
        return None

    # ---- the history
    def execute(self, p, ctx):
        import matplotlib.pyplot as plt
        from rankeval import metrics as M
        from rankeval.dataset import Dataset
        from rankeval.model import RTEnsemble
        from rankeval.visualization import effectiveness as V, feature as F, topological as T
        if not p['ops']:
            raise Invalid('empty')
        warnings.simplefilter('ignore')
        rng = random.Random(p['seed'])
        pool = {'sets': [Dataset(np.full((2 + i, 2), i, dtype=np.float32), np.arange(2 + i), np.array([1] * (2 + i)), name='Set_%s' % c) for i, c in enumerate('ABC')],
                'models': [], 'metrics': [M.NDCG(), M.ERR(), M.Precision(cutoff=1 + p['seed'] % 5)]}
        for i, c in enumerate('KLM'):
            path = os.path.join(ctx.scratch, 'm%d.xml' % i)
            models.write(models.ensemble(p['seed'] + i, 1 + rng.randrange(6), 1 + rng.randrange(9), 4), path)
            pool['models'].append(RTEnsemble(path, name='Model_%s' % c))
        given = []      # figures handed out, or of the user: (figure, what it shows, name)

        def others(what, but=()):
            for f, c, name in given:
                if f not in but and content(f) != c:
                    raise Violation('altered', '%s changed the figure of %s' % (what, name))
        for i, o in enumerate(p['ops']):
            what = 'figure %d (%s)' % (i, o['op'])
            ctx.steps += 1
            if o['op'] == 'user':
                h = o['how']
                if h in ('new', 'one'):
                    f = plt.figure(1) if h == 'one' else plt.figure()
                    plt.plot([1, 2, o['s']], [3, 1, 2], label='mine')
                    plt.title('mine %d' % o['s'])
                    given = [g for g in given if g[0] is not f] + [(f, content(f), 'the user')]
                elif h in ('empty', 'axes'):
                    # prepared, and not yet used
                    f = plt.figure() if h == 'empty' else plt.subplots()[0]
                    given = [g for g in given if g[0] is not f] + [(f, content(f), 'the user')]
                elif h == 'draw' and given:
                    f = given[o['s'] % len(given)][0]
                    if f.axes:
                        plt.sca(f.axes[0])      # the user looks at it again
                elif h == 'close' and plt.get_fignums():
                    plt.close(plt.get_fignums()[o['s'] % len(plt.get_fignums())])
                elif h == 'style':
                    V.init_plot_style()
                elif h == 'close_all':
                    plt.close('all')
                elif h == 'clf' and plt.get_fignums():
                    f = plt.gcf()
                    plt.clf()
                    given = [g for g in given if g[0] is not f]
                ctx.log(what, h)
                continue
            r = self.result(o, pool, ctx.scratch)
            kw, fn = self.draw(o, r, V, F, T)
            snap = None if o['op'] == 'shape' else (r.values.tobytes(), r.dims, repr(r.coords))
            msnap = [scoring.snap_model(m) for m in pool['models']]
            if o.get('fault'):
                figs, err, _ = inject.run(o['fault'], fn, ctx)
            else:
                figs, err = fn(), None
            ctx.log(what, type(err).__name__ if err is not None else 'ok', repr(kw))
            ctx.state(o['op'], repr(kw), err is not None)
            mine = []
            if err is None:
                e = self.wrong(o, r, kw, figs)
                if e:
                    raise Violation('wrong', '%s, with %r: %s' % (what, kw, e))
                for f in figs if isinstance(figs, (list, tuple)) else [figs]:
                    if any(not math.isfinite(t) for a in f.axes for t in list(a.get_xticks()) + list(a.get_yticks()) + list(a.get_xlim()) + list(a.get_ylim())):
                        raise Violation('wrong', '%s, with %r: an axis can not be drawn' % (what, kw))
                mine = list(figs) if isinstance(figs, (list, tuple)) else [figs]
                if any(g[0] is f for g in given for f in mine):
                    raise Violation('reused', '%s: a figure handed out before was used again' % what)
            if snap is not None and snap != (r.values.tobytes(), r.dims, repr(r.coords)):
                raise Violation('modified', what + ' modified the result')
            if [scoring.snap_model(m) for m in pool['models']] != msnap:
                raise Violation('modified', what + ' modified a model')
            others(what)
            given += [(f, content(f), 'operation %d (%s)' % (i, o['op'])) for f in mine]
            if i == len(p['ops']) - 1 and rng.random() < .1:
                for f in mine:
                    try:
                        f.canvas.draw()
                    except Exception as e:
                        raise Violation('wrong', '%s, with %r: it can not be drawn: %r' % (what, kw, e))
                ctx.probe('drawn')
        others('the history')


def near(a, b):
    return all(abs(x - y) <= 1e-6 * max(1, abs(x)) for x, y in zip(a, b))


CHECK = C25()
