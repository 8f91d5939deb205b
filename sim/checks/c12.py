"""C12: the topological analysis does not depend on the parallel schedule."""
import numpy as np

from sim import models, omp, scoring
from sim.checks.c10 import Scoring
from sim.core import Invalid, Violation


def counts(trees, include_leaves):
    """(row, col) of the full binary tree -> number of trees with a node there"""
    out = {}
    for t in trees:
        stack = [(0, 0, 0)]
        while stack:
            i, r, c = stack.pop()
            leaf = t.feature[i] < 0
            if include_leaves or not leaf:
                out[r, c] = out.get((r, c), 0) + 1
            if not leaf:
                stack += [(t.left[i], r + 1, 2 * c), (t.right[i], r + 1, 2 * c + 1)]
    return out


class C12(Scoring):
    id = 'C12'
    ints = {'n_trees': 1, 'size': 1, 'n_feat': 1}
    real = ['rankeval.analysis.topological and _efficient_topological (compiled by setup.py, every memory access instrumented)', 'SciPy sparse']
    assumptions = ['trees are at most 56 levels deep', 'nodes are numbered parents first, as every format does',
                   'whether the root of a tree made by a single leaf counts when leaves are left out is not specified']

    def preload(self):
        super().preload()
        import rankeval.analysis.topological  # noqa

    def generate(self, rng, tier):
        p = scoring.draw_model(rng, tier)
        if rng.random() < .2:
            p['size'] = rng.choice([20, 40, 60])   # deep chains
        p['shape'] = rng.choice([None, None, 'left', 'right', 'balanced'])
        if rng.random() < .02:
            # more than small integers hold, in a tree or in many
            p.update(rng.choice([{'n_trees': rng.randrange(1, 4), 'size': 300, 'shape': 'balanced'}, {'n_trees': 3000, 'size': 3}]))
        p.update(omp.draw(rng))
        p['seed'] = rng.randrange(1 << 30)
        p['leaves'] = rng.random() < .6
        p['extra'] = [omp.draw(rng) for _ in range(rng.randrange(0, 3))]
        p['decs'] = None
        return p

    def execute(self, p, ctx):
        from rankeval.analysis.topological import topological_analysis
        omp.lib().simomp_disable()
        m, trees, rate, base = scoring.make_model(p, ctx.scratch)
        if models.diff(m, trees, weights=p['format'] in ('QuickRank', 'Jforests')):
            raise Invalid('loading is C04')
        n = len(trees)
        ref = counts(trees, p['leaves'])
        roots = {n} if p['leaves'] else {n, ref.get((0, 0), 0)}
        heights = [t.height() for t in trees]
        before = scoring.snap_model(m)
        nodes = [len(t.feature) for t in trees]
        leaves = [sum(f < 0 for f in t.feature) for t in trees]
        for what, got, want in (('height_trees', m.height_trees(), heights), ('num_nodes', m.num_nodes(), nodes), ('num_leaves', m.num_leaves(), leaves),
                                ('max_leaves', [m.max_leaves()], [max(leaves)]), ('n_trees', [m.n_trees], [n]), ('n_nodes', [m.n_nodes], [sum(nodes)]),
                                ('is_leaf_node', [sum(map(bool, map(m.is_leaf_node, range(m.n_nodes))))], [sum(leaves)])):
            if [int(x) for x in got] != want:
                raise Violation('model', '%s of the model: %r instead of %r' % (what, [int(x) for x in got][:20], want[:20]))
        for k, s in enumerate([p] + p['extra']):
            omp.start(s, p['decs'] if k == 0 else None)
            try:
                r = topological_analysis(m, include_leaves=p['leaves'])
            finally:
                omp.stop(ctx, schedule=k == 0)
            what = 'with %d threads: ' % s['threads']
            h = [int(x) for x in np.asarray(r.height_trees)]
            if h != heights:
                raise Violation('height', what + 'heights %r instead of %r' % (h, heights))
            t = r.topology.tocoo()
            got = {}
            for a, b, c in zip(t.row.tolist(), t.col.tolist(), t.data.tolist()):
                got[a, b] = got.get((a, b), 0) + c
            root = got.pop((0, 0), 0)
            want = {key: v for key, v in ref.items() if key != (0, 0)}
            if root not in roots:
                raise Violation('counts', what + 'the root is counted %r times for %d trees' % (root, n))
            got = {key: v for key, v in got.items() if v}
            if got != want:
                d = sorted(set(got.items()) ^ set(want.items()))[0]
                raise Violation('counts', what + 'at %r: %r instead of %r' % (d[0], got.get(d[0], 0), want.get(d[0], 0)))
            full = dict(want)
            if root:
                full[0, 0] = root
            a = r.avg_tree_shape().tocoo()
            for x, y, v in zip(a.row.tolist(), a.col.tolist(), a.data.tolist()):
                if abs(v - full.get((x, y), 0) / n) > 1e-5:
                    raise Violation('average', what + 'the average at (%d, %d) is %r' % (x, y, v))
            f = np.asarray(r.fullness_per_level()).ravel()
            rows = max(x for x, _ in full) + 1
            if f.size != rows:
                raise Violation('fullness', what + '%d levels instead of %d' % (f.size, rows))
            for x in range(rows):
                v = [c for key, c in full.items() if key[0] == x]
                if abs(f[x] - sum(v) / len(v) / n) > 1e-5:
                    raise Violation('fullness', what + 'level %d: %r instead of %r' % (x, f[x], sum(v) / len(v) / n))
            if n > 1:
                d = r.describe_tree_height()
                if d.nobs != n or tuple(int(z) for z in d.minmax) != (min(heights), max(heights)) or abs(d.mean - sum(heights) / n) > 1e-6 * (1 + d.mean):
                    raise Violation('describe', what + repr(d))
            if scoring.snap_model(m) != before:
                raise Violation('modified', 'the analysis modified the model')


CHECK = C12()
