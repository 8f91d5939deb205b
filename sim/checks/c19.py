"""C19: a copied or pruned model is independent from the original."""
import copy

import numpy as np

from sim import inject, omp, scoring
from sim.checks.c14 import build_sets, draw_sets, enlarge
from sim.core import Check, Invalid, Violation


class C19(Check):
    id = 'C19'
    runs = 5000
    quick_seconds = 150
    lists = ('ops', 'sets')
    ints = {'n_trees': 1, 'size': 1}
    real = ['RTEnsemble.copy, _prune_model, score, clear_cache, Scorer, Dataset', 'rankeval.scoring (compiled)', 'NumPy']
    stub = ['user interrupts and lack of memory raised at a chosen instruction of the library or of the copy module',
            'failing allocations of arrays (NumPy constructors)', 'the OpenMP runtime (fibers scheduled by the seed)']
    measure = 'distinct histories (operations, outcomes and places of the faults)'
    level_rule = ('Each seed draws a model, up to three look-alike datasets and a history of up to sixteen operations over the family of the '
                  'copies of the model, some of them disturbed, against float64 reference scores of the generated trees.')
    assumptions = ['sums of the generated values are exact in single precision', 'callers do not modify returned scores and datasets',
                   'copies have at least one tree']

    def preload(self):
        import rankeval.model  # noqa
        import rankeval.dataset  # noqa
        omp.lib()

    def generate(self, rng, tier):
        p = scoring.draw_model(rng, 'small', ('QuickRank', 'QuickRank', 'QuickRank', 'LightGBM', 'XGBoost', 'ScikitLearn', 'Jforests'))
        p['n_trees'] = rng.choice([1, 2, 3, 5, 8, 12, 15])
        p['n_feat'] = min(p['n_feat'], 8)
        p.update(draw_sets(rng, 'small', p['n_feat'], 3))
        p['data']['rows'] = min(p['data']['rows'], 30)
        p['seed'] = rng.randrange(1 << 30)
        p['omp'] = omp.draw(rng)
        ops = []
        for _ in range(rng.randrange(2, 17)):
            o = {'op': rng.choice(['copy', 'copy', 'score', 'score', 'score', 'score', 'clear', 'prune', 'drop', 'spoil']), 'i': rng.randrange(60)}
            if o['op'] in ('copy', 'prune'):
                o['n'] = rng.choice([None, rng.randrange(1, 17), rng.randrange(1, 17)]) if o['op'] == 'copy' else rng.randrange(1, 17)
                o['np'] = rng.random() < .2
            if o['op'] == 'score':
                o.update(set=rng.randrange(3), detailed=rng.random() < .5, cache=rng.random() < .7)
            if o['op'] == 'spoil':
                o['what'] = rng.randrange(6)
            if rng.random() < .25 and o['op'] in ('copy', 'score', 'clear'):
                o['fault'] = inject.draw(rng)
            ops.append(o)
        p['ops'] = ops
        enlarge(rng, p)
        return p

    def execute(self, p, ctx):
        from rankeval.dataset import Dataset
        omp.start(p['omp'])
        omp.lib().simomp_disable()
        m, trees, rate, base = scoring.make_model(p, ctx.scratch)
        if not p['sets']:
            raise Invalid('no dataset')
        sets = [Dataset(X.copy(), y.copy(), q.copy()) for X, y, q in build_sets(p)]
        dsnaps = [scoring.snap_dataset(d) for d in sets]
        omp.lib().simomp_enable()
        prefix = (inject.libdir(), copy.__file__)
        family, kept = [], []
        whole = [scoring.Reference(m, trees, d, rate, base) for d in sets]

        def adopt(model, trees):
            if model.n_trees != len(trees):
                raise Violation('size', 'the copy has %s trees instead of %d' % (model.n_trees, len(trees)))
            if len(model.trees_root) != len(trees) or len(model.trees_weight) != len(trees):
                raise Violation('size', 'the arrays of the copy do not have %d trees' % len(trees))
            refs = [r.prefix(model, len(trees)) for r in whole]
            family.append({'m': model, 'trees': trees, 'refs': refs, 'snap': scoring.snap_model(model)})

        def verify(f, k, r, detailed, what):
            e = f['refs'][k].detailed(r) if detailed else f['refs'][k].basic(r)
            if e:
                raise Violation('scores', '%s, dataset %d: %s' % (what, k, e))
            for a in (r if detailed else (r,)):
                kept.append((what, a, a.copy()))

        def everything(what):
            for j, f in enumerate(family):
                if scoring.snap_model(f['m']) != f['snap']:
                    raise Violation('structure', 'model %d changed after %s' % (j, what))
        adopt(m, trees)
        del m
        for n, o in enumerate(p['ops']):
            ctx.steps += 1
            what = 'operation %d (%s)' % (n, o['op'])
            f = family[o['i'] % len(family)]
            if o['op'] == 'spoil':
                # the owner of a model changes its arrays in place: no other model may notice
                if len(family) > 1:
                    family.remove(f)
                    a = getattr(f['m'], scoring.ARRAYS[o['what']])
                    if a.flags.writeable and a.size:
                        a[...] = 0
                    f['m'].learning_rate = 7
                    f['m'].clear_cache()
                    if scoring.ARRAYS[o['what']] in ('trees_weight', 'trees_nodes_value'):
                        for d in sets:
                            f['m'].score(d, detailed=bool(n % 2), cache=True)
                    ctx.log('spoil', o['what'])
                    everything(what)
                continue
            if o['op'] == 'drop':
                if len(family) > 1:
                    family.remove(f)
                continue
            if o['op'] == 'prune':
                if hasattr(f['m'], '_prune_model') and o['n'] < len(f['trees']):
                    f['m']._prune_model(n_trees=o['n'])
                    f2 = family.pop(family.index(f))
                    adopt(f2['m'], f2['trees'][:o['n']])
                    everything(what)
                continue
            if o['op'] == 'copy':
                if len(family) > 5:
                    family.pop(1)
                k = o['n'] if o['n'] is None or not o['np'] else np.int64(o['n'])
                fn = (lambda: f['m'].copy(n_trees=k)) if k is not None else (lambda: f['m'].copy())
            elif o['op'] == 'clear':
                fn = lambda: f['m'].clear_cache()
            else:
                fn = lambda: f['m'].score(sets[o['set'] % len(sets)], detailed=o['detailed'], cache=o['cache'])
            if o.get('fault'):
                r, err, fired = inject.run(o['fault'], fn, ctx, prefix)
            else:
                r, err = fn(), None
            ctx.log(what, type(err).__name__)
            if err is None:
                if o['op'] == 'copy':
                    if r is f['m']:
                        raise Violation('same', 'copy returned the model itself')
                    adopt(r, f['trees'] if o['n'] is None else f['trees'][:o['n']])
                elif o['op'] == 'score':
                    verify(f, o['set'] % len(sets), r, o['detailed'], what)
            everything(what)
        for j, f in enumerate(family):
            for k in range(len(sets)):
                for detailed in (False, True):
                    verify(f, k, f['m'].score(sets[k], detailed=detailed, cache=bool((j + k) % 2)), detailed, 'final scores of model %d' % j)
        everything('the end')
        for what, a, b in kept:
            if not np.array_equal(a, b):
                raise Violation('altered', 'the result of %s changed afterwards' % what)
        if [scoring.snap_dataset(d) for d in sets] != dsnaps:
            raise Violation('modified', 'a dataset was modified')
        omp.stop(ctx, schedule=False)
        ctx.nontrivial = True
        ctx.state('history', [(o['op'], o.get('n'), o.get('detailed'), o.get('cache'), (o.get('fault') or {}).get('kind')) for o in p['ops']])


CHECK = C19()
