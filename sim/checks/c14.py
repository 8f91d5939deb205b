"""C14: caching scores never changes what a model returns."""
import random

import numpy as np

from sim import data, inject, models, omp, scoring
from sim.core import Check, Invalid, Violation


def lookalike(X, y, q, how, seed):
    """a dataset differing from (X, y, q) in little"""
    rng = random.Random(seed)
    X, y, q = X.copy(), y.copy(), q.copy()
    n = len(y)
    i = rng.randrange(n)
    if how == 'value':
        X[i, rng.randrange(X.shape[1])] += rng.choice([1, -1, 3, 8])
    elif how == 'label':
        y[i] += 1
    elif how == 'swap':
        j = rng.randrange(n)
        X[[i, j]] = X[[j, i]]
    elif how == 'ids':
        q = q + 1
    elif how == 'partition' and n > 1:
        # the same ids, another boundary
        b = [k for k in range(1, n) if q[k] != q[k - 1]]
        if b:
            k = b[rng.randrange(len(b))]
            if k >= 2 and q[k - 2] == q[k - 1]:
                q[k - 1] = q[k]
            elif k + 1 < n and q[k + 1] == q[k]:
                q[k] = q[k - 1]
    elif how == 'negate':
        X = -X
    elif how == 'rows' and n > 1:
        X, y, q = X[:-1], y[:-1], q[:-1]
    elif how == 'cols':
        X = np.hstack([X, np.ones((n, 1), dtype=np.float32)])
    elif how == 'order':
        X, y = X[::-1].copy(), y[::-1].copy()
    return X, y, q


HOWS = ['value', 'value', 'label', 'swap', 'ids', 'partition', 'negate', 'rows', 'cols', 'order', 'same', 'same']


def draw_sets(rng, tier, n_feat, most=4):
    return {'data': scoring.draw_data(rng, tier, n_feat), 'sets': [{'of': rng.randrange(0, k) if k else None, 'how': rng.choice(HOWS),
            'seed': rng.randrange(1 << 30)} for k in range(rng.randrange(1, most + 1))]}


def enlarge(rng, p, most=6):
    """now and then, datasets larger than any buffer or block of documents"""
    if rng.random() < .02:
        p['data'].update(rows=rng.choice([300, 1100, 2200]), nq=rng.choice([2, 40, 250]))
        if 'ops' in p:
            p['ops'] = p['ops'][:most]


def build_sets(p):
    """arrays of every dataset of the run: the first as drawn, the others derived from earlier ones or independent"""
    d = p['data']
    out = [data.table(d['dseed'], d['rows'], d['cols'], d['nq'], kind='dyadic')]
    for s in p['sets'][1:]:
        b = out[min(s['of'] or 0, len(out) - 1)]
        if s['seed'] % 5 == 0:
            out.append(data.table(s['seed'], d['rows'] + s['seed'] % 3, d['cols'], d['nq'], kind='dyadic'))
        else:
            out.append(lookalike(*b, s['how'], s['seed']))
    return out


class C14(Check):
    id = 'C14'
    runs = 4000
    quick_seconds = 150
    lists = ('ops', 'sets', 'derive')
    ints = {'n_trees': 1, 'size': 1}
    real = ['RTEnsemble.score, clear_cache, Scorer, Dataset (subset, subset_features, hash, equality)', 'rankeval.scoring (compiled)', 'NumPy']
    stub = ['user interrupts and lack of memory raised at a chosen instruction of the library', 'failing allocations of arrays (NumPy constructors)',
            'the OpenMP runtime (fibers scheduled by the seed)']
    measure = 'distinct histories (operations, outcomes and places of the faults)'
    level_rule = ('Each seed draws a model, up to four look-alike datasets and a history of up to fourteen calls, some of them disturbed, '
                  'against float64 reference scores of the generated trees.')
    assumptions = ['sums of the generated values are exact in single precision', 'callers do not modify returned arrays, models and datasets',
                   'an interrupt is delivered between two bytecode instructions of the library']

    def preload(self):
        import rankeval.model  # noqa
        import rankeval.dataset  # noqa
        omp.lib()

    def generate(self, rng, tier):
        p = scoring.draw_model(rng, 'small', ('QuickRank', 'QuickRank', 'LightGBM', 'XGBoost', 'ScikitLearn', 'Jforests'))
        p['keep'] = None
        p['n_trees'] = min(p['n_trees'], 12)
        p['n_feat'] = min(p['n_feat'], 8)
        p.update(draw_sets(rng, 'small', p['n_feat']))
        p['data']['rows'] = min(p['data']['rows'], 40)
        p['seed'] = rng.randrange(1 << 30)
        p['omp'] = omp.draw(rng)
        p['second'] = None
        if rng.random() < .5:
            # another model in the same process
            q = p['second'] = {k: p[k] for k in ('mseed', 'n_trees', 'size', 'n_feat', 'format', 'leaf', 'rate', 'base', 'keep', 'how')}
            if rng.random() < .6:
                q['mseed'] = rng.randrange(1 << 30)
            else:
                q['rate'], q['base'] = rng.choice([.5, 2, 4]), rng.choice([.25, -3])
        ops = []
        for _ in range(rng.randrange(2, 15)):
            k = rng.random()
            if k < .1:
                ops.append({'op': 'clear', 'm': rng.randrange(2)})
            elif k < .15:
                ops.append({'op': 'renew', 'set': rng.randrange(6)})
            elif k < .22:
                ops.append({'op': 'replace', 'set': rng.randrange(6), 'to': rng.randrange(6)})
            elif k < .26:
                ops.append({'op': 'reload', 'm': rng.randrange(2), 'to': rng.randrange(2)})
            elif k < .4:
                o = {'op': 'scorer', 'm': rng.randrange(2), 'set': rng.randrange(2), 'how': rng.choice(['basic', 'detailed', 'detailed', 'get', 'partial', 'leaves'])}
                if rng.random() < .35:
                    o['fault'] = inject.draw(rng)
                ops.append(o)
            else:
                o = {'op': 'score', 'm': 0 if rng.random() < .7 else 1, 'set': rng.randrange(6), 'detailed': rng.random() < .5, 'cache': rng.random() < .65}
                if rng.random() < .35:
                    o['fault'] = inject.draw(rng)
                ops.append(o)
        p['ops'] = ops
        # datasets derived by the library from the others
        p['derive'] = [{'of': rng.randrange(5), 'how': rng.choice(['features', 'queries']), 'seed': rng.randrange(1 << 30), 'warm': rng.random() < .5}
                       for _ in range(rng.choice([0, 0, 1, 2]))]
        enlarge(rng, p)
        return p

    def execute(self, p, ctx):
        from rankeval.dataset import Dataset
        from rankeval.scoring import Scorer
        omp.start(p['omp'])
        omp.lib().simomp_disable()
        specs = [p] + ([p['second']] if p['second'] else [])
        make = lambda k: scoring.make_model(specs[k], ctx.scratch, name='model%d' % k)
        built = [make(k) for k in range(len(specs))]
        ms = [b[0] for b in built]
        arrays = build_sets(p)
        if not arrays or not p['sets']:
            raise Invalid('no dataset')
        how = {}
        for d in p['derive']:
            b = d['of'] % len(arrays)
            X, y, q = arrays[b]
            rng = random.Random(d['seed'])
            if d['how'] == 'features':
                pick = list(range(X.shape[1]))
                rng.shuffle(pick)
                pick += [rng.randrange(X.shape[1]) for _ in range(rng.choice([0, 0, 1]))]
                arrays.append((X[:, pick], y, q))
            else:
                ids = list(dict.fromkeys(q.tolist()))
                pick = rng.sample(ids, rng.randrange(1, len(ids) + 1))
                rows = [i for i in range(len(q)) if q[i] in set(pick)]
                arrays.append((X[rows], y[rows], q[rows]))
            how[len(arrays) - 1] = (b, d, pick)

        def new(k):
            if k not in how:
                return Dataset(*(a.copy() for a in arrays[k]))
            b, d, pick = how[k]
            parent = sets[b] if b < len(sets) and sets[b] is not None and holds[b] == b else new(b)
            if d['warm']:
                hash(parent)
            before = scoring.snap_dataset(parent)
            r = parent.subset_features(pick) if d['how'] == 'features' else parent.subset(np.array(pick))
            if scoring.snap_dataset(parent) != before:
                raise Violation('modified', 'deriving a dataset modified it')
            want = Dataset(*(a.copy() for a in arrays[k]))
            for n in ('X', 'y', 'query_ids', 'query_offsets'):
                if not np.array_equal(getattr(r, n), getattr(want, n)):
                    raise Violation('derived', 'dataset %d derived from %d (%s %r): wrong %s' % (k, b, d['how'], pick, n))
            if (r.n_instances, r.n_features, r.n_queries) != (want.n_instances, want.n_features, want.n_queries):
                raise Violation('derived', 'dataset %d derived from %d: wrong sizes' % (k, b))
            return r
        sets, holds = [], list(range(len(arrays)))
        for k in range(len(arrays)):
            sets.append(new(k))
        refs = [[scoring.Reference(b[0], b[1], d, b[2], b[3]) for d in sets] for b in built]
        # a Scorer used directly knows nothing of rate and base score
        plain = [[scoring.Reference(b[0], b[1], d, 1, 0) for d in sets] for b in built]
        scorers = {}
        snaps = [scoring.snap_dataset(d) for d in sets]
        msnaps = [scoring.snap_model(m) for m in ms]
        del built
        # what the slots hold: a dataset or model may take the place (and the memory) of another
        mholds = list(range(len(ms)))
        omp.lib().simomp_enable()
        kept = []

        def verify(m, k, r, detailed, what):
            ref = refs[mholds[m]][holds[k]]
            e = ref.detailed(r) if detailed else ref.basic(r)
            if e:
                raise Violation('scores', '%s, model %d on dataset %d (%s): %s' % (what, mholds[m], holds[k], 'detailed' if detailed else 'basic', e))
            for a in (r if detailed else (r,)):
                kept.append((what, holds[k], a, a.copy()))

        def unchanged():
            if [scoring.snap_model(m) for m in ms] != [msnaps[k] for k in mholds] or [scoring.snap_dataset(d) for d in sets] != snaps:
                raise Violation('modified', 'a model or a dataset was modified')

        def call(i, o):
            k, m = o['set'] % len(sets), o['m'] % len(ms)
            what = 'call %d' % i

            def fn():
                return ms[m].score(sets[k], detailed=o['detailed'], cache=o['cache'])
            f = o.get('fault')
            if f:
                r, err, fired = inject.run(f, fn, ctx)
                ctx.log(what, type(err).__name__ if err else 'ok')
                if err is not None:
                    return
            else:
                r = fn()
                ctx.log(what, 'ok')
            verify(m, k, r, o['detailed'], what)
        def direct(m, k, how, what, fault=None):
            if (m, k) not in scorers:
                scorers[m, k] = Scorer(ms[m], sets[k])
            sc = scorers[m, k]
            ref = plain[mholds[m]][holds[k]]

            def fn():
                if how in ('basic', 'detailed'):
                    return sc.score(detailed=how == 'detailed')
                return {'get': sc.get_predicted_scores, 'partial': sc.get_partial_predicted_scores, 'leaves': sc.get_predicted_leaves}[how]()
            if fault:
                r, err, fired = inject.run(fault, fn, ctx)
                ctx.log(what, type(err).__name__ if err else 'ok')
                if err is not None:
                    return
            else:
                r = fn()
                ctx.log(what, 'ok')
            if how in ('partial', 'leaves'):
                w = ref.part if how == 'partial' else ref.leaf
                e = None if isinstance(r, np.ndarray) and r.shape == w.shape and np.array_equal(r.astype(np.float64), w) else 'wrong values: %r' % (r,)
            else:
                e = ref.basic(r)
            if e:
                raise Violation('scorer', '%s, scorer of model %d on dataset %d (%s): %s' % (what, mholds[m], holds[k], how, e))

        for i, o in enumerate(p['ops']):
            if o['op'] == 'scorer':
                direct(o['m'] % len(ms), o['set'] % len(sets), o['how'], 'scorer %d' % i, o.get('fault'))
            elif o['op'] == 'clear':
                ms[o['m'] % len(ms)].clear_cache()
                ctx.log('clear')
            elif o['op'] in ('renew', 'replace'):
                k = o['set'] % len(sets)
                unchanged()
                sets[k] = None
                for mk in [x for x in scorers if x[1] == k]:
                    del scorers[mk]
                holds[k] = o['to'] % len(sets) if o['op'] == 'replace' else holds[k]
                sets[k] = new(holds[k])
                snaps[k] = scoring.snap_dataset(sets[k])
                ctx.log(o['op'], k)
            elif o['op'] == 'reload':
                k = o['m'] % len(ms)
                unchanged()
                mholds[k] = o['to'] % len(ms)
                ms[k] = None
                for mk in [x for x in scorers if x[0] == k]:
                    del scorers[mk]
                omp.lib().simomp_disable()
                ms[k] = make(mholds[k])[0]
                omp.lib().simomp_enable()
                ctx.log(o['op'], k)
            else:
                call(i, o)
            ctx.steps += 1
        for m in range(len(ms)):
            for k in range(len(sets)):
                for detailed in (False, True, False):
                    verify(m, k, ms[m].score(sets[k], detailed=detailed, cache=True), detailed, 'final')
        for m, k in sorted(scorers):
            for how in ('basic', 'get', 'detailed', 'partial', 'leaves', 'basic'):
                direct(m, k, how, 'final scorer')
        for what, k, a, b in kept:
            if not np.array_equal(a, b):
                raise Violation('altered', 'the scores returned by %s on dataset %d changed afterwards' % (what, k))
        unchanged()
        omp.stop(ctx, schedule=False)
        ctx.state('history', [(o['op'], o.get('set'), o.get('detailed', o.get('how')), o.get('cache'), (o.get('fault') or {}).get('kind')) for o in p['ops']])


CHECK = C14()
