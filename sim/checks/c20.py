"""C20: splitting partitions the queries, for every random draw."""
import random

import numpy as np

from sim import data, inject, rng as R, scoring
from sim.core import Check, Violation


class C20(Check):
    id = 'C20'
    runs = 6000
    quick_seconds = 150
    lists = ('ops',)
    ints = {'rows': 1, 'nq': 1, 'cols': 1}
    real = ['Dataset.split, Dataset._check_random_state', 'NumPy']
    stub = ['the global generator or the one given by the caller, in a share of the runs, by one returning chosen permutations',
            'user interrupts raised at a chosen instruction of the library', 'failing allocations of arrays (NumPy constructors)']
    measure = 'distinct histories (sizes, kinds of generator, draws, faults)'
    level_rule = ('Each seed draws a dataset and a history of up to eight splits of it and of the parts, with every kind of generator, adversarial '
                  'permutations, other users of randomness in between and some calls disturbed.')
    assumptions = ['documents of a query are contiguous, ids of queries non-negative', 'sizes are rounded to whole queries either way']

    def preload(self):
        import rankeval.dataset  # noqa

    def generate(self, rng, tier):
        nq = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 10, 13, 20, 40])
        p = {'dseed': rng.randrange(1 << 30), 'nq': nq, 'rows': nq + rng.choice([0, 1, 3, 10, 30, 60]), 'cols': rng.randrange(1, 5),
             'qids': rng.choice(['any', 'seq', 'sorted']), 'seed': rng.randrange(1 << 30), 'ops': []}
        for _ in range(rng.randrange(1, 9)):
            if rng.random() < .2:
                p['ops'].append({'op': 'consume', 'how': rng.choice(['rand', 'seed', 'shuffle', 'normal', 'python']), 's': rng.randrange(1 << 30)})
                continue
            t = rng.choice([0, 1, .5, .25, .1, .6, .8, .7, 1 / 3., rng.random(), rng.randrange(0, nq + 1) / nq])
            v = rng.choice([0, 0, 1 - t, (1 - t) / 2, (1 - t) * rng.random(), rng.randrange(0, nq + 1) / nq])
            while t + v > 1:
                v = v / 2 if v > .01 else 0
            o = {'op': 'split', 'of': rng.choice([0, 0, 0, rng.randrange(30)]), 'train': t, 'vali': v, 'gen': rng.choice(['int', 'int', 'npint', 'state', 'none', 'module']),
                 'gseed': rng.randrange(1 << 31), 'style': rng.choice(R.STYLES), 'again': rng.random() < .5}
            if rng.random() < .25:
                o['fault'] = inject.draw(rng)
            p['ops'].append(o)
        if rng.random() < .006:
            p.update(nq=rng.choice([300, 40000]), rows=40000, cols=1, ops=p['ops'][:2])
        return p

    def execute(self, p, ctx):
        from rankeval.dataset import Dataset
        X, y, q = data.table(p['dseed'], max(p['rows'], p['nq']), p['cols'], p['nq'], kind='dyadic', qids=p['qids'])
        X[:, 0] = np.arange(len(X))      # tells the rows apart
        pool = [(Dataset(X.copy(), y.copy(), q.copy()), X, y, q)]
        snaps = [scoring.snap_dataset(pool[0][0])]

        def check(what, o, parts, X, y, q):
            ids = {int(v) for v in q.tolist()}
            n = len(ids)
            if not isinstance(parts, tuple) or len(parts) != (3 if o['vali'] else 2):
                raise Violation('parts', '%s returned %r' % (what, parts))
            groups = [set(int(v) for v in d.query_ids) for d in parts]
            e = R.disjoint_cover(groups, ids)
            if e:
                raise Violation('partition', '%s: %s' % (what, e))
            for k, (d, g) in enumerate(zip(parts, groups)):
                e = R.part_error(d, X, y, q, g)
                if e:
                    raise Violation('rows', '%s, part %d: %s' % (what, k, e))
            if abs(len(groups[0]) - o['train'] * n) > .5 + 1e-9:
                raise Violation('size', '%s: %d training queries of %d' % (what, len(groups[0]), n))
            if o['vali'] and abs(len(groups[1]) - o['vali'] * n) > 1 + 1e-9:
                raise Violation('size', '%s: %d validation queries of %d' % (what, len(groups[1]), n))
            return groups

        for i, o in enumerate(p['ops']):
            ctx.steps += 1
            if o['op'] == 'consume':
                R.consume(o['how'], random.Random(o['s']))
                continue
            d, X, y, q = pool[o['of'] % len(pool)]
            what = 'call %d (train %g, vali %g, %d queries, %s)' % (i, o['train'], o['vali'], d.n_queries, o['gen'])
            kw = {'vali_size': o['vali']} if o['vali'] else {}
            style = 'real' if o['gen'] in ('int', 'npint') else o['style']

            def state():
                return {'int': o['gseed'], 'npint': np.int64(o['gseed']), 'state': R.Adversary(o['gseed'], style), 'none': None,
                        'module': np.random}[o['gen']]
            own = o['gen'] in ('int', 'npint')
            before = R.state(), random.getstate()

            def undisturbed():
                if own and (R.state(), random.getstate()) != before:
                    raise Violation('global', '%s disturbed the global generator' % what)
            got = []
            if o.get('fault'):
                with R.Global(o['gseed'], style):
                    r, err, fired = inject.run(o['fault'], lambda: d.split(o['train'], random_state=state(), **kw), ctx)
                undisturbed()
                ctx.log(what, type(err).__name__)
            for k in range(2 if o['again'] else 1):
                # the same seed must give the same split, whatever the global generator does
                if k and own:
                    R.consume('seed', random.Random(o['gseed'] + 1))
                    before = R.state(), random.getstate()
                elif o['gen'] in ('none', 'module'):
                    np.random.seed(o['gseed'])
                with R.Global(o['gseed'], style):
                    parts = d.split(o['train'], random_state=state(), **kw)
                undisturbed()
                got.append((check(what, o, parts, X, y, q), parts))
            ctx.log(what, got[0][0])
            if len(got) > 1 and got[0][0] != got[1][0]:
                raise Violation('repeat', '%s gave two splits with the same seed: %s and %s' % (what, got[0][0], got[1][0]))
            for g, s in zip(*got[0]):
                if s.n_queries and len(pool) < 12:
                    keep = np.array([int(v) in g for v in q.tolist()])
                    pool.append((s, X[keep], y[keep], q[keep]))
                    snaps.append(scoring.snap_dataset(s))
            ctx.state(o['train'], o['vali'], o['gen'], style, sorted(map(sorted, got[0][0])), bool(o.get('fault')))
            if style != 'real':
                ctx.fault('ADVERSARIAL_DRAW')
        for k, s in enumerate(snaps):
            if scoring.snap_dataset(pool[k][0]) != s:
                raise Violation('modified', 'dataset %d was modified' % k)
        ctx.nontrivial = True


CHECK = C20()
