"""C21: folds partition the queries, for every random draw and every consumption order."""
import random

import numpy as np

from sim import data, inject, rng as R, sched, scoring
from sim.core import Check, Violation

sched.install()


class C21(Check):
    id = 'C21'
    runs = 5000
    quick_seconds = 150
    lists = ('ops', 'gens', 'decs')
    ints = {'rows': 1, 'cols': 1}
    real = ['Dataset.kfold, Dataset.subset', 'NumPy', 'threads of CPython']
    stub = ['the global generator of NumPy, in a share of the runs, by one returning chosen permutations', 'the order in which threads run',
            'user interrupts raised at a chosen instruction of the library', 'failing allocations of arrays (NumPy constructors)']
    measure = 'distinct histories (generations, order of consumption, draws, faults)'
    level_rule = ('Each seed draws a dataset, up to four generations of folds consumed in an interleaved order with other users of randomness, '
                  'abandoned generations and disturbed iterations, or consumed by concurrent threads.')
    assumptions = ['documents of a query are contiguous, ids of queries non-negative', 'there are at least as many queries as folds']

    def preload(self):
        import rankeval.dataset  # noqa

    def generate(self, rng, tier):
        nq = rng.choice([2, 3, 4, 5, 6, 7, 9, 10, 13, 20, 24])
        p = {'dseed': rng.randrange(1 << 30), 'nq': nq, 'rows': nq + rng.choice([0, 1, 3, 10, 30]), 'cols': rng.randrange(1, 4),
             'qids': rng.choice(['any', 'seq', 'sorted']), 'seed': rng.randrange(1 << 30), 'style': rng.choice(R.STYLES)}
        p['gens'] = [{'folds': rng.choice([2, 3, 4, 5, nq, rng.randrange(2, nq + 1)]), 'only': rng.random() < .35, 'shuffle': rng.random() < .8,
                      'of': rng.choice([0, 0, rng.randrange(9)]), 'quit': rng.choice([None, None, None, rng.randrange(6)])}
                     for _ in range(rng.randrange(1, 5))]
        for g in p['gens']:
            g['folds'] = min(g['folds'], nq)
        p['threads'] = rng.random() < .2
        p['sched'] = sched.draw(rng)
        p['decs'] = None
        ops = []
        for _ in range(rng.randrange(0, 30)):
            k = rng.random()
            if k < .15:
                ops.append({'op': 'consume', 'how': rng.choice(['rand', 'seed', 'shuffle', 'normal', 'python']), 's': rng.randrange(1 << 30)})
            elif k < .19:
                ops.append({'op': 'again', 'g': rng.randrange(4), 's': rng.randrange(1 << 30)})
            elif k < .22:
                ops.append({'op': 'split', 'g': rng.choice([None, 3])})
            else:
                ops.append({'op': 'next', 'g': rng.randrange(4)})
                if rng.random() < .06:
                    ops[-1]['fault'] = inject.draw(rng)
        p['ops'] = ops
        if rng.random() < .004 and not p['threads']:
            p.update(nq=rng.choice([70, 300]), rows=40000, cols=1, ops=p['ops'][:6])
            for g in p['gens']:
                g['folds'] = min(g['folds'], 5)
        return p

    def execute(self, p, ctx):
        from rankeval.dataset import Dataset
        X, y, q = data.table(p['dseed'], max(p['rows'], p['nq']), p['cols'], p['nq'], kind='dyadic', qids=p['qids'])
        X[:, 0] = np.arange(len(X))
        pool = [(Dataset(X.copy(), y.copy(), q.copy()), X, y, q)]
        snaps = [scoring.snap_dataset(pool[0][0])]
        made = []

        def open_gen(i):
            g = p['gens'][i]
            fit = [t for t in pool if t[0].n_queries >= g['folds']]
            t = fit[g['of'] % len(fit)]
            kw = {'n_folds': g['folds']}
            if g['only']:
                kw['qids_only'] = True
            if not g['shuffle']:
                kw['shuffle'] = False
            return {'g': t[0].kfold(**kw), 't': t, 'spec': g, 'test': [], 'vali': [], 'done': False, 'n': 0}

        def advance(s, what, deep=True):
            """the next iteration of a generation"""
            d, X, y, q = s['t']
            ids = {int(v) for v in q.tolist()}
            try:
                parts = next(s['g'])
            except StopIteration:
                s['done'] = True
                if s['n'] != s['spec']['folds']:
                    raise Violation('folds', '%s: %d iterations instead of %d' % (what, s['n'], s['spec']['folds']))
                for name in ('test', 'vali'):
                    e = R.disjoint_cover(s[name], ids)
                    if e:
                        raise Violation('rotation', '%s, %s parts over the iterations: %s' % (what, name, e))
                order = [int(v) for v in d.query_ids]
                blocks = all(block(g, order) for g in s['test'] + s['vali'])
                if not s['spec']['shuffle'] and not blocks:
                    raise Violation('order', '%s: not shuffled, but the parts are not runs of queries' % what)
                if s['spec']['shuffle'] and p['style'] == 'real' and blocks and len(order) >= 20 and s['spec']['folds'] in (5, 4):
                    raise Violation('order', '%s: the parts are not shuffled' % what)
                return
            s['n'] += 1
            if s['n'] > s['spec']['folds']:
                raise Violation('folds', '%s: more than %d iterations' % (what, s['spec']['folds']))
            if len(parts) != 3:
                raise Violation('parts', '%s yielded %d parts' % (what, len(parts)))
            groups = [[int(v) for v in (g if s['spec']['only'] else g.query_ids)] for g in parts]
            e = R.disjoint_cover(groups, ids)
            if e:
                raise Violation('partition', '%s: %s' % (what, e))
            if not s['spec']['only']:
                for k, (part, g) in enumerate(zip(parts, groups)):
                    e = R.part_error(part, X, y, q, set(g))
                    if e:
                        raise Violation('rows', '%s, part %d: %s' % (what, k, e))
                if deep and len(pool) < 8 and len(groups[0]) >= 2:
                    g = set(groups[0])
                    keep = np.array([int(v) in g for v in q.tolist()])
                    pool.append((parts[0], X[keep], y[keep], q[keep]))
                    snaps.append(scoring.snap_dataset(parts[0]))
            s['vali'].append(groups[1])
            s['test'].append(groups[2])
            ctx.log(what, groups)
            ctx.steps += 1

        with R.Global(p['seed'], p['style']):
            if p['threads']:
                if not p['gens']:
                    return

                def thread(i):
                    def body():
                        s = open_gen(i)
                        while not s['done'] and s['spec']['quit'] != s['n']:
                            advance(s, 'thread %d, iteration %d' % (i, s['n']), deep=False)
                    return body
                err = sched.make(p['sched'], p['decs']).run([thread(i) for i in range(len(p['gens']))], ctx)
                if err is not None:
                    raise err
            else:
                for n, o in enumerate(p['ops']):
                    if o['op'] == 'consume':
                        R.consume(o['how'], random.Random(o['s']))
                    elif o['op'] == 'again':
                        # the same state of the global generator, twice
                        if p['gens'] and p['style'] == 'real':
                            g = p['gens'][o['g'] % len(p['gens'])]
                            got = []
                            for _ in range(2):
                                np.random.seed(o['s'])
                                got.append([[x.tolist() for x in parts] for parts in pool[0][0].kfold(n_folds=g['folds'], qids_only=True, shuffle=g['shuffle'])])
                            ctx.log('again', got[0])
                            if got[0] != got[1]:
                                raise Violation('again', 'operation %d: other folds from the same state of the generator' % n)
                    elif o['op'] == 'split':
                        pool[0][0].split(.5, random_state=o['g'])
                    elif p['gens']:
                        i = o['g'] % len(p['gens'])
                        while len(made) <= i:
                            made.append(open_gen(len(made)))
                        s = made[i]
                        if s['done']:
                            continue
                        if s['spec']['quit'] == s['n']:
                            s['g'].close()
                            s['done'] = True
                            continue
                        what = 'operation %d, generation %d (%d folds)' % (n, i, s['spec']['folds'])
                        if o.get('fault'):
                            r, err, fired = inject.run(o['fault'], lambda: next(s['g'], None), ctx)
                            s['done'] = True      # interrupted (or one iteration of it was not looked at)
                            s['g'].close()
                            continue
                        advance(s, what)
                for i, s in enumerate(made):
                    while not s['done']:
                        advance(s, 'end, generation %d (%d folds)' % (i, s['spec']['folds']))
        for k, s in enumerate(snaps):
            if scoring.snap_dataset(pool[k][0]) != s:
                raise Violation('modified', 'dataset %d was modified' % k)
        if p['style'] != 'real':
            ctx.fault('ADVERSARIAL_DRAW')
        ctx.nontrivial = True
        ctx.state(p['style'], [(g['folds'], g['only'], g['shuffle']) for g in p['gens']], [o.get('g') for o in p['ops']], p['nq'])


def block(group, order):
    """whether the queries of the group follow one another in the dataset (which starts again after its end)"""
    at = {order.index(v) for v in group}
    return len(at) in (0, len(order)) or sum((a - 1) % len(order) not in at for a in at) == 1


CHECK = C21()
