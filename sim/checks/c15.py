"""C15: threads can share a model."""
from sim import omp, sched, scoring
from sim.checks.c14 import build_sets, draw_sets, enlarge
from sim.core import Check, Invalid, Violation

sched.install()


class C15(Check):
    id = 'C15'
    runs = 8000
    quick_seconds = 150
    lists = ('threads', 'decs', 'sets')
    ints = {'n_trees': 1, 'size': 1}
    real = ['RTEnsemble.score, clear_cache, Scorer, Dataset (hash, equality)', 'rankeval.scoring (compiled)', 'NumPy', 'threads of CPython']
    stub = ['the order in which threads run (one at a time, preempted at lines or bytecode instructions of the library)',
            'locks of the threading module', 'the OpenMP runtime (fibers scheduled by the seed)']
    measure = 'distinct interleavings (hash of the sequence of scheduling decisions)'
    level_rule = ('Each seed draws a model, datasets, two to four threads with up to five calls each, and a scheduling policy (random, bursts, '
                  'priorities with change points) at line or bytecode granularity.')
    assumptions = ['sums of the generated values are exact in single precision', 'a preemption happens between two bytecode instructions of the '
                   'library: native calls are atomic with respect to the other threads', 'models are not copied or pruned meanwhile']

    def preload(self):
        import rankeval.model  # noqa
        import rankeval.dataset  # noqa
        omp.lib()

    def generate(self, rng, tier):
        p = scoring.draw_model(rng, 'small', ('QuickRank', 'QuickRank', 'QuickRank', 'XGBoost', 'ScikitLearn'))
        p['keep'] = None
        p['n_trees'] = min(p['n_trees'], 9)
        p['n_feat'] = min(p['n_feat'], 8)
        p.update(draw_sets(rng, 'small', p['n_feat'], 3))
        p['data']['rows'] = min(p['data']['rows'], 30)
        p['seed'] = rng.randrange(1 << 30)
        p['omp'] = omp.draw(rng)
        p['sched'] = sched.draw(rng)
        p['warm'] = rng.random() < .3
        clear = rng.choice([0, .15, .3, .5])
        cache = rng.choice([.5, .9, 1])
        p['threads'] = []
        for _ in range(rng.randrange(2, 5)):
            ops = []
            for _ in range(rng.randrange(1, 6)):
                if rng.random() < clear:
                    ops.append({'op': 'clear'})
                else:
                    ops.append({'op': 'score', 'set': rng.randrange(3), 'own': rng.random() < .3, 'detailed': rng.random() < .5,
                                'cache': rng.random() < cache})
            p['threads'].append(ops)
        p['decs'] = None
        enlarge(rng, p)
        return p

    def execute(self, p, ctx):
        from rankeval.dataset import Dataset
        if not p['sets'] or not p['threads']:
            raise Invalid('empty')
        omp.start(p['omp'])
        omp.lib().simomp_disable()
        m, trees, rate, base = scoring.make_model(p, ctx.scratch)
        arrays = build_sets(p)
        new = lambda k: Dataset(arrays[k][0].copy(), arrays[k][1].copy(), arrays[k][2].copy())
        sets = [new(k) for k in range(len(arrays))]
        refs = [scoring.Reference(m, trees, d, rate, base) for d in sets]
        snaps = [scoring.snap_dataset(d) for d in sets]
        mine = scoring.snap_model(m)
        omp.lib().simomp_enable()
        if p['warm']:
            m.score(sets[0], detailed=bool(p['seed'] & 1), cache=True)
        done = []

        def thread(t, ops):
            def body():
                for i, o in enumerate(ops):
                    what = 'thread %d, call %d' % (t, i)
                    try:
                        if o['op'] == 'clear':
                            m.clear_cache()
                            continue
                        k = o['set'] % len(sets)
                        d = new(k) if o['own'] else sets[k]
                        r = m.score(d, detailed=o['detailed'], cache=o['cache'])
                        # verified at once: a result must be complete when it is handed out
                        e = refs[k].detailed(r) if o['detailed'] else refs[k].basic(r)
                    except Exception as e:
                        raise Violation('failed', '%s failed: %r' % (what, e))
                    if e:
                        raise Violation('scores', '%s on dataset %d: %s' % (what, k, e))
                    done.append((what, k, r, o['detailed']))
            return body
        s = sched.make(p['sched'], p['decs'])
        err = s.run([thread(t, ops) for t, ops in enumerate(p['threads'])], ctx)
        if err is not None:
            raise err
        for what, k, r, detailed in done:
            e = refs[k].detailed(r) if detailed else refs[k].basic(r)
            if e:
                raise Violation('altered', 'the result of %s on dataset %d changed afterwards: %s' % (what, k, e))
        for k in range(len(sets)):
            for detailed in (False, True):
                r = m.score(sets[k], detailed=detailed, cache=True)
                e = refs[k].detailed(r) if detailed else refs[k].basic(r)
                if e:
                    raise Violation('scores', 'after the threads, dataset %d: %s' % (k, e))
        if scoring.snap_model(m) != mine or [scoring.snap_dataset(d) for d in sets] != snaps:
            raise Violation('modified', 'the model or a dataset was modified')
        omp.stop(ctx, schedule=False)


CHECK = C15()
