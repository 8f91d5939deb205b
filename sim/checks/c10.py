"""C10: document scores do not depend on the parallel schedule."""
from sim import models, omp, scoring
from sim.core import Check, Invalid, Violation


class Scoring(Check):
    runs = 4000
    quick_seconds = 150
    lists = ('decs', 'extra')
    ints = {'rows': 1, 'n_trees': 1, 'size': 1, 'n_feat': 1, 'nq': 1}
    real = ['rankeval.scoring (compiled from the sources by setup.py, every memory access instrumented)', 'RTEnsemble.score', 'Scorer',
            'Dataset', 'NumPy']
    stub = ['the OpenMP runtime (fibers of one thread, scheduled by the seed: team size, preemption at any memory access, stalled threads)']
    measure = 'distinct schedules (hash of the sequence of scheduling decisions)'
    level_rule = ('Each seed draws a model, a dataset and one to three schedules: number of threads, policy (random preemption, preemption at '
                  'conflicting accesses, stalled threads, serial) and rate.')
    assumptions = ['values are finite, or such that their sum is exact in single precision (otherwise a rounding tolerance applies)',
                   'a preempted thread is stopped between two memory accesses of the compiled loop; accesses are sequentially consistent']
    detailed = False

    def preload(self):
        import rankeval.model  # noqa
        import rankeval.dataset  # noqa
        import coremltools.proto  # noqa
        from rankeval.model import proxy_CatBoost  # noqa
        omp.lib()

    def generate(self, rng, tier):
        p = scoring.draw_model(rng, tier)
        p.update(scoring.draw_data(rng, tier, p['n_feat'], rng.choice(['dyadic', 'dyadic', 'dyadic', 'wild'])))
        p.update(omp.draw(rng))
        p['seed'] = rng.randrange(1 << 30)
        p['cache'] = rng.random() < .3
        p['extra'] = [omp.draw(rng) for _ in range(rng.randrange(0, 3))]
        p['decs'] = None
        if rng.random() < .006:
            # more documents, or nodes, than small integers hold
            p.update(rng.choice([{'rows': rng.randrange(33000, 70000), 'n_trees': 2, 'size': 2}, {'rows': 2, 'n_trees': 9000, 'size': 5}]),
                     n_feat=3, cols=3, format='LightGBM', leaf=0, keep=None, extra=[], p=.001, nq=2, vals='dyadic')
        elif rng.random() < .002:
            p['vals'] = 'dyadic'
            scoring.draw_wide(rng, p)
        return p

    def execute(self, p, ctx):
        wild = p['vals'] == 'wild'
        if p['cols'] < p['n_feat']:
            raise Invalid('cols')
        omp.lib().simomp_disable()
        m, trees, rate, base = scoring.make_model(p, ctx.scratch, p['vals'], p['vals'] if wild else None)
        if models.diff(m, trees, weights=p['format'] in ('QuickRank', 'Jforests')):
            raise Invalid('loading is C04')
        if p.get('wide'):
            ds, narrow, trees = scoring.make_wide(p, m, trees)
            ref = scoring.Reference(m, trees, narrow, rate, base)
        else:
            ds = scoring.make_dataset(p)
            ref = scoring.Reference(m, trees, ds, rate, base)
        snap = lambda: (None if p.get('wide') else scoring.snap_dataset(ds), scoring.snap_model(m))
        before = snap()
        for k, s in enumerate([p] + p['extra']):
            omp.start(s, p['decs'] if k == 0 else None)
            try:
                r = m.score(ds, detailed=self.detailed, cache=p['cache'])
            except MemoryError:
                if p.get('wide'):
                    raise Invalid('no memory for a copy of the table')
                raise
            finally:
                omp.stop(ctx, schedule=k == 0)
            e = (ref.detailed if self.detailed else ref.basic)(r, not wild)
            if e:
                raise Violation('scores', 'with %d threads: %s' % (s['threads'], e))
            if snap() != before:
                raise Violation('modified', 'scoring modified the dataset or the model')
            if p['cache']:
                m.clear_cache()


class C10(Scoring):
    id = 'C10'


CHECK = C10()
