"""C05: a saved model is complete, and a torn one is never taken for a model."""
import os
import random

import numpy as np

from sim import inject, io, models
from sim.core import Check, Invalid, Violation

LOSSLESS = ['SHORT', 'EINTR']
FAILING = ['ERR', 'ERR', 'ERR', 'STICKY', 'SIGINT', 'SIGINT_EINTR']
CRASH = ['CRASH_BEFORE', 'CRASH_AFTER', 'TORN', 'TORN']
ARRAYS = ['trees_root', 'trees_weight', 'trees_left_child', 'trees_right_child', 'trees_nodes_value', 'trees_nodes_feature']


class C05(Check):
    id = 'C05'
    runs = 4000
    lists = ('faults',)
    ints = {'n_trees': 1, 'size': 1, 'n_feat': 1}
    real = ['rankeval.model (RTEnsemble.save, ProxyQuickRank and the loaders)', 'ElementTree', 'CPython io', 'kernel file system below the fault layer']
    stub = ['libc I/O calls on the scratch folder (fault layer)', 'user interrupts and failing allocations at Python lines',
            'process kill (exit of a forked process at an operation)']
    level_rule = ('Each seed draws an ensemble (also pruned or copied, from several formats), what the target holds before, and faults, an interrupt '
                  'or a kill placed at operations of a fault-free save.')
    assumptions = ['a kill is the death of the process: the kernel keeps what was written', 'QuickRank is the format the library can save',
                   'values are finite', 'trees are at most 56 levels deep']

    def preload(self):
        import rankeval.model  # noqa

    def generate(self, rng, tier):
        big = rng.random() < (.3 if tier == 'quick' else .5)
        p = {'seed': rng.randrange(1 << 30), 'n_trees': rng.randrange(5, 40) if big else rng.randrange(1, 6),
             'size': rng.randrange(4, 24) if big else rng.randrange(1, 6), 'n_feat': rng.randrange(1, 40),
             'format': rng.choice(['QuickRank', 'QuickRank', 'LightGBM', 'Jforests', 'ScikitLearn', 'XGBoost']), 'vals': rng.choice(['wild', 'dyadic']),
             'leaf': rng.choice([0, 0, .3]), 'keep': rng.random() if rng.random() < .3 else None, 'copy': rng.random() < .3,
             'over': rng.choice(['none', 'none', 'model', 'garbage', 'self']), 'faults': []}
        if rng.random() < .01:
            p.update(rng.choice([{'n_trees': 2, 'size': 300}, {'n_trees': 300, 'size': 3}]))
        if p['format'] == 'Jforests':
            p['leaf'] = 0
        m = p['mode'] = rng.choice(['lossless', 'failing', 'failing', 'crash', 'crash', 'interrupt', 'none'])
        if m == 'lossless':
            p['faults'] = [io.pick(rng, LOSSLESS) for _ in range(rng.randrange(1, 8))]
        elif m in ('failing', 'crash'):
            p['faults'] = [io.pick(rng, FAILING if m == 'failing' else CRASH)] + [io.pick(rng, LOSSLESS) for _ in range(rng.randrange(0, 3))]
        elif m == 'interrupt':
            p['at'] = round(rng.random(), 5)
            p['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
        return p

    def execute(self, p, ctx):
        from rankeval.model import RTEnsemble
        trees = models.ensemble(p['seed'], p['n_trees'], p['size'], p['n_feat'], p['vals'], p['vals'],
                                weights=p['format'] in ('QuickRank', 'Jforests'), leaf_trees=p['leaf'])
        if p['format'] == 'XGBoost':
            # thresholds are shifted by the loader: start from what it loaded
            for t in trees:
                t.value = [np.nextafter(v, np.float32(-np.inf)) if f >= 0 else v for v, f in zip(t.value, t.feature)]
            back = [models.Tree() for _ in trees]
            for b, t in zip(back, trees):
                b.feature, b.left, b.right, b.weight = t.feature, t.left, t.right, t.weight
                b.value = [np.nextafter(v, np.float32(np.inf)) if f >= 0 else v for v, f in zip(t.value, t.feature)]
            m = models.load(back, os.path.join(ctx.scratch, 'src.txt'), 'XGBoost')
        else:
            m = models.load(trees, os.path.join(ctx.scratch, 'src.txt'), p['format'], p['seed'])
        if p['keep'] is not None:
            k = 1 + int(p['keep'] * len(trees))
            trees = trees[:k]
            m = m.copy(n_trees=k)
        elif p['copy']:
            m = m.copy()
        if models.diff(m, trees):
            raise Invalid('loading is C04')
        path = os.path.join(ctx.scratch, 'model.xml')
        other = models.to_quickrank(models.ensemble(p['seed'] + 1, 8, 9, 5)).encode()
        before = {a: getattr(m, a).copy() for a in ARRAYS}
        params = (m.n_trees, m.n_nodes, m.learning_rate, m.base_score, m.name)

        def prepare():
            if p['over'] == 'none':
                if os.path.exists(path):
                    os.unlink(path)
                return None
            old = {'model': other, 'garbage': b'<ranker>' + b'x' * 60000, 'self': models.to_quickrank(trees).encode()}[p['over']]
            with open(path, 'wb') as f:
                f.write(old)
            return old

        def unchanged(what):
            ok = all(np.array_equal(before[a], getattr(m, a)) for a in ARRAYS) and params == (m.n_trees, m.n_nodes, m.learning_rate, m.base_score, m.name)
            ctx.check(ok, 'modified', what + ': the model in memory changed')

        def attempt(faults, what, nofault=False, inj=None):
            prepare()
            err = ret = None
            io.arm(faults)
            try:
                if inj is not None:
                    with inj:
                        ret = m.save(path)
                else:
                    ret = m.save(path)
            except BaseException as e:
                err = e
            io.disarm()
            ev = io.log()
            ctx.io(ev)
            if inj is not None and inj.fired:
                ctx.fault('RAISED_' + inj.exc.__name__)
            ctx.log(what, type(err).__name__ if err is not None else 'ok')
            unchanged(what)
            if err is None:
                bad = [e for e in ev if e.kind in ('ERR', 'STICKY') and e.op in ('OPENW', 'CLOSEW', 'WRITE', 'SYNC', 'TRUNC')]
                if bad:
                    raise Violation('reported', '%s: %s failed but the save reported success' % (what, bad[0].op))
                ctx.check(ret is True or ret is None or bool(ret), 'status', what + ': the save did not fail but returned %r' % (ret,))
                try:
                    d = models.diff(RTEnsemble(path), trees)
                except Exception as e:
                    d = repr(e)
                if d:
                    raise Violation('lost', '%s: the save returned but the file holds another model: %s' % (what, d))
            elif nofault:
                raise Violation('refused', '%s: %r' % (what, err))
            return ev

        ev = attempt([], 'healthy', nofault=True)
        if p['mode'] == 'crash':
            old = prepare()
            fs = [f for f in (io.resolve(f, ev) for f in p['faults']) if f]
            io.arm(fs)
            pid = os.fork()
            if pid == 0:
                try:
                    m.save(path)
                    os._exit(0)
                except BaseException:
                    os._exit(1)
            _, st = os.waitpid(pid, 0)
            io.disarm()
            ctx.io(io.log())
            ctx.log('crash', st)
            if os.WIFSIGNALED(st):
                raise Violation('crash', 'the process died by signal %d' % os.WTERMSIG(st))
            if os.WEXITSTATUS(st) == 137:
                ctx.probe('killed')
                if os.path.exists(path):
                    with open(path, 'rb') as f:
                        left = f.read()
                    if left != old or p['over'] == 'self':
                        try:
                            back = RTEnsemble(path)
                        except Exception:
                            ctx.probe('torn file refused')
                        else:
                            d = models.diff(back, trees)
                            if d:
                                raise Violation('torn', 'the file left by a kill (%d bytes) loads as another model: %s' % (len(left), d))
        elif p['faults'] and ev:
            fs = [f for f in (io.resolve(f, ev) for f in p['faults']) if f]
            attempt(fs, 'faulty', nofault=all(f[1] in LOSSLESS for f in fs))
        elif p['mode'] == 'interrupt':
            cnt = inject.At()
            attempt([], 'counting', nofault=True, inj=cnt)
            attempt([], 'interrupt', inj=inject.At(int(p['at'] * cnt.n), {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[p['exc']]))
        attempt([], 'again', nofault=True)


CHECK = C05()
