"""C04: loading a model is exact or raises, for every supported format."""
import os
import random

import numpy as np

from sim import inject, io, models
from sim.core import Check, Invalid, Violation

LOSSLESS = ['SHORT', 'EINTR']
FAILING = ['ERR', 'ERR', 'ERR', 'SIGINT', 'SIGINT_EINTR']
FORMATS = ['QuickRank', 'LightGBM', 'XGBoost', 'ScikitLearn', 'Jforests', 'CatBoost']


class C04(Check):
    id = 'C04'
    runs = 4000
    lists = ('faults',)
    ints = {'n_trees': 1, 'size': 1, 'n_feat': 1}
    real = ['rankeval.model (RTEnsemble and the six proxies)', 'expat / ElementTree', 'coremltools (CatBoost)', 'kernel file system below the fault layer']
    stub = ['libc I/O calls on the scratch folder (fault layer)']
    level_rule = ('Each seed draws an ensemble, a format, the number of trees to keep and faults at operations of a fault-free load; '
                  'some runs truncate an XML file.')
    assumptions = ['the files are generated by the harness in the layout of the respective tools', 'a cut in the text formats that '
                   'leaves a well-formed smaller model cannot be recognised: truncation is only injected in XML',
                   'CatBoost trees are complete (oblivious)']

    def preload(self):
        import rankeval.model  # noqa
        try:
            import coremltools  # noqa
            from coremltools.proto import Model_pb2, TreeEnsemble_pb2  # noqa
            self.coreml = True
        except Exception:
            self.coreml = False

    def generate(self, rng, tier):
        fmt = rng.choice(FORMATS[:5] * 3 + FORMATS[5:] * 2)
        big = rng.random() < (.3 if tier == 'quick' else .5)
        p = {'seed': rng.randrange(1 << 30), 'format': fmt, 'n_trees': rng.randrange(5, 40) if big else rng.randrange(1, 6),
             'size': rng.randrange(4, 24) if big else rng.randrange(1, 6), 'n_feat': rng.randrange(1, 30) if rng.random() < .95 else rng.choice([32768, 40000, 100000]),
             'vals': rng.choice(['wild', 'dyadic']), 'leaf': rng.choice([0, 0, .3]) if fmt in ('QuickRank', 'LightGBM', 'XGBoost', 'ScikitLearn') else 0,
             'keep': rng.random() if rng.random() < .3 else None, 'faults': [], 'mode': 'none', 'before': rng.randrange(1, 1 << 30) if rng.random() < .4 else 0}
        if fmt == 'CatBoost':
            p['size'] = min(p['size'], 4)
            p['n_trees'] = min(p['n_trees'], 8)
            p['uniform'] = rng.random() < .6
        m = p['mode'] = rng.choice(['lossless', 'failing', 'failing', 'failing', 'trunc', 'interrupt', 'none'])
        if m == 'lossless':
            p['faults'] = [io.pick(rng, LOSSLESS) for _ in range(rng.randrange(1, 8))]
        elif m == 'failing':
            p['faults'] = [io.pick(rng, FAILING)] + [io.pick(rng, LOSSLESS) for _ in range(rng.randrange(0, 4))]
        elif m == 'trunc' and fmt in ('QuickRank', 'Jforests'):
            p['trunc'] = round(rng.random(), 5)
        elif m == 'interrupt':
            p['at'] = round(rng.random(), 5)
            p['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
        if rng.random() < .008 and fmt != 'CatBoost':
            # more nodes than small integers hold, in many trees or in one
            p.update(rng.choice([{'n_trees': 6000, 'size': 6}, {'n_trees': 40000, 'size': 1}, {'n_trees': 1, 'size': 300}]), n_feat=7)
            p['before'] = 0
        return p

    def execute(self, p, ctx):
        from rankeval.model import RTEnsemble
        fmt = p['format']
        if fmt == 'CatBoost' and not self.coreml:
            raise Invalid('no coremltools')

        def draw(seed, n_trees):
            if fmt == 'CatBoost':
                rng = random.Random(seed)
                v = models.wild if p['vals'] == 'wild' else models.dyadic
                return [models.complete_tree(rng, p['n_feat'], p['size'] if p['uniform'] else rng.randrange(1, p['size'] + 1), v, v)
                        for _ in range(n_trees)]
            return models.ensemble(seed, n_trees, p['size'], p['n_feat'], p['vals'], 'wild' if p['vals'] == 'wild' else 'half',
                                   weights=fmt in ('QuickRank', 'Jforests'), leaf_trees=p['leaf'])

        trees = draw(p['seed'], p['n_trees'])
        base, rate = models.dyadic(random.Random(p['seed'])), random.Random(p['seed'] + 1).choice([1.0, 0.5, 0.1, 0.25])
        path = os.path.join(ctx.scratch, 'model' + ('.coreml' if fmt == 'CatBoost' else '.txt'))
        if p.get('before'):
            # another model was there, and was loaded (its file is overwritten or replaced afterwards)
            old = draw(p['before'], random.Random(p['before']).randrange(1, p['n_trees'] + 4))
            models.write(old, path, fmt, p['before'], base, rate)
            d = models.diff(RTEnsemble(path, name='m', format=fmt), old, weights=fmt in ('QuickRank', 'Jforests'), strict_less=fmt == 'XGBoost')
            if d:
                raise Violation('wrong', 'the model before: %s' % d)
            if p['before'] % 2:
                os.unlink(path)
            ctx.log('before', len(old))
        models.write(trees, path, fmt, p['seed'], base, rate)
        n = len(trees)
        keep = None if p['keep'] is None else 1 + int(p['keep'] * (n + 1))
        args = {'n_trees': keep, 'format': fmt}
        given_rate = given_base = None
        if fmt != 'ScikitLearn' and p['seed'] % 3 == 0:
            given_rate, given_base = 0.25, 0.125
            args.update(learning_rate=given_rate, base_score=given_base)
        want = trees[:keep] if keep else trees

        def verify(m, what):
            d = models.diff(m, want, weights=fmt in ('QuickRank', 'Jforests'), strict_less=fmt == 'XGBoost')
            if d:
                raise Violation('wrong', '%s: %s' % (what, d))
            er, eb = 1, None
            if fmt == 'ScikitLearn':
                er, eb = float(np.float32(rate)), float(base)
            elif given_rate:
                er, eb = given_rate, given_base
            elif fmt == 'XGBoost':
                eb = .5
            if m.learning_rate != er or (m.base_score or 0) != (eb or 0):
                raise Violation('wrong-parameters', '%s: learning rate %r, base score %r; expected %r, %r' % (what, m.learning_rate, m.base_score, er, eb))

        def attempt(f, faults, what, nofault=False, must_raise=False, inj=None):
            err = m = None
            io.arm(faults)
            try:
                if inj is not None:
                    with inj:
                        m = RTEnsemble(f, name='m', **args)
                else:
                    m = RTEnsemble(f, name='m', **args)
            except BaseException as e:
                err = e
            io.disarm()
            ev = io.log()
            ctx.io(ev)
            if inj is not None and inj.fired:
                ctx.fault('RAISED_' + inj.exc.__name__)
            ctx.log(what, type(err).__name__ if err is not None else 'ok')
            if err is None:
                if must_raise:
                    raise Violation('accepted', what + ': a truncated model was loaded without any error')
                verify(m, what)
            elif nofault:
                raise Violation('refused', '%s: %r' % (what, err))
            return ev

        ev = attempt(path, [], 'healthy', nofault=True)
        if p['faults'] and ev:
            fs = [f for f in (io.resolve(f, ev) for f in p['faults']) if f]
            attempt(path, fs, 'faulty', nofault=all(f[1] in LOSSLESS for f in fs))
        if 'exc' in p:
            cnt = inject.At()
            attempt(path, [], 'counting', nofault=True, inj=cnt)
            attempt(path, [], 'interrupt', inj=inject.At(int(p['at'] * cnt.n), {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[p['exc']]))
        if 'trunc' in p:
            with open(path, 'rb') as f:
                b = f.read()
            cut = path + '.cut' if p['seed'] % 2 else path
            with open(cut, 'wb') as f:
                f.write(b[:min(int(p['trunc'] * len(b)), len(b.rstrip()) - 1)])
            ctx.fault('TRUNCATED_XML')
            attempt(cut, [], 'truncated', must_raise=True)
            with open(path, 'wb') as f:
                f.write(b)
        attempt(path, [], 'again', nofault=True)


CHECK = C04()
