"""C27: datasets derived from one another hold exactly what was selected, and compare by content."""
import io
import random

import numpy as np

from sim import inject, sched, scoring
from sim.checks.c14 import build_sets, draw_sets, lookalike
from sim.core import Check, Invalid, Violation

sched.install()
F32 = np.float32
LOOKS = ['value', 'value', 'label', 'swap', 'ids', 'partition', 'rows', 'cols', 'order', 'same', 'same', 'same']


class C27(Check):
    id = 'C27'
    runs = 4000
    quick_seconds = 150
    lists = ('ops', 'decs', 'sets')
    real = ['Dataset (subset, subset_features, split, kfold, dump, load, comparison, hash, accessors)', 'svmlight loader and dumper (compiled)', 'NumPy',
            'threads of CPython']
    stub = ['user interrupts and lack of memory raised at a chosen instruction of the library', 'failing allocations of arrays (NumPy constructors)',
            'the order in which threads run (one at a time, preempted at lines or bytecode instructions of the library)']
    measure = 'distinct histories (operations, outcomes and places of the faults) and interleavings'
    level_rule = ('Each seed draws up to three look-alike datasets and a history of up to fourteen derivations, comparisons and lookups over the growing '
                  'family, disturbed or run by threads; every dataset is compared with the rows and columns the harness selected itself.')
    assumptions = ['queries are contiguous and their ids not negative', 'the hash is compared for datasets made of identical arrays']

    def preload(self):
        import rankeval.dataset  # noqa

    def generate(self, rng, tier):
        p = {'seed': rng.randrange(1 << 30), 'dump': 0}
        p.update(draw_sets(rng, 'small', rng.randrange(1, 6), 3))
        p['data']['rows'] = min(p['data']['rows'], 30)
        if rng.random() < .08:
            p['data'].update(rows=rng.randrange(30, 90), nq=rng.randrange(15, 60))
        elif rng.random() < .01:
            p['data'].update(rows=1500, nq=300)
        ops = []
        kinds = ['features', 'features', 'queries', 'queries', 'queries', 'split', 'kfold', 'roundtrip', 'look', 'look', 'same', 'equal', 'equal', 'hash',
                 'container', 'lookup', 'lookup', 'drop']

        def draw(kinds):
            o = {'op': rng.choice(kinds), 'a': rng.randrange(12), 'b': rng.randrange(12), 'seed': rng.randrange(1 << 30)}
            return o
        for _ in range(rng.randrange(2, 15)):
            o = draw(kinds)
            if rng.random() < .12:
                o = {'op': 'again', 'then': draw(['features', 'queries', 'split', 'equal', 'hash', 'lookup', 'roundtrip', 'kfold']), 'seed': rng.randrange(1 << 30)}
            elif rng.random() < .25:
                o['fault'] = inject.draw(rng)
            ops.append(o)
        if rng.random() < .35:
            ops.insert(rng.randrange(len(ops) + 1), {'op': 'threads', 'sched': sched.draw(rng), 'bodies': [
                [draw(['features', 'queries', 'split', 'equal', 'hash', 'hash', 'container', 'lookup', 'roundtrip', 'kfold']) for _ in range(rng.randrange(1, 4))]
                for _ in range(rng.randrange(2, 4))]})
        p['ops'] = ops
        p['decs'] = None
        return p

    def execute(self, p, ctx):
        from rankeval.dataset import Dataset
        if not p['sets']:
            raise Invalid('empty')
        build = lambda a: Dataset(a[0].copy(), a[1].copy(), a[2].copy())
        family = [(build(a), a, 'dataset %d' % i) for i, a in enumerate(build_sets(p))]
        snaps = [scoring.snap_dataset(d) for d, a, w in family]

        def content(what, d, a):
            X, y, q = a
            cut = [0] + [i for i in range(1, len(q)) if q[i] != q[i - 1]] + ([len(q)] if len(q) else [])
            ids = [int(q[i]) for i in cut[:-1]]
            for name, got, want in (('X', d.X, X), ('y', d.y, y), ('query_ids', d.query_ids, ids), ('query_offsets', d.query_offsets, cut)):
                if not np.array_equal(np.asarray(got), np.asarray(want)):
                    raise Violation('content', '%s has the wrong %s: %s' % (what, name, repr(np.asarray(got).tolist())[:300]))
            if (d.n_instances, d.n_features, d.n_queries) != (len(y), X.shape[1], len(ids)):
                raise Violation('content', '%s has the wrong sizes' % what)

        def rows(a, ids):
            keep = np.isin(a[2], ids)
            return a[0][keep], a[1][keep], a[2][keep]

        def expected_equal(a, b):
            return all(np.array_equal(u, v) for u, v in zip(a, b))

        def add(what, d, a):
            content(what, d, a)
            family.append((d, a, what))
            snaps.append(scoring.snap_dataset(d))

        def pick(k):
            # one of those of the beginning, or one of the last
            if k < 0:
                return family[k]
            return family[k % len(family)] if k % 3 else family[-1 - (k // 3) % min(len(family), 4)]

        def operation(i, o, who=''):
            """(call of the library, verification of its result)"""
            d, a, w = pick(o['a'])
            e, b, v = pick(o['b'])
            rng = random.Random(o['seed'])
            what = '%soperation %d, %s of %s' % (who, i, o['op'], w)
            X, y, q = a
            every = list(dict.fromkeys(q.tolist()))
            k = o['op']
            short = 'a result of operation %d' % i
            if k == 'features':
                n = X.shape[1]
                cols = [rng.randrange(n) for _ in range(rng.randrange(1, n + 2))] if rng.random() < .4 else rng.sample(range(n), rng.randrange(1, n + 1))
                arg = rng.choice([cols, np.array(cols), np.array(cols, dtype=np.int32)])
                return lambda: d.subset_features(arg), lambda r: add(short, r, (X[:, cols], y, q))
            if k == 'queries':
                ids = rng.sample(every, rng.randrange(1, len(every) + 1)) if every else []
                if rng.random() < .3:
                    ids = ids + ids[:1] + [max(every or [0]) + 1 + rng.randrange(3)]
                rng.shuffle(ids)
                arg = rng.choice([ids, np.array(ids, dtype=np.int64), np.array(ids, dtype=np.int32)])
                return lambda: d.subset(arg, name='selection'), lambda r: add(short, r, rows(a, ids))
            if k == 'split':
                vali = rng.choice([0, 0, .25])

                def parts(r):
                    seen = []
                    for x in r:
                        ids = [int(u) for u in x.query_ids]
                        seen += ids
                        add(short, x, rows(a, ids))
                    if sorted(seen) != sorted(every):
                        raise Violation('content', what + ': the parts have the queries %r' % (seen,))
                size = rng.choice([.25, .5, .75])
                return lambda: d.split(size, vali_size=vali, random_state=rng.randrange(1000)), parts
            if k == 'kfold':
                n = rng.randrange(2, 4)
                if len(every) < n:
                    return None
                stop = rng.randrange(1, n + 1)

                def folds():
                    out = []
                    for f in d.kfold(n, shuffle=True):
                        out.append(f)
                        if len(out) == stop:
                            break
                    return out

                def check(r):
                    for f in r:
                        seen = []
                        for x in f:
                            ids = [int(u) for u in x.query_ids]
                            seen += ids
                            add(short, x, rows(a, ids))
                        if sorted(seen) != sorted(every):
                            raise Violation('content', what + ': a fold has the queries %r' % (seen,))
                return folds, check
            if k == 'roundtrip':
                if not len(X):
                    return None

                def trip():
                    f = io.StringIO()
                    d.dump(f)
                    return Dataset.load(io.BytesIO(f.getvalue().encode()))
                return trip, lambda r: add(short, r, a)
            if k == 'equal':
                want = expected_equal(a, b)
                how = rng.choice(['eq', 'eq', 'ne', 'in', 'self', 'other'])
                other = rng.choice([None, 5, 'x', (1, 2), X])
                if how == 'other' and isinstance(other, np.ndarray):
                    other = object()
                fn = {'eq': lambda: d == e, 'ne': lambda: not (d != e), 'in': lambda: d in [e], 'self': lambda: d == d and not d != d,
                      'other': lambda: d == other or not d != other}[how]
                want = {'self': True, 'other': False}.get(how, want)

                def check(r):
                    if bool(r) != want:
                        raise Violation('equal', '%s and %s (%s): %r' % (what, v if how not in ('self', 'other') else how, how, r))
                return fn, check
            if k == 'hash':
                same = all(np.array_equal(u, x) and u.dtype == x.dtype and u.tobytes() == x.tobytes()
                           for u, x in ((np.ascontiguousarray(getattr(d, n)), np.ascontiguousarray(getattr(e, n)))
                                        for n in ('X', 'y', 'query_ids', 'query_offsets')))

                def check(r):
                    if same and r[0] != r[1]:
                        raise Violation('hash', '%s: equal to %s, with another hash' % (what, v))
                return lambda: (hash(d), hash(e)), check
            if k == 'container':
                def fn():
                    some = list(family)[-6:]
                    t = {}
                    for n, x in enumerate(some):
                        t[x[0]] = n
                    return some, [t[x[0]] for x in some]

                def check(r):
                    for x, n in zip(*r):
                        if not expected_equal(x[1], r[0][n][1]):
                            raise Violation('equal', '%s: %s found in place of %s' % (what, r[0][n][2], x[2]))
                return fn, check
            if k == 'lookup':
                ids = every + [max(every or [0]) + 1 + rng.randrange(5)]
                one = rng.choice(ids)
                how = rng.choice(['offsets', 'offsets', 'sizes', 'qids', 'iterator'])
                where = [j for j in range(len(q)) if q[j] == one]

                def offsets():
                    try:
                        return tuple(int(u) for u in d.get_query_offsets(one))
                    except LookupError:
                        return 'missing'
                fn = {'offsets': offsets, 'sizes': lambda: [int(u) for u in d.get_query_sizes()], 'qids': lambda: d.get_qids_dataset().tolist(),
                      'iterator': lambda: [tuple(int(u) for u in t) for t in d.query_iterator()]}[how]
                blocks = [(u, q.tolist().index(u), len(q) - q.tolist()[::-1].index(u)) for u in every]
                want = {'offsets': (where[0], where[-1] + 1) if where else 'missing', 'sizes': [z - s for _, s, z in blocks], 'qids': q.tolist(),
                        'iterator': blocks}[how]

                def check(r):
                    if r != want:
                        raise Violation('lookup', '%s (%s, query %r): %r instead of %r' % (what, how, one, r, want))
                return fn, check
            return None

        def run(i, o, who=''):
            ctx.steps += 1
            got = operation(i, o, who)
            if got is None:
                return
            fn, check = got
            if o.get('fault'):
                r, err, fired = inject.run(o['fault'], fn, ctx)
                if err is not None:
                    ctx.log(i, o['op'], type(err).__name__)
                    return
            else:
                r = fn()
            ctx.log(i, o['op'], 'ok')
            check(r)

        def unchanged():
            for (d, a, w), s in zip(family, snaps):
                if scoring.snap_dataset(d) != s:
                    raise Violation('modified', '%s was modified' % w)
        for i, o in enumerate(p['ops']):
            if o['op'] in ('look', 'same'):
                d, a, w = pick(o['a'])
                if len(a[1]) and a[0].shape[1]:
                    c = tuple(u.copy() for u in a) if o['op'] == 'same' else lookalike(*a, LOOKS[o['seed'] % len(LOOKS)], o['seed'])
                    add('a look-alike of %s' % w, build(c), c)
            elif o['op'] == 'again':
                # the same on a dataset, and on another one which takes its place (and its memory)
                a = tuple(u.copy() for u in pick(o['then']['a'])[1])
                if len(a[1]) and a[0].shape[1]:
                    family.append((build(a), a, 'a copy'))
                    snaps.append(scoring.snap_dataset(family[-1][0]))
                    k = len(family) - 1
                    run(i, dict(o['then'], a=k - len(family)))
                    family[k] = None
                    c = lookalike(*a, LOOKS[o['seed'] % len(LOOKS)], o['seed'])
                    family[k] = (build(c), c, 'what took the place of a copy')
                    snaps[k] = scoring.snap_dataset(family[k][0])
                    run(i, dict(o['then'], a=k - len(family)))
            elif o['op'] == 'drop':
                unchanged()
                k = o['a'] % len(family)
                if len(family) > 1:
                    del family[k], snaps[k]
            elif o['op'] == 'threads':
                base = list(family)

                def body(t, ops):
                    def go():
                        for j, b in enumerate(ops):
                            try:
                                run(i, b, 'thread %d, ' % t)
                            except Violation:
                                raise
                            except Exception as e:
                                raise Violation('failed', 'operation %d, thread %d, %s failed: %r' % (i, t, b['op'], e))
                    return go
                err = sched.make(o['sched'], p['decs']).run([body(t, b) for t, b in enumerate(o['bodies'])], ctx)
                if err is not None:
                    raise err
                del base
            else:
                run(i, o)
            if len(family) > 16:
                unchanged()
                del family[3:-8], snaps[3:-8]
        for d, a, w in family:
            content(w, d, a)
            for e, b, v in family:
                if bool(d == e) != expected_equal(a, b) or bool(d != e) == expected_equal(a, b):
                    raise Violation('equal', 'at the end, %s and %s: %r' % (w, v, d == e))
        unchanged()
        ctx.nontrivial = True
        ctx.state('history', [(o['op'], (o.get('fault') or {}).get('kind')) for o in p['ops']], ctx.sched)


CHECK = C27()
