"""C28: threads work on files without influencing each other."""
import io as pyio
import os
import random

import numpy as np

from sim import data, io, models, sched, scoring, streams
from sim.core import Check, Invalid, Violation

sched.install()

LOSSLESS = ['SHORT', 'EINTR']
FORMATS = ['QuickRank', 'LightGBM', 'XGBoost', 'ScikitLearn', 'Jforests', 'CatBoost']
BAD_LINES = [b'1 qid:1 foo\n', b'x qid:1 1:1\n', b'1 qid:1 2:5 1:6\n', b'1 qid:1 1:\n', b'\0\0\0\0\n']
READERS = ['lines', 'lines', 'buffered', '.txt', '.gz', '.bz2']
WRITERS = ['text', 'text', '.txt', '.gz', '.bz2']


class C28(Check):
    id = 'C28'
    runs = 3000
    quick_seconds = 120
    lists = ('threads', 'faults', 'decs')
    ints = {'n_trees': 1, 'size': 1}
    real = ['Dataset.load, Dataset.dump, rankeval.dataset.svmlight_format', '_svmlight_format.cpp (built from the tree)', 'RTEnsemble and its proxies (load, save)',
            'export_graphviz', 'CPython io, gzip, bz2', 'threads of CPython', 'kernel file system below the fault layer']
    stub = ['the order in which threads run (one at a time, preempted at lines or bytecode instructions of the library and of the streams of the callers)',
            'locks of the threading module', 'libc I/O calls on the scratch folder (fault layer)', 'stream objects of the callers']
    measure = 'distinct interleavings (hash of the sequence of scheduling decisions)'
    level_rule = ('Each seed draws two to four threads with up to three operations each (loads, dumps, models loaded and saved, exports, on files of '
                  'their own or streams), defects or failures of some of these files, and a scheduling policy at line or bytecode granularity.')
    assumptions = ['no two threads use the same file or stream; models and datasets may be shared', 'a preemption happens between two bytecode '
                   'instructions of the library or of a stream: native code is atomic except where it calls a stream', 'values are finite']

    def preload(self):
        import rankeval.dataset.dataset, rankeval.dataset.svmlight_format, rankeval.model, rankeval.visualization.topological, gzip, bz2  # noqa
        try:
            import coremltools  # noqa
            from coremltools.proto import Model_pb2, TreeEnsemble_pb2  # noqa
            self.coreml = True
        except Exception:
            self.coreml = False

    def generate(self, rng, tier):
        p = scoring.draw_model(rng, 'small', ('QuickRank', 'QuickRank', 'LightGBM', 'XGBoost', 'ScikitLearn'))
        p.update(n_trees=min(p['n_trees'], 6), size=min(p['size'], 8), n_feat=min(p['n_feat'], 20), keep=None, seed=rng.randrange(1 << 30), sched=sched.draw(rng), decs=None, threads=[], faults=[])
        focus = rng.choice([None, None, None, 'load', 'dump', 'model', 'save', 'export'])
        same = rng.random() < .3
        for _ in range(rng.randrange(2, 5)):
            ops = []
            for _ in range(rng.randrange(1, 4)):
                k = focus if focus and rng.random() < .8 else rng.choice(['load', 'load', 'dump', 'dump', 'model', 'model', 'save', 'export'])
                o = {'op': k, 's': rng.randrange(1 << 30), 'rows': rng.choice([1, 2, 5, 9, 17]), 'cols': rng.choice([1, 2, 3, 6, 11]), 'nq': rng.randrange(1, 6)}
                if k == 'load':
                    o.update(kind=rng.choice(['wild', 'dyadic', 'small']), io=rng.choice(READERS), sparse=rng.random() < .4, comments=rng.random() < .3,
                             api=rng.choice(['Dataset', 'Dataset', 'file', 'file_noq']))
                elif k == 'dump':
                    o.update(kind=rng.choice(['wild', 'dyadic', 'small']), io=rng.choice(WRITERS), shared=rng.random() < .5, api=rng.choice(['Dataset', 'Dataset', 'file', 'file_noq', 'file_zero']))
                elif k == 'model':
                    o.update(format=rng.choice(FORMATS), n_trees=rng.randrange(1, 6), size=rng.randrange(1, 7), keep=rng.random() if rng.random() < .2 else None)
                elif k == 'export':
                    o.update(io=rng.choice(['string', 'text', '.txt']), tree=rng.random(), shared=rng.random() < .7, opts=rng.randrange(1 << 8))
                else:
                    o.update(shared=rng.random() < .6)
                if rng.random() < .25:
                    o['bad'] = [round(rng.random(), 4), rng.choice(['error', 'error', 'value', 'interrupt', 'line', 'line'])]
                if rng.random() < .3:
                    o['again'] = True
                ops.append(o)
            if same and p['threads']:
                ops = [dict(o) for o in p['threads'][0]] if rng.random() < .7 else ops
                for o in ops:
                    if rng.random() < .5:
                        o['s'] = rng.randrange(1 << 30)
            p['threads'].append(ops)
        m = rng.choice(['none', 'none', 'lossless', 'failing'])
        if m == 'lossless':
            p['faults'] = [io.pick(rng, LOSSLESS) for _ in range(rng.randrange(1, 8))]
        elif m == 'failing':
            p['faults'] = [io.pick(rng, ['ERR'])] + [io.pick(rng, LOSSLESS) for _ in range(rng.randrange(0, 3))]
        return p

    def execute(self, p, ctx):
        from rankeval.dataset.dataset import Dataset
        from rankeval.dataset import svmlight_format as sf
        from rankeval.model import RTEnsemble
        from rankeval.visualization.topological import export_graphviz
        if not p['threads']:
            raise Invalid('empty')
        shared, trees, _, _ = scoring.make_model(p, ctx.scratch)
        Xs, ys, qs = data.table(p['seed'], 12, 5, 4, 'wild')
        sdata = Dataset(Xs.copy(), ys.copy(), qs.copy())
        snaps = scoring.snap_model(shared), scoring.snap_dataset(sdata)
        keep = []

        class Op:
            """one operation: its files are made before the threads start, its result is checked against what was generated"""

            def __init__(self, t, i, o):
                self.o, self.name = o, 'thread %d, operation %d (%s)' % (t, i, o['op'])
                self.file = '/t%d_%d_' % (t, i)
                self.base = os.path.join(ctx.scratch, self.file[1:])
                self.must_fail = self.may_fail = False
                bad = o.get('bad')
                k = o['op']
                if k == 'load':
                    self.X, self.y, self.q = data.table(o['s'], o['rows'], o['cols'], o['nq'], o['kind'])
                    text = data.render(o['s'] + 1, self.X, self.y, self.q, o['sparse'], o['comments'])
                    if bad and bad[1] == 'line':
                        lines = text.splitlines(True)
                        lines.insert(int(bad[0] * len(lines)), BAD_LINES[o['s'] % len(BAD_LINES)])
                        text = b''.join(lines)
                        self.must_fail = True
                    self.text = text
                    if o['io'][0] == '.':
                        self.path = self.base + 'd' + o['io']
                        with open(self.path, 'wb') as f:
                            f.write(data.pack(text, o['io']))
                elif k == 'dump':
                    if o['shared']:
                        self.X, self.y, self.q, self.d = Xs, ys, qs, sdata
                    else:
                        self.X, self.y, self.q = data.table(o['s'], o['rows'], o['cols'], o['nq'], o['kind'])
                        self.d = Dataset(self.X.copy(), self.y.copy(), self.q.copy())
                    self.path = self.base + 'd' + o['io'] if o['io'][0] == '.' else None
                elif k == 'model':
                    fmt = o['format']
                    if fmt == 'CatBoost' and not CHECK.coreml:
                        fmt = 'QuickRank'
                    self.fmt = fmt
                    if fmt == 'CatBoost':
                        rng = random.Random(o['s'])
                        self.trees = [models.complete_tree(rng, 9, rng.randrange(1, 4), models.wild, models.wild) for _ in range(o['n_trees'])]
                    else:
                        self.trees = models.ensemble(o['s'], o['n_trees'], o['size'], 9, 'wild', 'wild', weights=fmt in ('QuickRank', 'Jforests'))
                    self.path = self.base + 'm' + ('.coreml' if fmt == 'CatBoost' else '.txt')
                    models.write(self.trees, self.path, fmt, o['s'], .5, .25)
                    self.n = None if o.get('keep') is None else 1 + int(o['keep'] * len(self.trees))
                    if bad and fmt in ('QuickRank', 'Jforests'):
                        with open(self.path, 'rb') as f:
                            b = f.read()
                        with open(self.path, 'wb') as f:
                            f.write(b[:min(int(bad[0] * len(b)), len(b.rstrip()) - 1)])
                        self.must_fail = True
                else:
                    if o['shared']:
                        self.m, self.trees = shared, trees
                    else:
                        self.trees = models.ensemble(o['s'], 1 + o['s'] % 5, 1 + o['s'] % 7, 9, 'wild', 'wild')
                        self.m = models.load(self.trees, self.base + 'src.txt')
                    self.path = self.base + 'out.txt'
                    if k == 'export':
                        self.k = int(o['tree'] * self.m.n_trees)
                        b = o['opts']
                        self.kw = {'tree_id': self.k, 'max_depth': [None, None, None, 2][b % 4], 'precision': [3, 3, 6, 1][b // 4 % 4],
                                   'leaves_parallel': bool(b & 16), 'rounded': bool(b & 32), 'node_ids': bool(b & 64), 'highlight_leaves': bool(b & 128)}
                        self.want = export_graphviz(self.m, **self.kw)
                if bad and bad[1] == 'line' and not self.must_fail:
                    bad = None
                self.bad = bad if bad and bad[1] != 'line' else None
                # a healthy use of the streams, to know how many operations they see
                self.count = None
                if self.bad and o.get('io') in ('lines', 'buffered', 'text'):
                    s = self.stream(None)
                    self.act(s[0])
                    self.count = max(1, s[1].n)

            def stream(self, faults):
                """(what the library is given, the stream below)"""
                how = self.o.get('io', '.txt')
                if how == 'lines':
                    s = streams.Reader(self.text, faults)
                    return s, s
                if how == 'buffered':
                    s = streams.Raw(self.text, faults)
                    return pyio.BufferedReader(s, 16), s
                if how == 'text':
                    s = streams.Writer(faults)
                    return s, s
                return (None if how == 'string' else self.path), None

            def act(self, target):
                k, api = self.o['op'], self.o.get('api')
                if k == 'load':
                    if api == 'Dataset':
                        return Dataset.load(target, name='d')
                    return sf.load_svmlight_file(target, query_id=api == 'file')
                if k == 'dump':
                    if api == 'Dataset':
                        return self.d.dump(target)
                    return sf.dump_svmlight_file(self.X, self.y, target, query_id=None if api == 'file_noq' else self.q, zero_based=api == 'file_zero')
                if k == 'model':
                    kw = {} if self.n is None else {'n_trees': self.n}
                    return RTEnsemble(self.path, format=self.fmt, **kw)
                if k == 'save':
                    return self.m.save(target)
                return export_graphviz(self.m, out_file=target, **self.kw)

            def wrong(self, got, s):
                """None, or what is wrong with the result"""
                k, api = self.o['op'], self.o.get('api')
                if k == 'load':
                    if api == 'Dataset':
                        off = np.append(np.flatnonzero(np.append(True, self.q[1:] != self.q[:-1])), len(self.q))
                        ok = (data.same(got.X, self.X) and data.same(got.y, self.y) and np.array_equal(got.query_ids, self.q[off[:-1]]) and
                              np.array_equal(got.query_offsets, off))
                    else:
                        w = [self.X, self.y] + ([self.q] if api == 'file' else [])
                        ok = len(got) == len(w) and all(data.same(a, b) for a, b in zip(got, w))
                    return None if ok else 'the loaded data differ from the file'
                if k == 'model':
                    return models.diff(got, self.trees[:self.n] if self.n else self.trees, weights=self.fmt in ('QuickRank', 'Jforests'),
                                       strict_less=self.fmt == 'XGBoost')
                if s is not None:
                    text = s.text().encode()
                elif self.o.get('io') == 'string':
                    text = got.encode()
                else:
                    with open(self.path, 'rb') as f:
                        text = f.read()
                if k == 'dump':
                    try:
                        if self.o['io'] in ('.gz', '.bz2'):
                            text = {'.gz': data.gzip, '.bz2': data.bz2}[self.o['io']].decompress(text)
                        a, b, c = data.parse(text, 0 if api == 'file_zero' else 1)
                    except Exception as e:
                        return 'the dump cannot be read: %r' % (e,)
                    if api == 'file_noq':
                        ok = not len(c)
                    else:
                        ok = np.array_equal(c, self.q)
                    return None if ok and np.array_equal(a, self.X) and np.array_equal(b, self.y) else 'the dump differs from the dataset'
                if k == 'export':
                    return None if text.decode() == self.want else 'the export differs from the one made alone'
                return models.diff(RTEnsemble(self.path), self.trees)

        ops = [[Op(t, i, o) for i, o in enumerate(x)] for t, x in enumerate(p['threads'])]
        for x in ops:
            for o in x:
                ctx.log(o.name, o.must_fail, o.count)

        def execute(o, failed, done):
            for turn in range(2 if o.o.get('again') else 1):
                faults = None
                if o.bad and o.count and turn == 0:
                    faults = {int(o.bad[0] * o.count): o.bad[1]}
                target, s = o.stream(faults)
                keep.append(s)
                try:
                    got = o.act(target)
                except BaseException as e:
                    if s is not None and s.fired:
                        ctx.fault(s.fired[0])
                        continue
                    if o.must_fail:
                        ctx.fault('DEFECTIVE_FILE')
                        if isinstance(e, (SystemError, AttributeError, UnboundLocalError)):
                            raise Violation('failed', '%s failed in a strange way: %r' % (o.name, e))
                        continue
                    if failed is not None and isinstance(e, OSError):
                        failed.append((o, e))       # explained by a fault, or not: see below
                        if o.o['op'] != 'load':
                            done[:] = [d for d in done if d[0] is not o or d[2] is not None]
                        continue
                    raise Violation('failed', '%s failed: %r' % (o.name, e))
                if s is not None and s.fired:
                    raise Violation('accepted', '%s: the failure of its stream was not reported' % o.name)
                if o.must_fail:
                    raise Violation('accepted', '%s: its defective file was loaded' % o.name)
                io.disarm()         # (this is not preempted)
                w = None if o.o['op'] == 'save' else o.wrong(got, s)
                if failed is not None:
                    io.resume()
                if w:
                    raise Violation('wrong', '%s: %s' % (o.name, w))
                done.append((o, got, s))

        def verify(done, what):
            for o, got, s in done:
                w = o.wrong(got, s)
                if w:
                    raise Violation('wrong', '%s, %s: %s' % (o.name, what, w))

        def threads(faults):
            done, failed = [], []

            def thread(x):
                def body():
                    for o in x:
                        execute(o, failed, done)
                return body
            io.arm(faults)
            s = sched.make(p['sched'], p['decs'], also=(streams.FILE,))
            err = s.run([thread(x) for x in ops], ctx)
            io.disarm()
            ev = io.log()
            ctx.io(ev)
            if err is not None:
                raise err
            hit = [e.path for e in ev if e.kind == 'ERR']
            unknown = sum(not any(h.startswith(o.file) for x in ops for o in x) for h in hit)     # (temporary files, say)
            for o, e in failed:
                if not any(h.startswith(o.file) for h in hit):
                    unknown -= 1
                    if unknown < 0:
                        raise Violation('failed', '%s failed: %r; the failing files were %r' % (o.name, e, hit))
            verify(done, 'after the threads')
            return ev

        ev = threads([])
        if p['faults'] and ev:
            fs = [f for f in (io.resolve(f, ev) for f in p['faults']) if f]
            threads(fs)
        # alone, afterwards
        done = []
        for x in ops:
            for o in x[:2]:
                execute(o, None, done)
        verify(done, 'alone')
        if (scoring.snap_model(shared), scoring.snap_dataset(sdata)) != snaps:
            raise Violation('modified', 'the shared model or dataset was modified')


CHECK = C28()
