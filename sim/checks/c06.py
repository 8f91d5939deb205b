"""C06: exporting a tree in the dot language writes the whole description or raises."""
import io as pyio
import os
import random
import re

import numpy as np

from sim import inject, io, models
from sim.checks.c02 import Sink, Text
from sim.core import Check, Invalid, Violation

LOSSLESS = ['SHORT', 'EINTR']
FAILING = ['ERR', 'ERR', 'ERR', 'STICKY', 'SIGINT', 'SIGINT_EINTR']
NODE = re.compile(r'^(\d+) \[label=(".*?"|<.*>)(, fillcolor="[^"]*")?\] ?;$')
EDGE = re.compile(r'^(\d+) -> (\d+)( \[.*\])? ?;$')


class C06(Check):
    id = 'C06'
    runs = 4000
    lists = ('faults', 'sfaults')
    ints = {'n_trees': 1, 'size': 1, 'n_feat': 1}
    real = ['rankeval.visualization.topological.export_graphviz', 'rankeval.model', 'CPython io', 'matplotlib colour maps', 'kernel file system below the fault layer']
    stub = ['libc I/O calls on the scratch folder (fault layer)', 'user interrupts and failing allocations at Python lines', 'stream objects of the caller']
    level_rule = ('Each seed draws a model, a tree, the options of the export, a destination and faults or an interrupt placed at operations of a '
                  'fault-free export.')
    assumptions = ['an export to a stream of the caller is complete once the caller flushed the stream']

    def preload(self):
        import rankeval.visualization.topological, rankeval.model  # noqa

    def generate(self, rng, tier):
        big = rng.random() < (.3 if tier == 'quick' else .5)
        p = {'seed': rng.randrange(1 << 30), 'n_trees': rng.randrange(1, 5), 'size': rng.randrange(10, 90) if big else rng.randrange(1, 10),
             'n_feat': rng.randrange(1, 20), 'leaf': rng.choice([0, 0, .3]), 'vals': rng.choice(['wild', 'dyadic']), 'tree': rng.random(),
             'depth': rng.choice([None, None, None, 0, 1, 2, 3, 5]), 'leaves': rng.random() < .4, 'opts': rng.randrange(1 << 12),
             'target': rng.choice(['path', 'path', 'path', 'string', 'stringio', 'text', 'wrapper', 'file']), 'over': rng.random() < .3,
             'faults': [], 'sfaults': []}
        if rng.random() < .01:
            p['size'] = 300
        m = p['mode'] = rng.choice(['lossless', 'failing', 'failing', 'failing', 'interrupt', 'none'])
        if p['target'] in ('text', 'wrapper'):
            if m in ('lossless', 'failing'):
                if m == 'failing':
                    p['sfaults'] = [[round(rng.random(), 4), rng.choice(['error', 'interrupt'] + ['value'] * (p['target'] == 'text'))]]
                if p['target'] == 'wrapper':
                    p['sfaults'] += [[round(rng.random(), 4), 'short'] for _ in range(rng.randrange(0, 5))]
        elif m == 'lossless':
            p['faults'] = [io.pick(rng, LOSSLESS) for _ in range(rng.randrange(1, 8))]
        elif m == 'failing':
            p['faults'] = [io.pick(rng, FAILING)] + [io.pick(rng, LOSSLESS) for _ in range(rng.randrange(0, 3))]
        if m == 'interrupt':
            p['at'] = round(rng.random(), 5)
            p['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
        return p

    def oracle(self, text, trees, t, root, p, kw, names):
        """None if the text describes the tree, otherwise what is wrong"""
        lines = [l.strip() for l in text.strip().split('\n')]
        if not re.match(r'^digraph\s+\w*\s*\{$', lines[0]) or lines[-1] != '}':
            return 'not a complete graph'
        nodes, edges = {}, []
        for l in lines[1:-1]:
            m = NODE.match(l)
            if m:
                if m.group(1) in nodes:
                    return 'node %s appears twice' % m.group(1)
                nodes[m.group(1)] = m.group(2)
                continue
            m = EDGE.match(l)
            if m:
                if m.groups()[:2] in edges:
                    return 'an edge appears twice'
                edges.append(m.groups()[:2])
        want_nodes, want_edges = set(), set()
        depth = p['depth']
        stack = [(0, 0)]
        while stack:
            i, d = stack.pop()
            n = str(root + i)
            label = nodes.get(n)
            if label is None:
                return 'node %d (depth %d) of the tree is missing' % (i, d)
            want_nodes.add(n)
            if depth is not None and d > depth:
                if '(...)' not in label:
                    return 'a node beyond the depth is described'
                continue
            v = float(t.value[i])
            nums = [float(x) for x in re.findall(r'[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan)', label.replace('&le;', ' ').replace('<br/>', ' ').replace('\\n', ' '))]
            prec = kw.get('precision', 3)
            if not any(abs(x - v) <= .6 * 10 ** -prec + 1e-6 * abs(v) for x in nums):
                return 'label %r of a node with value %r' % (label, v)
            if t.feature[i] >= 0:
                f = names[t.feature[i]] if names else str(t.feature[i])
                if f not in label or 'output' in label:
                    return 'label %r of a split on feature %s' % (label, f)
                for c in (t.left[i], t.right[i]):
                    want_edges.add((n, str(root + c)))
                    stack.append((c, d + 1))
            elif 'output' not in label:
                return 'label %r of a leaf' % label
        if set(nodes) != want_nodes:
            return 'nodes not of the tree: %s' % sorted(set(nodes) - want_nodes)[:5]
        if set(edges) != want_edges:
            return 'edges differ: %s' % sorted(set(edges) ^ want_edges)[:5]
        return None

    def execute(self, p, ctx):
        from rankeval.visualization.topological import export_graphviz
        trees = models.ensemble(p['seed'], p['n_trees'], p['size'], p['n_feat'], p['vals'], p['vals'], leaf_trees=p['leaf'])
        m = models.load(trees, os.path.join(ctx.scratch, 'src.txt'))
        k = int(p['tree'] * len(trees))
        t, root = trees[k], int(m.trees_root[k])
        rng = random.Random(p['opts'])
        kw = {'tree_id': k, 'max_depth': p['depth']}
        names = None
        for o, vs in [('highlight_leaves', [True, False]), ('leaves_parallel', [True, False]), ('node_ids', [True, False]), ('rounded', [True, False]),
                      ('special_characters', [True, False]), ('precision', [0, 1, 2, 3, 5, 8]), ('label', ['all', 'leaves']),
                      ('proportion', [True, False]), ('label_show', [True, False])]:
            if rng.random() < .4:
                kw[o] = rng.choice(vs)
        if rng.random() < .3:
            nf = max([f for x in trees for f in x.feature] + [0]) + 1
            names = ['name%s' % chr(97 + i) for i in range(nf)]
            kw['feature_names'] = names
            if max([f for x in trees for f in x.feature]) < 0:
                del kw['feature_names']
                names = None
        if p['leaves']:
            docs = np.array([[rng.uniform(-8, 8) for _ in range(p['n_feat'])] for _ in range(20)], dtype=np.float32)
            out = np.stack([models.leaves_of(x, docs) + int(m.trees_root[j]) for j, x in enumerate(trees)], axis=1)
            kw['output_leaves'] = out
        path = os.path.join(ctx.scratch, 'tree.dot')
        keep = []

        def target(sfaults=None):
            del keep[:]
            if os.path.exists(path):
                os.unlink(path)
            if p['over']:
                with open(path, 'w') as f:
                    f.write('digraph Old {\n' + '9 -> 9 ;\n' * 9000 + '}')
            s = p['target']
            if s == 'path':
                return path
            if s == 'string':
                return None
            if s == 'stringio':
                keep.append(pyio.StringIO())
            elif s == 'text':
                keep.append(Text(sfaults or {}))
            elif s == 'file':
                keep.append(open(path, 'w'))
            else:
                sink = Sink(random.Random(p['seed']), sfaults or {})
                keep.append(sink)
                keep.append(pyio.TextIOWrapper(pyio.BufferedWriter(sink, 64 if p['seed'] % 2 else 8192), encoding='utf8', newline='\n'))
            return keep[-1]

        def content(ret):
            s = p['target']
            if s == 'string':
                return ret
            if s == 'stringio':
                return keep[-1].getvalue()
            if s == 'text':
                return ''.join(keep[-1].s)
            if s == 'wrapper':
                return bytes(keep[0].b).decode()
            with open(path) as f:
                return f.read()

        ref = export_graphviz(m, **kw)
        ctx.check(isinstance(ref, str), 'no-text', 'no text was returned: %r' % (ref,))
        d = self.oracle(ref, trees, t, root, p, kw, names)
        ctx.check(d is None, 'wrong', lambda: 'the description of tree %d is wrong: %s' % (k, d))

        def attempt(faults, what, nofault=False, inj=None, sfaults=None):
            dest = target(sfaults)
            err = ret = None
            io.arm(faults)
            try:
                if inj is not None:
                    with inj:
                        ret = export_graphviz(m, out_file=dest, **kw)
                else:
                    ret = export_graphviz(m, out_file=dest, **kw)
            except BaseException as e:
                err = e
            io.disarm()
            ev = io.log()
            ctx.io(ev)
            if inj is not None and inj.fired:
                ctx.fault('RAISED_' + inj.exc.__name__)
            for f in keep:
                for x in getattr(f, 'fired', ()):
                    ctx.fault(x)
            ctx.log(what, type(err).__name__ if err is not None else 'ok')
            if err is None:
                bad = [e for e in ev if e.kind in ('ERR', 'STICKY') and e.op in ('OPENW', 'CLOSEW', 'WRITE', 'SYNC', 'TRUNC')]
                if bad:
                    raise Violation('reported', '%s: %s failed but the export reported success' % (what, bad[0].op))
                flushed = True
                try:
                    if p['target'] in ('file', 'wrapper'):
                        keep[-1].flush()
                except (OSError, KeyboardInterrupt):
                    flushed = False     # in the hands of the caller
                if flushed:
                    got = content(ret)
                    if got != ref:
                        raise Violation('lost', '%s: the export returned but wrote %s characters instead of %d' % (
                            what, len(got) if got is not None else 'no', len(ref)))
            elif nofault:
                raise Violation('refused', '%s: %r' % (what, err))
            for f in keep[::-1]:
                try:
                    f.close()
                except (OSError, AttributeError, KeyboardInterrupt):
                    pass
            return ev

        ev = attempt([], 'healthy', nofault=True)
        if p['sfaults']:
            n = max(1, keep[0].n)
            sf = {min(int(a * n), n - 1): x for a, x in p['sfaults'][::-1]}
            attempt([], 'stream', sfaults=sf, nofault=all(x == 'short' for x in sf.values()))
        elif p['faults'] and ev:
            fs = [f for f in (io.resolve(f, ev) for f in p['faults']) if f]
            attempt(fs, 'faulty', nofault=all(f[1] in LOSSLESS for f in fs))
        elif p['mode'] == 'interrupt':
            cnt = inject.At()
            attempt([], 'counting', nofault=True, inj=cnt)
            attempt([], 'interrupt', inj=inject.At(int(p['at'] * cnt.n), {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[p['exc']]))
        attempt([], 'again', nofault=True)
        ctx.check(models.diff(m, trees) is None, 'modified', 'the export changed the model')


CHECK = C06()
