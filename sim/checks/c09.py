"""C09: processes fetching the same dataset at the same time all get complete data."""
import os
import random

from sim import fetch, io, net
from sim.checks.c07 import NAMES, Fetcher
from sim.core import Invalid, Violation

LIMIT = 30000


class C09(Fetcher):
    id = 'C09'
    runs = 1600
    ints = {'models': 1}
    lists = ('kills', 'prio')
    level_rule = ('Each seed draws two to four processes fetching the same dataset, a scheduling policy deciding at every system call on the data folder and '
                  'the network which process runs next, and kills of some of them.')
    assumptions = ['network and disk are healthy', 'none of the processes forces a new download over the data the others are reading',
                   'a kill is the death of the process: the kernel keeps what it accepted']

    def generate(self, rng, tier):
        name = rng.choice(NAMES)
        n = rng.choice([2, 2, 2, 3, 3, 4])
        p = {'seed': rng.randrange(1 << 30), 'name': name, 'env': rng.choice(['HOME', 'VAR', 'VAR']), 'models': rng.randrange(1, 3),
             'nodes': [{'fold': rng.randrange(1, 6) if name.startswith('msn') else None, 'with_models': rng.random() < .75, 'same': rng.random() < .3} for _ in range(n)],
             'policy': rng.choice(['random', 'random', 'pct', 'pct', 'burst', 'lockstep', 'rename']), 'kills': [],
             'state': rng.choice(['none', 'none', 'nohome', 'data', 'killed'])}
        if rng.random() < .45:
            for i in rng.sample(range(n), rng.randrange(1, n)):
                p['kills'].append([i, round(rng.random(), 5), rng.choice(['CRASH_BEFORE', 'CRASH_AFTER', 'TORN'])])
        p['prio'] = [round(rng.random(), 4) for _ in range(rng.randrange(1, 5))]
        p['kill'] = [io.pick(rng, ['CRASH_BEFORE', 'CRASH_AFTER'])]
        return p

    def execute(self, p, ctx):
        w = self.setup(p, ctx)
        name = p['name']
        rng = random.Random(p['seed'])
        calls = [{'dataset_name': name, 'fold': n['fold'], 'with_models': n['with_models']} for n in p['nodes']]
        _, ev = fetch.rehearse(ctx, ctx.scratch, self.home, net.Server(w, 0, self.cat), dict(calls[0], with_models=True), seed=p['seed'])
        length = max(1, len(ev))
        if p['state'] == 'nohome':
            os.rmdir(self.home)
        elif p['state'] == 'data':
            fetch.call_node(ctx, net.Server(w, 0, self.cat), dict(calls[0], with_models=False), seed=p['seed'] + 7)
        elif p['state'] == 'killed':
            fetch.call_node(ctx, net.Server(w, 0, self.cat), calls[0], [f for f in (io.resolve(f, ev) for f in p['kill']) if f], seed=p['seed'] + 7)
        nodes = []
        for i, c in enumerate(calls):
            nodes.append(fetch.Remote(i, net.Server(w, 0, self.cat), c, p['seed'] + (0 if p['nodes'][i]['same'] else i + 1), nodes))
        kill = {i: (int(a * length), k) for i, a, k in p['kills']}
        count = [0] * len(nodes)
        prio = [rng.random() for _ in nodes]
        changes = sorted(int(x * length * len(nodes)) for x in p['prio'])
        steps, last, trace = 0, 0, []
        while True:
            live = [n for n in nodes if n.state == 'blocked']
            if not live:
                break
            if steps > LIMIT:
                raise Violation('livelock', 'no end after %d operations: %s' % (steps, [n.request for n in live]))
            pol = p['policy']
            if pol == 'random':
                n = rng.choice(live)
            elif pol == 'pct':
                while changes and steps >= changes[0]:
                    changes.pop(0)
                    prio[last] = -rng.random()
                n = max(live, key=lambda x: prio[x.i])
                # a node waiting for another one is not given all the time
                if n.request[0] in ('LOCK', 'SLEEP'):
                    n = rng.choice(live)
            elif pol == 'burst':
                n = nodes[last] if nodes[last] in live and rng.random() < .93 else rng.choice(live)
            elif pol == 'lockstep':
                n = min(live, key=lambda x: (count[x.i], x.i))
            else:   # the nodes meet at the operations that change names
                hot = [x for x in live if x.request[0] not in ('RENAME', 'MKDIR', 'UNLINK', 'RMDIR')]
                n = rng.choice(hot or live)
            kind = 'NONE'
            if n.i in kill and count[n.i] >= kill[n.i][0] and not n.killed:
                kind = kill[n.i][1]
                if kind == 'TORN' and n.request[0] != 'WRITE':
                    kind = 'CRASH_BEFORE'
            if n.i != last:
                ctx.extra['context_switches'] = ctx.extra.get('context_switches', 0) + 1
                ctx.nontrivial = True
            last = n.i
            count[n.i] += 1
            req = n.step(kind, 1 + rng.randrange(1 << 12))
            steps += 1
            if kind != 'NONE':
                ctx.fault('KILLED_' + kind)
            trace.append((n.i, kind) + req)
        ctx.steps += steps
        ctx.log('schedule', trace)
        ctx.state('interleaving', [t[0] for t in trace if t[2] in ('MKDIR', 'RENAME', 'UNLINK', 'RMDIR', 'OPENW')])
        survivors = [n for n in nodes if n.res['status'] != 'killed']
        for n in nodes:
            ctx.log('node', n.i, n.res['status'], n.res.get('err', '').split('(')[0])
        for n in survivors:
            c = calls[n.i]
            if n.res['status'] == 'err':
                raise Violation('failed', 'process %d of %d (%s) failed: %s' % (n.i, len(nodes), c, n.res['err']))
            exp = w.expected(name, 0, c['fold'], c['with_models'])
            if n.res['got'] is None or not net.matches(n.res['got'], exp):
                raise Violation('incomplete', 'process %d got incomplete content: %s, expected %s' % (n.i, n.res['got'], exp))
        for n in survivors:
            c = calls[n.i]
            res, _ = fetch.call_node(ctx, net.Server(w, 0, self.cat, offline=True), c, seed=p['seed'] + 20)
            if res['status'] != 'ok' or not net.matches(res['got'], w.expected(name, 0, c['fold'], c['with_models'])):
                raise Violation('not-complete', 'the local copy is not complete afterwards: %s' % (res,))
        res, _ = fetch.call_node(ctx, net.Server(w, 0, self.cat), dict(calls[0], with_models=True), seed=p['seed'] + 21)
        if res['status'] != 'ok' or not net.matches(res['got'], w.expected(name, 0, calls[0]['fold'], True)):
            raise Violation('not-complete', 'an ordinary call afterwards: %s' % (res,))


CHECK = C09()
