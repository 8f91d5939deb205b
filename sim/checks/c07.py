"""C07: an interrupted dataset download is never mistaken for a complete one."""
import os

from sim import fetch, inject, io, net
from sim.core import Check, Invalid, Violation

LOSSLESS = ['SHORT', 'EINTR']
FAILING = ['ERR', 'ERR', 'ERR', 'STICKY', 'SIGINT', 'SIGINT_EINTR']
CRASH = ['CRASH_BEFORE', 'CRASH_BEFORE', 'CRASH_AFTER', 'TORN']
NAMES = sorted(net.PUBLISHED)


class Fetcher(Check):
    real = ['rankeval.dataset.datasets_fetcher', 'rankeval.dataset.write_json_dataset_catalogue', 'rankeval.dataset (load)', 'urllib, http.client, tarfile, gzip, shutil, tempfile',
            'kernel file system below the fault layer']
    stub = ['sockets (socket.create_connection) and the HTTP server publishing the datasets', 'libc I/O calls on the data folder (fault layer)',
            'process kill (exit of a forked process at an operation)', 'the data folder on a file system of its own (EXDEV)', 'randomness of temporary names']

    def preload(self):
        import rankeval.dataset.datasets_fetcher as df, gzip, tarfile, http.client, encodings.idna  # noqa
        self.cat = net.catalogue(os.path.join(os.environ['TMPDIR'], 'catalogue'))

    def setup(self, p, ctx):
        self.home = os.path.join(ctx.scratch, 'home')
        os.mkdir(self.home)
        io.device(self.home)
        fetch.set_home(self.home, p.get('env'))
        return net.World(p['seed'], models=p.get('models', 2))


class C07(Fetcher):
    id = 'C07'
    runs = 2400
    lists = ('steps',)
    level_rule = ('Each seed draws a dataset of the catalogue and a history of fetches (plain, forced, with and without models, after a new publication), '
                  'each with network, disk and interrupt faults or a kill placed at operations of a fault-free execution of the same fetch.')
    assumptions = ['a kill is the death of the process: the kernel keeps what it accepted', 'TCP delivers uncorrupted data: the network truncates and fails but does not flip bits',
                   'the archives hold the files the documentation of the datasets names', 'the kernel delivers renames atomically']

    def generate(self, rng, tier):
        name = rng.choice(NAMES)
        p = {'seed': rng.randrange(1 << 30), 'name': name, 'fold': rng.randrange(1, 6) if name.startswith('msn') else None, 'env': rng.choice(['HOME', 'VAR', 'VAR']),
             'models': rng.randrange(1, 4), 'steps': []}
        bump = rng.random() < .5

        def faulty(force):
            s = {'force': force, 'with_models': bump or rng.random() < .75, 'mode': rng.choice(['failing', 'failing', 'crash', 'crash', 'crash', 'http', 'http', 'interrupt', 'lossless'])}
            if s['mode'] == 'lossless':
                s['faults'] = [io.pick(rng, LOSSLESS) for _ in range(rng.randrange(1, 8))]
            elif s['mode'] in ('failing', 'crash'):
                s['faults'] = [io.pick(rng, FAILING if s['mode'] == 'failing' else CRASH)] + [io.pick(rng, LOSSLESS + ['ERR'] * (rng.random() < .2)) for _ in range(rng.randrange(0, 3))]
            elif s['mode'] == 'interrupt':
                s['at'] = round(rng.random(), 5)
                s['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
            else:
                s['http'] = [{'what': rng.choice(['catalogue', 'dataset', 'dataset', 'models', 'models']), 'kind': rng.choice(net.HTTP_FAULTS), 'at': round(rng.random(), 5)}
                             for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < .15:
                s['http'] = s.get('http', []) + [{'what': rng.choice(['dataset', 'models']), 'kind': 'nolength', 'at': 0}]
            return s
        n = rng.randrange(1, 4 if tier == 'quick' else 6)
        if bump:
            p['steps'] = [faulty(False) for _ in range(rng.randrange(0, 2))] + [{'bump': 1}] + [faulty(True) for _ in range(n)]
        else:
            p['steps'] = [faulty(rng.random() < .3) for _ in range(n)]
        return p

    def execute(self, p, ctx):
        w = self.setup(p, ctx)
        name, fold = p['name'], p['fold']
        version = 0
        full = {'dataset_name': name, 'fold': fold}

        def judge(res, with_models, what, healthy=False, must=None):
            if res['status'] == 'killed':
                ctx.probe('killed')
                return None
            if res['status'] == 'err':
                if healthy:
                    raise Violation('not-recovered', '%s: network and disk are healthy but the call raised %s' % (what, res['err']))
                return None
            if res['got'] is None:
                raise Violation('none', what + ': the dataset is not in the catalogue')
            ok = [v for v in range(version + 1) if net.matches(res['got'], w.expected(name, v, fold, with_models))]
            if not ok:
                exp = w.expected(name, version, fold, with_models)
                raise Violation('incomplete', '%s: the call returned incomplete or mixed content; expected %s, got %s' % (what, exp, res['got']))
            if must is not None and must not in ok:
                raise Violation('stale', '%s: content of version %s, published is %s' % (what, ok, must))
            return ok[0]

        for i, s in enumerate(p['steps']):
            if 'bump' in s:
                srv = net.Server(w, version, self.cat)
                res, _ = fetch.call_node(ctx, srv, dict(full, with_models=True), seed=p['seed'] + i)
                judge(res, True, 'before the new publication', healthy=True)
                version += 1
                continue
            call = dict(full, with_models=s['with_models'], force_download=s['force'])
            http = [f for f in s.get('http', []) if f['kind'] == 'nolength']
            fs, inj = [], None
            if s.get('faults') or s['mode'] == 'interrupt':
                cnt = inject.At() if s['mode'] == 'interrupt' else None
                res, ev = fetch.rehearse(ctx, ctx.scratch, self.home, net.Server(w, version, self.cat, [dict(f) for f in http]), call, inj=cnt, seed=p['seed'] + i)
                judge(res, s['with_models'], 'a healthy call', healthy=True)
                if cnt is not None:
                    inj = inject.At(int(s['at'] * res['count']), {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[s['exc']])
                fs = [f for f in (io.resolve(f, ev) for f in s.get('faults', [])) if f]
            res, ev = fetch.call_node(ctx, net.Server(w, version, self.cat, [dict(f) for f in s.get('http', [])]), call, fs, inj, seed=p['seed'] + i)
            clean = s['mode'] == 'lossless' and not any(f['kind'] != 'nolength' for f in s.get('http', []))
            judge(res, s['with_models'], 'call %d (%s)' % (i, s['mode']), healthy=clean, must=version if s['force'] and res['status'] == 'ok' else None)
            ctx.state('after', sorted(fetch.tree(self.home).items()) and [k if '.' not in k.split('/')[0] else 'tmp' for k in sorted(fetch.tree(self.home))])
        res, _ = fetch.call_node(ctx, net.Server(w, version, self.cat), dict(full), seed=p['seed'] + 99)
        judge(res, True, 'the final ordinary call', healthy=True)
        # what was returned is there for good: nothing else is needed from the network but the catalogue
        res, _ = fetch.call_node(ctx, net.Server(w, version, self.cat, offline=True), dict(full), seed=p['seed'] + 100)
        judge(res, True, 'the call after the final one, off line', healthy=True)


CHECK = C07()
