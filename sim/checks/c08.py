"""C08: local data is used as asked: no download when present or forbidden."""
import os
import shutil

from sim import fetch, inject, io, net
from sim.checks.c07 import CRASH, FAILING, LOSSLESS, NAMES, Fetcher
from sim.core import Invalid, Violation


class C08(Fetcher):
    id = 'C08'
    runs = 2400
    lists = ('faults', 'http')
    level_rule = ('Each seed draws the local state (nothing, only the data, only the models, both, what a fetch killed at some instant left), the arguments of a '
                  'fetch and disk, network and interrupt faults or a kill during it.')
    assumptions = ['reading the catalogue is not a download of an archive', 'a failing stat of the data may lead to a download, if allowed',
                   'force_download together with download_if_missing=False has no defined meaning']

    def generate(self, rng, tier):
        name = rng.choice(NAMES)
        p = {'seed': rng.randrange(1 << 30), 'name': name, 'fold': rng.randrange(1, 6) if name.startswith('msn') else None, 'env': rng.choice(['HOME', 'VAR', 'VAR']),
             'models': rng.randrange(1, 4), 'state': rng.choice(['none', 'nohome', 'data', 'data', 'both', 'both', 'both', 'killed', 'killed', 'failed', 'other']),
             'with_models': rng.random() < .6, 'call': rng.choice(['plain', 'plain', 'local', 'local', 'force']), 'bump': rng.random() < .5, 'faults': [], 'http': []}
        p['kill'] = [io.pick(rng, CRASH)]
        p['fail'] = [{'what': rng.choice(['dataset', 'models']), 'kind': rng.choice(net.HTTP_FAULTS), 'at': round(rng.random(), 5)}]
        m = p['mode'] = rng.choice(['none', 'lossless', 'failing', 'crash', 'interrupt'])
        if m == 'lossless':
            p['faults'] = [io.pick(rng, LOSSLESS) for _ in range(rng.randrange(1, 8))]
        elif m in ('failing', 'crash'):
            p['faults'] = [io.pick(rng, FAILING if m == 'failing' else CRASH)] + [io.pick(rng, LOSSLESS) for _ in range(rng.randrange(0, 3))]
        elif m == 'interrupt':
            p['at'] = round(rng.random(), 5)
        return p

    def execute(self, p, ctx):
        w = self.setup(p, ctx)
        name, fold = p['name'], p['fold']
        base = {'dataset_name': name, 'fold': fold}
        n = [0]

        def server(version, http=(), offline=False):
            return net.Server(w, version, self.cat, [dict(f) for f in http], offline)

        def call(version, faults=(), inj=None, http=(), offline=False, **kw):
            n[0] += 1
            return fetch.call_node(ctx, server(version, http, offline), dict(base, **kw), faults, inj, seed=p['seed'] + n[0])

        def complete(res, version, with_models, what):
            if res['status'] != 'ok':
                raise Violation('refused', '%s: %s' % (what, res.get('err')))
            exp = w.expected(name, version, fold, with_models)
            if not net.matches(res['got'], exp):
                raise Violation('wrong-content', '%s: expected version %d: %s, got %s' % (what, version, exp, res['got']))

        st = p['state']
        if st == 'nohome':
            os.rmdir(self.home)
        elif st in ('data', 'both', 'other'):
            res, _ = call(0, with_models=st != 'data')
            complete(res, 0, st != 'data', 'first download')
            if st == 'data' and 'models' in res['requests']:
                raise Violation('models-downloaded', 'loading without models downloaded them')
            if st == 'other':
                # another dataset is here, this one is not
                d = os.path.join(self.home, 'rankeval_data', name) if p['env'] == 'HOME' else os.path.join(self.home, name)
                if not os.path.isdir(d):
                    raise Invalid('unknown layout')
                os.rename(d, d + '_other')
        elif st in ('killed', 'failed'):
            kw = dict(base, with_models=p['with_models'])
            fs = []
            if st == 'killed':
                _, ev = fetch.rehearse(ctx, ctx.scratch, self.home, server(0), kw, seed=p['seed'])
                fs = [f for f in (io.resolve(f, ev) for f in p['kill']) if f]
            fetch.call_node(ctx, server(0, p['fail'] if st == 'failed' else ()), kw, fs, seed=p['seed'])
            ctx.probe('interrupted fetch before')
        present = {'data': not p['with_models'], 'both': True, 'killed': None, 'failed': None}.get(st, False)
        version = 0
        if p['bump'] and st in ('both', 'data'):
            version = 1
        before = fetch.tree(self.home)
        kw = {'with_models': p['with_models']}
        if p['call'] == 'local':
            kw['download_if_missing'] = False
        if p['call'] == 'force':
            kw['force_download'] = True
        fs, inj = [], None
        if p['faults'] or p['mode'] == 'interrupt':
            cnt = inject.At() if p['mode'] == 'interrupt' else None
            res, ev = fetch.rehearse(ctx, ctx.scratch, self.home, server(version), dict(base, **kw), inj=cnt, seed=p['seed'] + 50)
            if cnt is not None:
                inj = inject.At(int(p['at'] * max(1, res['count'])), KeyboardInterrupt)
            fs = [f for f in (io.resolve(f, ev) for f in p['faults']) if f]
        srv = server(version)
        res, ev = fetch.call_node(ctx, srv, dict(base, **kw), fs, inj, seed=p['seed'] + 50)
        after = fetch.tree(self.home)
        # requests of a killed node are lost with it: what it wrote is not
        got = [r for r in res['requests'] if r != 'catalogue']
        clean = p['mode'] in ('none', 'lossless')
        what = '%s call, local state %s, %s' % (p['call'], st, res['status'])
        if p['call'] == 'local':
            ctx.check(not got, 'downloaded', '%s: requested %s although downloads are disabled' % (what, got))
            new = sorted(set(after) - set(before))
            if new and new != ['rankeval_data']:       # the (empty) folder of the data
                raise Violation('created', '%s: created %s although downloads are disabled' % (what, new[:5]))
            if present is False:
                if res['status'] == 'ok':
                    raise Violation('not-refused', '%s: returned although the data is not available and downloads are disabled: %s' % (what, res['got']))
                if clean and not res.get('oserror'):
                    raise Violation('not-an-io-error', '%s: %s' % (what, res.get('err')))
            if res['status'] == 'err' and present is None and clean and not res.get('oserror'):
                raise Violation('not-an-io-error', '%s: %s' % (what, res.get('err')))
            if res['status'] == 'ok':
                complete(res, 0, p['with_models'], what)
        if present and p['call'] != 'force':
            # (a disk that fails to tell whether the data is there: downloading it again is fine)
            if not [e for e in ev if e.op == 'STAT' and e.kind == 'ERR']:
                ctx.check(not got, 'downloaded', '%s: requested %s although the data is here' % (what, got))
            if after != before:
                diff = sorted(k for k in set(after) | set(before) if after.get(k, 0) != before.get(k, 0))
                raise Violation('altered', '%s: the local data changed: %s' % (what, diff[:5]))
            if clean:
                complete(res, 0, p['with_models'], what)
            # a server that holds something newer, or nothing at all, makes no difference
            again, _ = call(version, offline=True, **kw)
            complete(again, 0, p['with_models'], 'off line ' + what)
        if p['call'] == 'force' and res['status'] == 'ok':
            complete(res, version, p['with_models'], what)
            for k in ['dataset'] + ['models'] * p['with_models']:
                if k not in got:
                    raise Violation('not-forced', '%s: the %s archive was not downloaded' % (what, k))
            again, _ = call(version + 1, offline=True, with_models=p['with_models'])
            complete(again, version, p['with_models'], 'the call after a forced download')
        if not p['with_models'] and 'models' in got:
            raise Violation('models-downloaded', what + ': loading without models downloaded them')
        if clean and p['call'] != 'local':
            if res['status'] != 'ok':
                raise Violation('refused', '%s: %s' % (what, res.get('err')))
        ctx.state(st, p['call'], p['with_models'], p['mode'], res['status'], tuple(got))


CHECK = C08()
