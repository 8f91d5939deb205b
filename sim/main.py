import argparse, json, os, select, shutil, signal, subprocess, sys, tempfile, time

from sim import build, core

VERIF = core.VERIF


def known_findings(cid):
    out = {}
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                if line.startswith('known: property=%s ' % cid):
                    rest = line.split(' ', 2)[2].strip()
                    sig, _, what = rest.partition(' ')
                    out[sig[4:]] = what
    except OSError:
        pass
    return out


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 300 << 20:
                return tempfile.mkdtemp(prefix='rankeval-sim-', dir=d)
        except OSError:
            pass
    return tempfile.mkdtemp(prefix='rankeval-sim-')


def read_msgs(p, block=True):
    out = []
    if block or select.select([p.rfd], [], [], 0)[0]:
        b = os.read(p.rfd, 1 << 20)
        if not b:
            return None
        p.buf += b
    while b'\n' in p.buf:
        line, p.buf = p.buf.split(b'\n', 1)
        out.append(json.loads(line))
    return out


def wait_msg(p, timeout):
    end = time.time() + timeout
    while time.time() < end:
        if select.select([p.rfd], [], [], max(0.0, end - time.time()))[0]:
            m = read_msgs(p)
            if m is None:
                return None
            if m:
                return m[0]
    return None


class Server:
    """a fresh process executing plans one by one"""

    def __init__(self, out, cid, w, base):
        self.p = core.spawn(out, ['serve', cid], w, base)
        m = wait_msg(self.p, 120)
        if m is None:
            raise RuntimeError('the process for the replays did not start: ' + tail(self.p))
        self.early = m if m['t'] != 'ready' else None

    def run(self, plan, timeout=150):
        if self.early:
            return {'status': 'violation', 'sig': self.early.get('sig'), 'msg': self.early['msg'], 'digest': ''}
        self.p.stdin.write((json.dumps(plan) + '\n').encode())
        self.p.stdin.flush()
        return wait_msg(self.p, timeout) or {'status': 'error', 'msg': 'no answer', 'digest': ''}

    def close(self):
        self.p.kill()
        self.p.wait()
        sweep(self.p.scratch)


def sweep(scratch):
    """ends what the runs in a scratch folder may have left: they are named after it"""
    for _ in range(3):
        found = False
        for pid in filter(str.isdigit, os.listdir('/proc')):
            try:
                with open('/proc/%s/cmdline' % pid, 'rb') as f:
                    if any(x.startswith(scratch.encode()) for x in f.read().split(b'\0')):
                        os.kill(int(pid), signal.SIGKILL)
                        found = True
            except OSError:
                pass
        if not found:
            break
        time.sleep(.02)


def tail(p):
    try:
        with open(p.scratch + '.werr', errors='replace') as f:
            return f.read()[-2000:]
    except OSError:
        return ''


def minimise(check, server, plan, sig, budget):
    end = time.time() + budget
    tried = 0
    best = plan
    # spell out the decisions of the scheduler, which can then be removed one by one
    if 'decs' in plan and plan['decs'] is None:
        sched = server.run(plan).get('sched')
        if sched is not None:
            tried = 1
            cand = dict(plan, decs=sched)
            r = server.run(cand)
            if r['status'] == 'violation' and r['sig'] == sig:
                best = cand
    progress = True
    while progress and time.time() < end:
        progress = False
        for cand in check.shrink(best):
            if time.time() > end:
                break
            tried += 1
            r = server.run(cand)
            if r['status'] == 'violation' and r['sig'] == sig:
                best = cand
                progress = True
                break
    return best, tried


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--seconds', type=float)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('SIM_WORKERS', min(8, os.cpu_count() or 1))))
    ap.add_argument('--plan', type=int, help='show the plan and the trace of one run')
    a = ap.parse_args()
    cid = a.id.upper()
    t0 = time.time()
    try:
        out = build.build()
    except build.BuildError as e:
        print('ERROR: cannot build /repo:', e)
        return 2
    build_s = time.time() - t0
    base = scratch_base()
    procs = []

    def on_term(s, f):
        raise SystemExit(2)
    signal.signal(signal.SIGTERM, on_term)
    try:
        return drive(a, cid, out, base, procs, t0, build_s)
    finally:
        for p in procs:
            try:
                p.kill()
                p.wait()
            except OSError:
                pass
        sweep(base)
        shutil.rmtree(base, ignore_errors=True)


def drive(a, cid, out, base, procs, t0, build_s):
    check = core.get_check(cid)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a.replay or a.plan is not None:
        if a.replay:
            with open(a.replay) as f:
                rep = json.load(f)
            plan = rep['plan']
        else:
            rep, plan = {}, core.plan_of(check, seed, a.plan, a.tier)
        w = rep.get('worker', (a.plan or 0) % max(1, a.workers))
        s = Server(out, cid, w, base)
        procs.append(s.p)
        r = s.run(dict(plan, _trace=1) if a.plan is not None else plan)
        print(json.dumps(plan))
        for e in r.get('trace', []):
            print('  ', e)
        print({k: r.get(k) for k in ('status', 'sig', 'msg', 'digest', 'faults', 'probes', 'steps')})
        if r['status'] == 'violation':
            same = r.get('digest') == rep.get('digest')
            print('reproduced%s' % (' exactly (digest %s)' % r['digest'] if same else ''))
            print('VIOLATION property=%s replay=%s' % (cid, a.replay or 'plan:%d' % a.plan))
            return 1
        return 0 if r['status'] != 'error' else 2
    quick = a.tier != 'thorough'
    nw = max(1, a.workers)
    nruns = a.runs if a.runs is not None else (check.runs if quick else 0)
    secs = a.seconds if a.seconds else (check.quick_seconds if quick else 600)
    start = time.time()
    deadline = start + secs
    ps = []
    for w in range(nw):
        p = core.spawn(out, ['batch', cid, 'quick' if quick else 'thorough', seed, w, nw, nruns, deadline], w, base)
        ps.append(p)
        procs.append(p)
    known = known_findings(cid)
    hits, viol, aggs, err = {}, [], [], None
    live = list(ps)
    stop_at = None
    while live:
        if time.time() > deadline + core.WALL_LIMIT * 2 + 30:
            err = 'the workers did not finish in time'
            break
        if stop_at and time.time() > stop_at:
            break
        for fd in select.select([p.rfd for p in live], [], [], 1)[0]:
            p = [q for q in live if q.rfd == fd][0]
            ms = read_msgs(p)
            if ms is None:
                live.remove(p)
                p.wait()
                if not getattr(p, 'done', False) and not err:
                    err = 'a worker ended early (%s): %s' % (p.returncode, tail(p))
                continue
            for m in ms:
                if m['t'] == 'violation':
                    if m['sig'] in known:
                        hits[m['sig']] = hits.get(m['sig'], 0) + 1
                    else:
                        viol.append(m)
                        if m['plan'].get('nomem') is None:      # (those may well not be confirmed, below)
                            stop_at = stop_at or time.time() + 2
                elif m['t'] == 'error':
                    p.done = True
                    err = err or 'run %s: %s' % (m['index'], m['msg'])
                elif m['t'] == 'done':
                    p.done = True
                    aggs.append(m['agg'])
    sim_s = time.time() - start
    for p in ps:
        p.kill()
        p.wait()
    sweep(base)
    final = None
    unconfirmed = []
    if viol:
        viol.sort(key=lambda m: (len(json.dumps(m['plan'])), m['index']))
        for m in viol[:6]:
            # the same hash seed as the worker that met it
            w = max(0, m['index']) % nw
            sv = Server(out, cid, w, base)
            procs.append(sv.p)
            ok = None
            for _ in range(3):
                r = sv.run(m['plan'])
                if r['status'] == 'violation' and r['sig'] not in known:
                    ok = r
                    break
            if ok:
                best, tried = minimise(check, sv, m['plan'], ok['sig'], 60 if quick else 200)
                sv.close()
                sv = Server(out, cid, w, base)
                procs.append(sv.p)
                r = sv.run(best)
                if r['status'] != 'violation':
                    best, r = m['plan'], ok
                os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
                path = os.path.join(VERIF, 'replays', '%s-%d-%d.json' % (cid, seed, m['index']))
                with open(path, 'w') as f:
                    json.dump({'property': cid, 'verif_seed': seed, 'index': m['index'], 'worker': w, 'sig': r['sig'], 'msg': r['msg'],
                               'digest': r['digest'], 'plan': best, 'original_plan': m['plan'], 'minimiser_runs': tried,
                               'trace': r.get('trace', [])}, f, indent=1)
                final = (path, r, m)
                sv.close()
                break
            unconfirmed.append({'index': m['index'], 'nomem': m['plan'].get('nomem') is not None, 'sig': m['sig'], 'msg': m['msg'][:300]})
            sv.close()
    write_evidence(check, cid, seed, 'quick' if quick else 'thorough', aggs, sim_s, build_s, t0, hits, final, unconfirmed, nw)
    for s, n in sorted(hits.items()):
        print('KNOWN-FINDING: property=%s %s (%s, met %d times)' % (cid, known[s], s, n))
    if final:
        path, r, m = final
        print('violation: %s: %s' % (r['sig'], r['msg'][:1500]))
        print('seed=%d run=%d' % (seed, m['index']))
        print('VIOLATION property=%s replay=%s' % (cid, path))
        return 1
    if err:
        print('ERROR:', err)
        return 2
    # a failing allocation inside CPython depends on the free lists of the interpreter: only what is confirmed counts
    if [u for u in unconfirmed if not u['nomem']]:
        print('ERROR: not reproducible:', json.dumps(unconfirmed))
        return 2
    n = sum(g['runs'] for g in aggs)
    print('%s held on %d simulated runs (%.0f s, seed %d)' % (cid, n, sim_s, seed))
    return 0


def merge(aggs, k):
    out = {}
    for g in aggs:
        for n, c in g[k].items():
            out[n] = out.get(n, 0) + c
    return dict(sorted(out.items()))


def write_evidence(check, cid, seed, tier, aggs, sim_s, build_s, t0, hits, final, unconfirmed, nw):
    runs = sum(g['runs'] for g in aggs)
    states, digs = set(), set()
    base, re = {}, {}
    for g in aggs:
        states.update(g['states'])
        digs.update(g['run_digests'])
        base.update(g['digests'])
        re.update(g.get('re', {}))
    both = [i for i in re if i in base]
    samples = [s for g in aggs for s in g['samples']][:4]
    ev = {
        'property': cid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': runs - sum(g['invalid'] for g in aggs), 'plans_skipped': sum(g['invalid'] for g in aggs), 'distinct_nontrivial': len(digs),
            'rule': check.level_rule + ' A run counts as non-trivial when a fault fired or the simulated scheduler switched; '
                    'distinct by hash of its event log.',
            'samples': samples,
            'seeds_per_hour': round(runs / max(sim_s, 1e-9) * 3600), 'runs_with_faults': sum(g['fault_runs'] for g in aggs),
            'faults_fired': merge(aggs, 'faults'), 'probes': merge(aggs, 'probes'), 'counters': merge(aggs, 'extra'),
            'simulated_steps': sum(g['steps'] for g in aggs),
            'simulated_time': 'no clock in the properties: time is counted in simulated events (simulated_steps)',
            'distinct_states': len(states), 'distinct_measure': check.measure,
            'real_components': check.real, 'stub_components': check.stub,
            'determinism': {'reexecuted_in_another_process_with_another_hash_seed': len(both),
                            'identical_event_logs': sum(base[i] == re[i] for i in both),
                            'different': sorted(int(i) for i in both if base[i] != re[i])[:20]},
            'workers': nw, 'build_s': round(build_s, 1), 'cut_by_time': any(g['cut'] for g in aggs),
        },
        'assumptions': check.assumptions,
        'wall_s': round(time.time() - t0, 1),
        'violations': 0,
        'known_findings_met': hits, 'unconfirmed': unconfirmed,
    }
    if final:
        path, r, m = final
        ev['violations'] = 1
        ev['violation_details'] = [{'replay': path, 'sig': r['sig'], 'what': r['msg'][:1000], 'seed': seed, 'run': m['index']}]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', cid + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', cid + '.json'))


if __name__ == '__main__':
    sys.exit(main())
