"""Runner: seeded plans, one forked process per simulated run, confirmation, minimisation, replay files, evidence."""
import faulthandler, gc, hashlib, importlib, json, os, random, resource, select, shutil, signal, subprocess, sys, tempfile
import time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 20
WALL_LIMIT = 90


class Violation(Exception):
    def __init__(self, sig, msg=''):
        Exception.__init__(self, sig, msg)
        self.sig, self.msg = sig, msg


class Invalid(Exception):
    """The plan cannot be executed (a candidate of the minimiser)."""


def h64(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), 'big')


class Ctx:
    """What a simulated run reports: event log, fault counts, states reached, probes."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.events = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.steps = 0
        self.nontrivial = False
        self.extra = {}
        self.sched = None    # the decisions of a scheduler, for the minimiser

    def log(self, *e):
        self.events.append(e)

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n
            self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        self.states.add(h64(*key))

    def digest(self):
        return '%016x' % h64(self.events)

    def io(self, events):
        """account the points of an armed execution"""
        self.steps += len(events)
        for e in events:
            if e.kind != 'NONE':
                self.fault(e.kind if e.op != 'NET' else 'NET_' + e.kind)
        self.log('io', [(e.op, e.kind, e.ret if e.ret != -999 else 'killed', e.path) for e in events])
        self.state('io', [(e.op, e.kind, e.path) for e in events])

    def check(self, ok, sig, msg=''):
        if not ok:
            raise Violation(sig, msg() if callable(msg) else msg)


class Check:
    id = None
    level_rule = ''
    runs = 2000          # simulated runs of the quick tier
    quick_seconds = 150  # cap of the quick tier
    assumptions = []
    real = []
    stub = []
    measure = 'distinct sequences of simulated events (hash of the event log of a run)'
    lists = ()           # keys of the plan shortened by the minimiser
    ints = {}            # key -> smallest value

    def preload(self):
        pass

    def generate(self, rng, tier):
        raise NotImplementedError

    def execute(self, plan, ctx):
        raise NotImplementedError

    def shrink(self, plan):
        for k in self.lists:
            v = plan.get(k) or []
            n = len(v)
            step = n
            while step >= 1:
                for i in range(0, n, step):
                    if n:
                        yield dict(plan, **{k: v[:i] + v[i + step:]})
                step //= 2
        for k, lo in self.ints.items():
            v = plan.get(k)
            if isinstance(v, int) and not isinstance(v, bool) and v > lo:
                for c in sorted({lo, lo + (v - lo) // 2, v - 1}):
                    if lo <= c < v:
                        yield dict(plan, **{k: c})


def get_check(cid):
    return importlib.import_module('sim.checks.' + cid.lower()).CHECK


def plan_of(check, seed, index, tier):
    rng = random.Random(h64(seed, check.id, index))
    plan = check.generate(rng, tier)
    return json.loads(json.dumps(plan))


def in_library(e):
    """whether the exception passed through a function of the library"""
    m = sys.modules.get('rankeval')
    if m is None:
        return False
    d = os.path.dirname(os.path.abspath(m.__file__)) + os.sep
    tb = e.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(d):
            return True
        tb = tb.tb_next
    return False


# ---------------------------------------------------------------------------------------------- one simulated run
def child_main(check, plan, scratch, wfd):
    gc.disable()
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    lim = 12 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, resource.getrlimit(resource.RLIMIT_AS)[1]))
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    err = os.open(scratch + '.err', os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(err, 2)
    ctx = Ctx(scratch)
    res = {'status': 'ok'}
    try:
        from sim import io
        if io.available:
            io.init(scratch)
            io.reset()
            io.seed(h64('io', plan.get('seed', 0)))
        random.seed(plan.get('seed', 0))
        try:
            import numpy
            numpy.random.seed(plan.get('seed', 0) & 0xffffffff)
        except ImportError:
            pass
        check.execute(plan, ctx)
    except Violation as v:
        res = {'status': 'violation', 'sig': v.sig, 'msg': str(v.msg)[:4000]}
    except Invalid as e:
        res = {'status': 'invalid', 'msg': str(e)}
    except BaseException as e:
        res = {'status': 'error', 'msg': traceback.format_exc()[-4000:]}
        if isinstance(e, Exception) and in_library(e):
            # valid, undisturbed calls of the library do not raise
            res.update(status='violation', sig='raised:' + type(e).__name__)
    try:
        from sim import io
        if io.available:
            io.disarm()
            io.remote(-1)
    except BaseException:
        pass
    res.update(digest=ctx.digest(), faults=ctx.faults, probes=ctx.probes, states=sorted(ctx.states), steps=ctx.steps,
               nontrivial=ctx.nontrivial, extra=ctx.extra)
    if res['status'] == 'violation' or plan.get('_trace'):
        res['sched'] = ctx.sched
        res['trace'] = [repr(e)[:2000] for e in ctx.events[-60:]]
    data = json.dumps(res).encode()
    off = 0
    while off < len(data):
        off += os.write(wfd, data[off:off + 65536])
    os.close(wfd)
    os._exit(0)


def blocked(pid):
    """asleep and hardly any CPU used: a deadlock rather than a slow machine"""
    try:
        with open('/proc/%d/stat' % pid) as f:
            s = f.read().rsplit(')', 1)[1].split()
        return s[0] in 'SD' and (int(s[11]) + int(s[12])) / os.sysconf('SC_CLK_TCK') < 5
    except OSError:
        return False


def clean(scratch):
    def fix(f, p, e):
        try:
            os.chmod(os.path.dirname(p), 0o700)
            os.chmod(p, 0o700)
            f(p)
        except OSError:
            pass
    shutil.rmtree(scratch, onerror=fix)
    os.makedirs(scratch, exist_ok=True)


def run_plan(check, plan, scratch):
    clean(scratch)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            child_main(check, plan, scratch, w)
        finally:
            os._exit(99)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    buf = b''
    end = time.monotonic() + WALL_LIMIT
    timed_out = None
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = 'blocked' if blocked(pid) else 'slow'
            break
        if select.select([r], [], [], min(left, 5))[0]:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
    os.close(r)
    if timed_out:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)   # nodes of the run left behind
    except OSError:
        pass
    base = {'digest': '', 'faults': {}, 'probes': {}, 'states': [], 'steps': 0, 'nontrivial': False, 'extra': {}}
    if timed_out == 'blocked':
        return dict(base, status='violation', sig='hang:blocked', msg='the run blocked forever')
    if timed_out:
        return dict(base, status='error', msg='wall-clock limit of a run exceeded')
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        tail = ''
        try:
            with open(scratch + '.err', errors='replace') as f:
                tail = f.read()[-1500:]
        except OSError:
            pass
        if s in (signal.SIGXCPU,) or (s == signal.SIGKILL and not buf):
            if s == signal.SIGKILL:
                return dict(base, status='error', msg='killed from outside')
            return dict(base, status='violation', sig='hang:cpu', msg='no termination within %d s of CPU' % CPU_LIMIT)
        return dict(base, status='violation', sig='crash:' + signal.Signals(s).name, msg='the process died: ' + tail)
    code = os.WEXITSTATUS(st)
    if code == 77:
        with open(scratch + '.err', errors='replace') as f:
            tail = f.read()[-500:]
        return dict(base, status='violation', sig='omp:deadlock', msg=tail)
    try:
        return dict(base, **json.loads(buf.decode()))
    except ValueError:
        return dict(base, status='error', msg='the run gave no result (exit code %d)' % code)


# ---------------------------------------------------------------------------------------------- worker process
def worker_env(out, w, scratch):
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'LANG', 'SIM_REPO', 'VERIF_SEED')}
    env.update(LD_PRELOAD=os.path.join(out, 'libsimio.so'), PYTHONPATH=VERIF + ':' + os.environ.get('SIM_REPO', '/repo'),
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(w), MPLBACKEND='Agg', MALLOC_PERTURB_='165', LC_ALL='C.UTF-8',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', NUMEXPR_NUM_THREADS='1', MALLOC_ARENA_MAX='1',
               HOME=scratch + '.home', MPLCONFIGDIR=scratch + '.home', SIM_BUILD=out, TMPDIR=scratch, PYTHONUNBUFFERED='1',
               PYTHONNOUSERSITE='1', TZ='UTC', SSL_CERT_FILE='/dev/null', SSL_CERT_DIR='/nonexistent')
    return env


def spawn(out, args, w, base):
    """a worker process; talks JSON lines over its stdin and a pipe"""
    scratch = os.path.join(base, 'w%02d' % w)
    os.makedirs(scratch, exist_ok=True)
    os.makedirs(scratch + '.home', exist_ok=True)

    def pre():
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)  # no address randomisation, where allowed
        signal.signal(signal.SIGINT, signal.SIG_DFL)
    r, wfd = os.pipe()
    os.set_inheritable(wfd, True)
    p = subprocess.Popen([sys.executable, '-m', 'sim.worker', str(wfd), scratch] + [str(a) for a in args], env=worker_env(out, w, scratch),
                         cwd=scratch, stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, pass_fds=[wfd],
                         stderr=open(scratch + '.werr', 'w'), preexec_fn=pre, text=False)
    os.close(wfd)
    p.rfd = r
    p.buf = b''
    p.scratch = scratch
    return p


class Pool:
    pass


def worker_loop(check, tier, seed, w, nw, nruns, deadline, scratch, send):
    """executes the runs i = w (mod nw) and, to observe determinism, a sample of those of the next worker"""
    agg = {'runs': 0, 'faults': {}, 'probes': {}, 'steps': 0, 'nontrivial': 0, 'fault_runs': 0, 'digests': {}, 'invalid': 0,
           'errors': [], 'samples': [], 'extra': {}}
    states, digs = set(), set()
    i = w
    known = set()
    while (i < nruns or nruns <= 0) and time.time() < deadline:
        plan = plan_of(check, seed, i, tier)
        res = run_plan(check, plan, scratch)
        if res['status'] == 'error':
            # once more: an environmental hiccup must not count, a persistent one is an error of the harness
            res = run_plan(check, plan, scratch)
        agg['runs'] += 1
        if res['status'] == 'error':
            send({'t': 'error', 'index': i, 'msg': res['msg']})
            return
        if res['status'] == 'invalid':
            agg['invalid'] += 1
        if res['status'] == 'violation':
            send({'t': 'violation', 'index': i, 'plan': plan, 'sig': res['sig'], 'msg': res['msg']})
            if res['sig'] not in known:
                known.add(res['sig'])
                if len(known) > 20:
                    break
        for k in ('faults', 'probes'):
            for n, c in res[k].items():
                agg[k][n] = agg[k].get(n, 0) + c
        for n, c in res['extra'].items():
            agg['extra'][n] = agg['extra'].get(n, 0) + c
        agg['steps'] += res['steps']
        agg['nontrivial'] += bool(res['nontrivial'])
        agg['fault_runs'] += bool(res['faults'])
        states.update(res['states'])
        if res['nontrivial']:
            digs.add(res['digest'])
        if len(agg['samples']) < 2 and w < 2:
            agg['samples'].append({'index': i, 'plan': plan, 'status': res['status'], 'faults': res['faults'],
                                   'steps': res['steps'], 'digest': res['digest']})
        if i % 11 == 0:
            agg['digests'][str(i)] = res['digest']
        i += nw
        if (i // nw) % 11 == 5 and nw > 1:  # one of the neighbour's
            j = (i // nw - 1) * nw + (w + 1) % nw
            j -= j % 11
            if j >= 0:
                p2 = plan_of(check, seed, j, tier)
                r2 = run_plan(check, p2, scratch)
                agg.setdefault('re', {})[str(j)] = r2['digest']
    agg['states'] = sorted(states)
    agg['run_digests'] = sorted(digs)
    agg['cut'] = nruns > 0 and i < nruns
    send({'t': 'done', 'agg': agg})
