"""Control of the simulated OpenMP runtime: every parallel region of the library runs on fibers scheduled by a seed."""
import ctypes, os

_lib = None
POLICIES = {'serial': 0, 'random': 1, 'race': 2, 'stall': 3, 'ordered': 4}


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.path.join(os.environ['SIM_BUILD'], 'libsimomp.so'))
        _lib.simomp_config.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_double, ctypes.c_int, ctypes.c_uint64]
        _lib.simomp_maxacc.argtypes = [ctypes.c_long]
        _lib.simomp_explicit.argtypes = [ctypes.c_long, ctypes.POINTER(ctypes.c_long)]
        _lib.simomp_decisions.restype = ctypes.c_long
    return _lib


def draw(rng):
    """a schedule: number of threads, policy and how often to preempt"""
    return {'threads': rng.choice([1, 2, 2, 3, 3, 4, 5, 8, 13, 16, 40]), 'policy': rng.choice(['serial', 'random', 'random', 'race', 'race', 'stall', 'stall']),
            'p': rng.choice([.5, .2, .1, .05, .02, .01, .003, .001]), 'shrink': rng.random() < .3, 'oseed': rng.randrange(1 << 40)}


def start(s, decs=None, maxacc=400000000):
    l = lib()
    l.simomp_config(s['threads'], POLICIES[s['policy']], s['p'], int(s['shrink']), s['oseed'])
    l.simomp_maxacc(maxacc)
    if decs is not None:
        flat = [x for d in decs for x in d]
        l.simomp_explicit(len(decs), (ctypes.c_long * max(1, len(flat)))(*flat))


def stop(ctx=None, schedule=True):
    """statistics since start; recorded in the log of the run"""
    l = lib()
    st = (ctypes.c_long * 8)()
    h = ctypes.c_uint64()
    l.simomp_stats(st, ctypes.byref(h))
    l.simomp_disable()
    names = ['parallel_regions', 'multi_thread_regions', 'switches', 'preemptions', 'conflicting_accesses', 'barriers', 'accesses', 'decisions']
    d = dict(zip(names, list(st)))
    if ctx is not None:
        for k in names:
            ctx.extra[k] = ctx.extra.get(k, 0) + d[k]
        ctx.steps += d['accesses']
        ctx.log('omp', h.value, d['switches'], d['preemptions'], d['accesses'])
        ctx.state('sched', h.value)
        if d['preemptions']:
            ctx.fault('PREEMPTION', d['preemptions'])
        if d['switches']:
            ctx.nontrivial = True
        if schedule:
            n = min(d['decisions'], 20000)
            a = (ctypes.c_long * (3 * n + 3))()
            l.simomp_decisions(a, n)
            if n == d['decisions']:
                ctx.sched = [list(a[3 * i:3 * i + 3]) for i in range(n)]
    return d
