"""Threads of Python under a seeded scheduler.

Exactly one thread runs at a time; it may be preempted at every trace event (line or bytecode instruction) of the
library, where the seed decides whether to hand over and to whom. Locks created through the threading module, and the
start of threads, go through the scheduler too: a set of threads all blocked on locks is a deadlock.
"""
import dis
import random
import sys
import threading
import time
import _thread

from sim.core import Violation
from sim.inject import libdir

STORES = {dis.opmap[n] for n in ('STORE_ATTR', 'STORE_SUBSCR', 'STORE_GLOBAL', 'STORE_DEREF', 'CONTAINS_OP') if n in dis.opmap}

real_lock = _thread.allocate_lock
real_start = _thread.start_new_thread
active = None


class SimLock:
    """a lock that blocks in the scheduler when it is active"""

    def __init__(self):
        self._real = real_lock()
        self._held = False

    def acquire(self, blocking=True, timeout=-1):
        s = active
        if s is None or not s.mine():
            r = self._real.acquire(blocking, timeout)
            if r:
                self._held = True
            return r
        s.step()
        while not self._real.acquire(False):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                # time passes only when nobody can run
                if not s.block(self, may_time_out=True):
                    return False
            else:
                s.block(self)
        self._held = True
        return True

    acquire_lock = acquire

    def release(self):
        self._held = False
        self._real.release()
        s = active
        if s is not None and s.mine():
            s.unblock(self)

    release_lock = release

    def locked(self):
        return self._real.locked()

    locked_lock = locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._real = real_lock()


class SimRLock:
    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._block.acquire(blocking, timeout):
            self._owner, self._count = me, 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self):
        state = self._count, self._owner
        self._count, self._owner = 0, None
        self._block.release()
        return state

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner, self._count = None, 0


def sim_start(fn, args=(), kw={}):
    s = active
    if s is None or not s.mine():
        return real_start(fn, args, kw)
    return s.spawn(lambda: fn(*args, **kw), 'child').ident


def install():
    """before the library is imported"""
    threading.Lock = threading._allocate_lock = SimLock
    threading.RLock = threading._RLock = threading._PyRLock = SimRLock
    if hasattr(threading, '_CRLock'):
        threading._CRLock = SimRLock
    threading._start_new_thread = sim_start


class T:
    def __init__(self, k, name):
        self.k, self.name = k, name
        self.wake = real_lock()
        self.wake.acquire()
        self.state = 'ready'
        self.waits = None
        self.timed_out = False
        self.may_time_out = False
        self.error = None
        self.ident = None
        self.prio = 0.0
        self.stored = False
        self.importing = 0


class Deadlock(Violation):
    pass


class Sched:
    """policy: 'random' (hand over with probability p at every event), 'pct' (priorities, changed at a few events),
    'burst' (runs of frequent switches), 'store' (mostly after an instruction that may publish something), 'serial' (one thread after the other)"""

    def __init__(self, seed, policy='random', p=.1, opcodes=False, decs=None, horizon=2000, also=()):
        self.rng = random.Random(seed)
        self.policy, self.p, self.opcodes = policy, p, opcodes or policy == 'store'
        self.decs = None if decs is None else [tuple(d) for d in decs]
        self.at = {} if decs is None else {(d[0], d[2]): d[1] for d in self.decs}
        self.threads = []
        self.cur = None
        self.n = 0
        self.record = []
        self.switches = self.preemptions = 0
        self.prefix = (libdir(),) + tuple(also)     # files whose code can be preempted
        self.known = {}
        self.main = real_lock()
        self.main.acquire()
        self.failure = None
        self.points = set()
        self.change = {self.rng.randrange(1, max(2, horizon)) for _ in range(self.rng.randrange(1, 6))} if policy == 'pct' else set()
        self.where = None
        self.hot = False

    # ---- called by the running thread
    def mine(self):
        return self.cur is not None and self.cur.ident == _thread.get_ident()

    def tracer(self, frame, event, arg):
        code = frame.f_code
        ok = self.known.get(code)
        if ok is None:
            ok = self.known[code] = code.co_filename.startswith(self.prefix)
        if not ok:
            return None
        if code.co_name == '<module>':
            # the interpreter holds the lock of a module that is being imported: no preemption until it is
            self.cur.importing += 1
            return self.module
        if self.opcodes:
            frame.f_trace_opcodes = True
        self.event(frame)
        return self.local

    def module(self, frame, event, arg):
        if event == 'return':
            self.cur.importing -= 1
        return self.module

    def local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line') or event == 'return':
            self.event(frame)
        return self.local

    def event(self, frame):
        if self.cur.importing:
            return
        self.where = (frame.f_code.co_name, frame.f_lineno)
        if self.policy == 'store':
            t = self.cur
            self.hot = t.stored
            t.stored = frame.f_lasti >= 0 and frame.f_code.co_code[frame.f_lasti] in STORES
        self.step()

    def step(self):
        """a point where the running thread may be preempted"""
        self.n += 1
        if self.decs is not None:
            k = self.at.get((self.n, 0))
            if k is not None:
                self.hand_over(k)
            return
        if self.policy == 'pct':
            if self.n in self.change:
                self.cur.prio = -self.n
                r = self.ready()
                best = max(r, key=lambda t: t.prio)
                if best is not self.cur:
                    self.hand_over(best.k)
        elif self.policy == 'serial':
            return
        else:
            p = self.p
            if self.policy == 'store':
                p = .4 if self.hot else p / 20
            if self.policy == 'burst':
                p = .6 if (self.n // 40) % max(2, int(1 / self.p)) == 0 else 0
            if p and self.rng.random() < p:
                r = [t for t in self.ready() if t is not self.cur]
                if r:
                    self.hand_over(r[self.rng.randrange(len(r))].k)

    def ready(self):
        return [t for t in self.threads if t.state == 'ready']

    def hand_over(self, k):
        to = self.threads[k] if k < len(self.threads) else None
        if to is None or to is self.cur or to.state != 'ready':
            return
        self.record.append((self.n, k, 0))
        if self.where:
            self.points.add(self.where)
        self.preemptions += 1
        self.go(to)

    def go(self, to):
        me = self.cur
        self.switches += 1
        self.cur = to
        # a traced function must not be traced while it is parked
        to.wake.release()
        if me is not None:
            me.wake.acquire()

    def pick(self):
        r = self.ready()
        if not r:
            w = [t for t in self.threads if t.state == 'blocked' and t.may_time_out]
            if w:
                t = w[0]
                t.state, t.timed_out = 'ready', True
                return t
            return None
        if self.decs is not None:
            k = self.at.get((self.n, 1))
            for t in r:
                if t.k == k:
                    return t
            return r[0]
        if self.policy == 'pct':
            return max(r, key=lambda t: t.prio)
        if self.policy == 'serial':
            return r[0]
        return r[self.rng.randrange(len(r))]

    def block(self, lock, may_time_out=False):
        me = self.cur
        me.state, me.waits, me.may_time_out, me.timed_out = 'blocked', lock, may_time_out, False
        to = self.pick()
        if to is None:
            self.failure = Deadlock('deadlock', 'all the threads are blocked on locks (at %r)' % (self.where,))
            self.main.release()
            me.wake.acquire()       # forever: the process is about to end
        self.record.append((self.n, to.k, 1))
        if to is not me:
            self.go(to)
        me.waits = None
        return not me.timed_out

    def unblock(self, lock):
        for t in self.threads:
            if t.state == 'blocked' and t.waits is lock:
                t.state = 'ready'
        self.step()

    # ---- threads
    def spawn(self, fn, name=None):
        t = T(len(self.threads), name)
        t.prio = self.rng.random()
        self.threads.append(t)
        started = real_lock()
        started.acquire()

        def body():
            t.ident = _thread.get_ident()
            started.release()
            t.wake.acquire()
            sys.settrace(self.tracer)
            try:
                fn()
            except BaseException as e:
                t.error = e
            finally:
                sys.settrace(None)
            t.state = 'finished'
            to = self.pick()
            if to is None:
                if any(x.state == 'blocked' for x in self.threads):
                    self.failure = Deadlock('deadlock', 'the remaining threads are blocked on locks')
                self.cur = None
                self.main.release()
            else:
                self.record.append((self.n, to.k, 1))
                self.switches += 1
                self.cur = to
                to.wake.release()
        real_start(body, ())
        started.acquire()
        return t

    def run(self, fns, ctx=None, timeout=60):
        """runs the functions as threads until all of them are done"""
        global active
        for f in fns:
            self.spawn(f)
        active = self
        first = self.pick()
        self.record.append((self.n, first.k, 1))
        self.cur = first
        first.wake.release()
        ok = self.main.acquire(True, timeout)
        active = None
        self.cur = None
        if ctx is not None:
            ctx.sched = [list(r) for r in self.record] if len(self.record) < 20000 else None
            ctx.steps += self.n
            ctx.log('threads', self.n, self.record)
            ctx.state('threads', tuple(self.record))
            ctx.fault('THREAD_PREEMPTION', self.preemptions)
            for k, v in (('thread_switches', self.switches), ('thread_events', self.n), ('threads', len(self.threads))):
                ctx.extra[k] = ctx.extra.get(k, 0) + v
            if self.switches:
                ctx.nontrivial = True
        if self.failure:
            raise self.failure
        if not ok:
            raise Violation('hang:threads', 'the threads did not finish')
        for t in self.threads:
            if t.error is not None:
                return t.error
        return None


def draw(rng):
    return {'policy': rng.choice(['random', 'random', 'burst', 'pct', 'pct', 'store', 'store', 'serial']), 'p': rng.choice([.5, .3, .1, .05, .02, .01]),
            'opcodes': rng.random() < .5, 'horizon': rng.choice([50, 200, 1000, 5000]), 'sseed': rng.randrange(1 << 40)}


def make(s, decs=None, also=()):
    return Sched(s['sseed'], s['policy'], s['p'], s['opcodes'], decs, s['horizon'], also)
