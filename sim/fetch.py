"""Calls of load_dataset executed by nodes: forked processes sharing the local disk and the simulated network."""
import gc, hashlib, json, os, select, shutil, signal, socket, struct, sys

from sim import inject, io, net
from sim.core import Invalid, Violation


def tree(path):
    """relative path -> content (None for folders)"""
    out = {}
    for root, dirs, files in os.walk(path):
        for d in dirs:
            out[os.path.relpath(os.path.join(root, d), path)] = None
        for f in files:
            with open(os.path.join(root, f), 'rb') as h:
                out[os.path.relpath(os.path.join(root, f), path)] = hashlib.md5(h.read()).hexdigest()
    return out


def body(server, call, inj=None):
    """executed by a node; what it reports"""
    from rankeval.dataset import datasets_fetcher as df
    server.install()
    res = {}
    c = None
    try:
        if inj is not None:
            with inj:
                c = df.load_dataset(**call)
        else:
            c = df.load_dataset(**call)
    except BaseException as e:
        res = {'status': 'err', 'err': repr(e)[:300], 'oserror': isinstance(e, OSError), 'interrupt': isinstance(e, KeyboardInterrupt)}
        del e
    gc.collect()    # unfinished operations of a handled error end here, still under faults
    io.disarm()
    if not res:
        try:
            res = {'status': 'ok', 'got': net.summary(c, call.get('with_models', True)) if c is not None else None}
        except Exception as e:
            res = {'status': 'ok', 'got': {'unusable': repr(e)[:300]}}
    res['requests'] = server.requests
    res['http'] = server.fired
    if inj is not None:
        res['count'], res['injected'] = inj.n, inj.fired
    return res


def set_home(home, env):
    if env == 'HOME':
        os.environ.pop('RANKEVAL_DATA', None)
        os.environ['HOME'] = home
    else:
        os.environ['RANKEVAL_DATA'] = home


def call_node(ctx, server, call, faults=(), inj=None, quiet=False, seed=0):
    """one call in a node of its own; (result, log of its operations)"""
    r, w = os.pipe()
    io.arm(faults)
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            io.seed(seed)
            res = body(server, call, inj)
            data = json.dumps(res).encode()
            while data:
                data = data[os.write(w, data):]
        except BaseException as e:
            os.write(2, repr(e).encode())
            os._exit(99)
        os._exit(0)
    os.close(w)
    buf = b''
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    io.disarm()
    ev = io.log()
    if not quiet:
        ctx.io(ev)
    if os.WIFSIGNALED(st):
        raise Violation('crash', 'the process died by signal %d' % os.WTERMSIG(st))
    if os.WEXITSTATUS(st) == 137:
        return {'status': 'killed', 'requests': [], 'http': []}, ev
    if os.WEXITSTATUS(st):
        raise RuntimeError('the node ended with %d' % os.WEXITSTATUS(st))
    res = json.loads(buf.decode())
    if not quiet:
        for k in res['http']:
            ctx.fault(k)
        if res.get('injected'):
            ctx.fault('RAISED_AT_LINE')
        ctx.log('call', res['status'], res.get('err', '').split('(')[0], res['requests'])
    return res, ev


def snapshot(src, dst):
    shutil.rmtree(dst, ignore_errors=True)
    if os.path.exists(src):
        shutil.copytree(src, dst)


def rehearse(ctx, scratch, home, server, call, inj=None, seed=0):
    """the operations of a fault-free execution of the call from the present state, which is restored"""
    snap = os.path.join(os.path.dirname(scratch), os.path.basename(scratch) + '.snap')
    snapshot(home, snap)
    try:
        res, ev = call_node(ctx, server, call, inj=inj, quiet=True, seed=seed)
    finally:
        shutil.rmtree(home, ignore_errors=True)
        if os.path.exists(snap):
            shutil.move(snap, home)
    return res, ev


# ------------------------------------------------------------------------------------------- several nodes at a time
class Remote:
    """a node which stops at every operation until it is given the turn"""
    Q = struct.Struct('ii q 120s')

    def __init__(self, i, server, call, seed, others):
        self.i = i
        self.ctl, child = socket.socketpair()
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                for o in others:
                    o.ctl.close()
                    os.close(o.out)
                self.ctl.close()
                os.close(r)
                io.private()
                io.reset()
                io.seed(seed)
                io.remote(child.fileno())
                io.arm()
                res = body(server, call)
                data = json.dumps(res).encode()
                while data:
                    data = data[os.write(w, data):]
                os._exit(0)
            except BaseException as e:
                os.write(2, repr(e).encode())
            os._exit(99)
        child.close()
        os.close(w)
        self.out = r
        self.res = None
        self.state = 'running'
        self.request = None
        self.killed = False
        self.wait()

    def wait(self):
        """until the node asks for its next operation or ends"""
        buf = b''
        while len(buf) < self.Q.size:
            b = self.ctl.recv(self.Q.size - len(buf))
            if not b:
                return self.finish()
            buf += b
        op, _, size, path = self.Q.unpack(buf)
        self.request = (io.OPS[op], size, path.split(b'\0', 1)[0].decode('utf8', 'replace'))
        self.state = 'blocked'

    def finish(self):
        self.state = 'done'
        self.request = None
        buf = b''
        while True:
            b = os.read(self.out, 1 << 16)
            if not b:
                break
            buf += b
        _, st = os.waitpid(self.pid, 0)
        os.close(self.out)
        self.ctl.close()
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) != signal.SIGKILL:
            raise Violation('crash', 'node %d died by signal %d' % (self.i, os.WTERMSIG(st)))
        if self.killed or os.WIFSIGNALED(st) or os.WEXITSTATUS(st) == 137:
            self.res = {'status': 'killed', 'requests': []}
        elif os.WEXITSTATUS(st):
            raise RuntimeError('node %d ended with %d' % (self.i, os.WEXITSTATUS(st)))
        else:
            self.res = json.loads(buf.decode())

    def step(self, kind='NONE', arg=0):
        req = self.request
        self.ctl.sendall(struct.pack('qqq', io.KIND[kind], arg, 1))
        if kind in ('CRASH_BEFORE', 'CRASH_AFTER', 'TORN'):
            self.killed = True
        self.state = 'running'
        self.wait()
        return req
