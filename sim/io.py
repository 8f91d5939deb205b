"""Python side of the I/O seam (native/simio.cpp)."""
import contextlib, ctypes, errno, gc, os, signal

OPS = ('OPENR OPENW OPENDIR CLOSER CLOSEW READ WRITE STAT MKDIR RMDIR UNLINK RENAME ATTR TRUNC SYNC LINK NET LOCK '
       'SLEEP USER').split()
KINDS = ('NONE ERR SHORT EINTR SIGINT SIGINT_EINTR CRASH_BEFORE CRASH_AFTER TORN STICKY FLIP ZERO EOF').split()
OP = {n: i for i, n in enumerate(OPS)}
KIND = {n: i for i, n in enumerate(KINDS)}

# which faults make sense at which operation (STAT never fails by itself: it would only ask for more tests)
APPLICABLE = {
    'ERR': {'OPENR', 'OPENW', 'OPENDIR', 'CLOSEW', 'READ', 'WRITE', 'MKDIR', 'RMDIR', 'UNLINK', 'RENAME', 'ATTR',
            'TRUNC', 'SYNC', 'LINK', 'NET'},
    'SHORT': {'READ', 'WRITE', 'NET'}, 'EINTR': {'OPENR', 'OPENW', 'READ', 'WRITE'},
    'SIGINT': set(OPS), 'SIGINT_EINTR': {'OPENR', 'OPENW', 'READ', 'WRITE'},
    'CRASH_BEFORE': set(OPS), 'CRASH_AFTER': set(OPS), 'TORN': {'WRITE'}, 'STICKY': {'WRITE', 'MKDIR', 'OPENW'},
    'FLIP': {'READ'}, 'ZERO': {'READ'}, 'EOF': {'READ'},
}
ERRNOS = {'OPENR': [errno.EIO, errno.EMFILE, errno.ENOMEM, errno.EACCES], 'OPENW': [errno.EIO, errno.ENOSPC, errno.EMFILE, errno.EROFS],
          'OPENDIR': [errno.EIO, errno.EMFILE, errno.EACCES], 'CLOSEW': [errno.EIO, errno.ENOSPC, errno.EDQUOT],
          'READ': [errno.EIO, errno.ENOMEM, errno.ESTALE], 'WRITE': [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG],
          'MKDIR': [errno.ENOSPC, errno.EIO, errno.EROFS], 'RMDIR': [errno.EIO, errno.EBUSY], 'UNLINK': [errno.EIO, errno.EPERM],
          'RENAME': [errno.EIO, errno.ENOSPC, errno.EBUSY], 'ATTR': [errno.EIO, errno.EPERM], 'TRUNC': [errno.EIO],
          'SYNC': [errno.EIO], 'LINK': [errno.EIO], 'NET': [errno.ECONNRESET, errno.ETIMEDOUT, errno.EPIPE]}

_c = ctypes.CDLL(None)
available = hasattr(_c, 'simio_init')
if available:
    _c.simio_fault.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_long, ctypes.c_long]
    _c.simio_next.restype = _c.simio_nlog.restype = ctypes.c_long
    _c.simio_random.argtypes = [ctypes.c_int, ctypes.c_uint64]
    _c.simio_dirseed.argtypes = [ctypes.c_uint64]
    _c.simio_alloc.argtypes = [ctypes.c_int, ctypes.c_long]
    _c.simio_alloc_count.restype = _c.simio_alloc_fired.restype = ctypes.c_long
    _c.simio_point.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_long, ctypes.POINTER(ctypes.c_long)]


class Event(tuple):
    """(op, kind, size, ret, path)"""
    op = property(lambda s: s[0])
    kind = property(lambda s: s[1])
    size = property(lambda s: s[2])
    ret = property(lambda s: s[3])
    path = property(lambda s: s[4])


def init(root):
    _c.simio_init(root.encode())


def device(path):
    """the folder is a file system of its own, as mounted folders are"""
    _c.simio_device(path.encode())


def private():
    _c.simio_private()


def seed(n):
    _c.simio_random(1, n & (2**64 - 1))
    _c.simio_dirseed(n & 0xffff if n & 0x10000 else 0)


def reset():
    _c.simio_reset()


def arm(faults=()):
    """faults: list of (index of the point, kind, arg, arg2)"""
    _c.simio_reset()
    for idx, kind, a, b in faults:
        _c.simio_fault(idx, KIND[kind], a, b)
    _c.simio_arm(1)


def disarm():
    _c.simio_arm(0)


def resume():
    """after a disarm, with the same faults and numbers"""
    _c.simio_arm(1)


def log():
    op, kind, size, ret = ctypes.c_int(), ctypes.c_int(), ctypes.c_long(), ctypes.c_long()
    buf = ctypes.create_string_buffer(121)
    out = []
    for i in range(_c.simio_nlog()):
        _c.simio_entry(ctypes.c_long(i), ctypes.byref(op), ctypes.byref(kind), ctypes.byref(size), ctypes.byref(ret), buf)
        out.append(Event((OPS[op.value], KINDS[kind.value], size.value, ret.value, buf.value.decode('utf8', 'replace'))))
    return out


def fired(n):
    return [bool(_c.simio_fired(i)) for i in range(n)]


def sticky_fired():
    return _c.simio_sticky_fired()


def alloc(on, fail=-1):
    _c.simio_alloc(1 if on else 0, fail)


def alloc_count():
    return _c.simio_alloc_count()


def alloc_fired():
    return _c.simio_alloc_fired()


def owner():
    _c.simio_owner()


def remote(fd):
    _c.simio_remote(fd)


def nfds():
    return _c.simio_nfds()


def point(op, label, size=0):
    """a point of the simulator reached from Python code (network stub)"""
    a = ctypes.c_long(0)
    k = _c.simio_point(OP[op], label.encode(), size, ctypes.byref(a))
    return KINDS[k], a.value


def pick(rng, kinds):
    """a fault whose position is still relative: resolved against the log of a fault-free execution"""
    return {'kind': rng.choice(kinds), 'at': round(rng.random(), 6), 'arg': rng.randrange(1 << 16), 'arg2': rng.randrange(1, 256)}


def resolve(fault, events, only=None):
    """(index, kind, arg, arg2) of the fault in an execution whose events are known, or None"""
    kind = fault['kind']
    ok = APPLICABLE[kind]
    if 'ops' in fault:
        ok = ok & set(fault['ops'])
    cand = [i for i, e in enumerate(events) if e.op in ok and (only is None or only(e))]
    if not cand:
        return None
    i = cand[min(int(fault['at'] * len(cand)), len(cand) - 1)]
    e = events[i]
    arg, arg2 = fault.get('arg', 0), fault.get('arg2', 1)
    if kind in ('ERR', 'STICKY'):
        es = ERRNOS[e.op] if kind == 'ERR' else [errno.ENOSPC, errno.EDQUOT, errno.EIO]
        arg = es[arg % len(es)]
    elif kind in ('SHORT', 'TORN'):
        n = e.size
        if n > 1:
            arg = 1 + arg % (n - 1) if e.op == 'WRITE' or arg % 3 else 1 + arg % min(n - 1, 40)
    return (i, kind, arg, arg2)
