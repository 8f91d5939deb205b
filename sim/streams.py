"""Streams of the callers, whose own code the scheduler can preempt."""
import io as pyio

ERRORS = {'error': lambda: OSError(5, 'injected'), 'interrupt': KeyboardInterrupt, 'value': lambda: ValueError('injected')}
FILE = __file__


class Reader:
    """an object with just read and readline"""

    def __init__(self, content, faults=None):
        self.b, self.faults, self.n, self.fired = pyio.BytesIO(content), faults or {}, 0, []

    def fault(self):
        k = self.faults.get(self.n)
        self.n += 1
        if k:
            self.fired.append('STREAM_' + k.upper())
            raise ERRORS[k]()

    def read(self, n=-1):
        self.fault()
        d = self.b.read(n)
        return d

    def readline(self, n=-1):
        self.fault()
        line = self.b.readline(n)
        return line


class Raw(pyio.RawIOBase):
    """a raw stream, below a buffered one; it gives a few bytes at a time"""

    def __init__(self, content, faults=None, step=37):
        self.c, self.pos, self.faults, self.n, self.fired, self.step = content, 0, faults or {}, 0, [], step

    def readable(self):
        return True

    def readinto(self, b):
        k = self.faults.get(self.n)
        self.n += 1
        if k:
            self.fired.append('STREAM_' + k.upper())
            raise ERRORS[k]()
        n = 1 + (self.n * 31) % self.step
        d = self.c[self.pos:self.pos + min(n, len(b))]
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)


class Writer:
    """an object with just write"""

    def __init__(self, faults=None):
        self.s, self.faults, self.n, self.fired = [], faults or {}, 0, []

    def write(self, t):
        k = self.faults.get(self.n)
        self.n += 1
        if k:
            self.fired.append('STREAM_' + k.upper())
            raise ERRORS[k]()
        self.s.append(t)
        return len(t)

    def text(self):
        return ''.join(self.s)
