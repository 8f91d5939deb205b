"""What an operation gave, bit by bit."""
import os
import pickle
import re

import numpy as np

DEPTH = 12


def flat(o, at='', out=None, deep=0, seen=None, shared=False):
    """[(place, value)] of everything an object is made of, to be compared bit by bit; shared: but for what metrics and models keep of their uses"""
    out = [] if out is None else out
    seen = {} if seen is None else seen
    if deep > DEPTH:
        return out
    if isinstance(o, float):
        o = np.float64(o)
    if o is None or isinstance(o, (bool, int, str, bytes)):
        out.append((at, re.sub(r'0x[0-9a-f]+', '0x', repr(o)) if isinstance(o, str) else repr(o)))
        return out
    if id(o) in seen and not (shared and isinstance(o, np.ndarray)):
        out.append((at, 'again ' + seen[id(o)][0]))
        return out
    seen[id(o)] = at, o
    name = type(o).__name__
    sub = lambda x, k: flat(x, at + k, out, deep + 1, seen, shared)
    if isinstance(o, np.ndarray) and o.dtype != object:
        out.append((at, '%s %s %s' % (o.dtype.str, o.shape, o.ravel()[:3].tolist()), o.tobytes()))
    elif isinstance(o, np.ndarray):
        out.append((at, 'objects %s' % (o.shape,)))
        for i, x in enumerate(o.ravel().tolist()):
            sub(x, '[%d]' % i)
    elif isinstance(o, np.generic):
        out.append((at, '%s %r' % (o.dtype.str, o.item()), o.tobytes()))
    elif isinstance(o, dict):
        out.append((at, name, len(o)))
        for k, x in o.items():
            sub(x, '[%s]' % (k if isinstance(k, (str, int, tuple)) else type(k).__name__))
    elif isinstance(o, (list, tuple)):
        out.append((at, name, len(o)))
        for i, x in enumerate(o):
            sub(x, '[%d]' % i)
    elif isinstance(o, (set, frozenset)):
        out.append((at, name, sorted(map(repr, o))))
    elif name == 'DataArray':
        out.append((at, 'DataArray %s %s' % (o.name, o.dims)))
        sub(o.values, '.values')
        for k in o.coords:
            sub(np.asarray(o.coords[k].values), '.' + str(k))
    elif hasattr(o, 'toarray'):
        out.append((at, name))
        sub(o.toarray(), '.toarray')
    elif type(o).__module__.startswith('rankeval'):
        out.append((at, name))
        for k in sorted(vars(o)):
            if not (shared and ('metric' in type(o).__module__ or k.startswith('_'))):
                sub(vars(o)[k], '.' + k)
        if name in ('Dataset', 'RTEnsemble') or 'metric' in type(o).__module__:
            out.append((at, str(o)))
    elif type(o).__module__ in ('sim.streams', 'threading', '_thread', '_io'):
        out.append((at, name))
    else:
        out.append((at, name, re.sub(r'0x[0-9a-f]+', '0x', str(o))))
    return out


def forked(fn):
    """the value of fn(), executed in a process of its own; None if that died"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(fn(), f)
            os._exit(0)
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(9)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    st = os.waitpid(pid, 0)[1]
    if os.WIFSIGNALED(st):
        os.kill(os.getpid(), os.WTERMSIG(st))      # reported as for any run
    if st:
        raise RuntimeError('the process of the operation ended with %d' % st)
    return pickle.loads(b)


def show(x):
    return ' '.join(map(str, x[:2]))[:150]
