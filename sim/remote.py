"""A process of another hash seed, in which objects are received: start() there, ask(...) here; one forked process per request."""
import os
import pickle
import signal
import socket
import subprocess
import sys

NAME = None


def start(module, seed=7919):
    """the process ends with this one"""
    global NAME, KEEP
    NAME = '\0rankeval-sim-' + os.urandom(12).hex()
    s = socket.socket(socket.AF_UNIX)
    s.bind(NAME)
    s.listen(16)
    r, w = os.pipe()
    env = dict(os.environ, PYTHONHASHSEED=str(seed), LD_PRELOAD=os.path.join(os.environ['SIM_BUILD'], 'libsimio.so'))
    subprocess.Popen([sys.executable, '-m', 'sim.remote', module, str(s.fileno()), str(r), os.getcwd()], env=env, pass_fds=[s.fileno(), r], stdin=subprocess.DEVNULL)
    s.close()
    os.close(r)
    KEEP = w


def ask(request):
    """what module.serve(request) gives there; None if it died"""
    with socket.socket(socket.AF_UNIX) as c:
        c.connect(NAME)
        with c.makefile('wb') as f:
            f.write(request)
        c.shutdown(socket.SHUT_WR)
        with c.makefile('rb') as f:
            b = f.read()
    return pickle.loads(b) if b else None


def main():
    import importlib
    import select
    module, fd, end = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    from sim import build, loader
    loader.install(build.extensions(os.environ['SIM_BUILD']))
    del os.environ['LD_PRELOAD']
    import warnings
    warnings.simplefilter('ignore')
    m = importlib.import_module(module)
    m.prepare()
    s = socket.socket(fileno=fd)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        if end in select.select([s, end], [], [])[0]:
            return
        c, _ = s.accept()
        if os.fork() == 0:
            try:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                s.close()
                with c.makefile('rb') as f:
                    b = f.read()
                r = pickle.dumps(m.serve(b))
                with c.makefile('wb') as f:
                    f.write(r)
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(0)
        c.close()


if __name__ == '__main__':
    main()
