"""Network stub: the server publishing the catalogue and the archives, behind socket.create_connection."""
import errno, gzip, hashlib, io as pyio, json, os, random, socket, tarfile

import numpy as np

from sim import data, io

HOST = 'rankeval.isti.cnr.it'
MSLR = 'https://www.microsoft.com/en-us/research/project/mslr/'
# what the real server holds: dataset -> (folder of the parts or fold name, with validation, licence file)
PUBLISHED = {
    'istella-full': ('full', False, 'istella-letor-LA.txt', 'istella-letor/dataset/istella-letor.tar.gz', 'istella-letor/models/istella-letor-models.tar.gz'),
    'istella-sample': ('sample', True, 'istella-letor-LA.txt', 'istella-s-letor/dataset/istella-s-letor.tar.gz', 'istella-s-letor/models/istella-s-letor-models.tar.gz'),
    'msn10k': ('Fold', True, None, 'msn10k/dataset/msn10k.tar.gz', 'msn10k/models/msn10k-models.tar.gz'),
    'msn30k': ('Fold', True, None, 'msn30k/dataset/msn30k.tar.gz', 'msn30k/models/msn30k-models.tar.gz'),
}
FOLDS = 5


def catalogue(tmp):
    """the catalogue written by the library itself"""
    import rankeval.dataset.write_json_dataset_catalogue as w
    old = os.getcwd()
    os.makedirs(tmp, exist_ok=True)
    os.chdir(tmp)
    try:
        w.main()
        names = [f for f in os.listdir('.') if f.endswith('.json')]
        with open(names[0], 'rb') as f:
            return f.read()
    finally:
        os.chdir(old)


def tgz(files):
    b = pyio.BytesIO()
    with tarfile.open(fileobj=b, mode='w', format=tarfile.GNU_FORMAT) as t:
        dirs = set()
        for name, content in files:
            d = os.path.dirname(name)
            if d and d not in dirs:
                dirs.add(d)
                i = tarfile.TarInfo(d)
                i.type, i.mode = tarfile.DIRTYPE, 0o755
                t.addfile(i)
            i = tarfile.TarInfo(name)
            i.size, i.mode = len(content), 0o644
            t.addfile(i, pyio.BytesIO(content))
    return gzip.compress(b.getvalue(), mtime=0)


def md5(*a):
    h = hashlib.md5()
    for x in a:
        h.update(x)
    return h.hexdigest()


class World:
    """contents published, per version"""

    def __init__(self, seed, rows=6, models=3):
        self.seed, self.rows, self.models = seed, rows, models
        self.cache = {}

    def parts(self, name, version, fold):
        """{part: (X, y, q)}"""
        out = {}
        folder, vali, lic, _, _ = PUBLISHED[name]
        for k, part in enumerate(['train', 'vali', 'test']):
            if part == 'vali' and not vali:
                continue
            s = hash((self.seed, sorted(PUBLISHED).index(name), version, fold or 0, k)) & 0xfffffff
            rng = random.Random(s)
            out[part] = data.table(s, self.rows + rng.randrange(0, 5), 4, 3, 'small', 'seq')
        return out

    def model_files(self, name, version):
        rng = random.Random('%s %s %s' % (self.seed, name, version))
        files = []
        folder = PUBLISHED[name][0]
        subs = ['%s%d/' % (folder, f) for f in range(1, FOLDS + 1)] if folder == 'Fold' else ['', 'sub/']
        bare = random.Random('bare %s %s' % (self.seed, name))
        if bare.random() < .35:     # no models have been published for some folds
            k = bare.randrange(len(subs))
            subs = [s for i, s in enumerate(subs) if i == k or bare.random() < .5]
        for sub in subs:
            for i in range(self.models):
                files.append(('%sm%d.%s.xml' % (sub, i, rng.choice(['quickrank', 'lightgbm', 'xgb'])), ('%s v%d %s %d\n' % (name, version, sub, i)).encode() *
                              rng.choice([1, 3, 90])))
        return files

    def licence(self, name, version):
        return 'License of %s, version %d.\nSecond line é\nlast line without end' % (name, version)

    def archive(self, name, version, what):
        key = (name, version, what)
        if key not in self.cache:
            folder, vali, lic, _, _ = PUBLISHED[name]
            if what == 'models':
                files = self.model_files(name, version)
            else:
                files = []
                for fold in (range(1, FOLDS + 1) if folder == 'Fold' else [None]):
                    for part, (X, y, q) in self.parts(name, version, fold).items():
                        rows = []
                        for x, l, i in zip(X, y, q):
                            rows.append('%d qid:%d %s' % (l, i, ' '.join('%d:%d' % (c + 1, v) for c, v in enumerate(x))))
                        sub = '%s%d/' % (folder, fold) if fold else folder + '/'
                        files.append((sub + part + '.txt', ('\n'.join(rows) + '\n').encode()))
                if lic:
                    files.append((lic, self.licence(name, version).encode()))
            self.cache[key] = tgz(files)
        return self.cache[key]

    def expected(self, name, version, fold, with_models):
        out = {}
        for part, (X, y, q) in self.parts(name, version, fold).items():
            out[part] = digest(X, y, q)
        lic = PUBLISHED[name][2]
        out['license'] = self.licence(name, version) if lic else None
        if with_models:
            sub = 'Fold%d/' % fold if fold else ''
            out['models'] = sorted([os.path.basename(n), md5(c)] for n, c in self.model_files(name, version) if n.startswith(sub))
        return out


def digest(X, y, q):
    return md5(repr(X.shape).encode(), np.ascontiguousarray(X, dtype=np.float32).tobytes(), np.ascontiguousarray(y, dtype=np.float32).tobytes(),
               np.ascontiguousarray(q, dtype=np.int64).tobytes())


def summary(c, with_models):
    """what a container holds"""
    out = {}
    for part, ds in (('train', c.train_dataset), ('vali', c.validation_dataset), ('test', c.test_dataset)):
        if ds is not None:
            out[part] = digest(ds.X, ds.y, ds.get_qids_dataset())
    out['license'] = c.license_agreement
    if with_models:
        fs = []
        for f in c.model_filenames if c.model_filenames is not None else ['no list']:
            try:
                with open(f, 'rb') as h:
                    fs.append([os.path.basename(f), md5(h.read())])
            except OSError as e:
                fs.append([os.path.basename(f), 'missing'])
        out['models'] = sorted(fs)
    return out


def matches(got, want):
    lic = got['license'] == want['license'] if want['license'] is not None else MSLR in (got['license'] or '')
    return lic and {k: v for k, v in got.items() if k != 'license'} == {k: v for k, v in want.items() if k != 'license'}


class Raw(pyio.RawIOBase):
    def __init__(self, body, end):
        self.body, self.pos, self.end = body, 0, end

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), 4096, len(self.body) - self.pos)
        kind, arg = io.point('NET', 'recv', n)
        if kind == 'ERR':
            raise OSError(arg, os.strerror(arg))
        if kind == 'SHORT' and n > 1:
            n = 1 + arg % (n - 1)
        if n == 0 and isinstance(self.end, OSError):
            raise self.end
        b[:n] = self.body[self.pos:self.pos + n]
        self.pos += n
        return n


class Sock:
    def __init__(self, server):
        self.server, self.out = server, b''

    def setsockopt(self, *a):
        pass
    settimeout = setsockopt

    def gettimeout(self):
        return None

    def sendall(self, b, *a):
        kind, arg = io.point('NET', 'send', len(b))
        if kind == 'ERR':
            raise OSError(arg, os.strerror(arg))
        self.out += bytes(b)

    def makefile(self, mode='r', *a, **k):
        body, end = self.server.respond(self.out)
        self.out = b''
        return pyio.BufferedReader(Raw(body, end))

    def shutdown(self, *a):
        pass
    close = detach = shutdown

    def fileno(self):
        return -1


class Server:
    """faults: {'what': 'catalogue'|'dataset'|'models', 'kind': ..., 'at': relative position}"""

    def __init__(self, world, version, cat, faults=(), offline=False):
        self.world, self.version, self.cat, self.faults, self.offline = world, version, cat, faults, offline
        self.requests, self.fired = [], []

    def connect(self, address, *a, **k):
        kind, arg = io.point('NET', 'connect', 0)
        if kind == 'ERR':
            raise OSError(arg, os.strerror(arg))
        if address[0] != HOST:
            raise OSError(errno.EHOSTUNREACH, 'no such host in this world: %s' % address[0])
        return Sock(self)

    def install(self):
        socket.create_connection = self.connect

    def respond(self, req):
        path = req.split(b' ', 2)[1].decode() if req.count(b' ') >= 2 else '?'
        if path.startswith('http://'):
            path = '/' + path.split('/', 3)[3]
        p = path.split('rankeval-datasets/', 1)[-1]
        what = body = None
        if p == 'dataset_dictionary.json':
            what, body = 'catalogue', self.cat
        else:
            for name, v in PUBLISHED.items():
                if p == v[3]:
                    what, body = 'dataset', self.world.archive(name, self.version, 'dataset')
                elif p == v[4]:
                    what, body = 'models', self.world.archive(name, self.version, 'models')
        self.requests.append(what or path)
        status, headers, end = '200 OK', ['Content-Type: application/octet-stream'], None
        if what is None:
            status, body = '404 Not Found', b'<html>no such file</html>'
        if self.offline and what in ('dataset', 'models'):
            status, body = '503 Service Unavailable', b'<html>closed</html>'
        length = True
        for f in self.faults:
            if f['what'] != what or f.get('done'):
                continue
            if f['kind'] == 'nolength':      # a server which closes the connection at the end: not a fault
                length = False
                continue
            f['done'] = True
            self.fired.append('HTTP_' + f['kind'].upper())
            k = int(f['at'] * len(body))
            if f['kind'] == 'truncated':
                headers.append('Content-Length: %d' % len(body))
                length, body = False, body[:k]
            elif f['kind'] == 'truncated_nolength':
                length, body = False, body[:k]
            elif f['kind'] == 'reset':
                headers.append('Content-Length: %d' % len(body))
                length, body, end = False, body[:k], OSError(errno.ECONNRESET, 'reset')
            elif f['kind'] == 'refused':
                raise OSError(errno.ECONNREFUSED, 'refused')
            elif f['kind'] == 'html':
                body = b'<html><body>Please log in</body></html>'
            elif f['kind'] == 'empty':
                body = b''
            elif f['kind'] == 'closed':
                return b'', None
            elif f['kind'] == 'garbled':
                return b'\x00\x01garbage\r\n\r\n', None
            elif f['kind'] == 'unzipped':
                body = gzip.decompress(body)[:k] if what != 'catalogue' else body[:k]
            else:
                status = {'404': '404 Not Found', '500': '500 Internal Server Error', '503': '503 Service Unavailable',
                          '403': '403 Forbidden', '204': '204 No Content'}[f['kind']]
                body = b'<html>error</html>' if f['kind'] != '204' else b''
        if length:
            headers.append('Content-Length: %d' % len(body))
        headers.append('Connection: close')
        return ('HTTP/1.1 %s\r\n%s\r\n\r\n' % (status, '\r\n'.join(headers))).encode() + body, end


HTTP_FAULTS = ['truncated', 'truncated', 'truncated_nolength', 'truncated_nolength', 'reset', 'refused', 'html', 'empty', 'closed', 'garbled', 'unzipped',
               '404', '500', '503', '403', '204']
