"""File system layer: containment in a scratch directory, symbolic text files, injected faults and crashes.

The patched functions are installed both in the symbolic process and in the plain replay process, so that
I/O operations are counted the same way in both.
"""
import builtins
import io
import os
import shutil
import tempfile

REAL = {
    'open': builtins.open, 'replace': os.replace, 'rename': os.rename, 'remove': os.remove, 'unlink': os.unlink,
    'rmdir': os.rmdir, 'mkdir': os.mkdir, 'rmtree': shutil.rmtree, 'copyfile': shutil.copyfile,
    'link': os.link, 'symlink': os.symlink, 'truncate': os.truncate, 'copy2': shutil.copy2, 'copy': shutil.copy,
    'move': shutil.move, 'stat': os.stat, 'lstat': os.lstat, 'listdir': os.listdir, 'lexists': os.path.lexists,
}
_isfile = os.path.isfile


class Crash(BaseException):
    """The process dies here."""


class Escape(BaseException):
    """The code under test tried to change something outside the scratch directory."""


class State:
    def __init__(self):
        self.root = None        # scratch directory of the running path
        self.symbolic = False
        self.fault = None       # callable(op, path) -> None | 'error' | 'crash'
        self.dead = False
        self.symnames = False
        self.dense = False      # offer every single write call to the schedule, not only the 1st, 2nd, 4th, 8th ...
        self.log = []


S = State()


def canon(path):
    """The name under which a file with an equal (symbolic) path was created."""
    if S.root is None or not S.symbolic or isinstance(path, int):
        return path
    from engine import strops, sym
    p = os.fspath(path)
    if type(p) is not str:
        return path
    if not S.symnames:
        if not sym.has(p):
            return path
        S.symnames = True
    d = os.path.join(os.getcwd(), p)
    if not d.startswith(S.root + os.sep):
        return path
    rest = d[len(S.root) + 1:].split('/')
    d = S.root
    found = False
    for i, c in enumerate(rest):
        n = d + '/' + c
        if c and c not in ('.', '..') and not REAL['lexists'](n):
            try:
                names = sorted(REAL['listdir'](d))
            except OSError:
                names = []
            for x in names:
                if len(x) == len(c) and (sym.has(x) or sym.has(c)) and strops.eq(x, c):
                    n = d + '/' + x
                    found = True
                    break
            else:
                return '/'.join([d] + rest[i:]) if found else path
        d = n
    return d if found else path


def inside(path):
    p = os.path.realpath(os.path.join(os.getcwd(), os.fspath(path)))
    return S.root is not None and (p == S.root or p.startswith(S.root + os.sep))


def guard(path):
    if S.root is None:
        return
    if isinstance(path, int):
        return
    if not inside(path):
        raise Escape(str(path))


def point(op, path):
    """A mutating I/O operation is about to happen: apply the fault schedule."""
    if S.root is None:
        return
    if S.dead:
        raise Crash()
    if S.fault is not None:
        r = S.fault(op, path)
        if r == 'crash':
            S.dead = True
            raise Crash()
        if r == 'error':
            raise OSError(28, 'injected fault', str(path))


class Writer:
    """Binary or text file opened for writing, with fault points."""

    def __init__(self, f, path):
        self._f = f
        self._path = path
        self._closed = False
        self._n = 0

    def write(self, data):
        n = len(data)
        self._n += 1
        if S.root is not None and S.dead:
            raise Crash()
        if S.fault is not None and n and (S.dense or self._n & (self._n - 1) == 0):
            r = S.fault('write', self._path)
            if r:
                self._f.write(data[:n // 2])
                self._f.flush()
                if r == 'crash':
                    S.dead = True
                    raise Crash()
                raise OSError(28, 'injected fault', str(self._path))
        return self._f.write(data)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def close(self):
        if not self._closed:
            self._closed = True
            self._f.close()
            point('close', self._path)

    def flush(self):
        self._f.flush()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __iter__(self):
        return iter(self._f)


class TextFile:
    """Text file that may hold symbolic characters (symbolic process only)."""

    def __init__(self, raw, path, mode, encoding, errors, newline):
        self.raw = raw
        self.name = path
        self.mode = mode
        self.encoding = encoding or 'utf-8'
        self.errors = errors or 'strict'
        self.newline = newline
        self.closed = False
        self.buf = None
        self.pos = 0

    def _load(self):
        if self.buf is not None:
            return
        from engine import strops, sym
        data = self.raw.read()
        if self.encoding.lower().replace('_', '-') in ('utf-16', 'utf16') and data[:2] not in (b'\xff\xfe', b'\xfe\xff') and data:
            raise UnicodeError('UTF-16 stream does not start with BOM')
        s = data.decode(self.encoding, self.errors)
        if self.newline is None:
            if sym.has(s):
                s = strops.replace(s, '\r\n', '\n')
                s = strops.replace(s, '\r', '\n')
            else:
                s = s.replace('\r\n', '\n').replace('\r', '\n')
        self.buf = s

    def readable(self):
        return 'r' in self.mode or '+' in self.mode

    def writable(self):
        return not self.readable()

    def read(self, n=-1):
        self._load()
        if n is None or n < 0:
            n = len(self.buf)
        r = self.buf[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def readline(self, n=-1):
        from engine import strops
        self._load()
        i = strops.find(self.buf, '\n', self.pos)
        e = len(self.buf) if i < 0 else i + 1
        r = self.buf[self.pos:e]
        self.pos = e
        return r

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def __next__(self):
        l = self.readline()
        if not l:
            raise StopIteration
        return l

    def seek(self, p, w=0):
        self.pos = p
        return p

    def tell(self):
        return self.pos

    def write(self, s):
        if type(s) is not str:
            raise TypeError(f'write() argument must be str, not {type(s).__name__}')
        from engine import strops, sym
        t = s
        if self.newline not in (None, '', '\n'):
            t = strops.replace(t, '\n', self.newline)
        if sym.has(t):
            b = strops.encode(t, self.encoding, self.errors)
        else:
            b = t.encode(self.encoding, self.errors)
        self.raw.write(b)
        return len(s)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def flush(self):
        self.raw.flush()

    def close(self):
        if not self.closed:
            self.closed = True
            self.raw.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def open_(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if S.root is None or isinstance(file, int):
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    file = canon(file)
    writing = any(c in mode for c in 'wax+')
    if writing:
        guard(file)
        point('open', file)
    text = 'b' not in mode
    if text and S.symbolic:
        raw = REAL['open'](file, mode.replace('t', '') + 'b')
        if writing:
            raw = Writer(raw, file)
        return TextFile(raw, file, mode, encoding, errors, newline)
    f = REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    return Writer(f, file) if writing and S.fault is not None else f


def _two(name):
    real = REAL[name]

    def f(src, dst, *a, **k):
        if S.root is not None:
            src, dst = canon(src), canon(dst)
            guard(src)
            guard(dst)
            point(name, dst)
        return real(src, dst, *a, **k)
    f.__name__ = name
    return f


def _copy(name):
    real = REAL[name]

    def f(src, dst, *a, **k):
        if S.root is not None:
            src, dst = canon(src), canon(dst)
            guard(dst)
        return real(src, dst, *a, **k)
    f.__name__ = name
    return f


def _one(name):
    real = REAL[name]

    def f(path, *a, **k):
        if S.root is not None:
            if 'dir_fd' not in k:
                path = canon(path)
            guard(path)
            point(name, path)
        return real(path, *a, **k)
    f.__name__ = name
    return f


def _rmtree():
    one, real = _one('rmtree'), REAL['rmtree']

    def rmtree(path, ignore_errors=False, onerror=None, *a, **k):
        if onerror is not None or k.get('onexc') is not None:
            # The operations within report to the caller's function.
            return real(path, ignore_errors, onerror, *a, **k)
        try:
            return one(path, ignore_errors, onerror, *a, **k)
        except OSError:
            if not ignore_errors:
                raise
    return rmtree


def _look(name):
    real = REAL[name]

    def f(path='.', *a, **k):
        if S.symnames and not k:
            path = canon(path)
        return real(path, *a, **k)
    f.__name__ = name
    return f


def _lexists(path):
    try:
        REAL['lstat'](path)
    except (OSError, ValueError):
        return False
    return True


REAL['lexists'] = _lexists


def install(symbolic):
    S.symbolic = symbolic
    if symbolic:
        for n in ('stat', 'lstat', 'listdir'):
            setattr(os, n, _look(n))
    builtins.open = open_
    io.open = open_
    for n in ('replace', 'rename', 'link', 'symlink'):
        setattr(os, n, _two(n))
    for n in ('remove', 'unlink', 'rmdir', 'mkdir', 'truncate'):
        setattr(os, n, _one(n))
    shutil.rmtree = _rmtree()
    for n in ('copyfile', 'copy', 'copy2', 'move'):
        setattr(shutil, n, _copy(n))


def begin(base):
    """Create and enter a fresh scratch directory."""
    S.root = None
    S.fault = None
    S.dead = False
    S.symnames = False
    d = REAL_mkdtemp(prefix='p', dir=base)
    os.chdir(d)
    REAL['mkdir'](os.path.join(d, 'tmp'))
    tempfile.tempdir = os.path.join(d, 'tmp')
    S.root = os.path.realpath(d)
    return S.root


def end():
    d = S.root
    S.root = None
    S.fault = None
    S.dead = False
    if d:
        os.chdir('/')
        _cleanup(d)


def _cleanup(d):
    for r, ds, fs in os.walk(d, topdown=False):
        for f in fs:
            try:
                REAL['remove'](os.path.join(r, f))
            except OSError:
                pass
        for x in ds:
            try:
                REAL['rmdir'](os.path.join(r, x))
            except OSError:
                pass
    try:
        REAL['rmdir'](d)
    except OSError:
        pass


def REAL_mkdtemp(prefix, dir):
    import itertools
    for i in itertools.count():
        p = os.path.join(dir, f'{prefix}{i}')
        try:
            REAL['mkdir'](p)
            return p
        except FileExistsError:
            continue
