"""The interface between harnesses and the two ways of running them (symbolic and concrete)."""
import os
import time
import z3
from engine import iset, sym, fs, strops
from engine.sym import SymInt, SymBool, PathEnd

DOMS = {
    'xml': iset.XML_CHARS,
    'unicode': iset.UNICODE,
    'all': iset.diff(iset.ALL, iset.SENTINELS),
    'digit': iset.DIGITS,
    'nocr': iset.diff(iset.XML_CHARS, iset.of_chars('\r')),
    'line': iset.diff(iset.XML_CHARS, iset.of_chars('\r\n')),
    'lower': ((97, 122),),
    'ascii': ((32, 126),),
}


def dom_of(d):
    if isinstance(d, str):
        return DOMS[d]
    return d


def minus(d, chars):
    return iset.diff(dom_of(d), iset.of_chars(chars))


def chars(s):
    return iset.of_chars(s)


def difference(a, b):
    if isinstance(a, str) and isinstance(b, str) and len(a) + len(b) > 200:
        i = 0
        while i < min(len(a), len(b)) and a[i] == b[i]:
            i += 1
        i = max(0, i - 40)
        return f'at {i}: got {a[i:i + 120]!r} expected {b[i:i + 120]!r}'
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return difference(x, y) if isinstance(x, list) and isinstance(y, list) and x and not isinstance(x[0], str) else f'got {x!r:.300} expected {y!r:.300}'
    return f'got {a!r:.300} expected {b!r:.300}'


class Base:
    symbolic = False

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def texts(self, name, lengths, dom='xml'):
        """Optional text: None or a string of one of the given lengths."""
        return self.text(name, self.choose(name + '#', lengths), dom)


class SymEnv(Base):
    symbolic = True

    def __init__(self, ctx, scratch):
        self.ctx = ctx
        self.dir = scratch
        self.obs = []
        self.excl = None

    def char(self, name, dom='xml'):
        return self.ctx.new_char(name, dom_of(dom))

    def text(self, name, n, dom='xml'):
        return ''.join(self.ctx.new_char(f'{name}.{i}', dom_of(dom)) for i in range(n))

    def int(self, name, lo, hi):
        return SymInt(self.ctx.new_var(name, ((lo, hi),), 'int'))

    def flag(self, name):
        v = self.ctx.new_var(name, ((0, 1),), 'int')
        return SymBool(var=v, dom=((1, 1),))

    def choose(self, name, options):
        """Select one of several alternatives through a symbolic index (forks)."""
        options = list(options)
        v = self.ctx.new_var(name, ((0, len(options) - 1),), 'int')
        lo, hi = 0, len(options) - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if self.ctx.in_set(v, ((lo, mid),)):
                hi = mid
            else:
                lo = mid + 1
        return options[lo]

    def assume(self, cond):
        if not cond:
            raise PathEnd()

    def distinct(self, *strs):
        """Assume pairwise different strings."""
        for i, a in enumerate(strs):
            for b in strs[:i]:
                if strops.eq(a, b):
                    raise PathEnd()

    def check(self, cond, msg):
        if type(cond) is SymBool:
            if cond.var is not None:
                self.ctx.relate(cond.var)
            self.ctx.checks.append((msg, cond.expr(), None))
        else:
            self.ctx.checks.append((msg, z3.BoolVal(bool(cond)), None))

    def equal(self, a, b, msg):
        exprs = []
        ok = self._eq(a, b, exprs)
        det = (a, b)
        if not ok:
            self.ctx.checks.append((msg, z3.BoolVal(False), det))
        else:
            self.ctx.checks.append((msg, z3.And(exprs) if exprs else z3.BoolVal(True), det))

    def _eq(self, a, b, out):
        if type(a) in (SymInt, SymBool) or type(b) in (SymInt, SymBool):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                return False

            def ex(x):
                if type(x) is SymInt:
                    return x.expr()
                if type(x) is SymBool:
                    if x.var is not None:
                        self.ctx.relate(x.var)
                    return z3.If(x.expr(), z3.IntVal(1), z3.IntVal(0))
                return z3.IntVal(int(x))
            out.append(ex(a) == ex(b))
            return True
        if type(a) is str and type(b) is str:
            if len(a) != len(b):
                return False
            if not strops.has(a) and not strops.has(b):
                return a == b
            c = self.ctx
            for x, y in zip(a, b):
                if x == y:
                    if sym.is_sent(x):
                        z = c.var(x).zv()
                        out.append(z == z)
                    continue
                if not c.maybe_eqch(x, y):
                    return False
                out.append(c.char_expr(x) == c.char_expr(y))
            return True
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all([self._eq(x, y, out) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            for k in a:
                f = strops.find_key(b, k)
                if f is None or not self._eq(a[k], b[f[0]], out):
                    return False
            return True
        return a == b

    def observe(self, name, value):
        self.obs.append((name, value))

    def excluded(self, fid, cond):
        """Input class of a known finding: not explored further."""
        if cond:
            self.excl = fid
            raise PathEnd()
        return False

    def faults(self, schedule, dense=False):
        fs.S.fault = schedule
        fs.S.dense = dense

    def nofaults(self):
        fs.S.fault = None
        fs.S.dead = False

    def put(self, path, text):
        """Write a text file without fault injection."""
        f, d = fs.S.fault, fs.S.dead
        self.nofaults()
        try:
            with open(path, 'w', encoding='utf-8', newline='') as fh:
                fh.write(text)
        finally:
            fs.S.fault, fs.S.dead = f, d

    def get(self, path):
        """Text of a file (no newline translation), None when it does not exist."""
        if not os.path.isfile(path):
            return None
        with fs.REAL['open'](path, 'rb') as fh:
            return fh.read().decode('utf-8', 'surrogateescape')


class ConcEnv(Base):
    def __init__(self, values, scratch, replay=False):
        self.values = values
        self.dir = scratch
        self.obs = []
        self.failures = []
        self.nchecks = 0
        self.replay = replay
        self.excl = None

    def _v(self, name, dom):
        v = self.values.get(name)
        if v is None:
            v = iset.sample(dom)
        return v

    def char(self, name, dom='xml'):
        return chr(self._v(name, dom_of(dom)))

    def text(self, name, n, dom='xml'):
        return ''.join(chr(self._v(f'{name}.{i}', dom_of(dom))) for i in range(n))

    def int(self, name, lo, hi):
        return self.values.get(name, lo)

    def flag(self, name):
        return bool(self.values.get(name, 0))

    def choose(self, name, options):
        return list(options)[self.values.get(name, 0)]

    def assume(self, cond):
        if not cond:
            raise PathEnd()

    def distinct(self, *strs):
        if len(set(strs)) != len(strs):
            raise PathEnd()

    def check(self, cond, msg):
        self.nchecks += 1
        if not cond:
            self.failures.append((msg, ''))

    def equal(self, a, b, msg):
        self.nchecks += 1
        if a != b:
            self.failures.append((msg, difference(a, b)))

    def observe(self, name, value):
        self.obs.append((name, value))

    def excluded(self, fid, cond):
        if cond and not self.replay:
            self.excl = fid
            raise PathEnd()
        return False

    faults = SymEnv.faults
    nofaults = SymEnv.nofaults
    put = SymEnv.put
    get = SymEnv.get


def harness(**kw):
    """Decorator: register a harness function in its module's HARNESSES list."""
    def deco(f):
        f.meta = dict(kw)
        mod = f.__globals__
        mod.setdefault('HARNESSES', []).append(f)
        return f
    return deco
