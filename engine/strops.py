"""Symbolic versions of the str operations that inspect characters."""
from engine import iset, sym
from engine.sym import has, is_sent, SENT_RE, Unsupported, SymInt, SymBool

SPACE = iset.of_pred('isspace')
LINEBREAKS = iset.of_chars('\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029')


def C():
    return sym.CTX


def hs(x):
    return type(x) is str and not x.isascii() and SENT_RE.search(x) is not None


def any_sym(x, depth=3):
    """Does x (possibly a container) hold a symbolic value?"""
    t = type(x)
    if t is str:
        return has(x)
    if t in (SymInt, SymBool):
        return True
    if depth and t in (list, tuple, set, frozenset):
        return any(any_sym(y, depth - 1) for y in x)
    if depth and t is dict:
        return any(any_sym(k, depth - 1) or any_sym(v, depth - 1) for k, v in x.items())
    return False


# ---- equality ------------------------------------------------------------
def eq(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        if a == b:
            return True
        if len(a) != len(b):
            return False
        if not has(a) and not has(b):
            return False
        c = C()
        pairs = []
        for x, y in zip(a, b):
            if x != y:
                if not c.maybe_eqch(x, y):
                    return False
                pairs.append((x, y))
        for x, y in pairs:
            if not c.eqch(x, y):
                return False
        return True
    if ta is tb and ta in (list, tuple):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not eq(x, y):
                return False
        return True
    if ta is dict and tb is dict:
        if len(a) != len(b):
            return False
        for k, v in a.items():
            kk = find_key(b, k)
            if kk is None or not eq(v, b[kk[0]]):
                return False
        return True
    return a == b


def lt(a, b, op):
    """Ordering of two strings (op one of <, <=, >, >=)."""
    if type(a) is str and type(b) is str and (has(a) or has(b)):
        c = C()
        for x, y in zip(a, b):
            if x == y:
                continue
            if not is_sent(x) and not is_sent(y):
                less = x < y
            elif c.eqch(x, y):
                continue
            elif not is_sent(y):
                less = c.in_set(c.var(x), ((0, ord(y) - 1),))
            elif not is_sent(x):
                less = c.in_set(c.var(y), ((ord(x) + 1, iset.MAXCP),))
            else:
                c.relate(c.var(x))
                c.relate(c.var(y))
                less = c.branch(c.var(x).zv() < c.var(y).zv())
            return less if op[0] == '<' else not less
        la, lb = len(a), len(b)
        return {'<': la < lb, '<=': la <= lb, '>': la > lb, '>=': la >= lb}[op]
    if op == '<':
        return a < b
    if op == '<=':
        return a <= b
    if op == '>':
        return a > b
    return a >= b


# ---- search --------------------------------------------------------------
def match_at(s, i, p):
    if i < 0 or i + len(p) > len(s):
        return False
    c = C()
    need = []
    for k in range(len(p)):
        x, y = s[i + k], p[k]
        if x != y:
            if not c.maybe_eqch(x, y):
                return False
            need.append((x, y))
    for x, y in need:
        if not c.eqch(x, y):
            return False
    return True


def find(s, p, start=0, end=None):
    n = len(s)
    start, end, _ = slice(start, end).indices(n)
    if not has(s) and not has(p):
        return s.find(p, start, end)
    if p == '':
        return s.find(p, start, end)
    lp = len(p)
    if has(p):
        for i in range(start, end - lp + 1):
            if match_at(s, i, p):
                return i
        return -1
    nat = s.find(p, start, end)
    stop = nat if nat >= 0 else end - lp + 1
    last = start - 1
    for m in SENT_RE.finditer(s, start, min(end, stop + lp)):
        j = m.start()
        for i in range(max(start, j - lp + 1, last + 1), min(j, end - lp) + 1):
            if i >= stop:
                break
            last = i
            if match_at(s, i, p):
                return i
    return nat


def rfind(s, p, start=0, end=None):
    n = len(s)
    start, end, _ = slice(start, end).indices(n)
    if (not has(s) and not has(p)) or p == '':
        return s.rfind(p, start, end)
    for i in range(end - len(p), start - 1, -1):
        if match_at(s, i, p):
            return i
    return -1


def replace(s, old, new, count=-1):
    if old == '' or (not has(s) and not has(old)):
        return s.replace(old, new, count)
    out = []
    pos = 0
    while count != 0:
        i = find(s, old, pos)
        if i < 0:
            break
        out.append(s[pos:i])
        out.append(new)
        pos = i + len(old)
        count -= 1
    if not out:
        return s
    out.append(s[pos:])
    return ''.join(out)


def split(s, sep=None, maxsplit=-1):
    if sep is None:
        c = C()
        out = []
        i, n = 0, len(s)
        while True:
            while i < n and c.in_chars(s[i], SPACE):
                i += 1
            if i >= n:
                break
            if maxsplit == 0:
                j = n
                while j > i and c.in_chars(s[j - 1], SPACE):
                    j -= 1
                # str.split keeps trailing whitespace off the last field
                out.append(s[i:j])
                break
            j = i
            while j < n and not c.in_chars(s[j], SPACE):
                j += 1
            out.append(s[i:j])
            maxsplit -= 1
            i = j
        return out
    if sep == '':
        raise ValueError('empty separator')
    out = []
    pos = 0
    while maxsplit != 0:
        i = find(s, sep, pos)
        if i < 0:
            break
        out.append(s[pos:i])
        pos = i + len(sep)
        maxsplit -= 1
    out.append(s[pos:])
    return out


def rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return split(s, sep)
    if sep is None:
        raise Unsupported('rsplit(None, n)')
    out = []
    end = len(s)
    while maxsplit != 0:
        i = rfind(s, sep, 0, end)
        if i < 0:
            break
        out.append(s[i + len(sep):end])
        end = i
        maxsplit -= 1
    out.append(s[:end])
    return out[::-1]


def splitlines(s, keepends=False):
    c = C()
    out = []
    i = start = 0
    n = len(s)
    while i < n:
        if c.in_chars(s[i], LINEBREAKS):
            j = i + 1
            if j < n and c.eqch(s[i], '\r') and c.eqch(s[j], '\n'):
                j += 1
            out.append(s[start:j] if keepends else s[start:i])
            i = start = j
        else:
            i += 1
    if start < n:
        out.append(s[start:])
    return out


def _stripset(s, chars):
    """Return a predicate for membership in the strip set."""
    c = C()
    if chars is None:
        return lambda x: c.in_chars(x, SPACE)
    if has(chars):
        return lambda x: any(c.eqch(x, y) for y in chars)
    dom = iset.of_chars(''.join(sorted(set(chars))))
    return lambda x: c.in_chars(x, dom)


def lstrip(s, chars=None):
    f = _stripset(s, chars)
    i = 0
    while i < len(s) and f(s[i]):
        i += 1
    return s[i:]


def rstrip(s, chars=None):
    f = _stripset(s, chars)
    i = len(s)
    while i > 0 and f(s[i - 1]):
        i -= 1
    return s[:i]


def strip(s, chars=None):
    return rstrip(lstrip(s, chars), chars)


def startswith(s, p, start=0, end=None):
    if type(p) is tuple:
        return any(startswith(s, q, start, end) for q in p)
    if type(p) is not str:
        return s.startswith(p)
    t = s[slice(start, end)]
    return len(p) <= len(t) and match_at(t, 0, p)


def endswith(s, p, start=0, end=None):
    if type(p) is tuple:
        return any(endswith(s, q, start, end) for q in p)
    if type(p) is not str:
        return s.endswith(p)
    t = s[slice(start, end)]
    return len(p) <= len(t) and match_at(t, len(t) - len(p), p)


def partition(s, sep):
    i = find(s, sep)
    return (s, '', '') if i < 0 else (s[:i], sep, s[i + len(sep):])


def rpartition(s, sep):
    i = rfind(s, sep)
    return ('', '', s) if i < 0 else (s[:i], sep, s[i + len(sep):])


def index(s, *a):
    i = find(s, *a)
    if i < 0:
        raise ValueError('substring not found')
    return i


def rindex(s, *a):
    i = rfind(s, *a)
    if i < 0:
        raise ValueError('substring not found')
    return i


def count(s, p, start=0, end=None):
    if p == '':
        return s.count(p, start, end)
    s = s[slice(start, end)]
    n = pos = 0
    while True:
        i = find(s, p, pos)
        if i < 0:
            return n
        n += 1
        pos = i + len(p)


def _pred(name):
    def f(s):
        if name in ('isupper', 'islower', 'istitle', 'isidentifier'):
            return getattr(C().concretize(s), name)()
        if s == '':
            return getattr(s, name)()
        dom = iset.of_pred(name)
        c = C()
        for x in s:
            if not c.in_chars(x, dom):
                return False
        return True
    return f


def _case(name):
    def one(x):
        if not is_sent(x):
            return getattr(x, name)()
        c = C()
        v = c.var(x)
        p = iset.single(v.dom)
        if p is not None:
            return getattr(chr(p), name)()
        up = ((65, 90),)
        lo = ((97, 122),)
        ch = iset.changed_by(name)
        if not c.in_set(v, ch):
            return x
        for rng, d in ((up, 32), (lo, -32)):
            if iset.inter(ch, rng) == rng and c.in_set(v, rng):
                c.nfresh += 1
                y = c.new_char(f'_c{c.nfresh}', iset.make([(a + d, b + d) for a, b in v.dom]), inp=False)
                w = c.var(y)
                c.relate(v)
                c.relate(w)
                con = w.zv() == v.zv() + d
                c.constraints.append(con)
                c._solver().add(con)
                return y
        # other letters: any of their images (over-approximation; a counterexample has to reproduce anyway)
        one_, many, images = iset.case_images(name)
        if c.in_set(v, one_):
            c.nfresh += 1
            return c.new_char(f'_c{c.nfresh}', images, inp=False)
        return getattr(c.concretize_char(x), name)()

    def f(s):
        if name in ('lower', 'upper', 'swapcase', 'casefold'):
            return ''.join(one(x) for x in s)
        return getattr(C().concretize(s), name)()
    return f


def settle(s, dom):
    """Fork every symbolic character of s on each code point of dom; equal ones become concrete."""
    if not has(s):
        return s
    c = C()
    pts = [v for lo, hi in dom for v in range(lo, hi + 1)]

    def one(m):
        x = m.group()
        v = c.var(x)
        if not c.in_set(v, dom):
            return x
        for p in pts:
            if c.in_set(v, ((p, p),)):
                return chr(p)
        raise Unsupported('settle')
    return SENT_RE.sub(one, s)


def fmt(s, *a, **k):
    return settle(s, iset.of_chars('{}')).format(*a, **k)


def translate(s, table):
    out = []
    c = C()
    for x in s:
        if is_sent(x):
            if not isinstance(table, dict):
                x = c.concretize_char(x)
            else:
                for k in table:
                    if c.in_set(c.var(x), ((k, k),)):
                        x = chr(k)
                        break
        try:
            r = table[ord(x)]
        except LookupError:
            out.append(x)
            continue
        if r is None:
            continue
        out.append(chr(r) if isinstance(r, int) else r)
    return ''.join(out)


def encode(s, encoding='utf-8', errors='strict'):
    c = C()
    enc = encoding.lower().replace('_', '-')
    if enc in ('utf-8', 'utf8', 'utf-16', 'utf-32', 'utf16', 'utf-16-le', 'utf-16-be', 'utf-8-sig'):
        t = s
        for x in SENT_RE.findall(s):
            if c.in_set(c.var(x), iset.SURROGATES):
                t = t.replace(x, '\ud800')
        return t.encode(encoding, errors)
    top = 127 if enc in ('ascii', 'us-ascii') else 255
    if enc not in ('ascii', 'us-ascii', 'latin-1', 'iso-8859-1', 'latin1'):
        return c.concretize(s).encode(encoding, errors)
    raise Unsupported(f'encode {encoding}')


def removeprefix(s, p):
    return s[len(p):] if startswith(s, p) else s


def removesuffix(s, p):
    return s[:len(s) - len(p)] if p and endswith(s, p) else s


def zfill(s, w):
    if len(s) < w and s and C().in_chars(s[0], iset.of_chars('+-')):
        return s[0] + s[1:].rjust(w - 1, '0')
    return s.rjust(w, '0')


METHODS = {
    'find': find, 'rfind': rfind, 'replace': replace, 'split': split, 'rsplit': rsplit,
    'splitlines': splitlines, 'strip': strip, 'lstrip': lstrip, 'rstrip': rstrip,
    'startswith': startswith, 'endswith': endswith, 'partition': partition, 'rpartition': rpartition,
    'index': index, 'rindex': rindex, 'count': count, 'format': fmt, 'translate': translate,
    'encode': encode, 'removeprefix': removeprefix, 'removesuffix': removesuffix, 'zfill': zfill,
    '__contains__': lambda s, p: find(s, p) >= 0,
    '__eq__': eq,
}
for _n in ('isspace', 'isdigit', 'isalpha', 'isalnum', 'isnumeric', 'isdecimal', 'isprintable', 'isascii',
           'isupper', 'islower', 'istitle', 'isidentifier'):
    METHODS[_n] = _pred(_n)
for _n in ('lower', 'upper', 'swapcase', 'casefold', 'title', 'capitalize'):
    METHODS[_n] = _case(_n)
NAMES = frozenset(METHODS)


# ---- containers keyed by strings ----------------------------------------
def find_key(d, k):
    """Return (key,) of the dict/set member equal to k, or None."""
    if type(k) is not str:
        return (k,) if k in d else None
    if k in d:
        return (k,)
    if has(k):
        for x in list(d):
            if type(x) is str and len(x) == len(k) and eq(x, k):
                return (x,)
        return None
    for x in list(d):
        if type(x) is str and len(x) == len(k) and has(x) and eq(x, k):
            return (x,)
    return None


def contains(c, x):
    t = type(c)
    if t is str:
        if type(x) is str:
            return find(c, x) >= 0
        return x in c
    if type(x) is str:
        if isinstance(c, (dict, set, frozenset)) or t is type({}.keys()):
            return find_key(c, x) is not None
        if t in (list, tuple):
            if not has(x):
                if x in c:
                    return True
                for y in c:
                    if type(y) is str and has(y) and eq(x, y):
                        return True
                return False
            for y in c:
                if type(y) is str and eq(x, y):
                    return True
            return False
    if t in (list, tuple) and isinstance(x, (list, tuple)):
        return any(eq(x, y) for y in c)
    return x in c


def to_int(s, base=10):
    """int(str): forks on the character classes; digits stay symbolic."""
    c = C()
    t = strip(s)
    if base != 10 or t == '':
        return int(c.concretize(t), base)
    neg = False
    if c.in_chars(t[0], iset.of_chars('+-')):
        neg = c.eqch(t[0], '-')
        t = t[1:]
        if t == '':
            raise ValueError("invalid literal for int() with base 10")
    other = iset.diff(iset.of_pred('isdecimal'), iset.DIGITS)
    digs = []
    prev_us = True
    for x in t:
        if c.in_chars(x, iset.DIGITS):
            digs.append(x)
            prev_us = False
        elif c.eqch(x, '_'):
            if prev_us:
                raise ValueError("invalid literal for int() with base 10")
            prev_us = True
        elif c.in_chars(x, other):
            # non-ASCII decimal digits: value range 0..9
            digs.append(str(int(c.concretize_char(x) if is_sent(x) else x)))
            prev_us = False
        else:
            raise ValueError("invalid literal for int() with base 10")
    if prev_us:
        raise ValueError("invalid literal for int() with base 10")
    if not any(is_sent(x) for x in digs):
        v = int(''.join(digs))
        return -v if neg else v
    if len(digs) == 1:
        v = SymInt(c.var(digs[0]), -48)
    else:
        e = 0
        for x in digs:
            if is_sent(x):
                c.relate(c.var(x))
            e = e * 10 + (c.char_expr(x) - 48)
        v = SymInt(e=e)
    return -v if neg else v
