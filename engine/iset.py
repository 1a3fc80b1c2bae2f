"""Sets of code points as sorted tuples of disjoint, non-adjacent (lo, hi) ranges."""
from functools import lru_cache

MAXCP = 0x10FFFF


def make(ranges):
    out = []
    for lo, hi in sorted(ranges):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


@lru_cache(maxsize=None)
def of_chars(chars):
    return make([(ord(c), ord(c)) for c in chars])


@lru_cache(maxsize=200000)
def inter(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


@lru_cache(maxsize=200000)
def diff(a, b):
    out = []
    for lo, hi in a:
        cur = lo
        for blo, bhi in b:
            if bhi < cur:
                continue
            if blo > hi:
                break
            if blo > cur:
                out.append((cur, blo - 1))
            cur = bhi + 1
            if cur > hi:
                break
        if cur <= hi:
            out.append((cur, hi))
    return tuple(out)


def union(a, b):
    return make(list(a) + list(b))


def has(a, v):
    for lo, hi in a:
        if lo <= v <= hi:
            return True
        if lo > v:
            return False
    return False


def size(a):
    return sum(hi - lo + 1 for lo, hi in a)


def single(a):
    return a[0][0] if len(a) == 1 and a[0][0] == a[0][1] else None


_NICE = [ord(c) for c in 'xqzjkvwyabcdefghilmnoprstuXQZ7450 -.,;:_~']


@lru_cache(maxsize=100000)
def sample(a):
    for v in _NICE:
        if has(a, v):
            return v
    for lo, hi in a:
        for v in range(lo, min(hi, lo + 64) + 1):
            if 33 <= v < 127 or v >= 0xC0:
                return v
    return a[0][0]


def to_class(a):
    """Return the text of a regex character class body."""
    def esc(v):
        return '\\U%08x' % v
    return ''.join(esc(lo) if lo == hi else f'{esc(lo)}-{esc(hi)}' for lo, hi in a)


@lru_cache(maxsize=None)
def of_pred(name):
    """Set of code points on which str.<name>() is true for the one-character string."""
    ranges = []
    start = None
    for i in range(MAXCP + 2):
        t = i <= MAXCP and getattr(chr(i), name)()
        if t and start is None:
            start = i
        elif not t and start is not None:
            ranges.append((start, i - 1))
            start = None
    return tuple(ranges)


@lru_cache(maxsize=None)
def changed_by(name):
    """Code points whose one-character string is changed by str.<name>()."""
    ranges = []
    for i in range(MAXCP + 1):
        c = chr(i)
        if getattr(c, name)() != c:
            ranges.append((i, i))
    return make(ranges)


ALL = ((0, MAXCP),)
SURROGATES = ((0xD800, 0xDFFF),)
SENTINELS = ((0xF0000, 0xF7FFF),)
XML_CHARS = diff(make([(9, 10), (13, 13), (0x20, 0xD7FF), (0xE000, 0xFFFD), (0x10000, MAXCP)]), SENTINELS)
UNICODE = diff(diff(ALL, SURROGATES), SENTINELS)
DIGITS = of_chars('0123456789')


@lru_cache(None)
def case_images(name):
    """(non-ASCII characters changed to one character, to several characters, images of the former)."""
    one, many, im = [], [], []
    for lo, hi in changed_by(name):
        for o in range(lo, hi + 1):
            if o < 128:
                continue
            r = getattr(chr(o), name)()
            if len(r) == 1:
                one.append(o)
                im.append(ord(r))
            else:
                many.append(o)
    return tuple(make([(o, o) for o in x]) for x in (one, many, im))
