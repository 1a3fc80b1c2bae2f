"""Backtracking matcher over the parse tree of the standard re module, with forking character tests."""
import re
from re import _parser as P, _constants as K
from engine import iset, sym
from engine.sym import has, is_sent, SENT_RE, Unsupported

_cache = {}


def category(cat):
    n = str(cat)
    neg = '_NOT_' in n
    n = n.replace('_NOT_', '_').replace('CATEGORY_UNI_', '').replace('CATEGORY_', '')
    if n == 'DIGIT':
        d = iset.of_pred('isdecimal')
    elif n == 'SPACE':
        d = iset.of_pred('isspace')
    elif n == 'WORD':
        d = iset.union(iset.of_pred('isalnum'), iset.of_chars('_'))
    else:
        raise Unsupported(f'regex category {cat}')
    return iset.diff(iset.ALL, d) if neg else d


_wordset = None


def lit_set(v, flags):
    if flags & re.IGNORECASE:
        c = chr(v)
        s = {c, c.lower(), c.upper()}
        return iset.of_chars(''.join(sorted(x for x in s if len(x) == 1)))
    return ((v, v),)


def in_dom(items, flags):
    neg = False
    dom = ()
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            dom = iset.union(dom, lit_set(av, flags))
        elif op is K.RANGE:
            dom = iset.union(dom, (av,))
            if flags & re.IGNORECASE:
                extra = []
                for i in range(av[0], min(av[1], av[0] + 3000) + 1):
                    for x in (chr(i).lower(), chr(i).upper()):
                        if len(x) == 1:
                            extra.append((ord(x), ord(x)))
                dom = iset.make(list(dom) + extra)
        elif op is K.CATEGORY:
            dom = iset.union(dom, category(av))
        else:
            raise Unsupported(f'regex set {op}')
    return iset.diff(iset.ALL, dom) if neg else dom


def ascii_only(tree):
    # True where the flag (?a:...) makes no difference here: only ASCII literals
    # and ranges, whose other case is ASCII too.
    for op, av in tree:
        if op is K.LITERAL or op is K.NOT_LITERAL:
            if av > 127:
                return False
        elif op is K.IN:
            for o, x in av:
                if o is K.LITERAL:
                    if x > 127:
                        return False
                elif o is K.RANGE:
                    if x[1] > 127:
                        return False
                elif o is not K.NEGATE:
                    return False
        elif op is K.MAX_REPEAT or op is K.MIN_REPEAT:
            if not ascii_only(av[2]):
                return False
        elif op is K.SUBPATTERN:
            if not ascii_only(av[3]):
                return False
        elif op is K.BRANCH:
            if not all(ascii_only(b) for b in av[1]):
                return False
        else:
            return False
    return True


class Prog:
    def __init__(self, pattern, flags):
        tree = P.parse(pattern, flags)
        self.flags = tree.state.flags | flags
        self.groups = tree.state.groups - 1
        self.groupindex = dict(tree.state.groupdict)
        self.tree = list(tree)
        self.pattern = pattern
        self.first = self.first_of(self.tree)
        self.native = None
        if self.first is not None and iset.size(self.first) < 100000:
            self.native = re.compile(f'[{iset.to_class(self.first)}\U000F0000-\U000F7FFF]')
        self.prefix = ''
        if not self.flags & re.IGNORECASE:
            for op, av in self.tree:
                if op is not K.LITERAL:
                    break
                self.prefix += chr(av)

    def first_of(self, seq):
        """Over-approximate set of first characters, or None when the sequence may be empty."""
        dom = ()
        for op, av in seq:
            if op is K.LITERAL:
                return iset.union(dom, lit_set(av, self.flags))
            if op is K.NOT_LITERAL:
                return iset.union(dom, iset.diff(iset.ALL, lit_set(av, self.flags)))
            if op is K.ANY:
                return iset.ALL
            if op is K.IN:
                return iset.union(dom, in_dom(av, self.flags))
            if op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
                lo, hi, sub = av
                f = self.first_of(sub)
                if f is None:
                    return None
                dom = iset.union(dom, f)
                if lo > 0:
                    return dom
                continue
            if op is K.SUBPATTERN:
                f = self.first_of(av[3])
                if f is None:
                    return None
                return iset.union(dom, f)
            if op is K.BRANCH:
                for b in av[1]:
                    f = self.first_of(b)
                    if f is None:
                        return None
                    dom = iset.union(dom, f)
                return dom
            if op is K.AT:
                continue
            return None
        return None


def prog(pattern, flags=0):
    k = (pattern, flags)
    p = _cache.get(k)
    if p is None:
        p = _cache[k] = Prog(pattern, flags)
    return p


class M:
    """One match attempt."""

    def __init__(self, pr, s, end):
        self.pr = pr
        self.s = s
        self.end = end
        self.c = sym.CTX
        self.g = {}

    def isin(self, i, dom):
        return self.c.in_chars(self.s[i], dom)

    def node(self, seq, k, i, cont):
        """Match seq[k:] at i, then call cont(i); return end index or None."""
        s, end = self.s, self.end
        n = len(seq)
        while k < n:
            op, av = seq[k]
            if op is K.LITERAL:
                if i >= end or not self.isin(i, lit_set(av, self.pr.flags)):
                    return None
                i += 1
            elif op is K.NOT_LITERAL:
                if i >= end or self.isin(i, lit_set(av, self.pr.flags)):
                    return None
                i += 1
            elif op is K.ANY:
                if i >= end or (not self.pr.flags & re.DOTALL and self.isin(i, ((10, 10),))):
                    return None
                i += 1
            elif op is K.IN:
                if i >= end or not self.isin(i, in_dom_c(av, self.pr.flags)):
                    return None
                i += 1
            elif op is K.AT:
                if not self.at(av, i):
                    return None
            elif op is K.BRANCH:
                for b in av[1]:
                    saved = dict(self.g)
                    r = self.node(b, 0, i, lambda j, k=k: self.node(seq, k + 1, j, cont))
                    if r is not None:
                        return r
                    self.g = saved
                return None
            elif op is K.SUBPATTERN:
                gid, addf, delf, sub = av
                if delf or (addf and not (addf == re.ASCII and ascii_only(sub))):
                    raise Unsupported('regex inline flags')

                def after(j, gid=gid, i=i, k=k):
                    if gid is None:
                        return self.node(seq, k + 1, j, cont)
                    old = self.g.get(gid)
                    self.g[gid] = (i, j)
                    r = self.node(seq, k + 1, j, cont)
                    if r is None:
                        if old is None:
                            self.g.pop(gid, None)
                        else:
                            self.g[gid] = old
                    return r
                return self.node(sub, 0, i, after)
            elif op is K.MAX_REPEAT or op is K.POSSESSIVE_REPEAT:
                lo, hi, sub = av
                if op is K.POSSESSIVE_REPEAT:
                    raise Unsupported('possessive')
                if len(sub) == 1 and sub[0][0] in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN):
                    dom = single_dom(sub[0], self.pr.flags)
                    return self.rep1(dom, lo, hi, i, seq, k + 1, cont)
                return self.rep(sub, lo, hi, 0, i, seq, k + 1, cont, -1)
            elif op is K.MIN_REPEAT:
                lo, hi, sub = av
                return self.minrep(sub, lo, hi, i, seq, k + 1, cont)
            elif op is K.GROUPREF:
                if av not in self.g:
                    return None
                a, b = self.g[av]
                for x in range(a, b):
                    if i >= end or not self.c.eqch(s[x], s[i]):
                        return None
                    i += 1
            elif op is K.ASSERT or op is K.ASSERT_NOT:
                d, sub = av
                if d < 0:
                    lo, hi = sub.getwidth()
                    if lo != hi:
                        raise Unsupported('lookbehind width')
                    st = i - lo
                    r = None if st < 0 else self.node(sub, 0, st, lambda j: j)
                else:
                    r = self.node(sub, 0, i, lambda j: j)
                if (r is None) == (op is K.ASSERT):
                    return None
            else:
                raise Unsupported(f'regex op {op}')
            k += 1
        return cont(i)

    def rep1(self, dom, lo, hi, i, seq, k, cont):
        end = self.end
        j = i
        mx = end - i if hi is K.MAXREPEAT else min(hi, end - i)
        while j - i < mx and self.isin(j, dom):
            j += 1
        while j - i >= lo:
            r = self.node(seq, k, j, cont)
            if r is not None:
                return r
            j -= 1
        return None

    def rep(self, sub, lo, hi, n, i, seq, k, cont, last):
        if (hi is K.MAXREPEAT or n < hi) and not (i == last and n >= lo):
            saved = dict(self.g)
            r = self.node(sub, 0, i, lambda j: self.rep(sub, lo, hi, n + 1, j, seq, k, cont, i))
            if r is not None:
                return r
            self.g = saved
        if n >= lo:
            return self.node(seq, k, i, cont)
        return None

    def minrep(self, sub, lo, hi, i, seq, k, cont):
        n = 0
        simple = len(sub) == 1 and sub[0][0] in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN)
        if not simple:
            def go(n, i):
                if n >= lo:
                    r = self.node(seq, k, i, cont)
                    if r is not None:
                        return r
                if hi is K.MAXREPEAT or n < hi:
                    return self.node(sub, 0, i, lambda j: None if j == i else go(n + 1, j))
                return None
            return go(0, i)
        dom = single_dom(sub[0], self.pr.flags)
        while n < lo:
            if i >= self.end or not self.isin(i, dom):
                return None
            i += 1
            n += 1
        while True:
            r = self.node(seq, k, i, cont)
            if r is not None:
                return r
            if (hi is not K.MAXREPEAT and n >= hi) or i >= self.end or not self.isin(i, dom):
                return None
            i += 1
            n += 1

    def at(self, av, i):
        s = self.s
        fl = self.pr.flags
        if av is K.AT_BEGINNING_STRING or (av is K.AT_BEGINNING and not fl & re.MULTILINE):
            return i == 0
        if av is K.AT_BEGINNING:
            return i == 0 or self.isin(i - 1, ((10, 10),))
        if av is K.AT_END_STRING:
            return i == self.end
        if av is K.AT_END:
            if i == self.end:
                return True
            if fl & re.MULTILINE:
                return self.isin(i, ((10, 10),))
            return i == self.end - 1 and self.isin(i, ((10, 10),))
        if av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            w = category('CATEGORY_WORD')
            a = i > 0 and self.isin(i - 1, w)
            b = i < self.end and self.isin(i, w)
            return (a != b) == (av is K.AT_BOUNDARY)
        raise Unsupported(f'regex at {av}')


_dcache = {}


def in_dom_c(items, flags):
    k = (id(items), flags)
    d = _dcache.get(k)
    if d is None:
        d = _dcache[k] = (items, in_dom(items, flags))
    return d[1]


def single_dom(item, flags):
    op, av = item
    if op is K.LITERAL:
        return lit_set(av, flags)
    if op is K.NOT_LITERAL:
        return iset.diff(iset.ALL, lit_set(av, flags))
    if op is K.ANY:
        return iset.ALL if flags & re.DOTALL else iset.diff(iset.ALL, ((10, 10),))
    return in_dom_c(av, flags)


class SymMatch:
    def __init__(self, pr, s, g, start, end):
        self.pr = pr
        self.string = s
        self._g = dict(g)
        self._g[0] = (start, end)
        self.pos = 0
        self.endpos = len(s)
        self.re = None

    def _i(self, k):
        return self.pr.groupindex[k] if isinstance(k, str) else int(k)

    def _one(self, k, default=None):
        k = self._i(k)
        if k > self.pr.groups:
            raise IndexError('no such group')
        p = self._g.get(k)
        return default if p is None else self.string[p[0]:p[1]]

    def group(self, *a):
        if not a:
            return self._one(0)
        if len(a) == 1:
            return self._one(a[0])
        return tuple(self._one(k) for k in a)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.pr.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(k, default) for n, k in self.pr.groupindex.items()}

    def span(self, k=0):
        return self._g.get(self._i(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    @property
    def lastindex(self):
        ks = [k for k in self._g if k]
        return max(ks, key=lambda k: self._g[k][1]) if ks else None

    @property
    def lastgroup(self):
        i = self.lastindex
        for n, k in self.pr.groupindex.items():
            if k == i:
                return n
        return None

    def expand(self, t):
        return expand(t, self)


def expand(t, m):
    if '\\' not in t:
        return t
    out = []
    i = 0
    while i < len(t):
        x = t[i]
        if x != '\\' or i + 1 >= len(t):
            out.append(x)
            i += 1
            continue
        y = t[i + 1]
        if y == 'g':
            j = t.index('>', i)
            k = t[i + 3:j]
            out.append(m.group(int(k) if k.isdigit() else k) or '')
            i = j + 1
        elif y.isdigit():
            j = i + 1
            while j < len(t) and j < i + 3 and t[j].isdigit():
                j += 1
            out.append(m.group(int(t[i + 1:j])) or '')
            i = j
        else:
            esc = {'n': '\n', 't': '\t', 'r': '\r', '\\': '\\', 'a': '\a', 'f': '\f', 'v': '\v'}
            if y in esc:
                out.append(esc[y])
            elif y.isalpha() and y.isascii():
                raise re.error(f'bad escape \\{y}')
            else:
                out.append('\\' + y)
            i += 2
    return ''.join(out)


def _norm(pattern, flags):
    if isinstance(pattern, re.Pattern):
        return pattern.pattern, pattern.flags
    if has(pattern):
        pattern = sym.CTX.concretize(pattern)
    return pattern, int(flags)


def match_here(pr, s, i, end=None, full=False):
    end = len(s) if end is None else end
    m = M(pr, s, end)
    r = m.node(pr.tree, 0, i, (lambda j: j if j == end else None) if full else (lambda j: j))
    if r is None:
        return None
    return SymMatch(pr, s, m.g, i, r)


def search_from(pr, s, pos):
    from engine import strops
    n = len(s)
    i = pos
    while i <= n:
        if len(pr.prefix) > 1:
            i = strops.find(s, pr.prefix, i)
            if i < 0:
                return None
        elif pr.native is not None:
            c = pr.native.search(s, i)
            if c is None:
                return None
            i = c.start()
        m = match_here(pr, s, i)
        if m is not None:
            return m
        i += 1
    return None


def finditer(pattern, s, flags=0, pos=0):
    pattern, flags = _norm(pattern, flags)
    pr = prog(pattern, flags)
    n = len(s)
    last_end = -1
    while pos <= n:
        m = search_from(pr, s, pos)
        if m is None:
            return
        a, b = m.span()
        if a == b and a == last_end and False:
            pos = b + 1
            continue
        yield m
        last_end = b
        if a == b:
            # python >= 3.7: an empty match advances by one, a non-empty one may follow at the same position
            nm = None
            pos = b + 1
        else:
            pos = b


def search(pattern, s, flags=0):
    pattern, flags = _norm(pattern, flags)
    return search_from(prog(pattern, flags), s, 0)


def match(pattern, s, flags=0):
    pattern, flags = _norm(pattern, flags)
    return match_here(prog(pattern, flags), s, 0)


def fullmatch(pattern, s, flags=0):
    pattern, flags = _norm(pattern, flags)
    return match_here(prog(pattern, flags), s, 0, full=True)


def findall(pattern, s, flags=0):
    out = []
    for m in finditer(pattern, s, flags):
        n = m.pr.groups
        if n == 0:
            out.append(m.group())
        elif n == 1:
            out.append(m.group(1) or '')
        else:
            out.append(m.groups(''))
    return out


def subn(pattern, repl, s, count=0, flags=0):
    from engine import strops
    out = []
    pos = n = 0
    if not callable(repl) and has(repl):
        repl = strops.settle(repl, iset.of_chars('\\'))
    for m in finditer(pattern, s, flags):
        if count and n >= count:
            break
        a, b = m.span()
        out.append(s[pos:a])
        out.append(repl(m) if callable(repl) else expand(repl, m))
        pos = b
        n += 1
    out.append(s[pos:])
    return ''.join(out), n


def sub(pattern, repl, s, count=0, flags=0):
    return subn(pattern, repl, s, count, flags)[0]


def split(pattern, s, maxsplit=0, flags=0):
    out = []
    pos = n = 0
    for m in finditer(pattern, s, flags):
        if maxsplit and n >= maxsplit:
            break
        a, b = m.span()
        out.append(s[pos:a])
        out.extend(m.groups())
        pos = b
        n += 1
    out.append(s[pos:])
    return out
