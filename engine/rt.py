"""Run-time helpers called by instrumented code."""
import builtins
import functools
import re
import sys
import types
from engine import strops, symre, sym, iset
from engine.sym import SymInt, SymBool, Unsupported, has
from engine.strops import hs, any_sym

DISPATCH = {}       # function object -> replacement
_SM = strops.METHODS
_STRN = strops.NAMES
_PAT = re.Pattern
_HASHABLE = (types.FunctionType, types.BuiltinFunctionType, type, types.MethodType, functools._lru_cache_wrapper)


def cm(obj, name, *a, **k):
    """obj.name(*a, **k)"""
    t = type(obj)
    if t is str:
        f = _SM.get(name)
        if f is not None:
            if not obj.isascii() and has(obj):
                return f(obj, *a, **k)
            for x in a:
                if type(x) is str:
                    if not x.isascii() and has(x):
                        if name == 'format':
                            break
                        return f(obj, *a, **k)
                elif type(x) is tuple and name in ('startswith', 'endswith') and any_sym(x):
                    return f(obj, *a, **k)
        return getattr(obj, name)(*a, **k)
    if t is dict:
        if name in _DICTM and a and type(a[0]) is str:
            return _DICTM[name](obj, *a, **k)
        if name == 'update':
            return _dict_update(obj, *a, **k)
        return getattr(obj, name)(*a, **k)
    if t is list:
        f = _LISTM.get(name)
        if f is not None:
            return f(obj, *a, **k)
        return getattr(obj, name)(*a, **k)
    if t is set:
        f = _SETM.get(name)
        if f is not None and a and type(a[0]) is str:
            return f(obj, *a)
        if f is not None and name == 'update':
            for it in a:
                for x in it:
                    _set_add(obj, x)
            return None
        return getattr(obj, name)(*a, **k)
    if t is _PAT:
        if name in ('sub', 'subn'):
            s = a[1] if len(a) > 1 else k.get('string')
            if hs(s):
                c = a[2] if len(a) > 2 else k.get('count', 0)
                return getattr(symre, name)(obj, a[0] if a else k['repl'], s, c)
        elif name in ('search', 'match', 'fullmatch', 'findall', 'finditer', 'split'):
            s = a[0] if a else k.get('string')
            if hs(s):
                return getattr(symre, name)(obj, s, *a[1:])
        return getattr(obj, name)(*a, **k)
    f = getattr(obj, name)
    if obj is str and name in _STRN and a and type(a[0]) is str:
        return cm(a[0], name, *a[1:], **k)
    try:
        h = DISPATCH.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    return f(*a, **k)


def call(f, *a, **k):
    try:
        h = DISPATCH.get(f)
    except TypeError:
        return f(*a, **k)
    if h is not None:
        return h(*a, **k)
    return f(*a, **k)


def ga(obj, name):
    """obj.name as a value, for the names of str methods that inspect text."""
    if type(obj) is str and name in _STRN:
        return lambda *a, **k: cm(obj, name, *a, **k)
    if obj is str and name in _STRN:
        return lambda s, *a, **k: cm(s, name, *a, **k)
    return getattr(obj, name)


# ---- containers ----------------------------------------------------------
def gi(obj, k):
    if type(k) is str and isinstance(obj, dict):
        if k in obj:
            return obj[k]
        f = strops.find_key(obj, k)
        if f is not None:
            return obj[f[0]]
    return obj[k]


def si(obj, k, v):
    if type(k) is str and isinstance(obj, dict) and k not in obj:
        f = strops.find_key(obj, k)
        if f is not None:
            k = f[0]
    obj[k] = v


def di(obj, k):
    if type(k) is str and isinstance(obj, dict) and k not in obj:
        f = strops.find_key(obj, k)
        if f is not None:
            k = f[0]
    del obj[k]


def _key(obj, k):
    f = strops.find_key(obj, k)
    return k if f is None else f[0]


def _dict_update(d, *a, **k):
    for x in a:
        if hasattr(x, 'keys'):
            for kk in x.keys():
                si(d, kk, x[kk])
        else:
            for kk, v in x:
                si(d, kk, v)
    for kk, v in k.items():
        si(d, kk, v)


_DICTM = {
    'get': lambda d, k, *a: d.get(_key(d, k), *a),
    'pop': lambda d, k, *a: d.pop(_key(d, k), *a),
    'setdefault': lambda d, k, *a: d.setdefault(_key(d, k), *a),
    '__contains__': lambda d, k: strops.find_key(d, k) is not None,
    '__getitem__': lambda d, k: gi(d, k),
    '__setitem__': lambda d, k, v: si(d, k, v),
}


def _list_index(l, x, *a):
    if not any_sym(l, 1) and not any_sym(x, 1):
        return l.index(x, *a)
    st, en, _ = slice(*(list(a) + [None, None])[:2]).indices(len(l))
    for i in range(st, en):
        if strops.eq(l[i], x):
            return i
    raise ValueError('not in list')


def _list_remove(l, x):
    del l[_list_index(l, x)]


def _list_count(l, x):
    if not any_sym(l, 1) and not any_sym(x, 1):
        return l.count(x)
    return sum(1 for y in l if strops.eq(x, y))


def _cmpfn(x, y):
    if type(x) in (list, tuple) and type(x) is type(y):
        for p, q in zip(x, y):
            r = _cmpfn(p, q)
            if r:
                return r
        return len(x) - len(y)
    if strops.eq(x, y):
        return 0
    return -1 if strops.lt(x, y, '<') else 1


def sorted_(it, *, key=None, reverse=False):
    l = list(it)
    ks = l if key is None else [key(x) for x in l]
    if not any_sym(ks, 2):
        return sorted(l, key=key, reverse=reverse)
    kf = functools.cmp_to_key(_cmpfn)
    if key is None:
        return sorted(l, key=kf, reverse=reverse)
    return sorted(l, key=lambda x: kf(key(x)), reverse=reverse)


def _list_sort(l, *, key=None, reverse=False):
    l[:] = sorted_(l, key=key, reverse=reverse)


_LISTM = {'index': _list_index, 'remove': _list_remove, 'count': _list_count, 'sort': _list_sort}


def _set_add(s, x):
    if type(x) is str:
        if strops.find_key(s, x) is None:
            s.add(x)
    else:
        s.add(x)


_SETM = {
    'add': _set_add,
    'discard': lambda s, x: s.discard(_key(s, x)),
    'remove': lambda s, x: s.remove(_key(s, x)),
    'update': None,
}
_SETM['update'] = lambda s, x: None


def mkset(it=()):
    s = set()
    for x in it:
        _set_add(s, x)
    return s


def mkdict(*a, **k):
    d = {}
    _dict_update(d, *a, **k)
    return d


def fromkeys(it, v=None):
    d = {}
    for x in it:
        si(d, x, v)
    return d


def _minmax(fn):
    def f(*a, **k):
        if len(a) == 1:
            a = (list(a[0]),) + a[1:]
            items = a[0]
        else:
            items = a
        if any_sym(items, 1) and any(type(x) is str for x in items):
            key = k.get('key')
            kf = functools.cmp_to_key(_cmpfn)
            return fn(items, key=(lambda x: kf(key(x))) if key else kf)
        return fn(*a, **k)
    return f


# ---- comparison ----------------------------------------------------------
def eq(a, b):
    ta = type(a)
    if ta is str and type(b) is str:
        return strops.eq(a, b) if a != b else True
    if ta in (list, tuple, dict):
        return strops.eq(a, b)
    return a == b


def ne(a, b):
    ta = type(a)
    if ta is str and type(b) is str:
        return not eq(a, b)
    if ta in (list, tuple, dict):
        return not strops.eq(a, b)
    return a != b


def lt(a, b):
    return strops.lt(a, b, '<') if type(a) is str else a < b


def le(a, b):
    return strops.lt(a, b, '<=') if type(a) is str else a <= b


def gt(a, b):
    return strops.lt(a, b, '>') if type(a) is str else a > b


def ge(a, b):
    return strops.lt(a, b, '>=') if type(a) is str else a >= b


def in_(a, b):
    return strops.contains(b, a)


def notin(a, b):
    return not strops.contains(b, a)


def mod(a, b):
    if type(a) is str:
        if has(a):
            a = strops.settle(a, iset.of_chars('%'))
    return a % b


# ---- builtins ------------------------------------------------------------
def _isinstance(o, c):
    if type(o) is SymInt:
        o = 0
    elif type(o) is SymBool:
        o = True
    return isinstance(o, c)


def _type(o, *a):
    if a:
        return type(o, *a)
    t = type(o)
    return int if t is SymInt else bool if t is SymBool else t


def _int(x=0, *a):
    if type(x) is SymInt:
        return x
    if type(x) is str and has(x):
        return strops.to_int(x, *a)
    return int(x, *a)


def _float(x=0.0):
    if type(x) is str and has(x):
        return float(sym.CTX.concretize(x))
    return float(x)


def _bool(x=False):
    return x if type(x) is SymBool else bool(x)


def _str(x='', *a):
    return str(x, *a)


def _ord(ch):
    if type(ch) is str and len(ch) == 1 and sym.is_sent(ch):
        return SymInt(sym.CTX.var(ch))
    return ord(ch)


def _chr(i):
    if type(i) is SymInt:
        c = sym.CTX
        if i.var is not None and i.off == 0 and i.var in c.chars:
            return chr(sym.BASE + c.chars.index(i.var))
        c.nfresh += 1
        ch = c.new_char(f'_o{c.nfresh}', iset.UNICODE, inp=False)
        c.relate(c.var(ch))
        c.assume(c.var(ch).zv() == i.expr())
        return ch
    return chr(i)


def _re(name):
    nat = getattr(re, name)
    simf = getattr(symre, name)

    def f(pattern, *a, **k):
        if isinstance(pattern, str) and has(pattern):
            pattern = sym.CTX.concretize(pattern)
        i = 1 if name in ('sub', 'subn') else 0
        s = a[i] if len(a) > i else k.get('string')
        if hs(s) or (i and type(a[0]) is str and has(a[0])):
            return simf(pattern, *a, **k)
        return nat(pattern, *a, **k)
    return f


def _any_truth(f):
    return f


def init():
    D = DISPATCH
    D[isinstance] = _isinstance
    D[type] = _type
    D[int] = _int
    D[float] = _float
    D[bool] = _bool
    D[ord] = _ord
    D[chr] = _chr
    D[sorted] = sorted_
    D[min] = _minmax(min)
    D[max] = _minmax(max)
    D[set] = mkset
    D[dict] = mkdict
    D[dict.fromkeys] = fromkeys
    for n in ('sub', 'subn', 'search', 'match', 'fullmatch', 'findall', 'finditer', 'split'):
        D[getattr(re, n)] = _re(n)


init()
