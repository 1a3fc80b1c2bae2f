"""Models of C code that inspects text: XML parsing, ElementTree escaping, templates, dates (symbolic process)."""
import html
import json
import os
import re
import string
import sys
import urllib.parse
import xml.etree.ElementTree as ET
import io
import xml.sax
import xml.sax.saxutils
import z3
from engine import iset, rt, strops, sym, instrument
from engine.sym import has, SENT_RE

ILLEGAL = iset.diff(iset.ALL, iset.union(iset.XML_CHARS, iset.SENTINELS))
LT_AMP = iset.of_chars('<&')
CR = iset.of_chars('\r')
QUOTES = iset.of_chars('"\'')
ATTR_WS = iset.of_chars('\t\n')


def settle_xml(s):
    """Fork every symbolic character of an XML text on the classes an XML parser distinguishes.

    What is left symbolic is a legal XML character that the parser passes through unchanged.
    """
    if not has(s):
        return s
    c = sym.CTX
    s = c.resolve(s)
    pos = 0
    while True:
        m = SENT_RE.search(s, pos)
        if m is None:
            break
        i = m.start()
        v = c.var(s[i])
        if c.in_set(v, ILLEGAL):
            return s[:i] + '\x01' + s[i + 1:]
        before = s[:i]
        lt = before.rfind('<')
        cd = before.rfind('<![CDATA[')
        in_cdata = cd >= 0 and before.find(']]>', cd) < 0
        in_tag = not in_cdata and lt > before.rfind('>')
        dom = CR
        if not in_cdata:
            dom = iset.union(dom, LT_AMP)
        if in_tag:
            dom = iset.union(dom, iset.union(QUOTES, ATTR_WS))
        if c.in_set(v, dom):
            for ch in sorted(chr(x) for lo, hi in dom for x in range(lo, hi + 1)):
                if c.in_set(v, ((ord(ch), ord(ch)),)):
                    s = s[:i] + ch + s[i + 1:]
                    break
        pos = i + 1
    if has(s):
        # the sequence ]]> is special in character data and in CDATA sections
        p = 0
        while True:
            p = strops.find(s, ']]>', p)
            if p < 0:
                break
            p += 1
        s = c.resolve(s)
    return s


def _settle_any(data):
    if isinstance(data, (bytes, bytearray)):
        if b'\xf3\xb0' in data or b'\x80\xdb' in data or b'\xdb\x80' in data:
            enc = 'utf-8'
            if data[:2] in (b'\xff\xfe', b'\xfe\xff'):
                enc = 'utf-16'
            s = data.decode(enc)
            return settle_xml(s).encode(enc)
        return data
    return settle_xml(data)


_ET_parse, _ET_fromstring, _ET_XML = ET.parse, ET.fromstring, ET.XML
_sax_parseString, _sax_parse = xml.sax.parseString, xml.sax.parse


def et_fromstring(text, parser=None):
    return _ET_fromstring(_settle_any(text), parser)


def et_parse(source, parser=None):
    if hasattr(source, 'read'):
        data = source.read()
    else:
        with open(source, 'rb') as f:
            data = f.read()
    root = _ET_fromstring(_settle_any(data), parser)
    return ET.ElementTree(root)


def sax_parseString(s, handler, *a, **k):
    return _sax_parseString(_settle_any(s), handler, *a, **k)


def sax_parse(source, handler, *a, **k):
    if hasattr(source, 'read'):
        data = source.read()
    else:
        with open(source, 'rb') as f:
            data = f.read()
    return _sax_parseString(_settle_any(data), handler, *a, **k)


class SaxParser(xml.sax.make_parser().__class__):
    """An expat parser that settles symbolic documents before they reach expat."""

    def feed(self, data, *args, **kwargs):
        return super().feed(_settle_any(data), *args, **kwargs)

    def parse(self, source):
        if hasattr(source, 'getByteStream'):
            source = source.getByteStream() or source.getCharacterStream() or source.getSystemId()
        if hasattr(source, 'read'):
            data = source.read()
        else:
            with open(source, 'rb') as f:
                data = f.read()
        data = _settle_any(data)
        super().parse(io.BytesIO(data.encode('utf-8') if isinstance(data, str) else data))


def make_parser(*args, **kwargs):
    return SaxParser()


ALWAYS_SAFE = iset.of_chars('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~')
HEX = iset.of_chars('0123456789ABCDEF')


def quote(s, safe='/', encoding=None, errors=None):
    """Percent encoding; the hexadecimal digits of a symbolic character are derived characters."""
    if type(s) is not str or not has(s):
        return urllib.parse.quote(s, safe, encoding, errors)
    c = sym.CTX
    keep = iset.union(ALWAYS_SAFE, iset.of_chars(safe))
    out = []
    for ch in c.resolve(s):
        if not sym.is_sent(ch):
            out.append(urllib.parse.quote(ch, safe, encoding, errors))
            continue
        v = c.var(ch)
        if c.in_set(v, keep):
            out.append(ch)
            continue
        c.relate(v)
        z = v.zv()
        if c.in_set(v, ((0, 0x7f),)):
            bs = [z]
        elif c.in_set(v, ((0x80, 0x7ff),)):
            bs = [0xc0 + z / 64, 0x80 + z % 64]
        elif c.in_set(v, ((0x800, 0xffff),)):
            bs = [0xe0 + z / 4096, 0x80 + z / 64 % 64, 0x80 + z % 64]
        else:
            bs = [0xf0 + z / 262144, 0x80 + z / 4096 % 64, 0x80 + z / 64 % 64, 0x80 + z % 64]
        for i, b in enumerate(bs):
            out.append('%')
            for j, n in enumerate((b / 16, b % 16)):
                h = c.new_char(f'{v.name}%{i}{j}', HEX, False)
                hv = c.var(h)
                c.relate(hv)
                y = hv.zv()
                c.assume(z3.If(y >= 65, y - 55, y - 48) == n)
                out.append(h)
    return ''.join(out)


def splitext(p):
    """os.path.splitext for paths with symbolic characters."""
    if type(p) is not str or not has(p):
        return os.path.splitext(p)
    sep = strops.rfind(p, '/')
    dot = strops.rfind(p, '.')
    if dot > sep:
        i = sep + 1
        while i < dot:
            if not strops.eq(p[i], '.'):
                return p[:dot], p[dot:]
            i += 1
    return p, p[:0]


JSON_SPECIAL = iset.of_chars('"\\' + ''.join(map(chr, range(32))))


def settle_json(s):
    """Fork the symbolic characters of a text on the characters that JSON escapes."""
    c = sym.CTX
    s = c.resolve(s)
    out = []
    for ch in s:
        if sym.is_sent(ch) and c.in_set(c.var(ch), JSON_SPECIAL):
            for x in '"\\' + ''.join(map(chr, range(32))):
                if c.in_set(c.var(ch), ((ord(x), ord(x)),)):
                    ch = x
                    break
        out.append(ch)
    return ''.join(out)


def json_dumps(o, **k):
    def settle(x):
        if type(x) is str:
            return settle_json(x) if has(x) else x
        if type(x) is dict:
            keys = list(x)
            if k.get('sort_keys'):
                rt.cm(keys, 'sort')
            return {settle(y): settle(x[y]) for y in keys}
        if type(x) in (list, tuple):
            return [settle(y) for y in x]
        return x
    if not strops.any_sym(o):
        return json.dumps(o, **k)
    o = settle(o)
    if k.get('ensure_ascii', True):
        raise sym.Unsupported('json with ASCII output')
    return json.dumps(o, **dict(k, sort_keys=False))


def json_dump(o, f, **k):
    if strops.any_sym(o):
        f.write(json_dumps(o, **k))
    else:
        json.dump(o, f, **k)


def json_loads(s, **k):
    if type(s) is not str or not has(s):
        return json.loads(s, **k)
    return json.loads(settle_json(s), **dict(k, object_pairs_hook=rt.mkdict))


def json_load(f, **k):
    return json_loads(f.read(), **k)


_unescape = None


def init():
    D = rt.DISPATCH
    D[ET.parse] = et_parse
    D[ET.fromstring] = et_fromstring
    D[ET.XML] = et_fromstring
    D[xml.sax.parseString] = sax_parseString
    D[xml.sax.parse] = sax_parse
    D[xml.sax.make_parser] = make_parser
    h = instrument.stdlib_copy('html')
    D[html.unescape] = lambda s: h.unescape(s) if strops.hs(s) else html.unescape(s)
    D[html.escape] = lambda s, quote=True: h.escape(s, quote) if strops.hs(s) else html.escape(s, quote)
    su = instrument.stdlib_copy('xml.sax.saxutils')
    for n in ('escape', 'unescape', 'quoteattr'):
        D[getattr(xml.sax.saxutils, n)] = getattr(su, n)
    # ElementTree's serializer calls these two through its module globals
    import inspect
    import textwrap
    for n in ('_escape_cdata', '_escape_attrib', '_escape_attrib_html'):
        src = inspect.getsource(getattr(ET, n))
        ns = dict(ET.__dict__)
        ns.update(instrument.HELPERS)
        exec(instrument.compile_source(src, f'<ET.{n}>'), ns)
        setattr(ET, n, ns[n])
    st = instrument.stdlib_copy('string')

    def template(text):
        return st.Template(text) if strops.hs(text) else string.Template(text)
    D[string.Template] = template

    D[urllib.parse.quote] = quote
    D[json.dumps] = json_dumps
    D[json.dump] = json_dump
    D[json.loads] = json_loads
    D[json.load] = json_load
    import os.path
    D[os.path.splitext] = splitext
    import configparser
    cp = []

    def cfg(*a, **k):
        if not cp:
            cp.append(instrument.stdlib_copy('configparser'))
        return cp[0].ConfigParser(*a, **k)
    D[configparser.ConfigParser] = cfg
    import datetime
    import _pydatetime

    class DT:
        """Result of fromisoformat on a text with symbolic digits, limited to isoformat()."""

        def __init__(self, s):
            self.s = s

        def isoformat(self, sep='T', timespec='auto'):
            return self.s

    def fromiso(s):
        if not strops.hs(s):
            return datetime.datetime.fromisoformat(s)
        c = sym.CTX
        # Model for the layout YYYY-MM-DD?HH:MM:SS with symbolic digits; other layouts are concretised.
        ok = len(s) == 19 and all(c.in_chars(s[i], iset.DIGITS) for i in
                                  (0, 1, 2, 3, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18)) \
            and c.eqch(s[4], '-') and c.eqch(s[7], '-') and c.eqch(s[13], ':') and c.eqch(s[16], ':') \
            and not has(s[10])
        if not ok:
            return datetime.datetime.fromisoformat(c.concretize(s))
        def num(a, b):
            return strops.to_int(s[a:b]) if has(s[a:b]) else int(s[a:b])
        y, mo, d, hh, mi, ss = num(0, 4), num(5, 7), num(8, 10), num(11, 13), num(14, 16), num(17, 19)
        if not (y >= 1) or not (mo >= 1) or not (mo <= 12) or not (d >= 1) or not (hh <= 23) or not (mi <= 59) or not (ss <= 59):
            raise ValueError('out of range')
        if mo == 2:
            if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0):
                top = 29
            else:
                top = 28
        elif mo == 4 or mo == 6 or mo == 9 or mo == 11:
            top = 30
        else:
            top = 31
        if not (d <= top):
            raise ValueError('day is out of range for month')
        return DT(s[:10] + 'T' + s[11:])
    D[datetime.datetime.fromisoformat] = fromiso
