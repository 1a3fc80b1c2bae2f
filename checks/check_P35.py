"""P35: translations reach the user, and change nothing but messages and generated names."""
import ast
import contextlib
import gettext
import locale
import os
import struct
import sys
import msgfmt
import pywriter
from engine.env import harness, minus, chars
from engine import iset
from checks_lib import *

BOUNDS = ('translation files of two or three entries of every layout (comments, marks, several lines, contexts, plural forms, missing line ends), with one arbitrary '
          'character of the supplementary planes and one of twelve fixed pieces (quotes, backslashes, line breaks, umlauts, ...) in each message and translation; every export, '
          'import and creation of a project with all messages translated, by texts with one arbitrary character, before or after the message')
ASSUMPTIONS = ['symbolic characters need four bytes in UTF-8, so that the sizes in the binary file are exact; other characters occur in the fixed pieces',
               'translation files are encoded in UTF-8 and say so; translations do not contain XML markup, and those with placeholders keep them',
               'the system locale is known']
ASTRAL = ((0x10000, 0xEFFFF),)
# texts and how they are written in a translation file
PIECES = [('', ''), ('x', 'x'), ('"', '\\"'), ('\\', '\\\\'), ('\n', '\\n'), ('\t', '\\t'), ('ä€', 'ä€'), ("'", "'"), ('# ', '# '), ('{0} %s', '{0} %s'), ('msgid', 'msgid'), (' ', ' ')]
HEAD = 'msgid ""\nmsgstr ""\n"Language: de\\n"\n"Content-Type: text/plain; charset=UTF-8\\n"\n'
HEAD_TEXT = 'Language: de\nContent-Type: text/plain; charset=UTF-8\n'


def catalog(path):
    """The messages of a compiled dictionary in their order (independent reader)."""
    with open(path, 'rb') as f:
        b = f.read()
    magic, version, n, o, t, hs, ho = struct.unpack('<7I', b[:28])
    assert (magic, version, hs) == (0x950412de, 0, 0)
    out = []
    for i in range(n):
        pair = []
        for table in (o, t):
            size, start = struct.unpack('<2I', b[table + 8 * i:table + 8 * i + 8])
            assert start >= 28 + 16 * n and b[start + size:start + size + 1] == b'\0'
            pair.append(b[start:start + size].decode('utf-8'))
        out.append(pair)
    return out


def compiled(e, text, name='de'):
    getattr(msgfmt, 'MESSAGES', {}).clear()
    e.put(e.path(name + '.po'), text)
    msgfmt.make(e.path(name + '.po'), e.path(name + '.mo'))
    return catalog(e.path(name + '.mo'))


def piece(e, name, first):
    """A text and how it is written."""
    t = first + e.text(name, 1, ASTRAL)
    x, y = e.choose(name + ' piece', PIECES)
    return (t + x, t + y)


LAYOUTS = ['plain', 'lines', 'comments', 'fuzzy', 'fuzzy last', 'missing', 'tight', 'context', 'plural', 'spaces', 'no end', 'crlf', 'case', 'fuzzy commented', 'missing context', 'contexts', 'fuzzy context']


@harness(cases={x: {'layout': x} for x in LAYOUTS}, thorough={f'{x},deep': {'layout': x, 'deep': True} for x in LAYOUTS})
def compile_(e, layout, deep=False):
    """The dictionary gives every message exactly its translation."""
    m, mw = piece(e, 'm', 'B')
    s, sw = piece(e, 's', 'T')
    z = e.text('z', 1, ASTRAL)
    if deep:
        z += e.choose('z piece', PIECES)[0].replace('"', '').replace('\\', '').replace('\n', '').replace('\t', '')
    a, c = f'msgid "A"\nmsgstr "a{z}"\n\n', f'msgid "C"\nmsgstr "{z}c"\n\n'
    want = [['', HEAD_TEXT], ['A', 'a' + z], [m, s], ['C', z + 'c']]
    b = f'msgid "{mw}"\nmsgstr "{sw}"\n\n'
    if layout == 'lines':
        b = f'msgid ""\n"{mw}"\n"next"\nmsgstr ""\n"{sw}"\n"{sw}"\n\n'
        want[2] = [m + 'next', s + s]
    elif layout == 'comments':
        b = f'# {sw}\n#: file.py:1\n#, python-format\n#~ msgid "old"\n#~ msgstr "old"\n' + b
    elif layout == 'fuzzy':
        b = '#, fuzzy\n' + b
        del want[2]
    elif layout == 'fuzzy last':
        c = '#: x\n#, python-format, fuzzy\n' + c
        del want[3]
    elif layout == 'missing':
        b = f'msgid "{mw}"\nmsgstr ""\n\n'
        del want[2]
    elif layout == 'tight':
        a, b, c = (x.replace('\n\n', '\n') for x in (a, b, c))
    elif layout == 'context':
        b = f'msgctxt "{z}"\nmsgid "{mw}"\nmsgstr "{sw}"\n\nmsgid "{mw}"\nmsgstr "no context"\n\n'
        want[2] = [m, 'no context']
        want.append([z + '\x04' + m, s])
    elif layout == 'plural':
        b = f'msgid "{mw}"\nmsgid_plural "{mw}s"\nmsgstr[0] "{sw}"\nmsgstr[1] "{sw}{z}"\n\n'
        want[2] = [m + '\0' + m + 's', s + '\0' + s + z]
    elif layout == 'case':
        a, c = c.replace('"C"', '"a"'), a
        want = [want[0], want[1], want[2], ['a', z + 'c']]
    elif layout == 'fuzzy commented':
        b, c = '#, fuzzy\n' + b, '# more\n#: x.py:7\n' + c
        del want[2]
    elif layout == 'missing context':
        b = f'msgctxt "{mw}"\nmsgid "X"\nmsgstr ""\n\n'
        del want[2]
    elif layout == 'contexts':
        b = f'msgctxt "{z}1"\nmsgid "X"\nmsgstr "{sw}"\n\nmsgctxt "{z}2"\nmsgid "X"\nmsgstr "{z}"\n\n'
        want = want[:2] + [want[3], [z + '1\x04X', s], [z + '2\x04X', z]]
    elif layout == 'fuzzy context':
        b = f'#, fuzzy\nmsgctxt "{mw}"\nmsgid "X"\nmsgstr "{sw}"\n\n#, fuzzy\nmsgctxt "{mw}y"\nmsgid "X"\nmsgstr "{sw}"\n\n'
        del want[2]
    elif layout == 'spaces':
        b = f'msgid   "{mw}"  \nmsgstr\t"{sw}" \n\n'
    elif layout == 'no end':
        c = c.rstrip('\n')
    text = HEAD + '\n' + a + b + c
    if layout == 'crlf':
        text = text.replace('\n', '\r\n')
    got = compiled(e, text)
    e.equal(got, want, 'dictionary')
    e.check(all(k.encode('utf-8') < l.encode('utf-8') for (k, x), (l, y) in zip(got, got[1:])), 'order of the messages')


@harness(cases={'': {}})
def several(e):
    """Translation files compiled one after the other do not mix."""
    z = e.text('z', 1, ASTRAL)
    one = HEAD + f'\nmsgid "A"\nmsgstr "{z}"\n\nmsgid "B"\nmsgstr "b"\n'
    two = HEAD + f'\nmsgid "A"\nmsgstr ""\n\nmsgid "C"\nmsgstr "{z}"\n'
    compiled(e, one)
    e.put(e.path('fr.po'), two)
    name = e.choose('name', ['fr', 'fr.po'])
    msgfmt.make(e.path(name), e.choose('outfile', [e.path('fr.mo'), None]))
    e.equal(catalog(e.path('fr.mo')), [['', HEAD_TEXT], ['C', z]], 'second dictionary')
    e.equal(catalog(e.path('de.mo')), [['', HEAD_TEXT], ['A', z], ['B', 'b']], 'first dictionary')


def sources():
    """All messages of the package."""
    out = set()
    root = os.path.dirname(pywriter.__file__)
    for d, ds, fs in os.walk(root):
        for f in fs:
            if f.endswith('.py'):
                with open(os.path.join(d, f), encoding='utf-8') as x:
                    tree = ast.parse(x.read())
                for n in ast.walk(tree):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == '_' and n.args and isinstance(n.args[0], ast.Constant):
                        out.add(n.args[0].value)
    return sorted(out)


MESSAGES = sources()


def dictionary(e, translation, language='de'):
    """Install a dictionary with all messages translated (independent writer)."""
    ids = strs = b''
    pairs = []
    for m in ['', *MESSAGES]:
        k = m.encode('utf-8')
        v = (translation(m) if m else HEAD_TEXT).encode('utf-8')
        pairs.append((len(k), len(ids), len(v), len(strs)))
        ids += k + b'\0'
        strs += v + b'\0'
    n = len(pairs)
    a = 28 + 16 * n
    b = a + len(ids)
    data = struct.pack('<7I', 0x950412de, 0, n, 28, 28 + 8 * n, 0, 0)
    data += b''.join(struct.pack('<2I', k, a + x) for k, x, v, y in pairs) + b''.join(struct.pack('<2I', v, b + y) for k, x, v, y in pairs)
    d = e.path('app', 'locale', language, 'LC_MESSAGES')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'pywriter.mo'), 'wb') as f:
        f.write(data + ids + strs)


@contextlib.contextmanager
def program(e, language='de_DE', app='app'):
    """A fresh start of the program with this system language."""
    saved = {k: m for k, m in sys.modules.items() if k == 'pywriter' or k.startswith('pywriter.')}
    argv, getlocale = sys.argv, locale.getlocale
    sys.argv = [e.path(app, 'run.py')]
    locale.getlocale = lambda *a: (language, 'UTF-8')
    for k in saved:
        del sys.modules[k]
    gettext._translations.clear()
    try:
        yield
    finally:
        for k in [k for k in sys.modules if k == 'pywriter' or k.startswith('pywriter.')]:
            del sys.modules[k]
        sys.modules.update(saved)
        sys.argv, locale.getlocale = argv, getlocale
        gettext._translations.clear()


@harness(cases={'': {}})
def language(e):
    """The messages are those of the user's language, if there is a dictionary, otherwise the original ones."""
    z = e.text('z', 1, ASTRAL)
    have = e.choose('dictionary', ['de', 'en', 'pt'])
    dictionary(e, lambda m: z + m, have)
    want = e.choose('language', ['de_DE', 'de_AT', 'en_US', 'pt', 'pt_BR', 'fr_FR'])
    with program(e, want, e.choose('place', ['app', 'other'])):
        from pywriter import pywriter_globals as g
        there = want[:2] == have and sys.argv[0] == e.path('app', 'run.py')
        for m in MESSAGES:
            e.equal(g._(m), z + m if there else m, 'message')
        e.equal(g._('unknown'), 'unknown', 'message without translation')
        e.equal(g.CURRENT_LANGUAGE, want[:2], 'language')


def marks(e):
    """A translation, and the text without it."""
    t = '\u2039' + e.text('t', 1, iset.diff(iset.XML_CHARS, iset.union(iset.of_chars('&<>"\'$\n\r\t{}'), ((0, 0xFFFF),)))) + '\u203a'
    before = e.flag('before')

    def remove(x):
        if isinstance(x, str):
            return x.replace(t, '')
        if isinstance(x, (list, tuple)):
            return [remove(y) for y in x]
        if isinstance(x, dict):
            return {k: remove(y) for k, y in x.items()}
        return x
    return (lambda m: t + m if before else m + t), remove


def fresh_convert(src, suffix=None, answer=True):
    """Convert with the newly started program; return what the user has seen."""
    from pywriter.converter.yw7_converter import Yw7Converter
    c = Yw7Converter()
    c.ui = RecUi(answer)
    c.run(src, suffix=suffix)
    return [c.ui.how, c.ui.what, c.ui.questions, c.ui.warnings, c.newFile]


def both(e, action):
    """Run with and without translations; return both results and the function that removes the translations."""
    tr, remove = marks(e)
    out = []
    for translated in (False, True):
        d = e.path('w')
        os.makedirs(d, exist_ok=True)
        if translated:
            dictionary(e, tr)
        with program(e):
            r = action(d)
        f = {k: v for k, v in files(e).items() if k.startswith('w/')}
        out.append((r, f))
        for x in sorted(os.listdir(d)):
            os.remove(os.path.join(d, x))
    return out[0], out[1], remove


def compare(e, action, project=None):
    (r0, f0), (r1, f1), remove = both(e, action)
    e.equal(remove(r1), r0, 'messages')
    for how in r1:
        for m, n in zip(how[0], r1[0][0]):
            e.check(isinstance(m, str), 'message')
    e.equal(sorted(f1), sorted(f0), 'files')
    for k in f0:
        if isinstance(f0[k], list):
            for (n, x), (n1, y) in zip(f0[k], f1[k]):
                if n != 'meta.xml':
                    e.equal([n1, remove(y)], [n, x], f'{k}: {n}')
        else:
            e.equal(remove(f1[k]), f0[k], k)


@harness(cases={s or 'export': {'suffix': s} for s in EXPORTS})
def export(e, suffix):
    """Documents are the same but for translated texts; refused and failed exports are reported the same way."""
    def action(d):
        p = os.path.join(d, 'p.yw7')
        save(p, rich_novel())
        out = [fresh_convert(p, suffix), fresh_convert(p, suffix, False), fresh_convert(p, suffix), fresh_convert(p, '_none'), fresh_convert(os.path.join(d, 'none.yw7'), suffix)]
        return out
    compare(e, action)


@harness(cases={s: {'suffix': s} for s in IMPORTS})
def import_(e, suffix):
    """Documents are written back the same way in every language."""
    def action(d):
        p = os.path.join(d, 'p.yw7')
        save(p, rich_novel())
        doc = os.path.join(d, doc_name('p', suffix))
        out = [fresh_convert(p, suffix), fresh_convert(doc)]
        # written back again to a project that has lost the texts
        save(p, small_novel())
        return out + [fresh_convert(doc), fresh_convert(doc, None, False)]
    compare(e, action)


@harness(cases={'work': {'what': 'work'}, 'outline': {'what': 'outline'}, 'split': {'what': 'split'}, 'never': {'what': 'never'}})
def create(e, what):
    """New projects and new scenes are the same but for generated names."""
    h = '<text:h text:style-name="Heading_20_{0}" text:outline-level="{0}">{1}</text:h>'
    P = '<text:p text:style-name="Text_20_body">{}</text:p>'

    def action(d):
        p = os.path.join(d, 'p.yw7')
        n = small_novel()
        save(p, n)
        out = [fresh_convert(p, '_manuscript')]
        doc = os.path.join(d, 'p_manuscript.odt')
        c = unzip(doc)
        if what == 'split':
            a = c.index('</text:section>')
            rezip(doc, c[:a] + P.format('##') + P.format('text') + P.format('#') + P.format('more') + P.format('###') + P.format('last') + c[a:])
            return out + [fresh_convert(doc)]
        new = os.path.join(d, 'new.odt' if what != 'never' else 'new_xref.odt')
        os.replace(doc, new)
        a = c.index('>', c.index('<office:text')) + 1
        body = h.format(1, 'One') + h.format(2, 'Two') + (h.format(3, 'Three') if what == 'outline' else '') + P.format('text') + h.format(2, 'Four') + P.format('* * *') + P.format('x')
        rezip(new, c[:a] + body + c[c.index('</office:text>'):])
        return out + [fresh_convert(new), fresh_convert(new)]
    compare(e, action)
