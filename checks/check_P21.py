"""P21: exported manuscripts show the formatting of the scenes, their comments, footnotes and endnotes."""
import xml.etree.ElementTree as ET
from engine.env import harness, minus, chars
from engine import iset
from checks_lib import *
from prose import *

BOUNDS = ('scene contents of the 52 listed shapes (line breaks, empty lines, italic, bold, language, nested and across lines, quotations, comments) with one or two '
          'arbitrary characters at each text position; sequences of three notes and comments in three scenes; every kind of dropped markup; up to three languages'
          '; three scenes with 24 notes and comments, one of any kind at several places')
ASSUMPTIONS = ['markup is balanced and properly nested; the format of line breaks and white space at the end of a scene do not count',
               'the paragraph style of lines that are not quotations is not compared']
TEXT3 = minus(TEXT, '>')
TEXT2 = minus('nocr', '[]*/<>')
NS = {'urn:oasis:names:tc:opendocument:xmlns:text:1.0': 'text', 'urn:oasis:names:tc:opendocument:xmlns:office:1.0': 'office',
      'urn:oasis:names:tc:opendocument:xmlns:style:1.0': 'style', 'http://purl.org/dc/elements/1.1/': 'dc',
      'urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0': 'fo'}


def short(tag):
    ns, name = tag[1:].split('}')
    return f'{NS.get(ns, ns)}:{name}'


def attr(el, name):
    for k, v in el.attrib.items():
        if short(k) == name:
            return v


class Document:
    """The formatted text of each scene of an exported document."""

    def __init__(self, xml):
        root = ET.fromstring(xml)
        self.languages = {}
        for s in root.iter():
            if short(s.tag) == 'style:style':
                for p in s:
                    if attr(p, 'fo:language'):
                        self.languages[attr(s, 'style:name')] = [attr(p, 'fo:language'), attr(p, 'fo:country')]
                        self.asian = [attr(p, 'style:language-asian'), attr(p, 'style:country-asian'),
                                      attr(p, 'style:language-complex'), attr(p, 'style:country-complex')]
        self.scenes = []
        self.heads = []
        self.blocks(next(x for x in root.iter() if short(x.tag) == 'office:text'), False)

    def blocks(self, el, on):
        for x in el:
            t = short(x.tag)
            if t == 'text:section':
                self.blocks(x, on)
            elif t == 'text:h':
                self.heads.append(self.runs(x))
                self.new = True
            elif t == 'text:p' and self.heads:
                style = attr(x, 'text:style-name')
                if style == 'Heading_20_4':
                    self.new = True
                    continue
                if self.new:
                    self.scenes.append([])
                    self.new = False
                else:
                    self.scenes[-1].append(['\n'])
                if style == 'Quotations':
                    self.scenes[-1].append(['>'])
                self.scenes[-1] += self.runs(x)

    def runs(self, el):
        out = []
        self.run(el, (False, False, ''), out)
        return out

    def run(self, el, f, out):
        for c in el.text or '':
            out.append([c, f[0], f[1], f[2]])
        for x in el:
            t = short(x.tag)
            if t == 'text:span':
                s = attr(x, 'text:style-name')
                lang = '-'.join(self.languages[s]) if s in self.languages else f[2]
                self.run(x, (f[0] or s == 'Emphasis', f[1] or s == 'Strong_20_Emphasis', lang), out)
            elif t == 'text:a':
                self.run(x, f, out)
            elif t == 'office:annotation':
                out.append(['comment', [self.plain(y) for y in x if short(y.tag) == 'text:p'], [self.plain(y) for y in x if short(y.tag) == 'dc:creator']])
            elif t == 'text:note':
                label = [attr(y, 'text:label') for y in x if short(y.tag) == 'text:note-citation']
                body = [self.plain(p) for y in x if short(y.tag) == 'text:note-body' for p in y]
                styles = sorted(set(attr(p, 'text:style-name') for y in x if short(y.tag) == 'text:note-body' for p in y))
                out.append(['note', attr(x, 'text:note-class'), label, body, styles, attr(x, 'text:id')])
            else:
                out.append(['?', t])
            for c in x.tail or '':
                out.append([c, f[0], f[1], f[2]])

    def plain(self, el):
        return ''.join([c for c in el.itertext()])


def document(e, nov, suffix):
    p = e.path('p.yw7')
    save(p, nov)
    c, ui = convert(p, suffix)
    e.equal(ui.how, [f'File written: "{e.path(doc_name("p", suffix))}".'], 'message')
    return Document(unzip(c.newFile)) if c.newFile else None


def cut(runs):
    """Without white space at the end."""
    runs = [['comment', x[1][0].strip()] if x[0] == 'comment' and len(x) == 3 and len(x[1]) == 1 else x for x in runs]
    while runs and (runs[-1] == ['\n'] or (len(runs[-1]) == 4 and runs[-1][0].isspace())):
        del runs[-1]
    if runs and runs[-1][0] == '>' and (len(runs) == 1 or runs[-2] == ['\n']):
        runs[-1] = ['>']    # an empty quotation at the end
    return runs


DOCS = ['', '_manuscript', '_proof']


@harness(cases={f'{i},{d or "export"}': {'shape': s, 'k': 1, 'suffix': d} for i, s in enumerate(SHAPES) for d in ('', '_manuscript')},
         thorough={f'{i},{d or "export"},{k}': {'shape': s, 'k': k, 'suffix': d, 'full': full} for i, s in enumerate(SHAPES) for d in ('', '_manuscript')
                   for k, full in ((1, 3), (2, 1))})
def shapes(e, shape, k, suffix, full=2):
    """One scene of the given shape, another one with different formatting."""
    t = fill(e, shape, k, TEXT3 if suffix else minus(TEXT3, '<'), full)
    nov = rich_novel(t)
    nov.scenes['2'].sceneContent = 'x[i]y[/i]\nz'
    d = document(e, nov, suffix)
    e.equal(cut(d.scenes[0]), formatted(t), 'formatted text')
    e.equal(d.scenes[1], formatted('x[i]y[/i]\nz'), 'next scene')
    e.equal(len(d.scenes), 3, 'number of scenes')


NOTES = {'fn': 'footnote', 'en': 'endnote', 'fn*': 'footnote', 'comment': None, 'none': None}


@harness(cases={**{f'{a}': {'first': a} for a in NOTES}, **{f'{a},text': {'first': a, 'n': 1, 'full': True} for a in NOTES}},
         thorough={**{f'{a},4': {'first': a, 'n': 4} for a in NOTES}, **{f'{a},text,2': {'first': a, 'n': 2, 'full': True} for a in NOTES}})
def notes(e, first, n=3, full=False):
    """Notes and comments in several scenes: classes, numbers, texts."""
    t = e.text('t', 1, minus(TEXT2, '\n') if full else 'lower')
    nov = rich_novel('Text')
    nov.authorName = 'A' + e.char('a', 'line' if full else 'lower') + 'b'
    counter = label = 0
    want = []
    for i in range(n):
        kind = first if i == 0 else e.choose(f'k{i}', list(NOTES))
        x = f'p{t}q' if i == 0 else 'more' if i == 1 else f'{i}'
        two = i == (0 if full else 1) and e.flag('two')
        body = x + '\n' + x if two else x
        mark = {'comment': f'/*{body}*/', 'none': ''}.get(kind, f'/* @{kind} {body}*/' if i % 2 else f'/*@{kind} {body}*/')
        scene = '123'[min(i, 2)]
        s = nov.scenes[scene]
        if i < 3:
            s.sceneContent = 'v' + mark + 'w'
            want.append([])
        else:
            s.sceneContent += ' ' + mark + 'z'
        w = [['v', False, False, '']] if i < 3 else [[' ', False, False, '']]
        if kind == 'comment':
            w.append(['comment', [x, x] if two else [x], [nov.authorName]])
        elif kind != 'none':
            counter += 1
            if not kind.endswith('*'):
                label += 1
            w.append(['note', NOTES[kind], ['*' if kind.endswith('*') else str(label)], [x, x] if two else [x],
                      ['Footnote' if 'fn' in kind else 'Endnote'], f'ftn{counter}'])
        w.append(['w' if i < 3 else 'z', False, False, ''])
        want[-1] += w
    d = document(e, nov, '')
    for i in range(min(n, 3)):
        got = d.scenes[i] if i < len(d.scenes) else None
        e.equal(got, want[i], f'text, notes and comments of scene {i}')


TAGS = ['h', 'h1', 'c', 'r', 's', 'u', 'h12']
CODES = ['HTM', 'TEX', 'RTF', 'epub', 'mobi', 'rtfimg']


@harness(cases={f'{d or "export"}': {'suffix': d} for d in ('', '_manuscript')}, thorough={f'{d or "export"},full': {'suffix': d, 'full': True} for d in ('', '_manuscript')})
def dropped(e, suffix, full=False):
    """Highlighting, alignment, strike-through, underline tags are dropped, their text is kept; so are brackets that are no markup."""
    a, b, c = e.char('a', minus('line', '[]*/<>')), e.char('b', minus('line', '[]*/<>') if full else 'lower'), e.char('c', 'lower')
    where = e.choose('where', ['plain', 'in italics', 'around', 'no markup', 'brackets'])
    tag = e.choose('tag', TAGS) if where != 'brackets' else ''
    if where == 'brackets':
        where = 'no markup'
        x = e.choose('before', ['', 'x', '/x', ' ']) + e.char('x', minus('line', '[]*/<>hcrsuib'))
        marks = [f'[{x}]', '[]']
    else:
        marks = [f'[x{tag}]', f'[{tag}x]']
    t = f'p{a}[{tag}]{b}[/{tag}]{c}q'
    if where == 'in italics':
        t = f'[i]{t}[/i]'
    elif where == 'around':
        t = f'[{tag}]p{a}[b]{b}[/b]{c}q[/{tag}]'
    elif where == 'no markup':
        t = f'p{a}{marks[0]}{b}{marks[1]}{c}q'
    d = document(e, rich_novel(t), suffix)
    want = []
    for i, x in enumerate(('p', a, b, c, 'q') if where != 'no markup' else ('p', a) + tuple(marks[0]) + (b,) + tuple(marks[1]) + (c, 'q')):
        want.append([x, where == 'in italics', where == 'around' and i == 2, ''])
    e.equal(d.scenes[0], want, 'formatted text')


@harness(cases={c: {'code': c} for c in CODES}, thorough={f'{c},full': {'code': c, 'full': True} for c in CODES})
def inline_code(e, code, full=False):
    """Inline raw code is left out of the plain export and kept in the manuscript; text next to it is kept."""
    a, b = e.char('a', minus('line', '[]*/<> \t')), e.char('b', minus('line', '[]*/<> \t') if full else 'lower')
    n = e.text('n', 1, minus('line', '[]*/<>') if full or code in ('HTM', 'TEX') else 'lower')
    t = f'p{a}<{code} x{n}y/{code}>{b}q'
    if e.flag('twice'):
        t += f'<{code} z/{code}>r'
    suffix = e.choose('s', ['', '_manuscript'])
    d = document(e, rich_novel(t), suffix)
    want = f'p{a}{b}q' + ('r' if t.endswith('r') else '') if suffix == '' else t
    e.equal(''.join(x[0] for x in d.scenes[0]), want, 'text')


@harness(cases={f'{d or "export"},{a}': {'suffix': d, 'where': a} for d in ('', '_manuscript', '_proof') for a in ('title', 'chapter')},
         thorough={f'{d or "export"},{a},2': {'suffix': d, 'where': a, 'k': 2} for d in ('', '_manuscript', '_proof') for a in ('title', 'chapter')})
def titles(e, suffix, where, k=1):
    """Titles are no markup."""
    t = e.text('t', k, 'line')
    x = e.choose('shape', ['/*{}*/', '/* @fn {}*/', '[i]{}[/i]', '[h]{}', '{}[s1]', '[lang=de-DE]{}', '/*{}', '*/{}', '@n@{}', '@r@{}', '> {}']).replace('{}', t)
    nov = rich_novel('Text/*c*/')
    if where == 'title':
        nov.title = 'x' + x + 'y'
    else:
        nov.chapters['1'].title = 'x' + x + 'y'
    p = e.path('p.yw7')
    save(p, nov)
    c, ui = convert(p, suffix)
    root = ET.fromstring(unzip(c.newFile))
    got = [''.join(y.itertext()) for y in root.iter() if short(y.tag) in ('text:p', 'text:h')]
    e.check('x' + x + 'y' in got, f'the title is shown: {x}')


@harness(cases={f'{s},{n}': {'n': n, 'shape': s} for s in ('@n@', '@r@', '$Title', '${ID}', '$$') for n in (1,)})
def placeholders(e, shape, n):
    """Texts that look like the placeholders used internally."""
    a = e.text('a', n, minus('line', '[]*/<>$'))
    t = 'p' + a + shape + '/*c' + shape + a + '*/' + shape + 'q'
    d = document(e, rich_novel(t), '')
    e.equal(cut(d.scenes[0]), formatted(t), 'text')


@harness(cases={'': {}}, thorough={'any': {'any': True}})
def languages(e, any=False):
    """Each language of the texts gets its style, whatever scenes and order; odd codes become "no language"."""
    langs = ['de-DE', 'fr-FR', e.text('l', 2, 'lower') + '-' + e.text('c', 2, ((65, 90),)), 'en', 'x-y-z'] if any else ['de-DE', 'fr-FR', e.text('l', 2, 'lower') + '-US', 'en']
    nov = rich_novel('Text')
    want = []
    used = []
    for s in '123':
        if s == '3' and not any:
            nov.scenes[s].sceneContent = 'a[lang=fr-FR]t[/lang=fr-FR]'
            want.append([['a', False, False, ''], ['t', False, False, 'fr-FR']])
            continue
        l = e.choose('l' + s, langs)
        if l not in used:
            used.append(l)
        t = e.char('t' + s, 'lower')
        m = e.choose('m' + s, ['one', 'two', 'none'])
        if m == 'none':
            nov.scenes[s].sceneContent = 'a' + t
            want.append([[x, False, False, ''] for x in 'a' + t])
            continue
        nov.scenes[s].sceneContent = f'a[lang={l}]{t}[/lang={l}]' + (f'b[lang=es-ES]c[/lang=es-ES]' if m == 'two' else '')
        code = l if len(l.split('-')) == 2 else 'zxx-none'
        want.append([['a', False, False, ''], [t, False, False, code]] + ([['b', False, False, ''], ['c', False, False, 'es-ES']] if m == 'two' else []))
    d = document(e, nov, e.choose('s', ['', '_manuscript']))
    e.equal(d.scenes, want, 'languages of the texts')


LANGUAGES = ['de-DE', 'fr-FR', 'es-ES', 'it-IT', 'nl-NL', 'pl-PL', 'ru-RU', 'cs-CZ', 'sv-SE', 'pt-BR', 'pt-PT', 'de-AT']


@harness(cases={f'{a}': {'kind': a} for a in NOTES})
def many(e, kind):
    """Many notes, comments and languages; a note of any kind at several places."""
    t = e.char('t', 'lower')
    k = e.choose('which', [0, 9, 20])
    nov = rich_novel('Text')
    kinds = ['fn', 'comment', 'en', 'fn', 'fn*', 'fn', 'fn', 'en', 'comment', 'fn', 'fn', 'none', 'fn', 'en', 'fn*', 'fn', 'fn', 'comment', 'fn', 'en', 'fn', 'fn', 'fn', 'fn*']
    counter = label = 0
    want = []
    for s in '123':
        text = ''
        w = []
        for i in range(8):
            j = len(want) * 8 + i
            x = kinds[j] if j != k else kind
            if j % 2:
                l = LANGUAGES[j // 2]
                text += f'[lang={l}]b{t}[/lang={l}]'
                w += [['b', False, False, l], [t, False, False, l]]
            else:
                text += f'[i]a{t}[/i]'
                w += [['a', True, False, ''], [t, True, False, '']]
            y = f'note {j}' if j != k else 'this ' + t
            if x == 'comment':
                text += f'/*{y}*/'
                w.append(['comment', [y], [nov.authorName]])
            elif x != 'none':
                text += f'/* @{x} {y}*/'
                counter += 1
                if x[-1] != '*':
                    label += 1
                w.append(['note', NOTES[x], ['*' if x[-1] == '*' else str(label)], [y], ['Footnote' if 'fn' in x else 'Endnote'], f'ftn{counter}'])
        nov.scenes[s].sceneContent = text
        want.append(w)
    d = document(e, nov, '')
    for i in range(3):
        e.equal(d.scenes[i], want[i], f'text, notes and comments of scene {i}')
