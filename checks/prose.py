"""Formatted scene texts: shapes, and an oracle that compares the formatting character by character."""
import re
from engine.env import minus, chars
from engine import iset
from checks_lib import *

# T is an arbitrary text
SHAPES = [
    'T', 'T\nT', 'T\n\nT', 'T\n\n\nT', '\nT', '\n\nT', 'a T', ' T', 'T  b', '\tT',
    'T[i]T[/i]T', '[i]T[/i] [b]T[/b]', '[i]T[/i]\n[i]T[/i]', '[i]T\nT[/i]', '[i]T\n\nT[/i] a', '[b]T\nT\nT[/b]', '[b]a[i]T[/i]T[/b]',
    '[b][i]T[/i][/b]', '[i]a\n[b]T\n[/b]T[/i]', '[i]T[/i]  [i]T[/i]',
    '[lang=de-DE]T[/lang=de-DE] T', '[lang=de-DE]T[/lang=de-DE][lang=fr-FR]T[/lang=fr-FR]', '[lang=de-DE]T\nT[/lang=de-DE]',
    '[i][lang=de-DE]T[/lang=de-DE][/i]', '[lang=de-DE][i]T[/i]T[/lang=de-DE]', '[lang=de-DE]a [i]T[/i][/lang=de-DE]\nT',
    '> T', 'T\n> T', '> T\n> T', '> [i]T[/i]', '> [i]T\n> T[/i]', 'a\n\n> T\n\nb', '> [lang=de-DE]T[/lang=de-DE]',
    '> a [lang=de-DE]T[/lang=de-DE] b', '- T\n- T', 'T\n- [b]T[/b]',
    '/*C*/T', 'T/*C*/', 'T/*C*/T', 'T /*C*/\nT', '[i]T/*C*/T[/i]', 'T\n/*C*/T', '> T/*C*/', '/*C*//*C*/T', '/*C*/a/*C*/b', 'T\n\n/*C*/',
    '[lang=de-DE]a\nT\nb[/lang=de-DE]', '[lang=de-DE]a\n\nT[/lang=de-DE] b', '[i][lang=de-DE]a\nb\nT[/lang=de-DE][/i]', '[lang=de-DE][b]a\nT\nb[/b][/lang=de-DE]T',
    '> [lang=de-DE]a\n> T\n> b[/lang=de-DE]', '[b][i]a\nT\nb[/i][/b] c',
    '[i]a[/i]T[i]b[/i]', '[b]a[/b]T[b]b[/b]', '[lang=de-DE]a[/lang=de-DE]T[lang=de-DE]b[/lang=de-DE]', '[b]a[i]b[/i]T[i]c[/i][/b]',
]
TEXT = minus('nocr', '[]*')
FIRST = minus(TEXT, '#')        # a line does not begin with a divider


def fill(e, shape, k, text=TEXT, full=2):
    """Replace each T by k arbitrary characters and each C by the text of a comment (from the third on: letters)."""
    out = ''
    n = 0
    for c in shape:
        if c in 'TC' and n >= full:
            n += 1
            out += e.char(f't{n}.0', 'lower')
        elif c == 'T':
            n += 1
            t = e.char(f't{n}.0', minus(text, '#'))
            for i in range(1, k):
                t += e.char(f't{n}.{i}', text)
                e.assume(not (t[i - 1] == '\n' and t[i] == '#'))
            out += t
        elif c == 'C':
            n += 1
            out += e.text(f't{n}', k, minus(text, '\n/~'))
        else:
            out += c
    return out


def formatted(text, strip=False):
    """A list of [character, italic, bold, language, quotation]; comments are single items; line breaks have no format."""
    out = []
    i = b = False
    lang = ''
    for n, line in enumerate(text.rstrip().split('\n')):
        if n:
            out.append(['\n'])
        quote = line.startswith('> ')
        if quote:
            line = line[2:]
            out.append(['>'])
        pos = 0
        while pos < len(line):
            if line.startswith('[', pos):
                tag = line[pos + 1:line.index(']', pos)]
                pos += len(tag) + 2
                if tag == 'i':
                    i = True
                elif tag == '/i':
                    i = False
                elif tag == 'b':
                    b = True
                elif tag == '/b':
                    b = False
                elif tag.startswith('lang='):
                    lang = tag[5:]
                elif tag.startswith('/lang='):
                    lang = ''
                elif not re.fullmatch(r'/*[hcrsu][0-9]*', tag):
                    # no markup
                    out += [[c, i, b, lang] for c in f'[{tag}]']
                continue
            if line.startswith('/*', pos):
                end = line.index('*/', pos)
                out.append(['comment', line[pos + 2:end].strip()])
                pos = end + 2
                continue
            out.append([line[pos], i, b, lang])
            pos += 1
    while out and (out[-1] == ['\n'] or (len(out[-1]) == 4 and out[-1][0].isspace())):
        out.pop()
    while strip and out and (out[0] == ['\n'] or (len(out[0]) == 4 and out[0][0].isspace())):
        del out[0]
    if out and out[-1][0] == '>' and (len(out) == 1 or out[-2] == ['\n']):
        out[-1] = ['>']     # an empty quotation at the end
    return out


def others(n):
    """Everything but the contents of the exported scenes."""
    out = [x for x in text_snapshot(n) if x[:3] not in (['scene', '1', 'sceneContent'], ['scene', '2', 'sceneContent'])]
    out.append([n.languageCode, n.countryCode, n.srtChapters, n.srtCharacters, n.srtLocations, n.srtItems, n.srtPrjNotes])
    for c in n.srtChapters:
        x = n.chapters[c]
        out.append([c, x.chLevel, x.chType, x.srtScenes])
    for s in sorted(n.scenes):
        x = n.scenes[s]
        out.append([s, x.scType, x.status, x.tags, x.characters, x.locations, x.items, x.date, x.time])
    return out


def round_trip(e, suffix, shape, k, times=1, full=2, strip=False):
    t = fill(e, shape, k, minus(TEXT, '#') if strip else TEXT, full)
    nov = rich_novel(t)
    p = e.path('p.yw7')
    save(p, nov)
    before = load(p).novel
    for i in range(times):
        c, ui = convert(p, suffix)
        if c.newFile is None:
            e.check(False, f'export failed: {ui.how[0]}')
            return
        c, ui = convert(doc_name(e.path('p'), suffix))
        if c.newFile is None:
            e.check(False, f'import failed: {ui.how[0]}')
            return
        after = load(p).novel
        e.equal(formatted(after.scenes['1'].sceneContent or '', strip), formatted(t, strip), 'scene content')
        e.equal(after.scenes['2'].sceneContent, 'Second scene text', 'other scene')
        e.equal(others(after), others(before), 'everything else')


# ---- documents edited in the word processor

AUTO = ('<style:style style:name="P1" style:family="paragraph" style:parent-style-name="Quotations"/>'
        '<style:style style:name="P2" style:family="paragraph" style:parent-style-name="Text_20_body"/>'
        '<style:style style:name="P3" style:family="paragraph" style:parent-style-name="Text_20_body"><style:text-properties fo:language="de" fo:country="CH"/></style:style>'
        '<style:style style:name="P4" style:family="paragraph" style:parent-style-name="Quotations"><style:text-properties fo:language="de" fo:country="CH" fo:font-style="italic"/></style:style>'
        '<style:style style:name="T11" style:family="text"><style:text-properties fo:font-style="italic"/></style:style>'
        '<style:style style:name="T12" style:family="text"><style:text-properties fo:font-weight="bold"/></style:style>'
        '<style:style style:name="T13" style:family="text"><style:text-properties fo:font-style="italic" fo:font-weight="bold"/></style:style>'
        '<style:style style:name="T14" style:family="text"><style:text-properties fo:language="fr" fo:country="FR"/></style:style>'
        '<style:style style:name="T15" style:family="text"><style:text-properties fo:color="#ff0000"/></style:style>'
        '<style:style style:name="T16" style:family="text"><style:text-properties fo:font-style="normal"/></style:style>')
STYLES = {'Emphasis': 'i', 'Strong_20_Emphasis': 'b', 'T11': 'i', 'T12': 'b', 'T13': 'ib', 'T14': 'l', 'T15': '', 'T16': ''}


def span(style, inner):
    return f'<text:span text:style-name="{style}">{inner}</text:span>'


def fmt(style, char):
    f = STYLES[style]
    return [char, 'i' in f, 'b' in f, 'fr-FR' if 'l' in f else '']


def edit(e, suffix, body):
    """Export, replace the text of the first scene by the given paragraphs, import; return the scene's new content."""
    p = e.path('p.yw7')
    save(p, rich_novel('QxxZ'))
    before = others(load(p).novel)
    c, ui = convert(p, suffix)
    d = c.newFile
    doc = unzip(d)
    e.check(doc.count('QxxZ') == 1, 'text to edit')
    a, b = doc.index('<text:p text:style-name="Text_20_body">QxxZ'), doc.index('QxxZ') + len('QxxZ</text:p>')
    doc = doc[:a] + body + doc[b:]
    doc = doc.replace('<office:automatic-styles/>', '<office:automatic-styles></office:automatic-styles>')
    doc = doc.replace('</office:automatic-styles>', f'{AUTO}</office:automatic-styles>')
    rezip(d, doc)
    c, ui = convert(d)
    e.equal(ui.how, [f'File written: "{p}".'], 'message')
    n = load(p).novel
    e.equal([x for x in others(n)], before, 'everything else')
    text = n.scenes['1'].sceneContent or ''
    e.equal(marks(text), [], 'marks that do not belong together')
    return text


def marks(text):
    """Opening marks without a closing one in the same order of the text, and vice versa."""
    out, opened = [], []
    for m in re.findall(r'\[(/?)(i|b|lang=[\w-]+)\]', text):
        if not m[0]:
            opened.append(m[1])
        elif m[1] in opened:
            opened.remove(m[1])
        else:
            out.append('/' + m[1])
    return out + opened


def esc(t):
    return t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def paragraphs(e, k):
    """A document of k paragraphs of any style and the text to be imported."""
    body, want = '', []
    for i in range(k):
        style = e.choose(f's{i}', ['Text_20_body', 'First_20_line_20_indent', 'Quotations', 'P1', 'P2', 'P3', 'P4', 'item', 'item P3', 'P3 T14', 'P4 T14', 'P3 Emphasis'])
        t = e.char(f't{i}', minus('line', '[]*')) if i < 1 else 'x'
        kind, _, style = style.rpartition(' ')
        other = ''
        if kind in ('P3', 'P4'):
            style, other = kind, style
        elif style == 'item':
            kind, style = 'item', 'Text_20_body'
        x = f'<text:p text:style-name="{style}">p{span(other, "s") if other else ""}{esc(t)}</text:p>'
        body += x if kind != 'item' else f'<text:list text:style-name="L1"><text:list-item>{x}</text:list-item></text:list>'
        if i:
            want.append(['\n'])
        if style in ('Quotations', 'P1', 'P4'):
            want.append(['>'])
        if kind == 'item':
            want += [['-', False, False, ''], [' ', False, False, '']]
        lang = 'de-CH' if style in ('P3', 'P4') else ''
        italic = style == 'P4'
        want += [['p', italic, False, lang]] + ([['s', italic or other == 'Emphasis', False, 'fr-FR' if other == 'T14' else lang]] if other else []) + [[t, italic, False, lang]]
    return body, want


def white_space(e):
    """A paragraph with any white space Writer stores in an own way, and the text to be imported."""
    style = e.choose('style', ['Text_20_body', 'Quotations'])
    kind = e.choose('kind', ['one', 1, 2, 3, 7, 40, 'tab'] + (['break'] if style == 'Text_20_body' else []))
    x = {'one': '<text:s/>', 'tab': '<text:tab/>', 'break': '<text:line-break/>'}.get(kind, f'<text:s text:c="{kind}"/>')
    y = {'one': ' ', 'tab': '\t', 'break': '\n'}.get(kind) or ' ' * kind
    where = e.choose('where', ['between', 'inside', 'span', 'next to span'])
    t = e.char('t', minus('line', '[]*/#'))
    want = [['>']] if style == 'Quotations' else []
    want.append(['a', False, False, ''])
    f = [] if where == 'between' else fmt('Emphasis', 'x')[1:]
    if where == 'between':
        body = f'{esc(t)}{x}b'
        want += [[c, False, False, ''] for c in t + y + 'b']
    elif where == 'inside':
        body = span('Emphasis', f'{esc(t)}{x}b')
        want += [[c, *f] for c in t + y + 'b']
    elif where == 'span':
        body = span('Emphasis', 'b' + x) + esc(t)
        want += [[c, *f] for c in 'b' + y] + [[t, False, False, '']]
    else:
        body = span('Emphasis', 'b') + x + span('Emphasis', esc(t))
        want += [['b', *f]] + [[c, False, False, ''] for c in y] + [[t, *f]]
    want.append(['c', False, False, ''])
    return f'<text:p text:style-name="{style}">a{body}c</text:p>', [['\n'] if w[0] == '\n' else w for w in want]


ANNOTATION = '<office:annotation><dc:creator>A</dc:creator><text:p>{}</text:p></office:annotation>'
NOTE = ('<text:note text:id="ftn1" text:note-class="{}"><text:note-citation>12</text:note-citation><text:note-body>'
        '<text:p text:style-name="Footnote">{}</text:p></text:note-body></text:note>')
FRAME = '<draw:frame draw:name="Frame1"><draw:text-box><text:p text:style-name="{}">{}</text:p></draw:text-box></draw:frame>'
SECTION = '<text:section text:style-name="Sect2" text:name="{}">{}</text:section>'


def inserted_parts(e):
    """A document with sections of the author's own, text frames and notes, and its paragraphs."""
    t = e.char('t', minus('line', '[]*/#>-~'))
    p = '<text:p text:style-name="Text_20_body">{}</text:p>'
    name = e.choose('name', ['Section1', 'Letter', 'S&amp;ID:1'])
    kind = e.choose('kind', ['section', 'sections', 'nested', 'end', 'frame', 'frame first', 'frame last', 'note', 'note first'])
    x = 'c' + esc(t) + 'd'
    y = f'c{t}d'
    a, b, z = p.format('One'), p.format(x), p.format('Last')
    if kind == 'section':
        return a + SECTION.format(name, b) + z, ['One', y, 'Last']
    if kind == 'sections':
        return a + SECTION.format(name, b) + p.format('two') + SECTION.format('Section2', b) + z, ['One', y, 'two', y, 'Last']
    if kind == 'nested':
        return a + SECTION.format(name, SECTION.format('Section2', b) + p.format('two')) + z, ['One', y, 'two', 'Last']
    if kind == 'end':
        return a + z + SECTION.format(name, b), ['One', 'Last', y]
    style = e.choose('style', ['Text_20_body', 'Quotations'])
    if kind == 'frame':
        return a + p.format('u' + FRAME.format('Text_20_body', x) + 'v') + z, ['One', f'u{y}', 'v', 'Last']
    if kind == 'frame first':
        return a + p.format(FRAME.format(style, x) + 'v') + z, ['One', ('> ' if style == 'Quotations' else '') + y, 'v', 'Last']
    if kind == 'frame last':
        return a + p.format('u' + FRAME.format('Text_20_body', x)) + z, ['One', f'u{y}', '', 'Last']
    if kind == 'note':
        return a + f'<text:p text:style-name="{style}">u{NOTE.format("footnote", x)}v</text:p>' + z, ['One', ('> ' if style == 'Quotations' else '') + f'u/*@fn {y}*/v', 'Last']
    return a + p.format(NOTE.format('endnote', x) + 'v') + z, ['One', f'/*@en {y}*/v', 'Last']


def span_document(e, style, t):
    """A document with a span of the style and the text to be imported."""
    other = e.choose('other', ['none', 'after', 'inside', 'around', 'comment', 'comment with span', 'footnote', 'endnote', 'note with comment'])
    inner = esc(t)
    want = [fmt(style, t)]
    if other == 'inside':
        inner = esc(t) + span('T15', 'u') + 'v'
        want += [fmt(style, 'u'), fmt(style, 'v')]
    elif other == 'comment':
        inner = esc(t) + '<office:annotation><dc:creator>A</dc:creator><text:p>note</text:p><text:p>more</text:p></office:annotation>v'
        want += [['comment', 'note'], fmt(style, 'v')]
    elif other == 'comment with span':
        inner = esc(t) + '<office:annotation><text:p>' + span('T14', 'no') + ' ' + span('Emphasis', 'te') + '<text:s/>&amp; &lt;x' + '</text:p></office:annotation>v'
        want += [['comment', 'no te & <x'], fmt(style, 'v')]
    elif 'note' in other:
        note = 'no' + (ANNOTATION.format('in') if other == 'note with comment' else span('T14', 't')) + 'e'
        inner = esc(t) + NOTE.format('endnote' if other == 'endnote' else 'footnote', note) + 'v'
        if other == 'note with comment':
            want += [['comment', 'in'], ['comment', '@fn noe']]
        else:
            want += [['comment', '@en note' if other == 'endnote' else '@fn note']]
        want += [fmt(style, 'v')]
    s = span(style, inner)
    if other == 'around':
        s = span('T15', 'u' + s + 'v')
        want = [['u', False, False, '']] + want + [['v', False, False, '']]
    elif other == 'after':
        s += span('Emphasis', 'v')
        want += [fmt('Emphasis', 'v')]
    body = f'<text:p text:style-name="Text_20_body">a{s}b</text:p><text:p text:style-name="Text_20_body">c</text:p>'
    want = [['a', False, False, '']] + want + [['b', False, False, ''], ['\n'], ['c', False, False, '']]
    return body, want


IDS = ['1', '2', '12', '100', '4711', '20000']
UNIQUE = {'_proof': ('scene', 'sceneContent'), '_manuscript': ('scene', 'sceneContent'), '_notes': ('scene', 'sceneContent'),
          '_todo': ('scene', 'sceneContent'), '_scenes': ('scene', 'desc'), '_scenelist': ('scene', 'desc'), '_chapters': ('chapter', 'desc'),
          '_parts': ('chapter', 'desc'), '_characters': ('character', 'bio'), '_charlist': ('character', 'notes'), '_locations': ('location', 'desc'),
          '_loclist': ('location', 'aka'), '_items': ('item', 'desc'), '_itemlist': ('item', 'aka')}


def any_ids(e, suffix):
    """Two elements of each kind with any identifiers: each edited text goes to its element."""
    kind, attr = UNIQUE[suffix]
    a = e.choose('first', IDS)
    b = e.choose('second', [i for i in IDS if i != a])
    t = {'_notes': 1, '_todo': 2}.get(suffix, 0)
    n = small_novel()
    n.chapters, n.scenes, n.characters, n.locations, n.items = {}, {}, {}, {}, {}
    n.srtChapters, n.srtCharacters, n.srtLocations, n.srtItems = [], [], [], []
    for i, j in ((a, b), (b, a)):
        add_chapter(n, i, [j], 'C' + i, chLevel=1 if suffix == '_parts' else 0, chType=t)
        s = add_scene(n, j, 'Content', 'S' + j, scType=t)
        s.field1 = s.field2 = s.field3 = s.field4 = '1'
        for d, srt, cls in ((n.characters, n.srtCharacters, Character), (n.locations, n.srtLocations, WorldElement), (n.items, n.srtItems, WorldElement)):
            d[i] = cls()
            d[i].title = 'E' + i
            srt.append(i)
        n.characters[i].isMajor = True
    for i, x in ((a, 'Qxone'), (b, 'Qxtwo')):
        setattr(entity(n, kind, i), attr, x)
    p = e.path('p.yw7')
    save(p, n)
    want = load(p).novel
    for i, x in ((a, 'Rxone'), (b, 'Rxtwo')):
        setattr(entity(want, kind, i), attr, x)
    c, ui = convert(p, suffix)
    d = c.newFile
    doc = unzip(d)
    e.equal([doc.count('Qxone'), doc.count('Qxtwo')], [1, 1], 'texts to edit')
    rezip(d, doc.replace('Qxone', 'Rxone').replace('Qxtwo', 'Rxtwo'))
    c, ui = convert(d)
    e.equal(ui.how, [f'File written: "{p}".'], 'message')
    got = load(p).novel
    e.equal(text_snapshot(got), text_snapshot(want), 'texts')
    e.equal([got.srtChapters, got.srtCharacters, got.srtLocations, got.srtItems, [got.chapters[i].srtScenes for i in (a, b)]],
            [want.srtChapters, want.srtCharacters, want.srtLocations, want.srtItems, [want.chapters[i].srtScenes for i in (a, b)]], 'lists')


def large_cycle(e, suffix):
    """A large project: the unchanged document changes nothing, an edited text goes to its element."""
    kind, attr = UNIQUE[suffix]
    t = e.char('t', 'lower')
    nov = large_novel('u', [kind])
    nov.check_locale()
    p = e.path('p.yw7')
    mine = {'_notes': 1, '_todo': 2}.get(suffix, 0)
    if kind == 'chapter':
        ids = [c for c in nov.srtChapters if nov.chapters[c].chType == 0 and (nov.chapters[c].chLevel == 1) == (suffix == '_parts')]
    elif kind == 'scene':
        ids = [s for c in nov.srtChapters for s in nov.chapters[c].srtScenes if nov.scenes[s].scType == mine]
    else:
        ids = {'character': nov.srtCharacters, 'location': nov.srtLocations, 'item': nov.srtItems}[kind]
    i = ids[e.choose('which', [0, len(ids) // 2, -1])]
    setattr(entity(nov, kind, i), attr, 'QxxZ')
    save(p, nov)
    want = everything_of(load(p).novel)
    c, ui = convert(p, suffix)
    d = c.newFile
    c, ui = convert(d)
    e.equal(ui.how, [f'File written: "{p}".'], 'message')
    e.equal(stripped(load(p).novel), [x[:3] + [x[3].rstrip()] if len(x) == 4 and isinstance(x[3], str) else x for x in want], 'everything')
    doc = unzip(d)
    e.check(doc.count('QxxZ') == 1, 'text to edit')
    rezip(d, doc.replace('QxxZ', 'new ' + esc(t) + ' text'))
    c, ui = convert(d)
    e.equal(ui.how, [f'File written: "{p}".'], 'message')
    n = load(p).novel
    setattr(entity(nov, kind, i), attr, 'new ' + t + ' text')
    save(p, nov)
    e.equal(stripped(n), stripped(load(p).novel), 'everything after an edit')


def stripped(n):
    """Everything, texts without white space at the end."""
    return [x[:3] + [x[3].rstrip()] if len(x) == 4 and isinstance(x[3], str) else x for x in everything_of(n)]


def at_boundary(doc, pos):
    """The document with a comment that moves the place pos to the end of the XML parser's first input buffer."""
    import xml.sax
    size = getattr(xml.sax.make_parser(), '_bufsize', 65516)
    a = doc.index('<office:body')
    return doc[:a] + '<!--' + 'x' * (size - pos - 7) + '-->' + doc[a:]


def text_places(doc):
    """All places within the texts of a document's body."""
    out = []
    a = doc.index('<office:body')
    while True:
        a = doc.find('>', a)
        b = doc.find('<', a)
        if a < 0 or b < 0:
            return out
        if doc[a + 1:b].strip():
            out += range(a + 2, b)
        a = b


INSIDE = ['<text:soft-page-break/>', '<text:bookmark text:name="b"/>', '<text:change text:change-id="ct1"/>', '<text:span text:style-name="T95">', '<!-- c -->']


def interrupted(doc, place, what):
    """The document with an element that shows nothing at a place within a text."""
    end = doc.index('<', place)
    return doc[:place] + what + (doc[place:end] + '</text:span>' if what.startswith('<text:span') else doc[place:end]) + doc[end:]


def no_marks(doc):
    """The places within texts, but for those of marks, dividers and entities."""
    out = []
    for x in text_places(doc):
        start = doc.rindex('>', 0, x) + 1
        if not doc[start:doc.index('<', x)].startswith(('[ScID', '[/ScID', '* *')) and doc.rfind('&', start, x) <= doc.rfind(';', start, x):
            out.append(x)
    return out


def recorded(e, doc, work=False):
    """The document with a record of changes, which holds deleted text."""
    t = esc(e.char('t', 'lower'))
    # a heading 3 anywhere makes a document an outline
    kind = e.choose('deleted', [*(['heading 2'] if work else ['heading 2', 'heading 3']), 'heading 1', 'paragraph', 'divider', 'item', 'comment', 'section', 'mark'])
    p = f'<text:p text:style-name="Text_20_body">{t}x</text:p>'
    h = '<text:h text:style-name="Heading_20_{0}" text:outline-level="{0}">{1}x</text:h>'
    if kind.startswith('heading'):
        d = h.format(kind[-1], t) + p
    else:
        d = {'paragraph': p + p, 'divider': f'<text:p text:style-name="Heading_20_4">* * *</text:p>{p}', 'item': f'<text:list><text:list-item>{p}</text:list-item></text:list>',
             'comment': f'<text:p>a<office:annotation><text:p>{t}</text:p></office:annotation></text:p>',
             'section': f'<text:section text:name="ScID:1">{p}</text:section><text:section text:name="ChID:1">{p}</text:section>', 'mark': f'<text:p>[ScID:1]</text:p>{p}'}[kind]
    who = '<office:change-info><dc:creator>Author</dc:creator><dc:date>2023-01-01T00:00:00</dc:date></office:change-info>'
    record = (f'<text:tracked-changes><text:changed-region xml:id="ct0" text:id="ct0"><text:insertion>{who}</text:insertion></text:changed-region>'
              f'<text:changed-region xml:id="ct1" text:id="ct1"><text:deletion>{who}{d}</text:deletion></text:changed-region></text:tracked-changes>')
    a = doc.index('>', doc.index('<office:text')) + 1
    return doc[:a] + record + doc[a:]


def unchanged(e, suffix, change):
    """Something in the document that is no text is different: nothing changes in the project."""
    n = small_novel()
    kind = {'_notes': 1, '_todo': 2}.get(suffix, 0)
    for c in n.chapters.values():
        c.chType = kind
        if suffix == '_parts':
            c.chLevel = 1
    for s in n.scenes.values():
        s.scType = kind
        s.sceneContent = 'One [i]two[/i] & 3'
        s.title = 'T & t'
    p = e.path('p.yw7')
    save(p, n)
    want = everything_of(load(p).novel)
    c, ui = convert(p, suffix)
    d = c.newFile
    rezip(d, change(unzip(d)))
    c, ui = convert(d)
    e.equal(ui.how, [f'File written: "{p}".'], 'message')
    e.equal(everything_of(load(p).novel), want, 'everything')


def divided_document(e, suffix):
    """A document of more than 64 KB: it does not matter where the XML parser divides the input."""
    unchanged(e, suffix, lambda doc: at_boundary(doc, e.choose('place', text_places(doc))))


def invisible(e, suffix):
    """Page breaks, bookmarks and changes within the texts do not matter, nor does the record of changes."""
    if e.flag('record'):
        unchanged(e, suffix, lambda doc: recorded(e, doc))
    else:
        unchanged(e, suffix, lambda doc: interrupted(doc, e.choose('place', no_marks(doc)), e.choose('what', INSIDE)))


def bracket_text(e, suffix, **kwargs):
    """Brackets that are no markup."""
    x = e.choose('before', ['', 'x', '/x', ' ']) + e.char('x', minus('line', '[]*/<>TC#hcrsuib'))
    round_trip(e, suffix, f'p[{x}]q' if e.flag('inside') else f'[{x}][]', 1, **kwargs)
