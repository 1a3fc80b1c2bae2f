"""P17: creating a project from a work in progress or an outline takes over its structure and all of its text."""
from engine.env import harness, minus, chars
from engine import iset
from checks_lib import *
from prose import *

BOUNDS = ('documents of up to four (thorough: six) blocks of any kind (headings, paragraphs, quotations, list items, dividers, comments, '
          'empty paragraphs), paragraphs and passages of seven styles and languages in any order, texts of up to two arbitrary characters; the listed shapes of formatted texts in documents exported before; all metadata'
          '; typical documents divided anywhere by the XML parser, with elements that show nothing anywhere within the texts, and with a record of changes; documents as other programs write them'
          '; sections, text frames, footnotes and endnotes the author has inserted, in nine arrangements; a project with 18 chapters, 35 scenes and 12 elements of each kind, long texts')
ASSUMPTIONS = ['text before the first heading is not taken over; a divider paragraph contains the divider only and there is text between dividers; '
               'comments at the beginning of a scene are titles', 'scenes contain no scene dividers (P16)', 'a note becomes a comment with its first paragraph', 'a deleted heading 3 in a record of changes makes a document an outline, too']
TEXT = minus('line', '[]*/')
P = '<text:p text:style-name="{}">{}</text:p>'
COMMENT = '<office:annotation><dc:creator>A</dc:creator><text:p>{}</text:p></office:annotation>'


def document(e, body, title='Project', author='Author', desc='About', lang=('en', 'US')):
    """A text document with the given body."""
    n = small_novel()
    n.title, n.authorName, n.desc = title, author, desc
    n.languageCode, n.countryCode = lang
    p = e.path('p.yw7')
    save(p, n)
    c, ui = convert(p, '')
    d = e.path('new.odt')
    os.replace(c.newFile, d)
    if body is not None:
        doc = unzip(d)
        a, b = doc.index('<text:p text:style-name="Title"'), doc.index('</office:text>')
        rezip(d, doc[:a] + body + doc[b:])
    return d


def create(e, d):
    c, ui = convert(d)
    e.equal(ui.how, [f'File written: "{e.path("new.yw7")}".'], 'message')
    e.equal(c.newFile, e.path('new.yw7'), 'new file')
    return load(c.newFile).novel if c.newFile else Novel()


def outline(n, attr):
    out = []
    for c in n.srtChapters:
        x = n.chapters[c]
        out.append([x.chLevel, x.chType, x.title, (x.desc or '').rstrip() if attr == 'desc' else '',
                    [[n.scenes[s].title, (getattr(n.scenes[s], attr) or '').rstrip(), n.scenes[s].scType] for s in x.srtScenes]])
    return out


KINDS = ['part', 'chapter', 'text', 'quote', 'item', 'divider', 'styled divider', 'comment', 'empty', 'subheading']


@harness(cases={f'{k},{n}': {'second': k, 'n': n} for k in KINDS for n in (2, 3, 4)}, thorough={f'{k},{n}': {'second': k, 'n': n} for k in KINDS for n in (5,)})
def work(e, second, n):
    """A heading followed by blocks of any kind."""
    t = e.text('t', 2 if n == 2 else 1, TEXT)
    body = ''
    want = []
    scenes = 0
    lines = None
    for i in range(n):
        kind = e.choose('first', ['part', 'chapter']) if i == 0 else second if i == 1 else e.choose(f'k{i}', KINDS[:7] if n > 3 else KINDS)
        x = 'a' + t + 'b' if i == 1 else f'Text {i}'
        if kind in ('part', 'chapter'):
            level = 1 if kind == 'part' else 2
            body += f'<text:h text:style-name="Heading_20_{level}" text:outline-level="{level}">{esc(x)}</text:h>'
            want.append([1 if kind == 'part' else 0, 0, x, '', []])
            lines = None
            continue
        if 'divider' in kind:
            e.assume(lines and lines != [''])     # text between dividers
            body += P.format('Heading_20_4' if 'styled' in kind else 'Standard', '* * *')
            lines = None
            continue
        if lines is None:
            scenes += 1
            lines = []
            want[-1][4].append([f'Scene {scenes}', '', 0])
            start = True
        else:
            start = False
        if kind == 'text':
            body += P.format('Standard', esc(x))
            lines.append(x)
        elif kind == 'subheading':
            body += f'<text:h text:style-name="Heading_20_5" text:outline-level="5">{esc(x)}</text:h>'
            lines.append(x)
        elif kind == 'quote':
            body += P.format('Quotations', esc(x))
            lines.append('> ' + x)
        elif kind == 'item':
            body += '<text:list><text:list-item>' + P.format('Standard', esc(x)) + '</text:list-item></text:list>'
            lines.append('- ' + x)
        elif kind == 'comment':
            body += P.format('Standard', COMMENT.format(esc(x)) + 'after')
            if start:
                want[-1][4][-1][0] = x
                lines.append('after')
            else:
                lines.append(f'/*{x}*/after')
        elif kind == 'empty':
            body += P.format('Standard', '')
            lines.append('')
        want[-1][4][-1][1] = '\n'.join(lines).rstrip()
    n = create(e, document(e, body))
    e.equal(outline(n, 'sceneContent'), want, 'structure and text')
    for s in n.scenes:
        x = n.scenes[s]
        e.equal(x.status, 1 if x.wordCount < 10 else 2, 'status')


AUTO_STYLES = ('<style:style style:name="P91" style:family="paragraph" style:parent-style-name="Text_20_body"><style:text-properties fo:language="de" fo:country="DE"/></style:style>'
               '<style:style style:name="P92" style:family="paragraph" style:parent-style-name="Quotations"><style:text-properties fo:language="fr" fo:country="FR"/></style:style>'
               '<style:style style:name="P93" style:family="paragraph" style:parent-style-name="Text_20_body"><style:text-properties fo:font-style="italic"/></style:style>'
               '<style:style style:name="T91" style:family="text"><style:text-properties fo:language="de" fo:country="DE"/></style:style>')
FORMATTED = {'text': ('Standard', '', '{}'), 'foreign': ('P91', '', '[lang=de-DE]{}[/lang=de-DE]'), 'foreign quote': ('P92', '', '> [lang=fr-FR]{}[/lang=fr-FR]'),
             'italic': ('P93', '', '[i]{}[/i]'), 'foreign span': ('Standard', 'T91', '[lang=de-DE]{}[/lang=de-DE]'), 'bold span': ('Standard', 'Strong_20_Emphasis', '[b]{}[/b]'),
             'quote': ('Quotations', 'Emphasis', '> [i]{}[/i]')}


@harness(cases={'': {}})
def inserted(e):
    """Sections, text frames and notes the author has inserted."""
    body, want = inserted_parts(e)
    body = '<text:h text:style-name="Heading_20_2" text:outline-level="2">Chapter</text:h>' + body
    divided = e.flag('divided')
    if divided:
        body += P.format('Heading_20_4', '* * *') + P.format('Standard', 'End')
    n = create(e, document(e, body))
    e.equal(outline(n, 'sceneContent'), [[0, 0, 'Chapter', '', [['Scene 1', '\n'.join(want), 0]] + ([['Scene 2', 'End', 0]] if divided else [])]], 'structure and text')


@harness(cases={f'{k}{d}': {'second': k, 'divider': d == ',divider'} for k in FORMATTED for d in ('', ',divider')},
         thorough={f'{k},more': {'second': k, 'divider': False, 'more': True} for k in FORMATTED})
def styles(e, second, divider, more=False):
    """Paragraphs and passages of any style and language in any order."""
    t = e.text('t', 1, TEXT)
    f = list(FORMATTED)
    kinds = [e.choose('k0', f) if more else f[1], second, e.choose('k2', f if not divider else ['text', 'foreign', 'quote']),
             e.choose('k3', f if more else ['text', 'foreign'])]
    body = '<text:h text:style-name="Heading_20_2" text:outline-level="2">One</text:h>'
    want = [[]]
    for i, kind in enumerate(kinds):
        style, inner, mark = FORMATTED[kind]
        x = ('a' + t + 'b') if i == 1 else f'Text {i}'
        tail = ' end' if inner else ''
        body += P.format(style, (span(inner, esc(x)) if inner else esc(x)) + tail)
        want[-1].append(mark.format(x) + tail)
        if divider and i == 1:
            body += P.format('Heading_20_4', '* * *')
            want.append([])
    d = document(e, body)
    doc = unzip(d).replace('<office:automatic-styles/>', '<office:automatic-styles></office:automatic-styles>')
    if '</office:automatic-styles>' not in doc:
        doc = doc.replace('<office:body>', '<office:automatic-styles></office:automatic-styles><office:body>', 1)
    rezip(d, doc.replace('</office:automatic-styles>', AUTO_STYLES + '</office:automatic-styles>'))
    n = create(e, d)
    e.equal(len(n.scenes), len(want), 'scenes')
    for i, lines in enumerate(want):
        e.equal(formatted(n.scenes[str(i + 1)].sceneContent or ''), formatted('\n'.join(lines)), f'scene {i + 1}')
        e.equal(marks(n.scenes[str(i + 1)].sceneContent or ''), [], f'marks of scene {i + 1}')


@harness(cases={f'{i}': {'shape': s, 'k': 1} for i, s in enumerate(SHAPES) if not s.startswith('/*')},
         thorough={f'{i},{k}': {'shape': s, 'k': k, 'full': f} for i, s in enumerate(SHAPES) if not s.startswith('/*') for k, f in ((1, 3), (2, 1))})
def exported(e, shape, k, full=2):
    """A project created from an exported manuscript has the same chapters and texts as the exported ones."""
    t = fill(e, shape, k, minus(prose_text(), '#'), full)
    nov = rich_novel(t)
    p = e.path('p.yw7')
    save(p, nov)
    c, ui = convert(p, '')
    d = e.path('new.odt')
    os.replace(c.newFile, d)
    n = create(e, d)
    e.equal([[n.chapters[c].chLevel, n.chapters[c].title, n.chapters[c].srtScenes] for c in n.srtChapters],
            [[1, 'Part one', ['1']], [0, 'Chapter two', ['2', '3']]], 'chapters')
    e.equal(formatted(n.scenes['1'].sceneContent or '', True), formatted(t, True), 'formatted text')
    e.equal([n.scenes[s].sceneContent for s in '23'], ['Second scene text', 'Third scene text'], 'other texts')
    e.equal([n.title, n.authorName, n.desc, n.languageCode, n.countryCode], ['Project', 'Author', 'About', 'en', 'US'], 'metadata')


@harness(cases={'': {}})
def edited_paragraphs(e):
    """Paragraphs of any style, list items, and passages in other languages within them."""
    body, want = paragraphs(e, 2)
    d = document(e, '<text:h text:style-name="Heading_20_2" text:outline-level="2">One</text:h>' + body)
    doc = unzip(d).replace('<office:automatic-styles/>', '<office:automatic-styles></office:automatic-styles>')
    if '</office:automatic-styles>' not in doc:
        doc = doc.replace('<office:body>', '<office:automatic-styles></office:automatic-styles><office:body>', 1)
    rezip(d, doc.replace('</office:automatic-styles>', AUTO + '</office:automatic-styles>'))
    n = create(e, d)
    text = n.scenes['1'].sceneContent or ''
    e.equal(formatted(text), want, 'scene content')
    e.equal(marks(text), [], 'marks that do not belong together')


@harness(cases={'': {}})
def spaces(e):
    """Spaces, tabs and line breaks the way Writer stores them."""
    body, want = white_space(e)
    n = create(e, document(e, '<text:h text:style-name="Heading_20_2" text:outline-level="2">One</text:h>' + body))
    e.equal(formatted(n.scenes['1'].sceneContent or ''), want, 'scene content')


def prose_text():
    return minus('nocr', '[]*')


@harness(cases={'title': {'attr': 'title'}, 'author': {'attr': 'author'}, 'desc': {'attr': 'desc'}}, thorough={'desc,3': {'attr': 'desc', 'k': 3}})
def metadata(e, attr, k=2):
    """Title, author and description of the document."""
    t = 'a' + e.text('t', k, 'line' if attr == 'author' else 'nocr') + 'b'
    n = create(e, document(e, None, **{attr: t}))
    got = {'title': n.title, 'author': n.authorName, 'desc': n.desc}
    want = {'title': 'Project', 'author': 'Author', 'desc': 'About'}
    want[attr] = t
    e.equal(got, want, 'metadata')


@harness()
def language(e):
    """The language of the document becomes the language of the project."""
    lang = (e.text('l', 2, 'lower'), e.text('c', 2, 'lower'))
    n = create(e, document(e, None, lang=lang))
    e.equal([n.languageCode, n.countryCode], list(lang), 'language')


META = {'full': None, 'no file': '', 'empty': '<office:meta/>', 'no texts': '<office:meta><dc:title/><dc:description/><meta:initial-creator/></office:meta>',
        'title': '<office:meta><meta:generator>Other</meta:generator><dc:title>{0}</dc:title></office:meta>',
        'author': '<office:meta><meta:initial-creator>{0}</meta:initial-creator><dc:creator>Other</dc:creator></office:meta>',
        'desc': '<office:meta><dc:subject>Other</dc:subject><dc:description>{0}</dc:description></office:meta>'}
DEFAULT = ['both', 'language', 'none', 'nothing', 'no properties', 'no style', 'other family']


@harness(cases={m: {'meta': m} for m in META})
def producers(e, meta):
    """Documents of other programs have less metadata, and languages without a country."""
    import zipfile
    t = e.char('t', minus('line', '&<>[]'))
    e.assume(t == t.strip())
    d = document(e, None)
    with zipfile.ZipFile(d) as z:
        parts = [(n, z.read(n).decode('utf-8')) for n in z.namelist()]
    default = e.choose('default', DEFAULT)
    country = e.choose('country', [' fo:country="AT"', ' fo:country="none"', ''])
    passage = '<text:span text:style-name="T91">' + 'Text</text:span>'
    out = []
    for n, x in parts:
        if n == 'meta.xml' and META[meta] is not None:
            if META[meta] == '':
                continue
            a, b = x.index('<office:meta>'), x.index('</office:meta>') + len('</office:meta>')
            x = x[:a] + META[meta].format(t) + x[b:]
        elif n == 'styles.xml' and default != 'both':
            a = x.index('<style:default-style style:family="paragraph">')
            b = x.index('</style:default-style>', a) + len('</style:default-style>')
            props = {'language': '<style:text-properties fo:language="fr"/>', 'none': '<style:text-properties fo:language="fr" fo:country="none"/>',
                     'nothing': '<style:text-properties fo:color="#000000"/>', 'no properties': '<style:paragraph-properties/>',
                     'other family': '<style:text-properties fo:language="fr" fo:country="FR"/>'}.get(default, '')
            new = '<style:default-style style:family="' + ('graphic' if default == 'other family' else 'paragraph') + '">' + props + '</style:default-style>'
            x = x[:a] + ('' if default == 'no style' else new) + x[b:]
        elif n == 'content.xml':
            a, b = x.index('<text:p text:style-name="Title"'), x.index('</office:text>')
            x = x[:a] + HEAD + P.format('Text_20_body', passage) + x[b:]
            style = '<style:style style:name="T91" style:family="text"><style:text-properties fo:language="de"' + country + '/></style:style>'
            x = x.replace('</office:automatic-styles>', style + '</office:automatic-styles>').replace('<office:automatic-styles/>', f'<office:automatic-styles>{style}</office:automatic-styles>')
        out.append((n, x))
    with zipfile.ZipFile(d, 'w') as z:
        for n, x in out:
            z.writestr(n, x)
    n = create(e, d)
    mark = 'de-AT' if 'AT' in country else 'de'
    e.equal([(s.sceneContent or '').strip() for s in n.scenes.values()], [f'[lang={mark}]Text[/lang={mark}]'], 'text')
    want = ['Project', 'Author', 'About'] if meta == 'full' else [t if meta == k and t else None for k in ('title', 'author', 'desc')]
    e.equal([none_empty(x) for x in (n.title, n.authorName, n.desc)], want, 'metadata')
    if default == 'both':
        e.equal([n.languageCode, n.countryCode], ['en', 'US'], 'language')


HEAD = '<text:h text:style-name="Heading_20_1" text:outline-level="1">Part</text:h>'
OUTLINE = ['part', 'chapter', 'scene', 'text', 'quote', 'subheading', 'formatted']


@harness(cases={f'{k},{n}': {'second': k, 'n': n} for k in OUTLINE for n in (2, 3, 4)}, thorough={f'{k},{n}': {'second': k, 'n': n} for k in OUTLINE for n in (5, 6)})
def outlines(e, second, n):
    """An outline: headings of three levels, everything else is description."""
    t = e.text('t', 2 if n == 2 else 1, TEXT)
    body = ''
    want = []
    for i in range(n):
        kind = e.choose('first', ['part', 'chapter']) if i == 0 else second if i == 1 else e.choose(f'k{i}', OUTLINE[:4] if n > 3 else OUTLINE)
        x = 'a' + t + 'b' if i == 1 else f'Text {i}'
        if kind in ('part', 'chapter', 'scene'):
            level = ['part', 'chapter', 'scene'].index(kind) + 1
            body += f'<text:h text:style-name="Heading_20_{level}" text:outline-level="{level}">{esc(x)}</text:h>'
            if kind == 'scene':
                want[-1][4].append([x, '', 0])
            else:
                want.append([1 if kind == 'part' else 0, 0, x, '', []])
            continue
        if kind == 'subheading':
            body += f'<text:h text:style-name="Heading_20_5" text:outline-level="5">{esc(x)}</text:h>'
        elif kind == 'formatted':
            body += P.format('Standard', span('Emphasis', esc(x)) + '<text:s/>and')
            x += ' and'
        else:
            body += P.format('Quotations' if kind == 'quote' else 'Standard', esc(x))
        target = want[-1][4][-1] if want[-1][4] else want[-1]
        k = 1 if want[-1][4] else 3
        target[k] += ('\n' if target[k] else '') + x
    body += '<text:h text:style-name="Heading_20_2" text:outline-level="2">Last</text:h><text:h text:style-name="Heading_20_3" text:outline-level="3">End</text:h>'
    want.append([0, 0, 'Last', '', [['End', '', 0]]])
    n = create(e, document(e, body))
    e.equal(outline(n, 'desc'), want, 'structure and descriptions')
    for s in n.scenes.values():
        e.equal([s.sceneContent or '', s.status], ['', 1], 'text and status')


@harness(cases={'work': {'what': 'work'}, 'outline': {'what': 'outline'}})
def large(e, what):
    """A long document: every chapter, scene and text is taken over."""
    t = e.char('t', 'lower')
    k = e.choose('which', [0, 12, 22])
    body = ''
    want = []
    n = 0
    for i, scenes in enumerate([2, 0, 3, 1, 12, 1, 1, 2, 1, 1, 1, 4, 1]):
        level = 1 if i % 5 == 0 else 2
        body += f'<text:h text:style-name="Heading_20_{level}" text:outline-level="{level}">Heading {i}</text:h>'
        want.append([2 - level, 0, f'Heading {i}', '', []])
        if what == 'outline' and i % 3 != 1:
            body += P.format('Standard', 'about ' + LONG)
            want[-1][3] = 'about ' + LONG
        for j in range(scenes):
            x = LONG if n % 8 == 5 else ' '.join([f'w{i}'] * (n % 4 + 8))
            if n == k:
                x += ' ' + t
            n += 1
            if what == 'outline':
                body += f'<text:h text:style-name="Heading_20_3" text:outline-level="3">Scene {i}.{j}</text:h>' + P.format('Standard', x) + P.format('Standard', 'more')
                want[-1][4].append([f'Scene {i}.{j}', x + '\nmore', 0])
            else:
                if j:
                    body += P.format('Heading_20_4', '* * *')
                body += P.format('Standard', x) + P.format('Standard', '')
                want[-1][4].append([f'Scene {n}', x, 0])
    n = create(e, document(e, body))
    e.equal(outline(n, 'desc' if what == 'outline' else 'sceneContent'), want, 'structure and text')
    if what == 'work':
        for c in want:
            for s in c[4]:
                x = n.scenes[s[0][6:]]
                e.equal(x.status, 1 if len(s[1].split()) < 10 else 2, 'status')


def typical(e, what):
    h = '<text:h text:style-name="Heading_20_{0}" text:outline-level="{0}">{1}</text:h>'
    body = h.format(1, 'Part &amp; one') + h.format(2, 'Chapter one') + P.format('Standard', 'Text &lt;one' + ('/' if what == 'outline' else ' ') + span('Emphasis', 'nice'))
    if what == 'outline':
        return body + h.format(3, 'Scene one') + P.format('Standard', 'About scene') + h.format(3, 'Next')
    return body + P.format('Heading_20_4', '* * *') + P.format('Quotations', '# is a mark') + P.format('Standard', 'some more')


def as_before(e, what, change):
    attr = 'desc' if what == 'outline' else 'sceneContent'
    d = document(e, typical(e, what))
    want = outline(create(e, d), attr)
    os.remove(e.path('new.yw7'))
    rezip(d, change(unzip(d)))
    e.equal(outline(create(e, d), attr), want, 'structure and text')


@harness(cases={'work': {'what': 'work'}, 'outline': {'what': 'outline'}})
def divided(e, what):
    """A document of more than 64 KB: it does not matter where the XML parser divides the input."""
    as_before(e, what, lambda doc: at_boundary(doc, e.choose('place', text_places(doc))))


@harness(cases={'work': {'what': 'work'}, 'outline': {'what': 'outline'}})
def not_text(e, what):
    """Page breaks, bookmarks and changes within the texts do not matter, nor does the record of changes."""
    if e.flag('record'):
        as_before(e, what, lambda doc: recorded(e, doc, what == 'work'))
    else:
        as_before(e, what, lambda doc: interrupted(doc, e.choose('place', no_marks(doc)), e.choose('what', INSIDE)))
