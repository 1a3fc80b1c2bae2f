"""P16: dividers in imported texts split scenes and chapters without losing, inventing or moving any text."""
from engine.env import harness, minus, chars
from engine import iset
from checks_lib import *
from check_P12 import everything
from pywriter.file.file import File
from pywriter.model.splitter import Splitter

BOUNDS = ('one scene of up to four (thorough: six) lines of any kind (text, empty, part, chapter or scene divider with or without title and '
          'description), the titles and texts of the first line of up to two arbitrary characters, between two other scenes of the chapter, followed by another '
          'chapter; two split scenes; headings and dividers in the three editable documents'
          '; a long text with many dividers in a project whose identifiers have up to three digits')
ASSUMPTIONS = ['titles do not begin or end with number signs; descriptions contain no divider signs at their ends']
LEVEL = {'#': 1, '##': 0}
KINDS = {'text': ('', 'T'), 'empty': ('', ''), 'part': ('#', ' T'), 'bare part': ('#', ''), 'chapter': ('##', ' T|D'), 'bare chapter': ('##', ''),
         'scene': ('###', ' T'), 'bare scene': ('###', ''), 'described': ('###', ' T|D')}
SOME = ['text', 'empty', 'part', 'chapter', 'scene', 'bare scene']
TEXT = minus('line', '#|[]*/~>')


def line_of(e, kind, name, k=1):
    """Return the line, its marker, title and description."""
    mark, rest = KINDS[kind]
    t = (e.text(name, k, TEXT) if k else 'text of ' + name) if 'T' in rest else ''
    if mark == '' and t:
        return t, '', '', ''
    e.assume(t == t.strip())
    d = ('About|' if mark == '###' else 'About ') + t if 'D' in rest else ''
    return mark + rest.replace('D', d).replace('T', t, 1), mark, t, d


def model(parts, lines):
    """Append scenes to the list of [level, title, description, [[id or None, title, description, lines]]]."""
    for text, mark, title, desc in lines:
        chapter = parts[-1]
        if mark == '###':
            chapter[3].append([None, title, desc, []])
        elif mark:
            parts.append([LEVEL[mark], title or ('New Part' if mark == '#' else 'New Chapter'), desc, []])
        else:
            if not chapter[3]:
                chapter[3].append([None, '', '', []])
            chapter[3][-1][3].append(text)


def novel():
    n = small_novel()
    n.srtChapters, n.chapters, n.scenes = [], {}, {}
    add_chapter(n, '1', ['1', '2', '3'], 'One')
    add_chapter(n, '4', ['5'], 'Four', chLevel=1)
    for i in '1235':
        add_scene(n, i, 'Text ' + i, 'Scene ' + i)
    s = n.scenes['2']
    s.desc, s.goal, s.conflict, s.outcome = 'About', 'Goal', '', 'Outcome'
    s.notes, s.tags = 'Notes', ['tag']
    s.date, s.time = '2023-01-02', '10:20:00'
    s.lastsDays, s.lastsHours, s.lastsMinutes = '1', '2', '3'
    return n


def outline(n):
    out = []
    for c in n.srtChapters:
        x = n.chapters[c]
        scenes = []
        for i in x.srtScenes:
            s = n.scenes[i]
            scenes.append([i, s.title, s.desc or '', (s.sceneContent or '').split('\n')])
        out.append([x.chLevel, x.title, x.desc or '', scenes])
    return out


def verify(e, n, want, old, parent=None):
    got = outline(n)
    ids = []
    for c in got:
        for s in c[3]:
            ids.append(s[0])
    e.check(len(set(ids)) == len(ids) == len(n.scenes) and len(set(n.srtChapters)) == len(n.srtChapters) == len(n.chapters), 'identifiers')
    e.equal([c[:3] + [len(c[3])] for c in got], [c[:3] + [len(c[3])] for c in want], 'chapters')
    for g, w in zip(got, want):
        for s, v in zip(g[3], w[3]):
            e.equal(s[3], v[3] or [''], 'text of a scene')
            if v[0] is None:
                e.check(s[0] not in old, 'new identifier')
                x = n.scenes[s[0]]
                if v[1]:
                    e.equal(s[1], v[1], 'title of a new scene')
                elif parent:
                    e.check(s[1].startswith(parent.title[:20]) and (s[1].startswith(parent.title + ' ') or len(parent.title) > 20), 'title derived from the split scene')
                e.equal(s[2], v[2], 'description of a new scene')
                if parent:
                    e.equal([x.status, x.scType, x.date, x.time, x.day, x.lastsDays, x.lastsHours, x.lastsMinutes],
                            [parent.status, parent.scType, parent.date, parent.time, parent.day, parent.lastsDays, parent.lastsHours, parent.lastsMinutes],
                            'data inherited from the split scene')
            else:
                e.equal(s[0], v[0], 'identifier of an old scene')
                e.equal(s[1], v[1], 'title of an old scene')


def sequences(kinds, n):
    out = [[]]
    for i in range(n):
        out = [o + [k] for o in out for k in kinds]
    return out


def first_kinds(kinds):
    return {k: {'first': k} for k in kinds}


@harness(cases={f'{k},{n}': {'first': k, 'n': n, 'kinds': SOME} for k in KINDS for n in (1, 2, 3)} | {f'{k},4': {'first': k, 'n': 4, 'kinds': SOME} for k in KINDS},
         thorough={f'{k},{j},{n}': {'first': k, 'n': n, 'kinds': list(KINDS) if n == 5 else SOME, 'second': j} for k in KINDS for j in KINDS for n in (4, 5, 6)})
def split(e, first, n, kinds, second=None):
    """Lines of any kind in a scene."""
    nov = novel()
    lines = []
    for i in range(n):
        kind = first if i == 0 else second if i == 1 and second else e.choose('kind' + str(i), kinds)
        lines.append(line_of(e, kind, 't' + str(i), (0 if i else 1) if n > 2 else 1 if n == 2 else 2))
    s = nov.scenes['2']
    s.status = 3
    if n == 1:
        s.desc, s.goal, s.conflict, s.outcome = [e.choose(f'field{i}', ['', x, '(!)' + x]) if i == x[0] else x for i in e.choose('field', 'AGCO') for x in ('About', 'Goal', 'Conflict', 'Outcome')]
        s.status, length, when, lasts = e.choose('parent', [(None, 7, ('2023-01-02', None, '10:20:00'), ('1', '2', '3')), (1, 19, ('2023-01-02', None, None), (None, None, '3')),
                                                  (2, 20, (None, '3', '10:20:00'), ('1', None, None)), (5, 21, (None, '3', None), (None, None, None)), (3, 25, (None, None, '10:20:00'), (None, '2', None))])
        s.title = ('Scene 2' + 'x' * 20)[:length]
        s.date, s.day, s.time = when
        s.lastsDays, s.lastsHours, s.lastsMinutes = lasts
    fields = [s.desc, s.goal, s.conflict, s.outcome]
    s.sceneContent = '\n'.join([x[0] for x in lines])
    parts = [[0, 'One', '', [['1', 'Scene 1', '', ['Text 1']], ['2', s.title, '', []]]]]
    model(parts, lines)
    if s.sceneContent == '':
        parts[-1][3][-1][3] = ['']
    parts[-1][3].append(['3', 'Scene 3', '', ['Text 3']])
    parts.append([1, 'Four', '', [['5', 'Scene 5', '', ['Text 5']]]])
    f = File(e.path('p.odt'))
    f.novel = nov
    status = s.status
    changed = Splitter().split_scenes(f)
    divided = any([x[1] for x in lines])
    e.equal(changed, divided, 'structure has changed')
    created = len(nov.scenes) > 4
    e.equal([s.desc, s.goal, s.conflict, s.outcome], [f'(!){x}' if created and x and x[:3] != '(!)' else x for x in fields], 'marks')
    e.equal(s.status, 2 if created and status is not None and status > 2 else status, 'status')
    e.equal([s.notes, s.tags, s.scType], ['Notes', ['tag'], 0], 'data of the split scene')
    verify(e, nov, parts, ['1', '2', '3', '5'], s)


@harness()
def two_scenes(e):
    """Dividers in several scenes and chapters, identifiers with gaps, long and missing titles."""
    nov = novel()
    parts = [[0, 'One', '', []]]
    for i in '1235':
        if i == '5':
            parts.append([1, 'Four', '', []])
        nov.scenes[i].title = e.choose('title' + i, ['', 'A very long title of a scene']) if i == '1' else 'Scene ' + i
        kinds = e.choose('lines' + i, [['text'], ['text', 'scene', 'text'], ['text', 'chapter', 'scene', 'text'], ['bare part', 'text'], []])
        lines = [line_of(e, k, f't{i}{j}', 1 if i == '2' and j == 1 else 0) for j, k in enumerate(kinds)]
        nov.scenes[i].sceneContent = '\n'.join([x[0] for x in lines])
        parts[-1][3].append([i, nov.scenes[i].title, '', []])
        model(parts, lines)
    f = File(e.path('p.odt'))
    f.novel = nov
    Splitter().split_scenes(f)
    verify(e, nov, parts, ['1', '2', '3', '5'])


HEADING = '<text:h text:style-name="Heading_20_{0}" text:outline-level="{0}">{1}</text:h>'
PARAGRAPH = '<text:p text:style-name="Text_20_body">{0}</text:p>'


@harness(cases={f'{s},{t}': {'suffix': s, 'chType': t} for s, t in (('_manuscript', 0), ('_proof', 0), ('_notes', 1), ('_todo', 2))})
def documents(e, suffix, chType):
    """Headings and dividers inserted in a document."""
    nov = novel()
    nov.chapters['1'].chType = chType
    for i in '123':
        nov.scenes[i].scType = chType
    nov.scenes['2'].sceneContent = 'One\nTWO\nthree'
    nov.scenes['2'].desc = 'About'
    p = e.path('p.yw7')
    save(p, nov)
    c, ui = convert(p, suffix)
    t = e.text('t', 2, minus(TEXT, '&<>"\''))
    e.assume(t == t.strip() and '  ' not in t)
    d = e.choose('description', ['', 'About it'])
    title = t + ('|' + d if d else '')
    kind = e.choose('kind', ['part', 'chapter', 'scene', 'chapter and scene', 'part and chapter', 'none'])
    lines = [['One', '', '', '']]
    new = ''
    if 'part' in kind:
        new += HEADING.format(1, title if kind == 'part' else 'Other')
        lines.append(['', '#', t if kind == 'part' else 'Other', d if kind == 'part' else ''])
    if 'chapter' in kind:
        new += HEADING.format(2, title)
        lines.append(['', '##', t, d])
    if 'scene' in kind:
        new += PARAGRAPH.format('### ' + title)
        lines.append(['', '###', t, d])
    lines.append(['three', '', '', ''])
    a = '</text:p>\n<text:p text:style-name="First_20_line_20_indent">'

    def change(xml):
        old = 'One' + a + 'TWO' + a + 'three'
        e.check(old in xml, 'text in the document')
        return xml.replace(old, 'One</text:p>' + new + '<text:p text:style-name="First_20_line_20_indent">three')

    rezip(c.newFile, change(unzip(c.newFile)))
    c, ui = convert(c.newFile)
    e.equal(ui.how, [f'File written: "{p}".'], 'message')
    e.equal(len(ui.warnings), 0 if kind == 'none' else 1, 'warning when scenes have been split')
    n = load(p).novel
    parts = [[0, 'One', '', [['1', 'Scene 1', '', ['Text 1']], ['2', 'Scene 2', '', []]]]]
    model(parts, lines)
    parts[-1][3].append(['3', 'Scene 3', '', ['Text 3']])
    parts.append([1, 'Four', '', [['5', 'Scene 5', '', ['Text 5']]]])
    e.equal([n.chapters[c].chType for c in n.srtChapters], [chType] * (len(parts) - 1) + [0], 'types of the chapters')
    for i in n.scenes:
        e.equal(n.scenes[i].scType, 0 if i == '5' else chType, 'types of the scenes')
    verify(e, n, parts, ['1', '2', '3', '5'], n.scenes['2'])


PATTERN = ['text', 'scene', 'text', 'text', 'chapter', 'text', 'bare scene', 'empty', 'text', 'part', 'text', 'described', 'text', 'bare chapter', 'scene', 'text']


@harness(cases={f'{k},{n}': {'kind': k, 'n': n} for k in SOME for n in (1, 3)})
def many(e, kind, n):
    """A long text with many dividers, a line of any kind at several places; identifiers with several digits."""
    nov = novel()
    for i in ('9', '10', '99'):
        add_chapter(nov, i, [i], 'Chapter ' + i)
        add_scene(nov, i, 'Text ' + i, 'Scene ' + i)
    k = e.choose('where', [0, 5, len(PATTERN) - 1])
    lines = []
    for i in range(n):
        for j, p in enumerate(PATTERN):
            lines.append(line_of(e, kind if j == k and i == n - 1 else p, f't{i}.{j}', 0))
    lines.append((LONG, '', '', ''))
    s = nov.scenes['2']
    s.status = 3
    s.title = 'A title of a scene that is longer than the part of it that is used'
    s.sceneContent = '\n'.join([x[0] for x in lines])
    parts = [[0, 'One', '', [['1', 'Scene 1', '', ['Text 1']], ['2', s.title, '', []]]]]
    model(parts, lines)
    parts[-1][3].append(['3', 'Scene 3', '', ['Text 3']])
    parts.append([1, 'Four', '', [['5', 'Scene 5', '', ['Text 5']]]])
    for i in ('9', '10', '99'):
        parts.append([0, 'Chapter ' + i, '', [[i, 'Scene ' + i, '', ['Text ' + i]]]])
    f = File(e.path('p.odt'))
    f.novel = nov
    e.equal(Splitter().split_scenes(f), True, 'structure has changed')
    verify(e, nov, parts, ['1', '2', '3', '5', '9', '10', '99'], s)


@harness(cases={'_manuscript': {'suffix': '_manuscript'}, '_proof': {'suffix': '_proof'}})
def warned(e, suffix):
    """The user is told that parts were split, whatever the project looks like, and only then."""
    n = small_novel()
    n.srtChapters, n.chapters, n.scenes = [], {}, {}
    layout = e.choose('layout', [((1,),), ((), (1,)), ((1,), (2,)), ((1, 2), (3,), ()), ((1, 2, 3),)])
    for i, scenes in enumerate(layout, 1):
        add_chapter(n, str(i), [str(s) for s in scenes], f'Chapter {i}')
        for s in scenes:
            add_scene(n, str(s), 'One\nTWO\nthree', f'Scene {s}')
    p = e.path('p.yw7')
    save(p, n)
    c, ui = convert(p, suffix)
    kind = e.choose('kind', ['none', 'edit', '1', '2', '###'])
    new = {'none': 'TWO', 'edit': 'Two'}.get(kind)
    paragraph = '<text:p text:style-name="First_20_line_20_indent">TWO</text:p>'
    xml = unzip(c.newFile)
    e.check(paragraph in xml, 'text in the document')
    if new:
        xml = xml.replace('TWO', new, 1)
    else:
        xml = xml.replace(paragraph, PARAGRAPH.format('### New') if kind == '###' else HEADING.format(kind, 'New'), 1)
    rezip(c.newFile, xml)
    c, ui = convert(c.newFile)
    e.equal(ui.how, [f'File written: "{p}".'], 'message')
    e.equal(ui.warnings, [] if new else ['New scenes created during conversion.'], 'warnings')
    r = load(p).novel
    e.equal(len(r.scenes) - len(n.scenes), 0 if new else 1, 'new scenes')
    e.equal(len(r.chapters) - len(n.chapters), 1 if kind in ('1', '2') else 0, 'new chapters')
