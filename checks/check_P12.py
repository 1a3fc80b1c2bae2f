"""P12: descriptions, character, location and item sheets, notes and todo documents: exporting and importing keeps all texts."""
import re
from engine.env import harness, minus, chars
from engine import iset
from checks_lib import *
from prose import *

BOUNDS = ('documents that the XML parser reads in two pieces, divided at any place of a text; bookmarks, page breaks, spans and change marks at any place of a text, nine kinds of recorded deletions; '
          'two elements of each kind with any two of six identifiers of one to five digits; '
          'the 13 text attributes shown by the eight description documents with two (thorough: three) arbitrary characters including '
          'line breaks, in a paragraph with other text or alone; 22 patterns of lists, empty lines, markup and code around an arbitrary character; a project '
          'with 18 chapters, 35 scenes and 12 elements of each kind; notes and todo scenes of the shapes of P10; sections and text frames the author has inserted; sections edited, left out, '
          'in another order, or new; text saved by a word processor (space, tab and line break elements)')
ASSUMPTIONS = ['white space at the end of a text does not count', 'scene descriptions do not begin with a comment that contains a tilde (this sets the scene title)']
ATTRS = [('_scenes', 'scene', '1', 'desc'), ('_chapters', 'chapter', '2', 'desc'), ('_parts', 'chapter', '1', 'desc'),
         ('_characters', 'character', '1', 'desc'), ('_characters', 'character', '1', 'bio'),
         ('_characters', 'character', '1', 'goals'), ('_characters', 'character', '1', 'notes'),
         ('_locations', 'location', '1', 'desc'), ('_items', 'item', '1', 'desc'),
         ('_notes', 'scene', '4', 'sceneContent'), ('_todo', 'scene', '5', 'sceneContent')]
CASES = {f'{s},{k}.{a}': {'suffix': s, 'kind': k, 'eid': i, 'attr': a} for s, k, i, a in ATTRS}


def rest(n, kind, eid, attr):
    return [x for x in everything(n) if x[:3] != [kind, eid, attr]]


def everything(n):
    out = text_snapshot(n)
    out.append([n.languageCode, n.countryCode, list(n.srtChapters), list(n.srtCharacters), list(n.srtLocations), list(n.srtItems), list(n.srtPrjNotes)])
    for c in n.srtChapters:
        x = n.chapters[c]
        out.append([c, x.chLevel, x.chType, list(x.srtScenes)])
    for s in sorted(n.scenes):
        x = n.scenes[s]
        out.append([s, x.scType, x.status, x.tags, x.characters, x.locations, x.items, x.date, x.time])
    return out


def full_novel():
    """All texts of the documents are set."""
    n = rich_novel()
    for s, k, i, a in ATTRS:
        for j in ('1', '2', '3') if k != 'scene' else (i,):
            if k != 'chapter' and j == '3':
                continue
            setattr(entity(n, k, j), a, f'{a} of {k} {j}')
    return n


def cycle(e, p, suffix, change=None):
    c, ui = convert(p, suffix)
    e.equal(ui.how, [f'File written: "{doc_name(e.path("p"), suffix)}".'], 'export message')
    d = c.newFile
    if change:
        rezip(d, change(unzip(d)))
    c, ui = convert(d)
    e.equal(ui.how, [f'File written: "{p}".'], 'import message')
    return load(p).novel


@harness(cases={f'{c},{where},2': dict(CASES[c], where=where, k=2) for c in CASES for where in ('alone', 'inside')},
         thorough={f'{c},{where},3': dict(CASES[c], where=where, k=3) for c in CASES for where in ('alone', 'inside')})
def round_trip_text(e, suffix, kind, eid, attr, where, k):
    """Any characters in one text."""
    dom = minus('nocr', '')
    if attr == 'sceneContent':
        dom = minus(dom, '[#*')
    t = e.text('t', k, dom)
    if where == 'inside':
        t = 'One two ' + t + ' three\n\nfour'
    nov = full_novel()
    setattr(entity(nov, kind, eid), attr, t)
    p = e.path('p.yw7')
    save(p, nov)
    before = rest(load(p).novel, kind, eid, attr)
    n = cycle(e, p, suffix)
    e.equal((getattr(entity(n, kind, eid), attr) or '').rstrip(), t.rstrip(), f'{kind} {attr}')
    e.equal(rest(n, kind, eid, attr), before, 'everything else')


PATTERNS = ['A{t}\n\n\nB{t}', 'A{t}\n\n\n\n \nB\n\nC{t}', '- A{t}\n- B\n\n- C', '> A{t}\n> B\nC', '  A{t}\n  B   C', 'A\n\tB{t}\t\tC', '* * *\n{t}\n* * *\nB',
            '# A{t}\n## B\n### C', '~A{t}~ B', '[i]A{t}[/i] [b]B[/b]', '[b]A\nB{t}[/b] [i]C', '/* A{t} */ B\n/*C*/', '[lang=de-DE]A{t}[/lang=de-DE] B', '<i>A{t}</i> &amp; B', '"A{t}" \'B\'',
            '...{t}... -- (A)', '1. A\n2. B{t}', 'A|B{t}', '(!)A{t}', 'ScID:{t} CrID:1', '<HTML>A{t}</HTML>', '<TEX>A{t}']


@harness(cases={c: dict(CASES[c]) for c in CASES})
def patterns(e, suffix, kind, eid, attr):
    """Texts with markup, lists, empty lines and other patterns are texts like any others."""
    pattern = e.choose('pattern', PATTERNS[:6] if attr == 'sceneContent' else PATTERNS)
    t = pattern.replace('{t}', e.text('t', 1, minus('line', '~[#*/> \t-')))
    nov = full_novel()
    setattr(entity(nov, kind, eid), attr, t)
    p = e.path('p.yw7')
    save(p, nov)
    before = rest(load(p).novel, kind, eid, attr)
    n = cycle(e, p, suffix)
    e.equal((getattr(entity(n, kind, eid), attr) or '').rstrip(), t.rstrip(), f'{kind} {attr}')
    e.equal(rest(n, kind, eid, attr), before, 'everything else')


@harness(cases={f'{s},{i}': {'suffix': s, 'shape': x} for s in ('_notes', '_todo') for i, x in enumerate(SHAPES)})
def formatted_text(e, suffix, shape):
    """Notes and todo scenes are formatted like the manuscript."""
    t = fill(e, shape, 1, full=1)
    i = {'_notes': '4', '_todo': '5'}[suffix]
    nov = full_novel()
    nov.scenes[i].sceneContent = t
    p = e.path('p.yw7')
    save(p, nov)
    before = rest(load(p).novel, 'scene', i, 'sceneContent')
    n = cycle(e, p, suffix)
    e.equal(formatted(n.scenes[i].sceneContent or ''), formatted(t), 'scene content')
    e.equal(rest(n, 'scene', i, 'sceneContent'), before, 'everything else')


@harness(cases={f'{c},{w}': dict(CASES[c], what=w) for c in CASES for w in ('paragraphs', 'spaces', 'gone', 'heading', 'section', 'frame')})
def edited(e, suffix, kind, eid, attr, what):
    """The text is edited in the word processor."""
    nov = full_novel()
    setattr(entity(nov, kind, eid), attr, 'QxxZ')
    p = e.path('p.yw7')
    save(p, nov)
    before = rest(load(p).novel, kind, eid, attr)
    t = e.text('t', 1, minus('line', '[#*'))
    want = ''
    para = '<text:p text:style-name="Text_20_body">'
    if what == 'paragraphs':
        want = f'a{t}\n\nb&c {t}\n d'
        new = f'{para}a{esc(t)}</text:p>\n{para}</text:p>{para}b&amp;c {esc(t)}</text:p>{para} d</text:p>'
    elif what == 'spaces':
        want = f'a    {t}b\tc\nd  e'
        new = (f'{para}a <text:s text:c="3"/>{esc(t)}<text:span text:style-name="T99">b</text:span><text:tab/>c<text:line-break/>d '
               '<text:s/>e</text:p>')
    elif what == 'section':
        want = f'a\n{t}b\nc\nd'
        new = f'{para}a</text:p>' + SECTION.format('Section1', f'{para}{esc(t)}b</text:p>' + SECTION.format('Letter', f'{para}c</text:p>')) + f'{para}d</text:p>'
    elif what == 'frame':
        want = f'a\nbc{t}\nd'
        new = f'{para}a</text:p>{para}b' + FRAME.format('Text_20_body', 'c' + esc(t)) + 'd</text:p>'
    elif what == 'gone':
        new = f'{para}</text:p>'
    else:
        want = f'a{t}'
        new = f'{para}a{esc(t)}</text:p>'

    def change(doc):
        e.check(doc.count('QxxZ</text:p>') == 1, 'text to edit')
        a = doc.index('QxxZ</text:p>')
        a = doc.rindex('<text:p', 0, a)
        doc = doc[:a] + new + doc[doc.index('QxxZ</text:p>') + 13:]
        if what == 'heading':
            doc = doc.replace('</text:h>', ' <text:s/>x</text:h>')
        return doc
    n = cycle(e, p, suffix, change)
    e.equal((getattr(entity(n, kind, eid), attr) or '').rstrip(), want.rstrip(), f'{kind} {attr}')
    e.equal(rest(n, kind, eid, attr), before, 'everything else')


@harness(cases={'': {}})
def comment_first(e):
    """A description may begin with a comment."""
    t = e.text('t', 1, minus('line', '/*~'))
    u = e.text('u', 1, minus('line', '/*'))
    d = f'/*a{t}*/{u}b'
    nov = full_novel()
    nov.scenes['1'].desc = d
    p = e.path('p.yw7')
    save(p, nov)
    before = rest(load(p).novel, 'scene', '1', 'desc')
    n = cycle(e, p, '_scenes')
    e.equal(n.scenes['1'].desc, d, 'description')
    e.equal(rest(n, 'scene', '1', 'desc'), before, 'everything else')


SECTIONS = {'_locations': ('LcID', 'location', 'desc'), '_items': ('ItID', 'item', 'desc'), '_chapters': ('ChID', 'chapter', 'desc'),
            '_characters': ('CrID', 'character', 'desc')}


@harness(cases={s: {'suffix': s} for s in SECTIONS})
def sections(e, suffix):
    """Sections may be left out, change their order or be added; each text goes to its element, nothing else changes."""
    mark, kind, attr = SECTIONS[suffix]
    nov = full_novel()
    p = e.path('p.yw7')
    save(p, nov)
    n0 = load(p).novel
    body = ''
    want = {}
    for i in range(2):
        x = e.choose(f'x{i}', ['1', '2', '9', '10', 'none'])
        if x == 'none' or x in want:
            continue
        t = e.text(f't{i}', 1, 'line')
        want[x] = f'a {t}b'
        if suffix == '_characters':
            body += (f'<text:section text:name="CrID:{x}"><text:h text:outline-level="3">Description</text:h>'
                     f'<text:section text:name="CrID_desc:{x}"><text:p>{esc(want[x])}</text:p></text:section>'
                     f'<text:h text:outline-level="3">Bio</text:h><text:section text:name="CrID_bio:{x}"><text:p>B{x}</text:p></text:section>'
                     '</text:section>')
        elif suffix == '_chapters':
            body += (f'<text:section text:name="ChID:{x}"><text:h text:outline-level="2">Title {x}</text:h>'
                     f'<text:p>{esc(want[x])}</text:p></text:section>')
        else:
            body += f'<text:h text:outline-level="2">Title {x}</text:h><text:section text:name="{mark}:{x}"><text:p>{esc(want[x])}</text:p></text:section>'
        body += '<text:p>outside</text:p>'

    def change(doc):
        a, b = doc.index('<text:p text:style-name="Title">'), doc.index('</office:text>')
        return doc[:a] + body + doc[b:]
    n = cycle(e, p, suffix, change)
    lists = {'location': ('srtLocations', n.locations), 'item': ('srtItems', n.items), 'chapter': ('srtChapters', n.chapters),
             'character': ('srtCharacters', n.characters)}
    srt, table = lists[kind]
    e.equal(getattr(n, srt), getattr(n0, srt) + [x for x in want if x not in getattr(n0, srt)], 'list of elements')
    for x in want:
        e.equal(getattr(table[x], attr), want[x], f'text of {kind} {x}')
        if suffix == '_characters':
            e.equal(table[x].bio, f'B{x}', 'biography')
        if kind == 'chapter':
            e.equal(table[x].title, entity(n0, kind, x).title if x in n0.chapters else f'Title {x}', 'title')
    def kept(novel):
        return [x for x in text_snapshot(novel) if x[0] == 'project' or (x[1] in ids[x[0]] and not (x[0] == kind and x[1] in want))]
    ids = {'chapter': n0.chapters, 'scene': n0.scenes, 'character': n0.characters, 'location': n0.locations, 'item': n0.items, 'note': []}
    e.equal(kept(n), kept(n0), 'everything else')
    e.equal([n.chapters[c].srtScenes for c in n0.srtChapters], [n0.chapters[c].srtScenes for c in n0.srtChapters], 'scenes')


@harness(cases={s: {'suffix': s} for s in ('_scenes', '_chapters', '_parts', '_characters', '_locations', '_items', '_notes', '_todo')})
def identifiers(e, suffix):
    """Elements with any identifiers."""
    any_ids(e, suffix)


@harness(cases={s: {'suffix': s} for s in ('_scenes', '_chapters', '_parts', '_characters', '_locations', '_items', '_notes', '_todo')})
def divided(e, suffix):
    """A document that the XML parser reads in two pieces."""
    divided_document(e, suffix)


@harness(cases={s: {'suffix': s} for s in ('_scenes', '_chapters', '_parts', '_characters', '_locations', '_items', '_notes', '_todo')})
def not_text(e, suffix):
    """Page breaks, bookmarks and changes within the texts do not matter, nor does the record of changes."""
    invisible(e, suffix)


@harness(cases={s: {'suffix': s} for s in ('_scenes', '_chapters', '_parts', '_characters', '_locations', '_items', '_notes', '_todo')})
def large(e, suffix):
    """A project of realistic size."""
    large_cycle(e, suffix)
