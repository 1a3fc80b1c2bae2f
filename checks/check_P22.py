"""P22: the cross reference lists exactly the references of the project, and the links of exported documents lead to the sections they name."""
import os
import xml.etree.ElementTree as ET
from urllib.parse import quote
from engine.env import harness, minus, chars
from engine import iset
from checks_lib import *
from check_P21 import short, attr, document, Document

BOUNDS = ('two chapters with three scenes of any type in any order, two elements of each kind referenced by every scene in any order, tags of one arbitrary character; '
          'titles, tags and file names with an arbitrary character; every link of seven document types'
          '; a project with 18 chapters, 35 scenes and 12 elements of each kind, long texts')
ASSUMPTIONS = ['every scene belongs to one chapter', 'scenes that are not part of the manuscript need no link target']
MARK = {0: 'scene_20_mark', 1: 'scene_20_mark_20_notes', 2: 'scene_20_mark_20_todo', 3: 'scene_20_mark_20_unused'}
NOTE = {0: '', 1: ' (Notes)', 2: ' (ToDo)', 3: ' (Unused)'}
PAGE = {'character': 'characters', 'location': 'locations', 'item': 'items'}
SHORT = {'character': 'CrID', 'location': 'LcID', 'item': 'ItID'}
LIST = {'character': 'characters', 'location': 'locations', 'item': 'items'}
NAME = minus('line', '/\\')


def export(e, nov, suffix, name='p'):
    p = e.path(name + '.yw7')
    save(p, nov)
    c, ui = convert(p, suffix)
    e.equal(ui.how, [f'File written: "{e.path(doc_name(name, suffix))}".'], 'message')
    return unzip(c.newFile) if c.newFile else None


def entries(xml):
    """The blocks after the title: headings and lines with style, link and text."""
    root = ET.fromstring(xml)
    out = []
    for x in next(x for x in root.iter() if short(x.tag) == 'office:text'):
        t = short(x.tag)
        if t == 'text:h':
            out.append(['heading', ''.join(x.itertext())])
        elif t == 'text:p' and attr(x, 'text:style-name') not in ('Title', 'Subtitle'):
            links = [attr(a, 'xlink:href') or a.attrib['{http://www.w3.org/1999/xlink}href'] for a in x if short(a.tag) == 'text:a']
            linked = [''.join(a.itertext()) for a in x if short(a.tag) == 'text:a']
            out.append([attr(x, 'text:style-name'), links, linked, ''.join(x.itertext()).strip('\n')])
    return out


def novel(e):
    """Two chapters, three scenes, two elements of each kind."""
    nov = Novel()
    nov.title, nov.authorName = 'Project', 'Author'
    nov.languageCode, nov.countryCode = 'en', 'US'
    add_chapter(nov, '7', ['2', '3'])
    add_chapter(nov, '4', ['1'])
    for s in '123':
        add_scene(nov, s, 'Text', 'Scene ' + s)
    for kind, table, order in (('Char', nov.characters, nov.srtCharacters), ('Loc', nov.locations, nov.srtLocations), ('Item', nov.items, nov.srtItems)):
        for i in '25':
            x = Character() if kind == 'Char' else WorldElement()
            x.title = kind + i
            if kind == 'Char':
                x.fullName = 'Full ' + i
                x.isMajor = False
            table[i] = x
        order += ['5', '2']
    return nov


def tables(nov):
    return {'character': (nov.characters, nov.srtCharacters), 'location': (nov.locations, nov.srtLocations), 'item': (nov.items, nov.srtItems)}


def scene_lines(nov, ids, name='p'):
    order = [s for c in nov.srtChapters for s in nov.chapters[c].srtScenes]
    out = []
    for s in ids:
        x = nov.scenes[s]
        chapter = [i for i, c in enumerate(nov.srtChapters, 1) if s in nov.chapters[c].srtScenes][0]
        number = str(order.index(s) + 1)
        t = x.scType
        links = [f'../{quote(name)}_manuscript.odt#ScID:{s}%7Cregion'] if t == 0 else []
        out.append([MARK[t], links, [number] if t == 0 else [], f'{number} (Ch {chapter}) {x.title}{NOTE[t]}'])
    return out


def expected(nov, name='p'):
    """The cross reference, from its description."""
    order = [s for c in nov.srtChapters for s in nov.chapters[c].srtScenes]
    out = []
    for kind in LIST:
        table, ids = tables(nov)[kind]
        for i in ids:
            scenes = [s for s in order if i in (getattr(nov.scenes[s], LIST[kind]) or [])]
            if scenes:
                out.append(['heading', f'Scenes with {kind.capitalize()} {table[i].title}:'])
                out += scene_lines(nov, scenes, name)
    tags = []
    for s in order:
        for t in nov.scenes[s].tags or []:
            if t not in tags:
                tags.append(t)
    for t in tags:
        out.append(['heading', f'Scenes tagged {t}:'])
        out += scene_lines(nov, [s for s in order if t in (nov.scenes[s].tags or [])], name)
    for kind in LIST:
        table, ids = tables(nov)[kind]
        tags = []
        for i in ids:
            for t in table[i].tags or []:
                if t not in tags:
                    tags.append(t)
        for t in tags:
            out.append(['heading', f'{kind.capitalize()}s tagged {t}:'])
            for i in ids:
                if t in (table[i].tags or []):
                    full = ' ' + (table[i].fullName or '') if kind == 'character' else ''
                    out.append(['Text_20_body', [f'../{quote(name)}_{PAGE[kind]}.odt#{SHORT[kind]}:{i}%7Cregion'], [table[i].title], table[i].title + full])
    return out


def check(e, nov, name='p'):
    got = entries(export(e, nov, '_xref', name))
    want = expected(load(e.path(name + '.yw7')).novel, name)
    e.equal([x[1] for x in got if x[0] == 'heading'], [x[1] for x in want if x[0] == 'heading'], 'headings')
    e.equal(got, want, 'cross references')


SETS = [None, ['2'], ['5'], ['2', '5'], ['5', '2']]


@harness(cases={k: {'kind': k} for k in LIST}, thorough={f'{k},types': {'kind': k, 'types': True} for k in LIST})
def scenes(e, kind, types=False):
    """The scenes of each element."""
    nov = novel(e)
    for s in '123':
        setattr(nov.scenes[s], LIST[kind], e.choose('of ' + s, SETS))
    if types:
        for s in '12':
            nov.scenes[s].scType = e.choose('type ' + s, [0, 1, 2, 3])
    check(e, nov)


@harness(cases={f'{a}': {'a': a} for a in range(4)})
def types(e, a):
    """Scenes of all types, in all chapter types and orders."""
    nov = novel(e)
    nov.chapters['7'].srtScenes = e.choose('order', [['2', '3'], ['3', '2'], ['3'], []])
    nov.chapters['4'].srtScenes = [s for s in '123' if s not in nov.chapters['7'].srtScenes]
    nov.chapters['4'].chType = a
    nov.srtChapters = e.choose('chapters', [['7', '4'], ['4', '7']])
    for s in '123':
        nov.scenes[s].scType = e.choose('type ' + s, [0, 1, 2, 3]) if s != '3' else a
        nov.scenes[s].characters = ['2']
        nov.scenes[s].locations = ['5']
        nov.scenes[s].items = ['5', '2']
        nov.scenes[s].tags = ['x', 'y']
    check(e, nov)


@harness(cases={'scenes': {'where': 'scene'}, 'characters': {'where': 'character'}, 'locations': {'where': 'location'}, 'items': {'where': 'item'}},
         thorough={'any,' + k: {'where': k, 'any': True} for k in ('scene', 'character', 'location', 'item')})
def tags(e, where, any=False):
    """Tags, equal or not."""
    nov = novel(e)
    # separators and white space at the ends are not part of a tag
    dom = minus('line', ';, \t\xa0') if any else 'lower'
    a, b = 'T' + e.char('a', dom), 'T' + e.char('b', 'lower')
    table = nov.scenes if where == 'scene' else tables(nov)[where][0]
    for i in ('123' if where == 'scene' else '25'):
        table[i].tags = e.choose('tags ' + i, [None, [a], [a, b], ['Tz', a]])
    for x in table.values():
        e.assume(x.tags is None or len(x.tags) < 2 or x.tags[0] != x.tags[1])
    check(e, nov)


@harness(cases={'scene': {'what': 'scene'}, 'tag': {'what': 'tag'}, 'character': {'what': 'character'}, 'location': {'what': 'location'}, 'item': {'what': 'item'},
                'name': {'what': 'name'}})
def texts(e, what):
    """Titles, tags, and the name of the project, are shown as they are."""
    nov = novel(e)
    t = e.char('t', NAME if what == 'name' else minus('line', ';,') if what == 'tag' else 'line')
    for s in '12':
        nov.scenes[s].characters, nov.scenes[s].locations, nov.scenes[s].items, nov.scenes[s].tags = ['2'], ['5', '2'], ['5'], ['x']
    for kind in LIST:
        tables(nov)[kind][0]['2'].tags = ['x']
    name = 'p'
    if what == 'scene':
        nov.scenes['2'].title = 'a' + t + 'b'
    elif what == 'tag':
        nov.scenes['1'].tags = nov.items['5'].tags = ['a' + t + 'b']
    elif what == 'name':
        name = 'a' + t + 'b'
    else:
        x = tables(nov)[what][0]['2']
        x.title = 'a' + t + 'b'
        if what == 'character':
            x.fullName = t + 'x'
    check(e, nov, name)


DOCS = ['_xref', '_parts', '_chapters', '_scenes', '_scenelist']
TARGETS = ['_manuscript', '_characters', '_locations', '_items']


def sections(xml):
    return [attr(x, 'text:name') for x in ET.fromstring(xml).iter() if short(x.tag) == 'text:section']


def links(xml):
    out = []
    for x in ET.fromstring(xml).iter():
        for k, v in x.attrib.items():
            if k.endswith('}href') and 'region' in v:
                out.append(v)
            if k.endswith('}formula'):
                out.append(v)
    return out


@harness(cases={f'{d},{w}': {'doc': d, 'where': w} for d in DOCS for w in ('name', 'dir', 'structure')})
def targets(e, doc, where):
    """Each link of a document leads to a section of the document it names."""
    nov = novel(e)
    nov.chapters['7'].chLevel = 1
    name, d = 'p', ''
    if where == 'name':
        name = 'a' + e.char('t', NAME) + 'b'
    elif where == 'dir':
        d = 'D' + e.char('t', NAME) + 'E/'
        os.mkdir(e.path(d))
    else:
        add_chapter(nov, '5', ['4'])
        add_scene(nov, '4', 'More', 'Scene 4')
        for c in '745':
            nov.chapters[c].chLevel = e.choose('level ' + c, [0, 1])
        nov.chapters['4'].chType = e.choose('type', [0, 1, 2, 3])
        nov.chapters['4'].isTrash = e.flag('trash')
        nov.srtChapters = e.choose('order', [['7', '4', '5'], ['5', '4', '7']])
    for s in '123':
        nov.scenes[s].characters, nov.scenes[s].locations, nov.scenes[s].items, nov.scenes[s].tags = ['2'], ['5', '2'], ['5'], ['x']
    for kind in LIST:
        tables(nov)[kind][0]['2'].tags = ['x']
    found = {}
    for t in TARGETS:
        for s in sections(export(e, nov, t, d + name)):
            found[s] = t
    got = links(export(e, nov, doc, d + name))
    e.check(len(got) > 0 or where == 'structure', 'the document has links')
    if doc == '_scenelist':
        head = 'of:=HYPERLINK("file:///' + quote(e.path(d[:-1] if d else '') or '', '/:').rstrip('/') + '/'
    else:
        head = '../'
    for x in got:
        e.check(x.startswith(head), f'link to a document in the same directory: {x}')
        file, hash, target = x[len(head):].partition('#')
        target, bar, rest = target.partition('%7C')
        e.check(rest == ('region' if doc != '_scenelist' else f'region";"{target}")'), 'form of the link')
        if target in found:
            e.equal(file, quote(name) + found[target] + '.odt', 'the document that has the section')
        else:
            e.check(doc == '_xref' and nov.chapters['4'].chType != 0, f'{target} is a section')


@harness(cases={'_xref': {'doc': '_xref', 'k': 9}, '_parts': {'doc': '_parts', 'k': 10}})
def long_names(e, doc, k):
    """File names that contain the end of a document's name."""
    nov = novel(e)
    nov.chapters['7'].chLevel = 1
    nov.scenes['1'].characters = ['2']
    name = 'B' + e.text('t', k, chars('abcdefghijklmnopqrstuvwxyz_-.')) + 'C'
    head = '../' + quote(name) + '_manuscript.odt#'
    for x in links(export(e, nov, doc, name)):
        e.check(x.startswith(head), f'link to a document of the project: {x}')


@harness(cases={'references': {'what': 0}, 'many scenes': {'what': 1}})
def large(e, what):
    """A large project, an element that a scene has or not."""
    nov = large_novel()
    ids = list(nov.scenes)
    for s in (ids[1], ids[12], ids[-1]):
        x = nov.scenes[s]
        if what == 0:
            x.characters = [i for i in x.characters if i != '30'] + (['30'] if e.flag('has ' + s) else [])
            x.tags = x.tags + ['unique ' + s]
        else:
            x.scType = e.choose('type ' + s, [0, 3])
            x.items = ['5', '27']
    check(e, nov)
