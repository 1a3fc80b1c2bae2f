"""P14: exports contain exactly the chapters and scenes meant for the document, in their order and structure."""
import xml.etree.ElementTree as ET
from engine.env import harness, minus, chars
from checks_lib import *
from pywriter.converter.yw7_exporter import Yw7Exporter

BOUNDS = ('one chapter of any type and level with two scenes of any type, with any export marks, joined or not, with contents marked as raw '
          'HTML or TeX, missing, or ordinary, after a preceding normal chapter; two (thorough: three) chapters in any order with any types, '
          'levels and distribution of two scenes; the first six characters of a scene made of the characters of the raw marks; the ten '
          'documents with chapters or scenes'
          '; a project with 18 chapters, 35 scenes and 12 elements of each kind, long texts')
ASSUMPTIONS = ['scenes of a chapter that is not normal have the type of the chapter']
T = '{urn:oasis:names:tc:opendocument:xmlns:text:1.0}'
TABLE = '{urn:oasis:names:tc:opendocument:xmlns:table:1.0}'
OFFICE = '{urn:oasis:names:tc:opendocument:xmlns:office:1.0}'
DOCS = ['', '_proof', '_manuscript', '_brf_synopsis', '_scenes', '_chapters', '_parts', '_notes', '_todo', '_scenelist']


def plain(x):
    """Text of an element and its children."""
    out = x.text or ''
    for c in x:
        out += plain(c) + (c.tail or '')
    return out


def walk(x, out):
    for c in x:
        if c.tag == T + 'section':
            out.append(['section', c.get(T + 'name')])
            walk(c, out)
            out.append(['end'])
        elif c.tag == T + 'h':
            out.append(['h', c.get(T + 'outline-level'), plain(c)])
        elif c.tag == T + 'p':
            out.append(['p', c.get(T + 'style-name'), plain(c)])


def shown(path):
    """The structure of a document without its title page."""
    root = ET.fromstring(unzip(path))
    if path.endswith('.ods'):
        out = []
        for row in root.iter(TABLE + 'table-row'):
            cells = [plain(c).strip() for c in row.iter(TABLE + 'table-cell')]
            if cells and cells[0].startswith('ScID:'):
                out.append(['row', cells[0], cells[1]])
        return out
    out = []
    for body in root.iter(OFFICE + 'text'):
        walk(body, out)
    return out[2:]


def wanted(n, suffix):
    """What the document has to show, from the description of the document types."""
    out = []
    mine = {'_notes': 1, '_todo': 2}.get(suffix, 0)
    structured = suffix in ('_manuscript', '_scenes', '_notes', '_todo')
    for ch in n.srtChapters:
        c = n.chapters[ch]
        level = '1' if c.chLevel == 1 else '2'
        marked = [n.scenes[s].doNotExport for s in c.srtScenes]
        exported = mine != 0 or not marked or not all(marked)
        if c.chType == mine and exported:
            title = c.title
            if suffix in ('', '_manuscript', '_notes', '_todo') and c.suppressChapterTitle:
                title = ''
            if structured:
                out.append(['section', 'ChID:' + ch])
                out.append(['h', level, title])
            elif suffix in ('', '_proof', '_brf_synopsis'):
                out.append(['h', level, title])
            elif suffix == '_chapters' or suffix == '_parts' and level == '1':
                described = (suffix == '_parts') == (level == '1')
                if described:
                    out.append(['section', 'ChID:' + ch])
                out.append(['h', level, title])
                if described:
                    out.append(['p', 'Text_20_body', c.desc or ''])
                    out.append(['end'])
        first = True
        for s in c.srtScenes:
            x = n.scenes[s]
            kind = c.chType if c.chType != 0 else x.scType
            if kind != mine or suffix in ('_chapters', '_parts'):
                continue
            text = x.sceneContent or ''
            if mine == 0 and (x.doNotExport or text.startswith('<HTML>') or text.startswith('<TEX>')):
                continue
            if suffix in ('', '_manuscript', '_scenes') and not first and not x.appendToPrev:
                out.append(['p', 'Heading_20_4', '* * *'])
            style = 'Text_20_body'
            if suffix in ('', '_manuscript', '_scenes') and not first and x.appendToPrev:
                style = 'First_20_line_20_indent'
            first = False
            if suffix == '_scenelist':
                out.append(['row', 'ScID:' + s, x.title])
            elif suffix == '_brf_synopsis':
                out.append(['p', 'Text_20_body', x.title])
            elif suffix == '':
                out.append(['p', style, text])
            elif suffix == '_proof':
                out.append(['h', '3', x.title])
                out.append(['p', 'scene_20_mark', f'[ScID:{s}]'])
                out.append(['p', style, text])
                out.append(['p', 'scene_20_mark', '[/ScID]'])
            else:
                out.append(['h', '3', x.title])
                out.append(['section', 'ScID:' + s])
                out.append(['p', style, (x.desc or '') if suffix == '_scenes' else text])
                out.append(['end'])
        if structured and c.chType == mine and exported:
            out.append(['end'])
    return out


def compare(e, n, suffix):
    p = doc_name(e.path('p'), suffix)
    for cls in Yw7Exporter.EXPORT_TARGET_CLASSES:
        if cls.SUFFIX == suffix:
            f = cls(p, suffix=suffix)
    y = Yw7File(e.path('p.yw7'))
    y.novel = n
    y.adjust_scene_types()
    f.novel = n
    f.write()
    e.equal(shown(p), wanted(n, suffix), 'structure of the document')


def base():
    n = small_novel()
    n.srtChapters = []
    n.chapters = {}
    n.scenes = {}
    return n


def any_scene(e, n, s, contents=('Text', None, '<HTML>a', '<TEX>b')):
    text = e.choose('content' + s, contents)
    x = n.scenes[s] = Scene()
    x.title = 'Scene ' + s
    x.scType = e.int('type' + s, 0, 3)
    x.status = 1
    if text is not None:
        x.sceneContent = text
    x.desc = 'About ' + s
    x.doNotExport = e.flag('mark' + s)
    x.appendToPrev = e.flag('append' + s)
    return x


CASES = {d or 'export': {'suffix': d} for d in DOCS}


@harness(cases={c: dict(CASES[c], deep=False) for c in CASES}, thorough={c + ',deep': dict(CASES[c], deep=True) for c in CASES})
def one_chapter(e, suffix, deep):
    """A chapter with two scenes after a normal one."""
    n = base()
    add_chapter(n, '1', ['1'], 'Start').desc = 'Summary'
    add_scene(n, '1', 'Start text', 'Start')
    c = add_chapter(n, '2', ['2', '3'], 'Any', chLevel=e.int('level', 0, 1), chType=e.int('chapter type', 0, 3))
    c.desc = 'Any summary'
    any_scene(e, n, '2', ('Text', None, '<HTML>a', '<TEX>b') if deep else (None, '<HTML>a'))
    any_scene(e, n, '3', ('Text', '<TEX>b') if deep else ('Text',))
    compare(e, n, suffix)


@harness(cases=CASES)
def raw(e, suffix):
    """The beginning of the text decides whether the scene is exported."""
    n = base()
    add_chapter(n, '1', ['1', '2'], 'Start')
    t = e.text('t', 6, chars('<>HTMLEX1')) + 'x'
    add_scene(n, '1', t, 'First')
    add_scene(n, '2', 'Second text', 'Second')
    compare(e, n, suffix)


@harness(cases={c: dict(CASES[c], ids='12') for c in CASES}, thorough={c + ',3': dict(CASES[c], ids='123') for c in CASES})
def chapters(e, suffix, ids):
    """Chapters of any type in any order, empty ones, and suppressed titles."""
    n = base()
    for i in ids:
        c = add_chapter(n, i, [i], 'Chapter ' + i, chLevel=e.int('level' + i, 0, 1), chType=e.int('type' + i, 0, 3))
        c.suppressChapterTitle = e.flag('suppress' + i)
        c.desc = 'About ' + i
    n.srtChapters = list(e.choose('order', ['123', '231', '321'] if len(ids) == 3 else ['12', '21']))
    first, second = e.choose('scenes', [('', '1'), ('1', ''), ('1', '2'), ('21', ''), ('', '21')])
    n.chapters['1'].srtScenes = list(first)
    n.chapters['2'].srtScenes = list(second)
    if len(ids) == 3:
        n.chapters['3'].srtScenes = ['3']
    for c in n.chapters.values():
        for i in c.srtScenes:
            add_scene(n, i, 'Text ' + i, 'Scene ' + i)
    compare(e, n, suffix)


@harness(cases=CASES)
def large(e, suffix):
    """Many chapters and scenes; any export marks in a chapter with four scenes; missing titles."""
    n = large_novel()
    for i in n.scenes:
        n.scenes[i].sceneContent = 'Text ' + i
        n.scenes[i].desc = 'About ' + i
    for i in n.chapters:
        n.chapters[i].desc = 'Summary ' + i
    for i in n.chapters['3'].srtScenes:
        n.scenes[i].doNotExport = e.flag('mark' + i)
    n.scenes[n.chapters['15'].srtScenes[4]].doNotExport = True
    n.scenes[n.chapters['15'].srtScenes[9]].scType = 3
    n.chapters['10'].title = n.chapters['2'].title = n.chapters['11'].title = n.chapters['30'].title = e.choose('title', ['Title', ''])
    n.scenes[n.chapters['15'].srtScenes[2]].title = n.chapters['10'].title
    n.chapters['21'].suppressChapterTitle = True
    compare(e, n, suffix)
