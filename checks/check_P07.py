"""P07: types and flags are read and written with the documented yWriter 7 encoding, for any combination of elements."""
import xml.etree.ElementTree as ET
from engine.env import harness, minus, chars
from checks_lib import *

BOUNDS = ('every combination of present, absent and arbitrary (1-2 characters) type elements of a scene and of a chapter; '
          'every type written to a new project and as any change; every flag element with any text')
ASSUMPTIONS = ['combinations for which yWriter documents no meaning (an unused chapter with neither type element) are left out']


def val(e, name, known):
    """None (absent), a known value, or any other text."""
    k = e.choose(name, [None] + known + ['?'])
    if k == '?':
        return 'x' + e.text(name + 't', 1, minus('line', '<&>'))
    return k


def el(tag, text):
    return '' if text is None else f'<{tag}>{text}</{tag}>'


def project(scene='', chapter='', scenes='<Scenes><ScID>1</ScID></Scenes>'):
    return ('<YWRITER7><PROJECT><Title>P</Title></PROJECT><LOCATIONS/><ITEMS/><CHARACTERS/><PROJECTNOTES/>'
            f'<SCENES><SCENE><ID>1</ID><Title>S</Title>{scene}<Status>1</Status></SCENE></SCENES>'
            f'<CHAPTERS><CHAPTER><ID>1</ID><Title>C</Title>{chapter}{scenes}</CHAPTER></CHAPTERS></YWRITER7>')


def want_scene_type(unused, field):
    if field == '1':
        return 1
    if field == '2':
        return 2
    return 3 if unused is not None else 0


def want_chapter_type(unused, typ, chtype):
    if chtype is not None:
        if chtype == '1':
            return 1
        if chtype == '2':
            return 2
        return 3 if unused is not None else 0
    if typ is None:
        return 0
    if typ == '1':
        return 1
    return 3 if unused is not None else 0


@harness(cases={'': {}})
def read_scene(e):
    unused, field = val(e, 'unused', ['-1']), val(e, 'field', ['0', '1', '2'])
    fields = e.choose('fields', ['one', 'two', 'none'])
    x = el('Unused', unused)
    if fields == 'none':
        e.assume(field is None)
    elif fields == 'two':
        x += '<Fields><Field_Other>1</Field_Other></Fields><Fields>' + el('Field_SceneType', field) + '</Fields>'
    else:
        x += '<Fields>' + el('Field_SceneType', field) + '</Fields>'
    p = e.path('p.yw7')
    e.put(p, project(scene=x))
    n = load(p).novel
    e.equal(n.scenes['1'].scType, want_scene_type(unused, field), 'scene type')


@harness(cases={'': {}})
def read_chapter(e):
    unused, typ, chtype = val(e, 'unused', ['-1']), val(e, 'type', ['0', '1']), val(e, 'chtype', ['0', '1', '2'])
    e.assume(not (unused is not None and typ is None and chtype is None))
    p = e.path('p.yw7')
    e.put(p, project(chapter=el('Unused', unused) + el('Type', typ) + el('ChapterType', chtype)))
    n = load(p).novel
    w = want_chapter_type(unused, typ, chtype)
    e.equal(n.chapters['1'].chType, w, 'chapter type')
    e.equal(n.scenes['1'].scType, w, 'the scene has the type of its chapter')


@harness(cases={'': {}})
def inherit(e):
    """Scenes of a normal chapter keep their own type, the others get the type of the chapter; also after saving."""
    ct, s1, s2 = e.int('ct', 0, 3), e.int('s1', 0, 3), e.int('s2', 0, 3)
    n = small_novel()
    add_scene(n, '2')
    n.chapters['1'].srtScenes = ['1', '2']
    n.chapters['1'].chType = ct
    n.scenes['1'].scType = s1
    n.scenes['2'].scType = s2
    p = e.path('p.yw7')
    save(p, n)
    f = load(p)
    e.equal(f.novel.chapters['1'].chType, ct, 'chapter type')
    if ct == 0:
        e.equal([f.novel.scenes['1'].scType, f.novel.scenes['2'].scType], [s1, s2], 'scene types in a normal chapter')
    else:
        e.equal([f.novel.scenes['1'].scType, f.novel.scenes['2'].scType], [ct, ct], 'scene types in another chapter')
    f.novel.chapters['1'].chType = 0
    f.write()
    g = load(p)
    e.equal(g.novel.scenes['1'].scType, f.novel.scenes['1'].scType, 'scene type when the chapter becomes normal')


def text_of(el_, tag):
    x = el_.find(tag)
    return None if x is None else x.text


def tables(e, root, st, ct, what):
    """The documented encoding of scene and chapter type."""
    s = root.find('SCENES')[0]
    c = root.find('CHAPTERS')[0]
    f = [x.find('Field_SceneType') for x in s.findall('Fields') if x.find('Field_SceneType') is not None]
    field = f[0].text if f else None
    e.check(len(f) <= 1, f'one scene type field, {what}')
    e.equal([text_of(s, 'Unused'), field], [[None, None], ['-1', '1'], ['-1', '2'], ['-1', '0']][st], f'scene type elements, {what}')
    e.equal([text_of(c, 'Unused'), text_of(c, 'Type'), text_of(c, 'ChapterType')],
            [[None, '0', '0'], ['-1', '1', '1'], ['-1', '1', '2'], ['-1', '1', '0']][ct], f'chapter type elements, {what}')


@harness(cases={'': {}})
def write_types(e):
    s1, c1, s2, c2 = [e.choose(x, [0, 1, 2, 3]) for x in ('s1', 'c1', 's2', 'c2')]
    n = small_novel()
    n.scenes['1'].scType = s1
    n.chapters['1'].chType = c1
    p = e.path('p.yw7')
    save(p, n)
    tables(e, ET.fromstring(e.get(p)), s1, c1, 'new')
    f = load(p)
    f.novel.scenes['1'].scType = s2
    f.novel.chapters['1'].chType = c2
    f.write()
    tables(e, ET.fromstring(e.get(p)), s2, c2, 'changed')


@harness(cases={'': {}})
def write_types_over_any(e):
    """Whatever type elements are there, they are replaced by the documented ones."""
    x = el('Unused', val(e, 'su', ['-1']))
    fld = val(e, 'sf', ['0', '1'])
    x += '<Fields>' + el('Field_SceneType', fld) + '</Fields>'
    y = el('Unused', val(e, 'cu', ['-1'])) + el('Type', val(e, 'ct', ['1'])) + el('ChapterType', val(e, 'cc', ['2']))
    p = e.path('p.yw7')
    e.put(p, project(x, y))
    f = load(p)
    st, ct = e.choose('s', [0, 1, 2, 3]), e.choose('c', [0, 3])
    f.novel.scenes['1'].scType = st
    f.novel.chapters['1'].chType = ct
    f.write()
    root = ET.fromstring(e.get(p))
    s = root.find('SCENES')[0]
    c = root.find('CHAPTERS')[0]
    g = load(p).novel
    e.equal(g.chapters['1'].chType, ct, 'chapter type read back')
    if ct == 0:
        e.equal(g.scenes['1'].scType, st, 'scene type read back')
    e.check((s.find('Unused') is None) == (st == 0), 'unused mark of the scene')
    e.check((c.find('Unused') is None) == (ct == 0), 'unused mark of the chapter')
    e.equal([text_of(c, 'Type'), text_of(c, 'ChapterType')], [['0', '0'], None, None, ['1', '0']][ct], 'chapter type elements')
    if st:
        e.equal(s.find('Fields').find('Field_SceneType').text, [None, '1', '2', '0'][st], 'scene type element')


FLAGS = {'AppendToPrev': 'appendToPrev', 'ReactionScene': 'isReactionScene', 'SubPlot': 'isSubPlot'}


@harness(cases={'': {}})
def read_scene_flags(e):
    x = ''
    want = {}
    for tag in FLAGS:
        v = val(e, tag, ['-1'])
        x += el(tag, v)
        want[FLAGS[tag]] = v is not None
    p = e.path('p.yw7')
    e.put(p, project(scene=x))
    s = load(p).novel.scenes['1']
    for a in want:
        e.check(bool(getattr(s, a)) == want[a], f'scene flag {a}')


@harness(cases={'': {}})
def read_export_flag(e):
    spec, rtf = val(e, 'spec', ['-1']), val(e, 'rtf', ['-1'])
    p = e.path('p.yw7')
    e.put(p, project(scene=el('ExportCondSpecific', spec) + el('ExportWhenRTF', rtf)))
    f = load(p)
    want = spec is not None and rtf is None
    e.check(bool(f.novel.scenes['1'].doNotExport) == want, 'not to be exported')
    new = e.flag('new')
    f.novel.scenes['1'].doNotExport = new
    f.write()
    e.check(bool(load(p).novel.scenes['1'].doNotExport) == new, 'not to be exported, changed')


@harness(cases={'': {}})
def read_chapter_flags(e):
    t, b, k, part = val(e, 't', ['0', '1']), val(e, 'b', ['0', '1']), val(e, 'k', ['0', '1']), val(e, 'p', ['-1'])
    at = e.flag('at')
    x = '<Fields>' + el('Field_SuppressChapterTitle', t) + el('Field_SuppressChapterBreak', b) + el('Field_IsTrash', k) + '</Fields>'
    p = e.path('p.yw7')
    doc = project(chapter=el('SectionStart', part) + x)
    if at:
        doc = doc.replace('<Title>C</Title>', '<Title>@C</Title>')
    e.put(p, doc)
    c = load(p).novel.chapters['1']
    e.check(bool(c.suppressChapterTitle) == (t == '1' or at), 'title suppressed')
    e.check(bool(c.suppressChapterBreak) == (b == '1'), 'break suppressed')
    e.check(bool(c.isTrash) == (k == '1'), 'trash')
    e.equal(c.chLevel, 0 if part is None else 1, 'chapter level')


@harness(cases={'': {}})
def write_flags(e):
    names = list(FLAGS.values())
    n = small_novel()
    on = [e.flag(a) for a in names]
    for a, v in zip(names, on):
        setattr(n.scenes['1'], a, v)
    major = e.flag('major')
    n.characters['1'].isMajor = major
    part = e.choose('part', [0, 1])
    n.chapters['1'].chLevel = part
    p = e.path('p.yw7')
    save(p, n)
    root = ET.fromstring(e.get(p))
    s = root.find('SCENES')[0]
    for tag, v in zip(FLAGS, on):
        e.equal(text_of(s, tag), '-1' if v else None, f'flag element {tag}')
    e.equal(text_of(root.find('CHARACTERS')[0], 'Major'), '-1' if major else None, 'flag element Major')
    e.equal(text_of(root.find('CHAPTERS')[0], 'SectionStart'), '-1' if part else None, 'flag element SectionStart')


@harness(cases={'': {}})
def times(e):
    """Specific date and time elements win over day, hour and minute."""
    scene_times(e)
