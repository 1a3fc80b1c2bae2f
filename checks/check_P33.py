"""P33: project files have the structure of a yWriter 7 project, whatever was done to the project."""
import re
import xml.etree.ElementTree as ET
from engine.env import harness, minus, chars
from checks_lib import *
from prose import edit as edit_span, esc
from pywriter.yw.yw7_purge import reset_custom_variables, remove_language_tags

BOUNDS = ('each of 43 text attributes missing, empty or with an arbitrary character, then changed to any of these; all flags, types, levels, dates, durations and marks of a scene and '
          'a chapter before and after a change; all numbers (up to two) of chapters, scenes, characters, locations, items, notes and languages before and after; files as yWriter writes them, '
          'with all data it knows, edited in two of 15 ways one after the other; all 14 imports of edited documents, lists with up to three rows that are left out, repeated or new; new projects from documents of up to three blocks of any kind; '
          'a project with 18 chapters, 35 scenes and 12 elements of each kind')
ASSUMPTIONS = ['every scene belongs to one chapter in the project that is saved',
               'documents do not contain identifiers of scenes that are not in the project',
               'the order of the data of a scene and of the sections is not fixed (yWriter accepts any)',
               'the texts of `Conflict` elements are not CDATA (the project\'s own reference files have them so)']

SECTIONS = {'LOCATIONS': 'LOCATION', 'ITEMS': 'ITEM', 'CHARACTERS': 'CHARACTER', 'PROJECTNOTES': 'PROJECTNOTE', 'PROJECTVARS': 'PROJECTVAR', 'SCENES': 'SCENE',
            'CHAPTERS': 'CHAPTER'}
WORLD = ['ID', 'Title', 'Desc', 'Tags', 'ImageFile', 'AKA', 'Fields']
ALLOWED = {
    'PROJECT': ['Ver', 'Title', 'AuthorName', 'Desc', 'Bio', 'FieldTitle1', 'FieldTitle2', 'FieldTitle3', 'FieldTitle4', 'WordTarget', 'WordCountStart', 'Fields',
                'LastFullBackup', 'WordTargetStartDate', 'EndFrontMatterChID', 'LaTeXHeaderFile', 'LastViewedScID'],
    'LOCATION': WORLD, 'ITEM': WORLD,
    'CHARACTER': WORLD + ['Notes', 'Bio', 'Goals', 'FullName', 'Major'],
    'PROJECTNOTE': ['ID', 'Title', 'Desc', 'Fields'],
    'PROJECTVAR': ['ID', 'Title', 'Desc', 'Tags'],
    'SCENE': ['ID', 'Title', 'Desc', 'Tags', 'ImageFile', 'Notes', 'Unused', 'Fields', 'Minute', 'Hour', 'Day', 'SpecificDateMode', 'SpecificDateTime', 'LastsMinutes', 'LastsHours',
              'LastsDays', 'Field1', 'Field2', 'Field3', 'Field4', 'Status', 'Characters', 'Locations', 'Items', 'SceneContent', 'ExportCondSpecific', 'ExportWhenRTF', 'AppendToPrev',
              'ReactionScene', 'SubPlot', 'Goal', 'Conflict', 'Outcome'],
    'CHAPTER': ['ID', 'Title', 'Desc', 'Unused', 'Fields', 'SectionStart', 'Type', 'ChapterType', 'Scenes'],
}
REFERENCES = {'Characters': ('CharID', 'CHARACTERS'), 'Locations': ('LocID', 'LOCATIONS'), 'Items': ('ItemID', 'ITEMS')}
CDATA = ['Title', 'AuthorName', 'Bio', 'Desc', 'FieldTitle1', 'FieldTitle2', 'FieldTitle3', 'FieldTitle4', 'LaTeXHeaderFile', 'Tags', 'AKA', 'ImageFile', 'FullName', 'Goals', 'Notes',
         'SceneContent', 'Outcome', 'Goal', 'Field_SceneArcs']
HEADER = '<?xml version="1.0" encoding="utf-8"?>\n'


def repeated(xs):
    return [x for i, x in enumerate(xs) if x in xs[:i]]


def structure(e, path):
    """The file is a yWriter 7 project."""
    raw = e.get(path)
    e.check(raw.startswith(HEADER + '<YWRITER7>'), 'header and root')
    root = ET.fromstring(raw[len(HEADER):])
    tags = [x.tag for x in root]
    e.equal(repeated(tags), [], 'repeated sections')
    e.equal([t for t in ('PROJECT', 'LOCATIONS', 'ITEMS', 'CHARACTERS', 'SCENES', 'CHAPTERS') if t not in tags], [], 'missing sections')
    e.equal([t for t in tags if t != 'PROJECT' and t not in SECTIONS], [], 'other sections')
    ids = {}
    for section in root:
        kind = SECTIONS.get(section.tag)
        if kind:
            ids[section.tag] = [x.findtext('ID') for x in section]
            e.equal([x.tag for x in section], [kind] * len(section), f'elements of {section.tag}')
            e.equal([[x.tag for x in y][:1] for y in section], [['ID']] * len(section), f'identifiers of {section.tag}')
            e.equal([i for i in ids[section.tag] if not i or not i.isdigit()], [], f'wrong identifiers in {section.tag}')
            e.equal(repeated(ids[section.tag]), [], f'repeated identifiers in {section.tag}')
            elements = section
        else:
            kind = 'PROJECT'
            elements = [section]
        for y in elements:
            names = [x.tag for x in y]
            e.equal(repeated(names), [], f'repeated data of {kind}')
            e.equal([x for x in names if x not in ALLOWED[kind]], [], f'unknown data of {kind}')
            if y.find('Fields') is not None:
                e.equal(repeated([x.tag for x in y.find('Fields')]), [], f'repeated fields of {kind}')
            if kind not in ('PROJECT', 'PROJECTVAR'):
                e.equal([x.tag for x in y if len(x) and x.tag not in ('Fields', 'Scenes') and x.tag not in REFERENCES], [], f'nested data of {kind}')
    if 'PROJECTVARS' in ids:
        e.equal(repeated([x.findtext('Title') for x in root.find('PROJECTVARS')]), [], 'repeated variables')
    e.equal([len(root.find(s)) for s in ('PROJECTNOTES',) if s in ids], [len(ids[s]) for s in ('PROJECTNOTES',) if s in ids], 'notes')
    placed = []
    for c in root.find('CHAPTERS'):
        e.equal([c.findtext('Type') is None, c.findtext('ChapterType') is None], [False, False], 'type of chapter')
        if c.find('Scenes') is not None:
            e.equal([x.tag for x in c.find('Scenes')], ['ScID'] * len(c.find('Scenes')), 'scenes of chapter')
            placed += [x.text for x in c.find('Scenes')]
    e.equal(repeated(placed), [], 'scenes in several chapters')
    e.equal([sorted(set(placed)), len(ids['SCENES'])], [sorted(set(ids['SCENES'])), len(placed)], 'scenes of the chapters')
    for s in root.find('SCENES'):
        e.check(s.find('SceneContent') is not None, 'content of scene')
        for name in REFERENCES:
            x = s.find(name)
            if x is not None:
                tag, section = REFERENCES[name]
                refs = [y.text for y in x]
                e.equal([y.tag for y in x], [tag] * len(refs), f'{name} of scene')
                e.equal(repeated(refs), [], f'repeated {name} of scene')
                e.equal([y for y in refs if y not in ids[section]], [], f'missing {name}')
    for t in CDATA:
        e.equal(raw.count(f'<{t}>'), raw.count(f'<{t}><![CDATA['), f'texts of {t} in CDATA sections')
    if not ids['CHAPTERS']:
        e.check('<CHAPTERS />' not in raw and '<CHAPTERS/>' not in raw, 'empty chapter list')
    return root


CHAPTER_ORDER = ['ID', 'Title', 'Desc', 'Unused', 'Fields', 'SectionStart', 'Type', 'ChapterType', 'Scenes']


def in_order(e, root):
    """Chapters have their data in the order of yWriter."""
    for c in root.find('CHAPTERS'):
        names = [x.tag for x in c]
        e.equal(names, [x for x in CHAPTER_ORDER if x in names], 'order of chapter data')


VALUES = ['missing', 'empty', 'text']


def value(e, name, which):
    return {'missing': None, 'empty': ''}.get(which) if which != 'text' else e.char(name, 'xml')


@harness(cases={f'{k}.{a}': {'kind': k, 'attr': a} for k in ENTITIES for a in ENTITIES[k]})
def texts(e, kind, attr):
    """A text is missing, empty or anything, and becomes missing, empty or anything."""
    n = rich_novel()
    n.projectNotes['1'] = BasicElement()
    n.srtPrjNotes.append('1')
    a = e.choose('first', VALUES[1:] if attr == 'sceneContent' else VALUES)
    setattr(entity(n, kind), attr, value(e, 'a', a))
    p = e.path('p.yw7')
    save(p, n)
    in_order(e, structure(e, p))
    f = load(p)
    b = e.choose('then', VALUES[1:] if attr == 'sceneContent' else VALUES)
    setattr(entity(f.novel, kind), attr, value(e, 'b', b))
    f.write()
    in_order(e, structure(e, p))


def scene_state(e, s, i):
    """Any flags and dates."""
    how = e.choose(f'when{i}', ['', 'date', 'day', 'time', 'none'])
    if how == 'date':
        s.date, s.time, s.day = '2020-01-01', '10:20:30', None
    elif how == 'day':
        s.date, s.time, s.day = None, '10:20:30', '12'
    elif how == 'time':
        s.date, s.time, s.day = None, '10:20:30', None
    elif how == 'none':
        s.date = s.time = s.day = ''
    on = e.choose(f'flags{i}', ['none', 'all', 'off'])
    if on != 'none':
        s.isReactionScene = s.isSubPlot = s.appendToPrev = s.doNotExport = on == 'all'
        s.lastsDays = s.lastsHours = s.lastsMinutes = '3' if on == 'all' else ''
        s.tags = ['a', 'b'] if on == 'all' else []
        s.scnArcs, s.scnMode = ('A;B', 2) if on == 'all' else ('', 0)
        s.kwVar['Field_SceneArcs'] = s.scnArcs
        s.kwVar['Field_SceneMode'] = '2' if on == 'all' else ''
        s.characters, s.locations, s.items = (['2', '1'], ['1'], ['2', '1']) if on == 'all' else ([], [], [])
        s.field1 = s.field2 = s.field3 = s.field4 = '7' if on == 'all' else ''
        s.status = 5 if on == 'all' else 1


@harness(cases={str(t): {'t': t} for t in range(4)})
def scenes(e, t):
    """Types, flags, dates and lists of a scene before and after a change."""
    n = rich_novel()
    s = n.scenes['2']
    s.scType = t
    scene_state(e, s, 1)
    p = e.path('p.yw7')
    save(p, n)
    structure(e, p)
    f = load(p)
    f.novel.scenes['2'].scType = e.choose('type', range(4))
    scene_state(e, f.novel.scenes['2'], 2)
    f.write()
    structure(e, p)


@harness(cases={f'{t},{v}': {'t': t, 'level': v} for t in range(4) for v in (0, 1)})
def chapters(e, t, level):
    """Types, levels and flags of a chapter before and after a change."""
    n = rich_novel()
    c = n.chapters['2']
    c.chType, c.chLevel = t, level
    x = e.choose('flags', ['none', 'title', 'break', 'trash', 'all'])
    c.suppressChapterTitle, c.suppressChapterBreak, c.isTrash = x in ('title', 'all'), x in ('break', 'all'), x in ('trash', 'all')
    if e.flag('empty'):
        n.chapters['1'].srtScenes, c.srtScenes = n.chapters['1'].srtScenes + c.srtScenes, []
    c.desc = {'none': '', 'all': 'About', 'break': ''}.get(x)
    p = e.path('p.yw7')
    save(p, n)
    in_order(e, structure(e, p))
    f = load(p)
    c = f.novel.chapters['2']
    c.chType, c.chLevel = e.choose('type', range(4)), e.choose('level', [0, 1])
    x = e.choose('then', ['none', 'title', 'break', 'trash', 'all'])
    c.suppressChapterTitle, c.suppressChapterBreak, c.isTrash = x in ('title', 'all'), x in ('break', 'all'), x in ('trash', 'all')
    f.write()
    in_order(e, structure(e, p))


def members(n, chs, counts, languages):
    """Have exactly this many elements."""
    for d, srt, cls, k in zip((n.characters, n.locations, n.items, n.projectNotes), (n.srtCharacters, n.srtLocations, n.srtItems, n.srtPrjNotes),
                              (Character, WorldElement, WorldElement, BasicElement), counts):
        while len(srt) > k:
            del d[srt.pop(0)]
        while len(srt) < k:
            i = str(len(srt) + 1) if str(len(srt) + 1) not in srt else str(len(srt) + 2)
            d[i] = cls()
            d[i].title = 'E' + i
            srt.append(i)
    n.chapters, n.scenes, n.srtChapters = {}, {}, []
    for i, k in enumerate(chs):
        ids = [f'{i}{j}' for j in range(k)]
        add_chapter(n, str(i + 1), ids)
        for j in ids:
            add_scene(n, j).characters = n.srtCharacters[:1]
            n.scenes[j].locations = list(n.srtLocations)
    n.languages = languages
    if not chs:
        n.scenes = {}


CHS = [[], [0], [1], [2, 0], [1, 1]]
COUNTS = [[0, 0, 0, 0], [1, 1, 1, 1], [2, 0, 1, 2], [0, 2, 2, 0]]
LANGS = [None, ['de-DE'], ['fr-FR', 'de-DE']]


@harness(cases={str(i): {'i': i} for i in range(len(CHS))})
def numbers(e, i):
    """Any number of elements, then any other number."""
    n = small_novel()
    a = e.choose('counts', range(len(COUNTS)))
    members(n, CHS[i], COUNTS[a], LANGS[a % 3])
    if e.flag('no locale'):
        n.languageCode = n.countryCode = None
    p = e.path('p.yw7')
    save(p, n)
    structure(e, p)
    f = load(p)
    members(f.novel, e.choose('chapters', CHS), e.choose('then', COUNTS), e.choose('more', LANGS[1:]))
    f.write()
    structure(e, p)
    f = load(p)
    f.write()
    structure(e, p)


# ---- files written by yWriter

def any_text(e):
    return esc(e.char('t', minus('xml', '\r\n\t <>]&')))


def remove_scene(n, i):
    for c in n.chapters.values():
        if i in c.srtScenes:
            c.srtScenes.remove(i)
    if i in n.scenes:
        del n.scenes[i]


def new_id(ids):
    from pywriter.model.id_generator import create_id
    return create_id(ids)


def change(n, how):
    """One way of editing a project."""
    scs, chs = list(n.scenes), list(n.srtChapters)
    s, c = n.scenes[scs[0]] if scs else None, n.chapters[chs[0]]
    if how == 'texts':
        for kind in ENTITIES:
            x = {'project': [n], 'scene': list(n.scenes.values()), 'chapter': list(n.chapters.values()), 'character': list(n.characters.values()),
                 'location': list(n.locations.values()), 'item': list(n.items.values()), 'note': list(n.projectNotes.values())}[kind]
            for y in x:
                for a in ENTITIES[kind]:
                    setattr(y, a, '5')
    elif how == 'no texts':
        for y in [n] + list(n.scenes.values()) + list(n.chapters.values()) + list(n.characters.values()):
            y.title = y.desc = ''
    elif how == 'types':
        for i, y in enumerate(n.scenes.values()):
            y.scType = (y.scType + 1 + i) % 4
        for i, y in enumerate(n.chapters.values()):
            y.chType, y.chLevel = (y.chType + 1 + i) % 4, 1 - y.chLevel
    elif how == 'flags':
        for y in n.scenes.values():
            for a in ('isReactionScene', 'isSubPlot', 'appendToPrev', 'doNotExport'):
                setattr(y, a, not getattr(y, a))
        for i, y in enumerate(n.chapters.values()):
            for a in ('suppressChapterTitle', 'suppressChapterBreak', 'isTrash') if i != 1 else ('suppressChapterBreak',):
                setattr(y, a, not getattr(y, a))
    elif how == 'dates':
        for y in n.scenes.values():
            if y.date:
                y.date, y.time, y.day = None, '01:02:03', '4'
            else:
                y.date, y.time, y.day = '2023-02-03', '04:05:06', None
            y.lastsDays, y.lastsHours, y.lastsMinutes = '4', '5', '6'
    elif how == 'no dates':
        for y in n.scenes.values():
            y.date = y.time = y.day = y.lastsDays = y.lastsHours = y.lastsMinutes = ''
    elif how == 'order':
        n.srtChapters.reverse()
        n.srtCharacters.reverse()
        n.srtLocations.reverse()
        c.srtScenes.reverse()
        n.srtItems.reverse()
    elif how == 'move':
        d = n.chapters[chs[-1]]
        if d is not c:
            c.srtScenes, d.srtScenes = [], c.srtScenes + d.srtScenes
    elif how == 'add':
        i, j = new_id(n.scenes), new_id(n.srtChapters)
        add_scene(n, i).tags = ['new']
        add_chapter(n, j, [i], chLevel=1)
        for d, srt, cls in ((n.characters, n.srtCharacters, Character), (n.locations, n.srtLocations, WorldElement), (n.items, n.srtItems, WorldElement),
                            (n.projectNotes, n.srtPrjNotes, BasicElement)):
            k = new_id(srt)
            d[k] = cls()
            d[k].title = 'New'
            srt.append(k)
        n.scenes[i].characters, n.scenes[i].items = list(n.srtCharacters), list(n.srtItems)
    elif how == 'remove':
        for i in chs[:-1]:
            for k in list(n.chapters[i].srtScenes):
                remove_scene(n, k)
            n.srtChapters.remove(i)
            del n.chapters[i]
        for y in n.scenes.values():
            y.characters = y.locations = y.items = []
        for d, srt in ((n.characters, n.srtCharacters), (n.locations, n.srtLocations), (n.items, n.srtItems), (n.projectNotes, n.srtPrjNotes)):
            for i in srt[:1]:
                srt.remove(i)
                del d[i]
    elif how == 'languages':
        n.languages = ['de-DE', 'fr-FR', 'it-IT']
        n.languageCode, n.countryCode = 'de', 'AT'
    elif how == 'fields':
        for y in [n] + list(n.scenes.values()) + list(n.characters.values()) + list(n.locations.values()) + list(n.items.values()):
            for k in list(y.kwVar):
                y.kwVar[k] = '1'
        for y in n.scenes.values():
            y.scnArcs, y.scnMode, y.tags = 'A;B', 3, ['n', 'm']
            y.kwVar['Field_SceneArcs'], y.kwVar['Field_SceneMode'] = 'A;B', '3'
    elif how == 'no relations':
        for y in n.scenes.values():
            y.characters, y.locations, y.items, y.tags = [], [], [], []
    elif how == 'counts':
        n.wordTarget, n.wordCountStart = 100, 5


EDITS = ['none', 'texts', 'no texts', 'types', 'flags', 'dates', 'no dates', 'order', 'move', 'add', 'remove', 'languages', 'fields', 'no relations', 'counts']


@harness(cases={f'{k},{h}': {'k': k, 'first': h} for k in ('full', 'least') for h in EDITS})
def edited(e, k, first):
    """A file of yWriter is edited twice and saved twice."""
    p = e.path('p.yw7')
    e.put(p, ywriter_file(any_text(e) if k == 'full' else None))
    f = load(p)
    change(f.novel, first)
    f.write()
    structure(e, p)
    if e.flag('again'):
        f = load(p)
    change(f.novel, e.choose('then', EDITS))
    f.write()
    structure(e, p)


@harness(cases={h: {'first': h} for h in EDITS})
def purged(e, first):
    """Own data are removed after an edit."""
    p = e.path('p.yw7')
    e.put(p, ywriter_file(any_text(e)))
    f = load(p)
    change(f.novel, first)
    f.write()
    f = load(p)
    if e.flag('fields'):
        reset_custom_variables(f)
    if e.flag('marks'):
        remove_language_tags(f.novel)
    f.write()
    structure(e, p)


SPLIT = ['_manuscript', '_proof']


@harness(cases={s: {'suffix': s} for s in IMPORTS})
def imported(e, suffix):
    """A document of a file of yWriter is edited and imported."""
    p = e.path('p.yw7')
    e.put(p, ywriter_file(any_text(e)))
    f = load(p)
    n = f.novel
    t = {'_notes': 1, '_todo': 2}.get(suffix)
    if t:
        for c in n.chapters.values():
            c.chType = t
        for s in n.scenes.values():
            s.scType = t
    for s in n.scenes.values():
        s.sceneContent = 'QxxZ'
        s.desc = 'QxxZ'
        s.notes = 'QxxZ'
        s.field1 = s.field2 = s.field3 = s.field4 = '1'
    for x in list(n.characters.values()) + list(n.locations.values()) + list(n.items.values()) + list(n.chapters.values()):
        x.desc = x.bio = x.aka = x.notes = 'QxxZ'
    first = n.chapters[n.srtChapters[0]]
    if suffix == '_parts':
        first.chLevel = 1
    f.write()
    c, ui = convert(p, suffix)
    d = c.newFile
    doc = unzip(d)
    how = e.choose('how', ['text', 'empty'] + (['divider', 'chapter', 'part', 'many'] if suffix in ('_manuscript', '_notes', '_todo') else []))
    e.check('QxxZ' in doc, 'text to edit')
    new = {'text': esc(e.char('x', minus('line', ' #*[]/~>|'))), 'empty': ''}.get(how)
    if new is None:
        lines = {'divider': ['### A', 'b'], 'chapter': ['## B', 'c', '###', 'd'], 'part': ['# C|about', 'e', '## D', 'f'], 'many': ['', '### ', 'g', '# ', 'h', '###', 'i', '## ', 'j']}[how]
        new = 'a' + ''.join(['</text:p><text:p text:style-name="Text_20_body">' + x for x in lines])
    rezip(d, doc.replace('QxxZ', new))
    c, ui = convert(d)
    e.equal(ui.how, [f'File written: "{p}".'], 'message')
    structure(e, p)
    if e.flag('again'):
        f = load(p)
        change(f.novel, e.choose('edit', EDITS[:8]))
        f.write()
        structure(e, p)


BLOCKS = {'part': '<text:h text:style-name="Heading_20_1" text:outline-level="1">{}</text:h>', 'chapter': '<text:h text:style-name="Heading_20_2" text:outline-level="2">{}</text:h>',
          'scene': '<text:h text:style-name="Heading_20_3" text:outline-level="3">{}</text:h>', 'text': '<text:p text:style-name="Text_20_body">{}</text:p>',
          'divider': '<text:p text:style-name="Text_20_body">* * *</text:p><text:p text:style-name="Text_20_body">{}</text:p>',
          'language': '<text:p text:style-name="Text_20_body"><text:span text:style-name="T1">{}</text:span></text:p>'}
LANGUAGE = '<style:style style:name="T1" style:family="text"><style:text-properties fo:language="de" fo:country="DE"/></style:style>'


@harness(cases={s: {'suffix': s} for s in ('_charlist', '_loclist', '_itemlist', '_scenelist')})
def imported_rows(e, suffix):
    """A table with rows left out, repeated or new is imported."""
    prefix = {'_charlist': 'CrID:', '_loclist': 'LcID:', '_itemlist': 'ItID:', '_scenelist': 'ScID:'}[suffix]
    p = e.path('p.yw7')
    e.put(p, ywriter_file(any_text(e)))
    c, ui = convert(p, suffix)
    d = c.newFile
    doc = unzip(d)
    rows = {}
    for r in re.findall('<table:table-row.*?</table:table-row>', doc, flags=re.S):
        m = re.search(prefix + '([0-9]+)', r)
        if m:
            rows[m.group(1)] = r
    e.check(len(rows) > 1, 'rows')
    a = doc.index(rows[list(rows)[0]])
    z = doc.index(rows[list(rows)[-1]]) + len(rows[list(rows)[-1]])
    ids = list(rows)[:3]
    if suffix != '_scenelist':
        rows['97'] = rows[ids[0]].replace(prefix + ids[0], prefix + '97')
        ids.append('97')
    new = [rows[i] for i in [e.choose(f'row{k}', ids + ['']) for k in range(3)] if i]
    rezip(d, doc[:a] + ''.join(new) + doc[z:])
    c, ui = convert(d)
    e.equal(ui.how, [f'File written: "{p}".'], 'message')
    structure(e, p)
    f = load(p)
    change(f.novel, 'texts')
    f.write()
    structure(e, p)


@harness(cases={f'{b},{k}': {'second': b, 'k': k} for b in BLOCKS for k in (1, 2, 3)})
def created(e, second, k):
    """A new project from a work in progress or an outline."""
    n = small_novel()
    p = e.path('q.yw7')
    save(p, n)
    c, ui = convert(p, '')
    d = e.path('p.odt')
    os.replace(c.newFile, d)
    doc = unzip(d)
    a, b = doc.index('<text:p text:style-name="Title"'), doc.index('</office:text>')
    body = ''
    t = esc(e.char('t', minus('line', ' #*[]/~>|')))
    for i in range(k + 1):
        x = 'chapter' if i == 0 and e.flag('heading') else second if i == 1 else e.choose(f'b{i}', list(BLOCKS)) if i else 'part'
        body += BLOCKS[x].format('a' + t if i == k else f'Text {i}')
    doc = doc[:a] + body + doc[b:]
    i = doc.index('</office:automatic-styles>') if '</office:automatic-styles>' in doc else None
    if i is not None:
        doc = doc[:i] + LANGUAGE + doc[i:]
    rezip(d, doc)
    c, ui = convert(d)
    p = e.path('p.yw7')
    if ui.how == [f'File written: "{p}".']:
        in_order(e, structure(e, p))
    else:
        e.excluded()
    f = load(p)
    f.write()
    structure(e, p)


@harness(cases={h: {'how': h} for h in ('texts', 'types', 'add')}, thorough={h: {'how': h} for h in EDITS if h not in ('texts', 'types', 'add')})
def large(e, how):
    """A large project, written, read and edited."""
    n = large_novel(e.char('t', 'lower'), list(ENTITIES))
    p = e.path('p.yw7')
    save(p, n)
    in_order(e, structure(e, p))
    f = load(p)
    change(f.novel, how)
    f.write()
    structure(e, p)
