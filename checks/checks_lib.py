"""Builders and oracles shared by the check modules (instrumented together with the code under test)."""
import os
from pywriter.model.novel import Novel
from pywriter.model.chapter import Chapter
from pywriter.model.scene import Scene
from pywriter.model.character import Character
from pywriter.model.world_element import WorldElement
from pywriter.model.basic_element import BasicElement
from pywriter.yw.yw7_file import Yw7File
from pywriter.pywriter_globals import Error

PROJECT_TEXT = ['title', 'desc', 'authorName', 'authorBio', 'fieldTitle1', 'fieldTitle2', 'fieldTitle3', 'fieldTitle4']
CHAPTER_TEXT = ['title', 'desc']
SCENE_TEXT = ['title', 'desc', 'sceneContent', 'notes', 'goal', 'conflict', 'outcome', 'image',
              'field1', 'field2', 'field3', 'field4', 'lastsDays', 'lastsHours', 'lastsMinutes']
CHARACTER_TEXT = ['title', 'desc', 'image', 'notes', 'aka', 'bio', 'goals', 'fullName']
WORLD_TEXT = ['title', 'desc', 'image', 'aka']
NOTE_TEXT = ['title', 'desc']

ENTITIES = {
    'project': PROJECT_TEXT, 'chapter': CHAPTER_TEXT, 'scene': SCENE_TEXT, 'character': CHARACTER_TEXT,
    'location': WORLD_TEXT, 'item': WORLD_TEXT, 'note': NOTE_TEXT,
}


def small_novel(content='Text'):
    """One element of every kind."""
    n = Novel()
    n.title = 'Project'
    n.desc = 'About'
    n.authorName = 'Author'
    n.languageCode = 'en'
    n.countryCode = 'US'
    add_chapter(n, '1', ['1'])
    add_scene(n, '1', content)
    n.characters['1'] = Character()
    n.characters['1'].title = 'Char'
    n.characters['1'].isMajor = False
    n.srtCharacters.append('1')
    n.locations['1'] = WorldElement()
    n.locations['1'].title = 'Loc'
    n.srtLocations.append('1')
    n.items['1'] = WorldElement()
    n.items['1'].title = 'Item'
    n.srtItems.append('1')
    n.projectNotes['1'] = BasicElement()
    n.projectNotes['1'].title = 'Note'
    n.srtPrjNotes.append('1')
    return n


def add_chapter(n, chId, scenes, title='Chapter', chLevel=0, chType=0):
    c = Chapter()
    c.title = title
    c.chLevel = chLevel
    c.chType = chType
    c.srtScenes = list(scenes)
    n.chapters[chId] = c
    n.srtChapters.append(chId)
    return c


def add_scene(n, scId, content='Text', title='Scene', scType=0):
    s = Scene()
    s.title = title
    s.sceneContent = content
    s.scType = scType
    s.status = 1
    n.scenes[scId] = s
    return s


def entity(n, kind, eid='1'):
    if kind == 'project':
        return n
    return {'chapter': n.chapters, 'scene': n.scenes, 'character': n.characters, 'location': n.locations,
            'item': n.items, 'note': n.projectNotes}[kind][eid]


def save(path, novel, tree_from=None):
    f = Yw7File(path)
    f.novel = novel
    if tree_from is not None:
        f.tree = tree_from.tree
    f.write()
    return f


def load(path):
    f = Yw7File(path)
    f.novel = Novel()
    f.read()
    return f


def none_empty(x):
    """Missing and empty are the same value."""
    return None if x == '' else x


def text_snapshot(n):
    """All text attributes of a novel, missing and empty identified."""
    out = []
    for kind in ENTITIES:
        if kind == 'project':
            ids = [None]
        else:
            ids = list({'chapter': n.chapters, 'scene': n.scenes, 'character': n.characters,
                        'location': n.locations, 'item': n.items, 'note': n.projectNotes}[kind])
        for eid in ids:
            e = n if kind == 'project' else entity(n, kind, eid)
            for a in ENTITIES[kind]:
                out.append([kind, eid, a, none_empty(getattr(e, a))])
    return out


def norm_eol(text):
    """Line breaks are normalised by XML."""
    return text.replace('\r\n', '\n').replace('\r', '\n')


def same_text(e, got, want, msg):
    """got is want with normalised line ends; one final line break may be missing."""
    want = norm_eol(want or '')
    got = got or ''
    if len(got) < len(want) and want.endswith('\n'):
        want = want[:-1]
    e.equal(got, want, msg)


# ---- conversions

EXPORTS = ['', '_proof', '_manuscript', '_brf_synopsis', '_scenes', '_chapters', '_parts', '_characters', '_items',
           '_locations', '_charlist', '_loclist', '_itemlist', '_scenelist', '_xref', '_notes', '_todo']
LISTS = ['_charlist', '_loclist', '_itemlist', '_scenelist']
IMPORTS = ['_proof', '_manuscript', '_scenes', '_chapters', '_parts', '_characters', '_items', '_locations', '_notes',
           '_todo', '_charlist', '_loclist', '_itemlist', '_scenelist']


def doc_name(base, suffix):
    return base + suffix + ('.ods' if suffix in LISTS else '.odt')


class RecUi:
    """User interface that records messages and answers questions with the given answers."""

    def __init__(self, answer=True):
        self.answer = answer
        self.questions = []
        self.how = []
        self.what = []
        self.warnings = []

    def ask_yes_no(self, text):
        self.questions.append(text)
        return self.answer

    def set_info_how(self, message):
        self.how.append(message)

    def set_info_what(self, message):
        self.what.append(message)

    def show_warning(self, message):
        self.warnings.append(message)

    def start(self):
        pass


def convert(path, suffix=None, answer=True, cls=None):
    """Run the universal converter; return (converter, user interface)."""
    from pywriter.converter.yw7_converter import Yw7Converter
    c = (cls or Yw7Converter)()
    c.ui = RecUi(answer)
    c.run(path, suffix=suffix)
    return c, c.ui


def files(e):
    """All files of the scratch directory with their content (zip archives unpacked)."""
    import zipfile
    out = {}
    for d, ds, fs in os.walk(e.dir):
        for f in fs:
            p = os.path.join(d, f)
            if zipfile.is_zipfile(p):
                out[os.path.relpath(p, e.dir)] = [[n, unzip(p, n)] for n in sorted(zipfile.ZipFile(p).namelist())]
            else:
                out[os.path.relpath(p, e.dir)] = e.get(p)
    return out


def unzip(path, name='content.xml'):
    """Text of a member of an ODF document."""
    import zipfile
    with zipfile.ZipFile(path) as z:
        return z.read(name).decode('utf-8', 'surrogateescape')


def rich_novel(content='Text'):
    """Project with two parts' worth of chapters of every type and elements to be exported by every document."""
    n = Novel()
    n.title = 'Project'
    n.desc = 'About'
    n.authorName = 'Author'
    n.languageCode = 'en'
    n.countryCode = 'US'
    add_chapter(n, '1', ['1'], 'Part one', chLevel=1)
    add_scene(n, '1', content, 'First')
    add_chapter(n, '2', ['2', '3'], 'Chapter two')
    add_scene(n, '2', 'Second scene text', 'Second')
    add_scene(n, '3', 'Third scene text', 'Third')
    add_chapter(n, '3', ['4'], 'Notes', chType=1)
    add_scene(n, '4', 'Notes text', 'Fourth', scType=1)
    add_chapter(n, '4', ['5'], 'Todo', chType=2)
    add_scene(n, '5', 'Todo text', 'Fifth', scType=2)
    add_chapter(n, '5', ['6'], 'Unused', chType=3)
    add_scene(n, '6', 'Unused text', 'Sixth', scType=3)
    for i in '12':
        n.characters[i] = Character()
        n.characters[i].title = 'Char ' + i
        n.characters[i].isMajor = i == '1'
        n.srtCharacters.append(i)
        for d, l, t in ((n.locations, n.srtLocations, 'Loc '), (n.items, n.srtItems, 'Item ')):
            d[i] = WorldElement()
            d[i].title = t + i
            l.append(i)
    for i in ('1', '2', '3'):
        n.scenes[i].desc = 'Description ' + i
        n.scenes[i].notes = 'Note ' + i
        n.scenes[i].tags = ['tag' + i]
        n.scenes[i].characters = ['1', '2']
        n.scenes[i].locations = ['1']
        n.scenes[i].items = ['2']
    for i in ('1', '2'):
        n.chapters[i].desc = 'Summary ' + i
    return n


def rezip(path, content, name='content.xml'):
    """Replace a member of an ODF document."""
    import zipfile
    with zipfile.ZipFile(path) as z:
        parts = [(n, z.read(n)) for n in z.namelist()]
    with zipfile.ZipFile(path, 'w') as z:
        for n, data in parts:
            z.writestr(n, content.encode('utf-8', 'surrogateescape') if n == name else data)


LONG = ' '.join([f'word{i}' for i in range(400)])      # longer than 3000 characters
LARGE_CHAPTERS = [  # identifier, level, type, number of scenes
    ('10', 1, 0, 1), ('3', 0, 0, 4), ('21', 0, 0, 2), ('4', 0, 3, 1), ('15', 0, 0, 12), ('2', 1, 0, 0), ('11', 0, 0, 1), ('30', 0, 1, 3),
    ('12', 0, 0, 1), ('8', 1, 0, 1), ('9', 0, 0, 1), ('31', 1, 1, 1), ('13', 0, 0, 1), ('14', 0, 2, 2), ('16', 0, 0, 3), ('5', 0, 3, 2),
    ('17', 0, 0, 1), ('1', 0, 0, 2)]


def large_novel(x='', where=()):
    """A project of realistic size: every text is set, some are long; x is part of the texts of the given kinds of elements."""
    n = Novel()

    def fill(kind, i, element, attrs):
        for a in attrs:
            t = f'{a} of {kind} {i}'
            if kind in where and a not in ('title', 'image', 'fullName') and not a.startswith(('last', 'field')):
                t += f', {x}.'
            if a in ('desc', 'bio', 'notes', 'sceneContent') and i in ('3', '12', '15', '75', '31'):
                t += f'\n\n{LONG}\nend'
            setattr(element, a, t)
    fill('project', '', n, PROJECT_TEXT)
    n.languageCode = 'en'
    n.countryCode = 'US'
    n.wordTarget = 90000
    n.wordCountStart = 12
    k = 0
    ids = [str((i * 37) % 101 + 1) for i in range(len(LARGE_CHAPTERS) * 4)]
    people = ['7', '12', '1', '10', '3', '25', '2', '11', '30', '4', '27', '5']
    for number, (chId, level, kind, scenes) in enumerate(LARGE_CHAPTERS):
        c = add_chapter(n, chId, ids[k:k + scenes], '', level, kind)
        fill('chapter', chId, c, CHAPTER_TEXT)
        for scId in ids[k:k + scenes]:
            s = add_scene(n, scId, '', '', kind)
            fill('scene', scId, s, SCENE_TEXT)
            s.status = k % 5 + 1
            s.field1, s.field2, s.field3, s.field4 = [str((k + i) % 10 + 1) for i in range(4)]
            s.lastsDays, s.lastsHours, s.lastsMinutes = str(k), str(k % 24), str(k % 60)
            s.isReactionScene = k % 3 == 1
            s.isSubPlot = k % 4 == 1
            s.appendToPrev = k % 7 == 3
            if k % 2:
                s.date, s.time = f'20{k + 10}-{k % 12 + 1:02}-{k % 28 + 1:02}', f'{k % 24:02}:{k % 60:02}:00'
            else:
                s.day, s.time = str(k), f'{k % 24:02}:{k % 60:02}:00'
            s.scnArcs = f'A{k};B'
            s.tags = [f'tag {i}' for i in range(k % 13)]
            s.characters = people[k % 12:] + people[:k % 5]
            s.locations = people[k % 11:][::-1]
            s.items = people[:k % 12]
            if len(s.characters) > 12:
                s.characters = people[:]
            k += 1
    for number, i in enumerate(people):
        c = n.characters[i] = Character()
        fill('character', i, c, CHARACTER_TEXT)
        c.isMajor = number % 3 == 1
        c.kwVar['Field_Link'] = f'link{i}'
        c.kwVar['Field_BirthDate'] = f'19{number + 10}-01-02'
        c.tags = [f'trait {j}' for j in range(number)]
        n.srtCharacters.append(i)
        for d, srt, kind in ((n.locations, n.srtLocations, 'location'), (n.items, n.srtItems, 'item')):
            w = d[i] = WorldElement()
            fill(kind, i, w, WORLD_TEXT)
            w.kwVar['Field_Link'] = f'{kind} link {i}'
            w.tags = [f'{kind} tag {j}' for j in range(number)]
            srt.append(i)
        p = n.projectNotes[i] = BasicElement()
        fill('note', i, p, NOTE_TEXT)
        n.srtPrjNotes.append(i)
    return n


def kept(variables):
    """Project variables that have a value."""
    return {k: variables[k] for k in variables if variables[k]}


def everything_of(n):
    """All data of a project that its file contains, each attribute as an own entry; missing and empty are the same."""
    out = text_snapshot(n)
    out.append(['project', n.languageCode, n.countryCode, n.languages, kept(n.kwVar)])
    out.append(['project', n.wordTarget, n.wordCountStart])
    out.append(['lists', list(n.srtChapters), list(n.srtCharacters), list(n.srtLocations), list(n.srtItems), list(n.srtPrjNotes)])
    for c in n.srtChapters:
        x = n.chapters[c]
        out.append(['chapter', c, x.chLevel, x.chType, bool(x.suppressChapterTitle), list(x.srtScenes), kept(x.kwVar)])
    for i in n.scenes:
        s = n.scenes[i]
        for a in ('scType', 'status', 'date', 'time', 'day', 'wordCount', 'letterCount'):
            out.append(['scene', i, a, none_empty(getattr(s, a))])
        for a in ('doNotExport', 'appendToPrev', 'isReactionScene', 'isSubPlot'):
            out.append(['scene', i, a, bool(getattr(s, a))])
        for a in ('tags', 'characters', 'locations', 'items'):
            out.append(['scene', i, a, list(getattr(s, a) or [])])
        out.append(['scene', i, 'arcs', none_empty(s.scnArcs), s.scnMode or None])
    for kind, d in (('character', n.characters), ('location', n.locations), ('item', n.items)):
        for i in d:
            out.append([kind, i, 'tags', list(d[i].tags or [])])
            if kind == 'character':
                out.append([kind, i, 'isMajor', bool(d[i].isMajor)])
            out.append([kind, i, 'kwVar', kept(d[i].kwVar)])
    return out


def ywriter_file(t='x'):
    """A project file as yWriter writes it, with all it has, or (t is None) with the least."""
    full = t is not None

    def el(tag, text):
        return f'<{tag}>{text}</{tag}>'

    def cd(tag, text):
        return f'<{tag}><![CDATA[{text}]]></{tag}>' if full else ''
    out = ['<YWRITER7><PROJECT>']
    if full:
        out.append(el('Ver', '7') + cd('Title', 'P') + cd('AuthorName', 'A') + cd('Desc', 'D') + cd('Bio', 'B') + cd('FieldTitle1', 'F') + el('WordTarget', '0')
                   + el('WordCountStart', '0') + el('LastFullBackup', '2022-01-01') + cd('LaTeXHeaderFile', 'x') + el('SavedWith', '7.1') + el('SavedOn', '2022')
                   + '<Fields>' + el('Field_LanguageCode', 'en') + el('Field_Mine', '1') + '</Fields>')
    out.append('</PROJECT>')
    for section, kind in (('LOCATIONS', 'LOCATION'), ('ITEMS', 'ITEM'), ('CHARACTERS', 'CHARACTER')):
        out.append(f'<{section}>')
        for i in ('1', '3') if full else ():
            out.append(f'<{kind}>' + el('ID', i) + cd('Title', kind + i) + el('Desc', t) + cd('Tags', 'a;b') + cd('ImageFile', 'i.png') + el('SortOrder', i) + cd('AKA', 'aka'))
            if kind == 'CHARACTER':
                out.append(cd('Notes', 'n') + cd('Bio', 'b') + cd('Goals', 'g') + cd('FullName', 'f') + (el('Major', '-1') if i == '1' else ''))
            out.append(('<Fields>' + el('Field_Link', 'l') + '</Fields>' if i == '1' else '') + f'</{kind}>')
        out.append(f'</{section}>')
    if full:
        out.append('<PROJECTNOTES><PROJECTNOTE>' + el('ID', '1') + cd('Title', 'N') + cd('Desc', 'D') + el('SortOrder', '1') + '</PROJECTNOTE></PROJECTNOTES>')
        out.append('<PROJECTVARS>')
        for i, (title, desc) in enumerate((('Language', 'en'), ('Country', 'US'), ('lang=de-DE', '<HTM <SPAN LANG="de-DE"> /HTM>'), ('/lang=de-DE', '<HTM </SPAN> /HTM>'), ('Mine', 'm'))):
            out.append('<PROJECTVAR>' + el('ID', 2 * i + 1) + cd('Title', title) + cd('Desc', desc) + '</PROJECTVAR>')
        out.append('</PROJECTVARS>')
    out.append('<SCENES>')
    for i in ('1', '2', '3', '4') if full else ('1',):
        out.append('<SCENE>' + el('ID', i) + cd('Title', 'S' + i) + cd('SceneContent', 'Text [lang=de-DE]a[/lang=de-DE]'))
        if full and i in '12':
            out.append(cd('Desc', 'd') + cd('Tags', 'x;y') + cd('ImageFile', 'i.png') + cd('Notes', 'n') + '<Fields>' + el('Field_SceneType', '1' if i == '2' else '0')
                       + cd('Field_SceneArcs', 'A') + el('Field_SceneMode', '1') + el('Field_Mine', '1') + '</Fields>' + el('BelongsToChID', '1') + el('Status', '2')
                       + el('LastsDays', '1') + el('LastsHours', '2') + el('LastsMinutes', '3') + el('Field1', '1') + el('Field2', '2') + el('Field3', '3') + el('Field4', '4')
                       + el('WordCount', '17') + el('LetterCount', '18') + cd('RTFFile', 'RTF/1.rtf') + cd('Goal', 'g') + el('Conflict', 'c') + cd('Outcome', 'o'))
            if i == '1':
                out.append('<ExportCondSpecific/>' + el('ExportWhenRTF', '-1') + el('ReactionScene', '-1') + el('SubPlot', '-1') + el('AppendToPrev', '-1')
                           + el('SpecificDateTime', '2020-01-01 10:20:30') + el('SpecificDateMode', '-1'))
            else:
                out.append(el('Unused', '-1') + '<ExportCondSpecific/>' + el('Day', '3') + el('Hour', '4') + el('Minute', '5'))
            out.append('<Characters>' + el('CharID', '3') + el('CharID', '1') + '</Characters><Locations>' + el('LocID', '1') + '</Locations><Items>' + el('ItemID', '3') + '</Items>')
        elif i == '3':
            out.append('<Characters/><Locations/><Items/><Fields/>' + el('Status', '1'))
        elif full:
            out.append(el('Status', '1'))
        out.append('</SCENE>')
    out.append('</SCENES><CHAPTERS>')
    if full:
        out.append('<CHAPTER>' + el('ID', '1') + cd('Title', 'C1') + cd('Desc', 'd') + el('SortOrder', '1')
                   + '<Fields>' + el('Field_SuppressChapterTitle', '1') + el('Field_SuppressChapterBreak', '0') + el('Field_IsTrash', '1') + '</Fields>' + el('SectionStart', '-1') + el('Type', '0')
                   + el('ChapterType', '0') + '<Scenes>' + el('ScID', '2') + el('ScID', '1') + '</Scenes></CHAPTER>')
        out.append('<CHAPTER>' + el('ID', '2') + cd('Title', 'C2') + el('Unused', '-1') + el('SortOrder', '2') + '<Fields/>' + el('Type', '1')
                   + el('ChapterType', '2') + '<Scenes>' + el('ScID', '3') + '</Scenes></CHAPTER>')
    out.append('<CHAPTER>' + el('ID', '7') + cd('Title', 'C7') + el('Type', '0') + '<Scenes>' + el('ScID', '4' if full else '1') + '</Scenes></CHAPTER>')
    out.append('</CHAPTERS></YWRITER7>')
    return '<?xml version="1.0" encoding="utf-8"?>\n' + ''.join(out)


def scene_times(e):
    """The start of a scene is read as yWriter wrote it and survives saving: specific date and time elements win over day, hour and minute."""
    day, hour, minute = [e.choose(x, [None, 1, 2]) for x in ('day', 'hour', 'minute')]
    d = e.text('d', 2, 'digit')
    x = ''
    if day is not None:
        x += f'<Day>{d[:day]}</Day>'
    if hour is not None:
        x += '<Hour>' + ('7' if hour == 1 else '1' + d[0]) + '</Hour>'
    if minute is not None:
        x += '<Minute>' + (d[1] if minute == 1 else '4' + d[1]) + '</Minute>'
    specific = e.flag('specific')
    if specific:
        x += '<SpecificDateTime>2001-02-03 14:3' + d[0] + ':00</SpecificDateTime><SpecificDateMode>-1</SpecificDateMode>'
    p = e.path('p.yw7')
    e.put(p, '<YWRITER7><PROJECT><Title>P</Title></PROJECT><LOCATIONS/><ITEMS/><CHARACTERS/><PROJECTNOTES/>'
             f'<SCENES><SCENE><ID>1</ID><Title>S</Title>{x}<Status>1</Status></SCENE></SCENES>'
             '<CHAPTERS><CHAPTER><ID>1</ID><Title>C</Title><Scenes><ScID>1</ScID></Scenes></CHAPTER></CHAPTERS></YWRITER7>')
    f = load(p)
    for i in range(2):
        s = f.novel.scenes['1']
        how = ' after saving' if i else ''
        if specific:
            e.equal([s.date, s.time, s.day], ['2001-02-03', f'14:3{d[0]}:00', None], 'specific scene start' + how)
        else:
            h = '00' if hour is None else '07' if hour == 1 else '1' + d[0]
            m = '00' if minute is None else '0' + d[1] if minute == 1 else '4' + d[1]
            e.equal([s.date, s.time], [None, None if hour is None and minute is None else f'{h}:{m}:00'], 'unspecific scene start' + how)
            e.equal(s.day, None if day is None else d[:day], 'day of the scene' + how)
        f.write()
        f = load(p)
