"""P15: words and letters are counted, and scenes numbered, as in the word processor; template placeholders show the data."""
from engine.env import harness, minus, chars
from engine import iset
from checks_lib import *
from pywriter.file.file_export import FileExport
from check_P14 import plain, TABLE
import xml.etree.ElementTree as ET

BOUNDS = ('texts of up to four (thorough: six) arbitrary characters, alone and next to markup, comments, dashes and quotations; two chapters with three '
          'scenes of any type and marks; every placeholder with arbitrary characters, missing values and any date, time and duration'
          '; a project with 18 chapters, 35 scenes and 12 elements of each kind, long texts')
ASSUMPTIONS = ['comments do not reach across line ends; brackets appear in markup only']
TEXT = minus('nocr', '[]')
SHAPES = ['T', 'TT', 'TTT', 'TTTT', 'aTTb', 'a-T-b', 'a--Tb', '[i]T[/i]T', 'a[b]T[/b] b', '[lang=de-DE]aT[/lang=de-DE]T', '/*C*/T', 'T/*C*/T',
          'a/*CC*/ /*C*/T', '> T', 'T\n> T', '>T\nT', 'T\n\nT', '/*C*/> T', '[i]> T[/i]']
DEEP = ['TTTTT', 'TTTTTT', 'a-TTT-b', 'T[i]TT[/i]T', 'TT/*CC*/TT', '> TT\n>TT']


def fill(e, shape):
    """Return the text, and the text with a NUL character in the place of markup and comments."""
    text = ''
    bare = ''
    n = 0
    pos = 0
    inside = False
    tag = False
    for i in range(len(shape)):
        c = shape[i]
        if c in 'TC':
            n += 1
            ch = e.char(f't{n}', TEXT if c == 'T' else minus(TEXT, '\n*/'))
            if c == 'T' and text and text[-1] in '/*':
                e.assume(ch not in '/*')
        else:
            ch = c
        if shape.startswith('/*', i):
            inside = True
        if c == '[':
            tag = True
        if not inside and not tag:
            if c == 'T' and bare:
                e.assume(not (bare[-1] == '/' and ch == '*'))
            bare += ch
        if c == ']':
            tag = False
            bare += '\0'
        if shape.startswith('*/', i - 1) and i:
            inside = False
            bare += '\0'
        text += ch
    return text, bare


def words(bare):
    """Number of words: divided by white space and dashes, hyphens join."""
    count = 0
    inside = False
    prev = '\n'
    for i in range(len(bare)):
        c = bare[i]
        nxt = bare[i + 1] if i + 1 < len(bare) else ' '
        if c == '\0':
            pass
        elif c.isspace() or c in '\u2013\u2014':
            inside = False
        elif c == '-':
            if nxt == '-':
                inside = False
        elif c == '>' and prev == '\n':
            pass
        else:
            if not inside:
                count += 1
            inside = True
        prev = c
    return count


def letters(bare):
    return len(bare.replace('\n', '').replace('\0', ''))


@harness(cases={s.replace('\n', '/'): {'shape': s} for s in SHAPES}, thorough={s.replace('\n', '/'): {'shape': s} for s in DEEP})
def counts(e, shape):
    """Any text next to markup, comments and dashes."""
    text, bare = fill(e, shape)
    s = Scene()
    s.sceneContent = text
    e.equal(s.wordCount, words(bare), 'words')
    e.equal(s.letterCount, letters(bare), 'letters')


def first(xml, tag):
    if '<' + tag + '>' not in xml:
        return None
    i = xml.index('<' + tag + '>') + len(tag) + 2
    return xml[i:xml.index('</' + tag + '>', i)]


@harness(cases={'2': {'k': 2}}, thorough={'3': {'k': 3}})
def saved_counts(e, k):
    """The project file never states outdated counts, and reading counts anew."""
    p = e.path('p.yw7')
    n = small_novel('One two three')
    f = save(p, n)
    if e.choose('again', [False, True]):
        e.put(p, e.get(p).replace('<Status>', '<WordCount>3</WordCount><LetterCount>13</LetterCount><Status>'))
        f = load(p)
    t = 'a' + e.text('t', k, minus('nocr', '[]*\n-\u2013\u2014')) + 'b'
    f.novel.scenes['1'].sceneContent = t
    f.write()
    xml = e.get(p)
    e.check(first(xml, 'WordCount') in (None, str(words(t))), 'no outdated number of words')
    e.check(first(xml, 'LetterCount') in (None, str(len(t))), 'no outdated number of letters')
    x = load(p).novel.scenes['1']
    e.equal([x.wordCount, x.letterCount], [words(t), len(t)], 'counts after reading')


CONTENTS = ['', 'One', 'One two-three', '<TEX>One two']


def three_scenes(e, contents=CONTENTS):
    n = small_novel()
    n.chapters['1'].srtScenes = ['1', '2']
    add_chapter(n, '2', ['3'], 'Second', chLevel=e.int('level', 0, 1), chType=e.int('chapter type', 0, 3))
    for i in '123':
        s = n.scenes[i] = Scene()
        s.title = 'Scene ' + i
        s.status = 1
        s.scType = e.int('type' + i, 0, 3) if i != '1' else 0
        s.doNotExport = e.flag('mark' + i)
        s.sceneContent = e.choose('content' + i, contents) if i == '2' else 'One two' + i
    y = Yw7File(e.path('p.yw7'))
    y.novel = n
    y.adjust_scene_types()
    return n


def numbered(n):
    """Exported scenes with their number and the accumulated numbers of words and letters."""
    out = []
    w = l = 0
    for c in n.srtChapters:
        for i in n.chapters[c].srtScenes:
            s = n.scenes[i]
            if s.scType == 0 and not s.doNotExport and not s.sceneContent.startswith('<TEX>'):
                w += words(s.sceneContent)
                l += letters(s.sceneContent)
                out.append([i, len(out) + 1, w, l])
    return out


@harness()
def scene_list(e):
    """Numbers in the scene list."""
    verify_list(e, three_scenes(e))


def verify_list(e, n):
    from pywriter.ods_w.ods_w_scenelist import OdsWSceneList
    f = OdsWSceneList(e.path('p_scenelist.ods'))
    f.novel = n
    f.write()
    rows = []
    for row in ET.fromstring(unzip(f.filePath)).iter(TABLE + 'table-row'):
        rows.append([plain(c).strip() for c in row.iter(TABLE + 'table-cell')])
    want = []
    for i, number, w, l in numbered(n):
        text = n.scenes[i].sceneContent
        want.append(['ScID:' + i, str(number), str(w), str(words(text)), str(letters(text))])
    e.equal([[r[0], r[9], r[10], r[15], r[16]] for r in rows[1:] if r[0]], want, 'numbers')


class Numbers(FileExport):
    SUFFIX = '_numbers'
    EXTENSION = '.txt'
    _partTemplate = 'part $ID $ChapterNumber.\n'
    _chapterTemplate = 'chapter $ID $ChapterNumber.\n'
    _notesChapterTemplate = _todoChapterTemplate = _unusedChapterTemplate = _notExportedChapterTemplate = 'other $ID $ChapterNumber.\n'
    _notesPartTemplate = _todoPartTemplate = 'other part $ID $ChapterNumber.\n'
    _sceneTemplate = 'scene $ID $SceneNumber $WordsTotal $LettersTotal $WordCount $LetterCount.\n'
    _notesSceneTemplate = 'notes $ID $SceneNumber $WordsTotal $LettersTotal.\n'
    _todoSceneTemplate = 'todo $ID $SceneNumber $WordsTotal $LettersTotal.\n'
    _unusedSceneTemplate = 'unused $ID $SceneNumber $WordsTotal $LettersTotal.\n'
    _notExportedSceneTemplate = 'not exported $ID $SceneNumber $WordsTotal $LettersTotal.\n'
    _chapterEndTemplate = 'end $ID $ChapterNumber.\n'
    _notesChapterEndTemplate = 'notes end $ID $ChapterNumber.\n'
    _todoChapterEndTemplate = 'todo end $ID $ChapterNumber.\n'
    _unusedChapterEndTemplate = 'unused end $ID $ChapterNumber.\n'
    _notExportedChapterEndTemplate = 'not exported end $ID $ChapterNumber.\n'


@harness()
def templates(e):
    """Every type of chapter and scene is shown with its own template; only exported ones have numbers."""
    verify_templates(e, three_scenes(e, ['One', 'One two', '<TEX>']))


def verify_templates(e, n):
    f = Numbers(e.path('p_numbers.txt'))
    f.novel = n
    f.write()
    out = ''
    number = count = w = l = 0
    for c in n.srtChapters:
        ch = n.chapters[c]
        kind = ['', 'notes ', 'todo ', 'unused '][int(ch.chType)]
        if kind == '' and ch.srtScenes and all([n.scenes[i].doNotExport for i in ch.srtScenes]):
            kind = 'not exported '
        shown = ''
        if kind:
            out += f'other {"part " if ch.chLevel == 1 and kind in ("notes ", "todo ") else ""}{c} .\n'
        elif ch.chLevel == 1:
            out += f'part {c} .\n'
        else:
            number += 1
            shown = str(number)
            out += f'chapter {c} {shown}.\n'
        for i in ch.srtScenes:
            s = n.scenes[i]
            t = ['', 'notes', 'todo', 'unused'][int(s.scType)]
            if t == '' and s.doNotExport:
                t = 'not exported'
            if t:
                out += f'{t} {i}  {w} {l}.\n'
            elif not s.sceneContent.startswith('<TEX>'):
                count += 1
                w += words(s.sceneContent)
                l += letters(s.sceneContent)
                out += f'scene {i} {count} {w} {l} {words(s.sceneContent)} {letters(s.sceneContent)}.\n'
        out += f'{kind}end {c} {shown}.\n'
    e.equal(e.get(f.filePath), out, 'text of the document')


SCENE = {'ID': None, 'Title': 'title', 'Desc': 'desc', 'SceneContent': 'sceneContent', 'Field1': 'field1', 'Field2': 'field2', 'Field3': 'field3', 'Field4': 'field4',
         'Goal': 'goal', 'Conflict': 'conflict', 'Outcome': 'outcome', 'Notes': 'notes', 'Image': 'image', 'Day': None, 'Date': None,
         'Time': None, 'ScDate': None, 'LastsDays': None, 'LastsHours': None, 'LastsMinutes': None, 'Duration': None, 'ReactionScene': None,
         'Status': None, 'Tags': None, 'Characters': None, 'Viewpoint': None, 'Locations': None, 'Items': None, 'FieldTitle1': None, 'FieldTitle4': None}


class Scenes(FileExport):
    SUFFIX = '_scenes'
    EXTENSION = '.txt'
    _sceneTemplate = ''.join(f'<{k}>${k}</{k}>' for k in SCENE)


def shown_scene(e, n):
    f = Scenes(e.path('p_scenes.txt'))
    f.novel = n
    f.write()
    return e.get(f.filePath)


def scene_text(values):
    out = ''
    for k in SCENE:
        out += f'<{k}>{values.get(k, "")}</{k}>'
    return out


def blank():
    n = small_novel('')
    n.scenes['1'].title = ''
    return n


BLANK = {'ID': '1', 'ReactionScene': 'A', 'Status': 'Outline', 'Image': 'None'}


@harness(cases={a: {'key': a} for a in SCENE if SCENE[a]})
def scene_placeholders(e, key):
    """One text is shown at its placeholder and nowhere else, even when it looks like a placeholder."""
    n = blank()
    t = e.choose('t', ['$Title', '${Goal}', '$']) + e.text('u', 2, 'line')
    setattr(n.scenes['1'], SCENE[key], t)
    v = dict(BLANK)
    v[key] = t
    e.equal(shown_scene(e, n), scene_text(v), key)


@harness()
def dates(e):
    """Any date or day, time, and duration."""
    n = blank()
    s = n.scenes['1']
    s.date = e.choose('date', [None, '0001-01-01', '2023-11-07'])
    s.day = e.choose('day', [None, '0', '12'])
    h, m = e.int('h', 0, 99), e.int('m', 0, 99)
    s.time = None
    if e.choose('time', [False, True]):
        s.time = e.text('t', 2, chars('0123456789')) + ':' + e.text('u', 2, chars('0123456789')) + ':00'
    v = dict(BLANK)
    if s.date and s.date != '0001-01-01':
        v['Date'] = v['ScDate'] = s.date
    elif s.day:
        v['Day'] = s.day
        v['ScDate'] = 'Day ' + s.day
    if s.time:
        v['Time'] = s.time[:5]
    dur = ''
    for a, u in (('Days', 'd '), ('Hours', 'h '), ('Minutes', 'min')):
        x = e.choose(a, [None, '0', '1'])
        if x == '1':
            x = e.text(a, 1, chars('123456789')) + e.texts(a + '2', [0, 1], chars('0123456789'))
        setattr(s, 'lasts' + a, x)
        if x and x != '0':
            v['Lasts' + a] = x
            dur += x + u
    v['Duration'] = dur
    e.equal(shown_scene(e, n), scene_text(v), 'dates and durations')


@harness()
def relations(e):
    """Characters, locations, items, tags, status, kind, and titles of the ratings."""
    n = blank()
    s = n.scenes['1']
    v = dict(BLANK)
    s.isReactionScene = e.flag('reaction')
    s.status = e.choose('status', [1, 2, 3, 4, 5]) if not s.isReactionScene else 1
    v['Status'] = ['Outline', 'Draft', '1st Edit', '2nd Edit', 'Done'][s.status - 1]
    v['ReactionScene'] = 'R' if s.isReactionScene else 'A'
    n.fieldTitle1 = v['FieldTitle1'] = e.text('f', 1, 'line')
    n.fieldTitle4 = v['FieldTitle4'] = 'Four'
    n.characters['2'] = Character()
    n.characters['2'].title = e.text('c', 1, 'line')
    n.locations['2'] = WorldElement()
    n.locations['2'].title = 'Loc 2'
    n.items['2'] = WorldElement()
    n.items['2'].title = 'Item 2'
    for key, attr, d in (('Characters', 'characters', n.characters), ('Locations', 'locations', n.locations), ('Items', 'items', n.items)):
        x = e.choose(attr, [None, [], ['2', '1']] if key != 'Characters' else [None, [], ['1'], ['2'], ['2', '1']])
        setattr(s, attr, x)
        v[key] = ', '.join([d[i].title for i in x or []])
        if key == 'Characters' and x:
            v['Viewpoint'] = d[x[0]].title
    s.tags = e.choose('tags', [None, [], ['one'], ['one', 'two']])
    v['Tags'] = ', '.join(s.tags or [])
    e.equal(shown_scene(e, n), scene_text(v), 'relations')


CHAPTER = {'ID': None, 'Title': 'title', 'Desc': 'desc'}
CHARACTER = {'ID': None, 'Title': 'title', 'Desc': 'desc', 'AKA': 'aka', 'Notes': 'notes', 'Bio': 'bio', 'Goals': 'goals', 'FullName': 'fullName', 'Tags': None,
             'Status': None}
WORLD = {'ID': None, 'Title': 'title', 'Desc': 'desc', 'AKA': 'aka', 'Tags': None}
NOTE = {'ID': None, 'Title': 'title', 'Desc': 'desc'}
PROJECT = {'Title': 'title', 'Desc': 'desc', 'AuthorName': 'authorName', 'AuthorBio': 'authorBio', 'FieldTitle1': 'fieldTitle1', 'FieldTitle2': 'fieldTitle2',
           'FieldTitle3': 'fieldTitle3', 'FieldTitle4': 'fieldTitle4', 'Language': 'languageCode', 'Country': 'countryCode'}
KINDS = {'project': PROJECT, 'chapter': CHAPTER, 'character': CHARACTER, 'location': WORLD, 'item': WORLD, 'note': NOTE}


def template(kind):
    return f'({kind})' + ''.join(f'<{k}>${k}</{k}>' for k in KINDS[kind]) + '\n'


class Everything(FileExport):
    SUFFIX = '_all'
    EXTENSION = '.txt'
    _fileHeader = template('project')
    _chapterTemplate = template('chapter')
    _characterSectionHeading = 'Characters\n'
    _characterTemplate = template('character')
    _locationSectionHeading = 'Locations\n'
    _locationTemplate = template('location')
    _itemSectionHeading = 'Items\n'
    _itemTemplate = template('item')
    _projectNoteTemplate = template('note')
    _fileFooter = 'The end'


def element_text(n, kind, i=None):
    out = f'({kind})'
    x = entity(n, kind, i)
    for k in KINDS[kind]:
        if k == 'ID':
            v = i
        elif k == 'Tags':
            v = ', '.join(x.tags or [])
        elif k == 'Status':
            v = 'Major' if x.isMajor else 'Minor'
        else:
            v = getattr(x, KINDS[kind][k]) or ''
        out += f'<{k}>{v}</{k}>'
    return out + '\n'


@harness(cases={f'{kind},{a}': {'kind': kind, 'attr': KINDS[kind][a]} for kind in KINDS for a in KINDS[kind] if KINDS[kind][a]})
def elements(e, kind, attr):
    """All elements are shown in their order, each with its data, whatever a text is."""
    n = rich_novel()
    for i in '12':
        n.projectNotes[i] = BasicElement()
        n.projectNotes[i].title = 'Note ' + i
    n.srtPrjNotes = ['2', '1']
    n.srtCharacters = list(e.choose('order', ['12', '21', '2']))
    n.srtLocations = ['2', '1']
    n.characters['2'].tags = e.choose('tags', [None, ['a', 'b c']])
    n.locations['1'].tags = ['one']
    n.items['2'].tags = []
    n.srtChapters = ['2', '1']
    for i in '12':
        n.chapters[i].chLevel = 0
    x = entity(n, kind, '1')
    if attr not in ('languageCode', 'countryCode'):
        setattr(x, attr, e.choose('t', ['$Title', '${Desc}', '$$', '']) + e.text('u', 1, 'line'))
    f = Everything(e.path('p_all.txt'))
    f.novel = n
    f.write()
    out = element_text(n, 'project')
    for k, heading, ids in (('chapter', '', n.srtChapters), ('character', 'Characters\n', n.srtCharacters), ('location', 'Locations\n', n.srtLocations),
                            ('item', 'Items\n', n.srtItems), ('note', '', n.srtPrjNotes)):
        out += heading
        for i in ids:
            out += element_text(n, k, i)
    e.equal(e.get(f.filePath), out + 'The end', 'text of the document')


@harness(cases={'list': {'check': verify_list}, 'templates': {'check': verify_templates}})
def large(e, check):
    """A large project with any export marks in a chapter."""
    n = large_novel()
    for i in n.chapters['3'].srtScenes[:3]:
        n.scenes[i].doNotExport = e.flag('mark' + i)
    n.scenes[n.chapters['15'].srtScenes[4]].doNotExport = True
    n.scenes[n.chapters['15'].srtScenes[9]].scType = 3
    n.scenes[n.chapters['15'].srtScenes[10]].sceneContent = '<TEX>x'
    check(e, n)
