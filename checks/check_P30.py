"""P30: exports defined by an application: filters, templates of each kind of element, and safe files."""
from engine.env import harness, minus, chars
from checks_lib import *
from check_P04 import Schedule
from pywriter.file.file_export import FileExport
from pywriter.file.filter import Filter

BOUNDS = ('three chapters with four scenes and three elements of each kind, each accepted by the filters or not, independently; scenes and chapters of any type and marks in '
          'any position with every optional template present or missing; every I/O operation of an export failing or being the last one')
ASSUMPTIONS = ['a filter does not change the project; an interrupted write leaves a prefix of its data']


class Chosen(Filter):
    """Accept the elements of a list; remember what was asked."""

    def __init__(self, ids):
        self.ids = ids

    def accept(self, source, eId):
        return eId in self.ids


class Text(FileExport):
    DESCRIPTION = 'Text'
    SUFFIX = '_text'
    EXTENSION = '.txt'
    _fileHeader = 'Begin $Title\n'
    _partTemplate = 'part $ID $ChapterNumber\n'
    _chapterTemplate = 'chapter $ID $ChapterNumber\n'
    _chapterEndTemplate = 'end $ID\n'
    _firstSceneTemplate = 'first $ID $SceneNumber $WordsTotal\n'
    _appendedSceneTemplate = 'appended $ID $SceneNumber $WordsTotal\n'
    _sceneTemplate = 'scene $ID $SceneNumber $WordsTotal\n'
    _sceneDivider = '* * *\n'
    _characterTemplate = 'character $ID $Title\n'
    _locationTemplate = 'location $ID $Title\n'
    _itemTemplate = 'item $ID $Title\n'
    _projectNoteTemplate = 'note $ID $Title\n'
    _fileFooter = 'The end'


def novel():
    n = rich_novel()
    for c in ('3', '4', '5'):
        n.srtChapters.remove(c)
    n.chapters['1'].chLevel = 0
    add_chapter(n, '6', ['7'], 'Last')
    add_scene(n, '7', 'Last scene of this text', 'Seventh')
    for i in '12':
        n.projectNotes[i] = BasicElement()
        n.projectNotes[i].title = 'N' + i
        n.srtPrjNotes.append(i)
    return n


WORDS = {'1': 1, '2': 3, '3': 3, '7': 5}


@harness()
def chapters_scenes(e):
    """Scenes and chapters that the filters do not accept are neither shown nor counted."""
    n = novel()
    n.scenes['3'].appendToPrev = e.flag('append')
    ch = [i for i in n.srtChapters if e.choose('chapter ' + i, [True, False])]
    sc = [i for i in '1237' if e.choose('scene ' + i, [True, False])]
    f = Text(e.path('p_text.txt'))
    f.novel = n
    f._chapterFilter = Chosen(ch)
    f._sceneFilter = Chosen(sc)
    f.write()
    out = 'Begin Project\n'
    chapters = scenes = words = 0
    for c in n.srtChapters:
        if c not in ch:
            continue
        chapters += 1
        out += f'chapter {c} {chapters}\n'
        first = True
        for s in n.chapters[c].srtScenes:
            if s not in sc:
                continue
            scenes += 1
            words += WORDS[s]
            if first:
                out += f'first {s} {scenes} {words}\n'
            elif n.scenes[s].appendToPrev:
                out += f'appended {s} {scenes} {words}\n'
            else:
                out += f'* * *\nscene {s} {scenes} {words}\n'
            first = False
        out += f'end {c}\n'
    text = e.get(f.filePath)
    e.equal(text[:text.find('character')], out, 'chapters and scenes')


@harness()
def elements(e):
    """Characters, locations and items that the filters do not accept are not shown, the others in their order."""
    n = novel()
    for kind, l, d in (('Char', n.srtCharacters, n.characters), ('Loc', n.srtLocations, n.locations), ('Item', n.srtItems, n.items)):
        d['9'] = Character() if kind == 'Char' else WorldElement()
        d['9'].title = kind + ' 9'
        l.insert(e.choose('place', [0, 1, 2]) if kind == 'Char' else 1, '9')
    accepted = {}
    for kind in ('character', 'location', 'item'):
        accepted[kind] = [i for i in '129' if e.choose(f'{kind} {i}', [True, False])]
    f = Text(e.path('p_text.txt'))
    f.novel = n
    f._characterFilter = Chosen(accepted['character'])
    f._locationFilter = Chosen(accepted['location'])
    f._itemFilter = Chosen(accepted['item'])
    f.write()
    out = ''
    for kind, l, t in (('character', n.srtCharacters, 'Char'), ('location', n.srtLocations, 'Loc'), ('item', n.srtItems, 'Item')):
        for i in l:
            if i in accepted[kind]:
                out += f'{kind} {i} {t} {i}\n'
    out += 'note 1 N1\nnote 2 N2\nThe end'
    text = e.get(f.filePath)
    e.check(text.endswith('end 6\n' + out), 'elements')


OPTIONAL = ['_partTemplate', '_notesPartTemplate', '_todoPartTemplate', '_notesChapterTemplate', '_todoChapterTemplate', '_unusedChapterTemplate',
            '_notExportedChapterTemplate', '_firstSceneTemplate', '_appendedSceneTemplate', '_notesSceneTemplate', '_todoSceneTemplate',
            '_unusedSceneTemplate', '_notExportedSceneTemplate', '_chapterEndTemplate', '_notesChapterEndTemplate', '_todoChapterEndTemplate',
            '_unusedChapterEndTemplate', '_notExportedChapterEndTemplate']
BLANK = type('Blank', (FileExport,), {'SUFFIX': '_text', 'EXTENSION': '.txt', '_chapterTemplate': 'C$ID.', '_sceneTemplate': 'S$ID.', '_sceneDivider': '*.'})


@harness(cases={str(t): {'chType': t} for t in range(4)})
def kinds(e, chType):
    """Each kind of chapter and scene uses its own template; without it, the element is not shown (parts are shown as chapters, scenes as ordinary ones)."""
    n = Novel()
    n.title = 'Project'
    add_chapter(n, '1', ['1', '2'], chType=chType, chLevel=e.choose('level', [0, 1]))
    for i in '12':
        add_scene(n, i, e.choose('content ' + i, ['Text', '<HTML>x']) if i == '2' else 'Text', scType=e.choose('type ' + i, [0, 3]) if chType == 3 else chType if chType else e.choose('type ' + i, [0, 1, 2, 3]))
        n.scenes[i].doNotExport = e.choose('off ' + i, [False, True])
    n.scenes['2'].appendToPrev = e.choose('append', [False, True])
    have = set()
    f = BLANK(e.path('p_text.txt'))
    f.novel = n
    asked = {}

    def there(t):
        """The template exists (decided when it is asked for)."""
        if t not in asked:
            asked[t] = e.choose(t, [False, True])
        return asked[t]
    part = n.chapters['1'].chLevel == 1
    kind = ['', 'notes', 'todo', 'unused'][chType]
    if not kind and n.scenes['1'].doNotExport and n.scenes['2'].doNotExport:
        kind = 'notExported'
    out = ''
    if kind in ('notes', 'todo') and part:
        if there(f'_{kind}PartTemplate'):
            out += f'_{kind}PartTemplate 1.'
    elif kind:
        if there(f'_{kind}ChapterTemplate'):
            out += f'_{kind}ChapterTemplate 1.'
    elif part and there('_partTemplate'):
        out += '_partTemplate 1.'
    else:
        out += 'C1.'
    first = True
    for i in '12':
        s = n.scenes[i]
        k = 'unused' if chType == 3 else ['', 'notes', 'todo', 'unused'][int(s.scType)]
        if not k and (s.doNotExport or kind == 'notExported'):
            k = 'notExported'
        if k:
            if not there(f'_{k}SceneTemplate'):
                continue
            x = f'_{k}SceneTemplate {i}.'
        elif s.sceneContent.startswith('<HTML>'):
            continue
        elif not first and s.appendToPrev and there('_appendedSceneTemplate'):
            x = f'_appendedSceneTemplate {i}.'
        else:
            x = f'S{i}.'
        if not first and not s.appendToPrev:
            out += '*.'
        if first and there('_firstSceneTemplate'):
            x = f'_firstSceneTemplate {i}.'
        out += x
        first = False
    end = f'_{kind}ChapterEndTemplate' if kind else '_chapterEndTemplate'
    if there(end):
        out += f'{end} 1.'
    for t in OPTIONAL:
        setattr(f, t, t + ' $ID.' if asked.get(t) else '')
    f.write()
    e.equal(e.get(f.filePath), out, 'text')


@harness(cases={'error': {'kind': 'error'}, 'crash': {'kind': 'crash'}})
def faults(e, kind):
    """A failed export leaves the former file in place and no incomplete one."""
    n = novel()
    n.title = 'P' + e.text('t', 1, 'lower')
    f = Text(e.path('p_text.txt'))
    f.novel = n
    exists = e.flag('exists')
    backup = e.choose('backup', [None, 'older'])
    if exists:
        e.put(f.filePath, 'former file')
    if backup:
        e.put(f.filePath + '.bak', backup)
    s = Schedule(e.int('k', 0, 20), kind)
    e.faults(s)
    try:
        f.write()
        r = 'ok'
    except Error:
        r = 'error'
    except Exception:
        r = 'exception'
    except BaseException as ex:
        if type(ex).__name__ != 'Crash':
            raise
        r = 'crash'
    e.nofaults()
    e.observe('result', [r, s.n])
    now, bak = e.get(f.filePath), e.get(f.filePath + '.bak')
    if not s.hit:
        e.equal(r, 'ok', 'export without fault')
        e.check(now is not None and now.startswith('Begin ' + n.title) and now.endswith('The end'), 'complete file')
        e.equal(bak, 'former file' if exists else backup, 'backup')
    elif kind == 'error':
        e.equal(r, 'error', 'a failure is reported as an error')
        e.equal(now, 'former file' if exists else None, 'the former file is in place, and no incomplete one')
    elif exists:
        e.check('former file' in (now, bak), 'the former file is still there')
    for x in os.listdir(e.dir):
        e.check(x in ('p_text.txt', 'p_text.txt.bak', 'tmp'), 'stray file ' + x)
