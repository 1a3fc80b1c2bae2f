"""P03: data of a project file that the library does not know survives reading, editing and saving."""
import xml.etree.ElementTree as ET
from engine.env import harness, minus, chars
from checks_lib import *

BOUNDS = ('one foreign element at each of 13 places of the project file (known yWriter names and unknown names), before or '
          'after the known elements, with 2 (thorough: 3) arbitrary XML characters, combined with every edit of the list; '
          'saved twice')
ASSUMPTIONS = ['foreign elements of single locations, items and characters, and of project notes, are outside the claim '
               '(these entries are rewritten); so are word/letter counts, sort orders, RTF file names and the saved-by '
               'stamps, which yWriter regenerates']

PLACES = ['root', 'project', 'projectfields', 'scene', 'scenefields', 'scenenested', 'chapter', 'chapterfields',
          'chapternested', 'projectvar', 'sceneattr', 'otherscene', 'otherchapter']
NAMES = ['MyOwn', 'Viewpoint', 'ExportCondX']


def xml_of(text):
    return text.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def make(place, name, text, late):
    """A project file with a foreign element at one place."""
    el = f'<{name}>{xml_of(text)}</{name}>'
    nested = f'<{name}><Inner><Deep>{xml_of(text)}</Deep></Inner></{name}>'

    def at(p, body, wrap=None):
        x = ''
        if place == p:
            x = el if wrap is None else wrap
        return x + body if not late else body + x
    scene = at('scene', at('scenenested', '<Title>S</Title><SceneContent>Text</SceneContent><Status>1</Status>', nested))
    if place == 'sceneattr':
        scene += f'<{name} a="{xml_of(text)}"/>'
    scene += '<Fields>' + at('scenefields', '<Field_SceneType>0</Field_SceneType>') + '</Fields>'
    chapter = at('chapter', at('chapternested', '<Title>C</Title>', nested))
    chapter += '<Fields>' + at('chapterfields', '<Field_SuppressChapterTitle>0</Field_SuppressChapterTitle>') + '</Fields>'
    chapter += '<Type>0</Type><ChapterType>0</ChapterType>'
    pv = '<PROJECTVARS><PROJECTVAR><ID>1</ID><Title>Language</Title><Desc>en</Desc></PROJECTVAR>' \
         '<PROJECTVAR><ID>2</ID><Title>Country</Title><Desc>US</Desc></PROJECTVAR>'
    if place == 'projectvar':
        pv += f'<PROJECTVAR><ID>7</ID><Title>{name}</Title><Desc>{xml_of(text)}</Desc><Tags>0</Tags></PROJECTVAR>'
    pv += '</PROJECTVARS>'
    return ('<YWRITER7><PROJECT>' + at('project', '<Title>P</Title>') + '<Fields>' + at('projectfields', '<F>1</F>')
            + '</Fields></PROJECT>' + at('root', '<LOCATIONS/><ITEMS/><CHARACTERS/><PROJECTNOTES/>') + pv
            + '<SCENES><SCENE><ID>1</ID>' + scene + '</SCENE><SCENE><ID>2</ID><Title>T</Title>'
            + '<SceneContent>More</SceneContent>' + (el if place == 'otherscene' else '') + '</SCENE></SCENES>'
            + '<CHAPTERS><CHAPTER><ID>1</ID>' + chapter + '<Scenes><ScID>1</ScID></Scenes></CHAPTER>'
            + '<CHAPTER><ID>2</ID><Title>D</Title>' + (el if place == 'otherchapter' else '')
            + '<Type>0</Type><ChapterType>0</ChapterType><Scenes><ScID>2</ScID></Scenes></CHAPTER></CHAPTERS></YWRITER7>')


def find_foreign(root, place, name):
    """The texts of the foreign element at its place (a list: it must be there exactly once)."""
    def scene(i):
        return [s for s in root.find('SCENES') if s.find('ID').text == i][0]

    def chapter(i):
        return [s for s in root.find('CHAPTERS') if s.find('ID').text == i][0]
    if place == 'root':
        parents = [root]
    elif place == 'project':
        parents = [root.find('PROJECT')]
    elif place == 'projectfields':
        parents = root.find('PROJECT').findall('Fields')
    elif place in ('scene', 'sceneattr'):
        parents = [scene('1')]
    elif place == 'scenefields':
        parents = scene('1').findall('Fields')
    elif place == 'scenenested':
        return [x.text for x in scene('1').findall(f'{name}/Inner/Deep')]
    elif place == 'chapter':
        parents = [chapter('1')]
    elif place == 'chapterfields':
        parents = chapter('1').findall('Fields')
    elif place == 'chapternested':
        return [x.text for x in chapter('1').findall(f'{name}/Inner/Deep')]
    elif place == 'otherscene':
        parents = [scene('2')]
    elif place == 'otherchapter':
        parents = [chapter('2')]
    else:
        return [x.find('Desc').text for x in root.find('PROJECTVARS') if x.find('Title').text == name
                and x.find('ID').text == '7']
    out = []
    for p in parents:
        for x in p.findall(name):
            out.append(x.get('a') if place == 'sceneattr' else x.text)
    return out


EDITS = ['none', 'texts', 'type', 'back', 'order', 'flags', 'add', 'date', 'language']


def edit(n, how):
    s, c = n.scenes['1'], n.chapters['1']
    if how == 'texts':
        n.title = 'New'
        n.desc = 'D'
        s.title = 'N'
        s.desc = 'Y'
        s.notes = 'Z'
        s.sceneContent = 'Other'
        c.title = 'N'
        c.desc = 'Q'
    elif how == 'type':
        c.chType = 3
        s.scType = 2
    elif how == 'back':
        c.chType = 0
        s.scType = 0
        c.chLevel = 1
    elif how == 'order':
        n.srtChapters = ['2', '1']
        n.chapters['1'].srtScenes = ['2']
        n.chapters['2'].srtScenes = ['1']
    elif how == 'flags':
        s.doNotExport = True
        s.appendToPrev = True
        s.isSubPlot = True
        s.tags = ['a']
        s.scnArcs = 'arc'
        s.scnMode = 2
        c.isTrash = True
        c.suppressChapterTitle = True
        c.suppressChapterBreak = True
    elif how == 'add':
        add_scene(n, '3')
        add_chapter(n, '3', ['3'])
        n.characters['1'] = Character()
        n.srtCharacters.append('1')
        n.projectNotes['1'] = BasicElement()
        n.srtPrjNotes.append('1')
    elif how == 'date':
        s.date = '2020-01-01'
        s.time = '10:00:00'
        s.lastsDays = '1'
    elif how == 'flags off':
        s.doNotExport = s.appendToPrev = s.isSubPlot = s.isReactionScene = False
        s.tags = []
        s.scnArcs = ''
        s.scnMode = 0
        c.isTrash = c.suppressChapterTitle = c.suppressChapterBreak = False
        c.chLevel = 0
    elif how == 'remove':
        for d, l in ((n.scenes, n.chapters['3'].srtScenes), (n.chapters, n.srtChapters), (n.characters, n.srtCharacters),
                     (n.projectNotes, n.srtPrjNotes)):
            x = l.pop()
            del d[x]
    elif how == 'no date':
        s.date = s.time = s.day = ''
        s.lastsDays = ''
    elif how == 'no text':
        s.desc = s.notes = c.desc = n.desc = ''
    elif how == 'language':
        s.sceneContent = 'a [lang=de-DE]b[/lang=de-DE]'
        n.languages = ['de-DE']


THEN = {'flags': 'flags off', 'add': 'remove', 'date': 'no date', 'texts': 'no text', 'type': 'back'}


@harness(cases={p: {'place': p, 'k': 2} for p in PLACES}, thorough={f'{p},3': {'place': p, 'k': 3} for p in PLACES})
def foreign(e, place, k):
    name = e.choose('name', NAMES)
    late = e.flag('late')
    how = e.choose('edit', EDITS)
    dom = {'sceneattr': '\r\n\t"', 'projectvar': '\r\n'}.get(place, '\r')
    text = e.text('t', k, minus('xml', dom))
    e.assume(text.strip() != '' or place == 'sceneattr')
    p = e.path('p.yw7')
    e.put(p, '<?xml version="1.0" encoding="utf-8"?>\n' + make(place, name, text, late))
    f = load(p)
    edit(f.novel, how)
    f.write()
    e.equal(find_foreign(ET.fromstring(e.get(p)), place, name), [text], f'foreign {place} element after edit {how}')
    f = load(p)
    edit(f.novel, THEN.get(how, 'none'))
    f.write()
    e.equal(find_foreign(ET.fromstring(e.get(p)), place, name), [text], f'foreign {place} element after saving again')
