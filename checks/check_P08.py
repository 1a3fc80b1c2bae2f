"""P08: any project file is either read completely and the same way every time, or rejected with a message."""
import re
import xml.etree.ElementTree as ET
from engine.env import harness, minus, chars
from engine import iset
from checks_lib import *

BOUNDS = ('two arbitrary characters (control characters included) at any text; UTF-8, UTF-8 with byte order mark, UTF-16 with '
          'any header; optional sections missing; file truncated at any of 40 places; one byte replaced; read twice; read again after an element or text has been removed')
ASSUMPTIONS = ['the locations, items, characters, scenes and chapters sections exist (yWriter always writes them)']

ANY = iset.diff(iset.UNICODE, ((0xd800, 0xdfff), (0xfffe, 0xffff)))
CONTROL = [chr(i) for i in range(32) if i not in (9, 10, 13)]
KINDS = {k: ENTITIES[k] for k in ENTITIES}


def project_text():
    n = small_novel('QxxZ')
    for k in ENTITIES:
        for a in ENTITIES[k]:
            setattr(entity(n, k), a, f'{k}{a}' if a not in ('lastsDays', 'lastsHours', 'lastsMinutes') else '1')
    n.languages = ['de-DE']
    n.scenes['1'].sceneContent = 'content'
    return n


PLACES = ['scene.title', 'scene.sceneContent', 'chapter.title', 'character.bio', 'location.desc', 'project.desc', 'note.title']


@harness(cases={p: {'place': p} for p in PLACES})
def control_characters(e, place):
    """Characters that XML does not allow are left out, all others are kept."""
    kind, attr = place.split('.')
    p = e.path('p.yw7')
    nov = project_text()
    setattr(entity(nov, kind), attr, 'QxxZ')
    save(p, nov)
    t = e.text('t', 2, minus(iset.diff(ANY, iset.of_chars('\r&<>]')), ''))
    doc = e.get(p)
    e.check('QxxZ' in doc, 'marker written')
    e.put(p, doc.replace('QxxZ', 'Q' + t + 'Z'))
    want = 'Q' + ''.join(c for c in t if c not in CONTROL) + 'Z'
    f = load(p)
    e.equal(getattr(entity(f.novel, kind), attr), want, f'{place} without control characters')
    f.write()
    e.equal(getattr(entity(load(p).novel, kind), attr), want, f'{place} after saving')


@harness(cases={c: {'codec': c} for c in ('utf-8', 'utf-8-sig', 'utf-16', 'utf-16-bom-be')})
def encodings(e, codec):
    """The same project in any encoding yWriter uses, whatever the header says."""
    p = e.path('p.yw7')
    nov = project_text()
    t = 'Q' + e.choose('t', ['\u00e4', '\u6f22', '\U0001f600', 'a', '|', '\u2028', '\x85']) + e.text('u', 1, 'ascii') + 'Z'
    e.assume(t[2] not in '&<>')
    nov.scenes['1'].sceneContent = t
    nov.title = t
    save(p, nov)
    want = text_snapshot(load(p).novel)
    head = e.choose('header', ['<?xml version="1.0" encoding="utf-8"?>\n', '<?xml version="1.0" encoding="utf-16"?>\n', ''])
    doc = e.get(p)
    doc = head + doc[doc.index('\n') + 1:]
    raw = doc
    if codec == 'utf-16-bom-be':
        data = b'\xfe\xff' + raw.encode('utf-16-be')
    elif codec == 'utf-16':
        data = b'\xff\xfe' + raw.encode('utf-16-le')
    elif codec == 'utf-8-sig':
        data = b'\xef\xbb\xbf' + raw.encode('utf-8')
    else:
        data = raw.encode('utf-8')
    with open(p, 'wb') as f:
        f.write(data)
    r = load(p)
    e.equal(text_snapshot(r.novel), want, f'texts of a project encoded with {codec}')
    r.write()
    e.equal(text_snapshot(load(p).novel), want, f'texts of a project encoded with {codec} after saving')


def snapshot(n):
    """Everything that reading yields."""
    out = [text_snapshot(n), list(n.languages or []), n.languageCode, n.countryCode, list(n.srtChapters), list(n.srtCharacters), list(n.srtLocations),
           list(n.srtItems), list(n.srtPrjNotes), sorted(n.scenes)]
    for c in n.srtChapters:
        out.append([c, list(n.chapters[c].srtScenes), n.chapters[c].chType])
    for s in sorted(n.scenes):
        x = n.scenes[s]
        out.append([s, x.characters, x.locations, x.items, x.tags, x.scType, x.wordCount, x.letterCount])
    return out


@harness(cases={'': {}})
def read_twice(e):
    """Reading again into the same project changes nothing."""
    p = e.path('p.yw7')
    nov = project_text()
    nov.scenes['1'].sceneContent = 'a ' + e.text('t', 1, minus('xml', '\r\n')) + ' [lang=de-DE]b[/lang=de-DE]'
    nov.languages = None
    nov.scenes['1'].characters = ['1']
    nov.scenes['1'].tags = ['x', 'y']
    save(p, nov)
    f = Yw7File(p)
    f.novel = Novel()
    f.read()
    once = snapshot(f.novel)
    again = e.choose('again', [1, 2])
    for i in range(again):
        f.read()
    e.equal(snapshot(f.novel), once, 'project read again')
    f.write()
    g = Yw7File(p)
    g.novel = Novel()
    g.read()
    e.equal(snapshot(g.novel), once, 'project read again and saved')


@harness(cases={x: {'gone': x} for x in ('scene', 'chapter', 'character', 'location', 'item', 'note', 'texts', 'vars', 'all')})
def read_again(e, gone):
    """A project that has been changed by yWriter meanwhile is read like a new one, and saving brings nothing back."""
    p = e.path('p.yw7')
    t = e.text('t', 1, minus('xml', '\r\n'))
    nov = rich_novel('a' + t)
    nov.languageCode, nov.countryCode = 'de', 'DE'
    nov.srtPrjNotes = ['1', '2']
    nov.projectNotes = {'1': small_novel().projectNotes['1'], '2': small_novel().projectNotes['1']}
    save(p, nov)
    f = Yw7File(p)
    f.novel = Novel()
    f.read()
    new = load(p).novel
    if gone in ('scene', 'all'):
        i = e.choose('scene', ['1', '3'])
        for c in new.chapters.values():
            c.srtScenes = [x for x in c.srtScenes if x != i]
        del new.scenes[i]
    for kind, d, srt in (('character', new.characters, new.srtCharacters), ('location', new.locations, new.srtLocations), ('item', new.items, new.srtItems), ('note', new.projectNotes, new.srtPrjNotes)):
        if gone in (kind, 'all'):
            i = srt.pop()
            del d[i]
    if gone in ('chapter', 'all'):
        new.srtChapters.remove('3')
        del new.scenes[new.chapters.pop('3').srtScenes[0]]
    os.remove(p)
    save(p, new)
    if gone in ('texts', 'all'):
        doc = e.get(p)
        for tag in ('Title', 'Desc', 'AuthorName', 'Bio', 'FieldTitle1', 'WordTarget'):
            a = doc.index('<PROJECT>')
            b = doc.index('</PROJECT>')
            doc = doc[:a] + re.sub(f'<{tag}>.*?</{tag}>', '', doc[a:b], flags=re.DOTALL) + doc[b:]
        e.put(p, doc)
    if gone == 'vars':
        doc = e.get(p)
        a, b = doc.index('<PROJECTVARS>'), doc.index('</PROJECTVARS>') + len('</PROJECTVARS>')
        e.put(p, doc[:a] + doc[b:])
    want = everything_of(load(p).novel)
    f.read()
    got = everything_of(f.novel)
    e.equal(got, want, 'project read again')
    f.write()
    e.equal(everything_of(load(p).novel), want, 'project read again and saved')


TWO_NOTES = ('<PROJECTNOTES><PROJECTNOTE><ID>1</ID><Title>x</Title><Fields><Field_A>a</Field_A></Fields></PROJECTNOTE>'
             '<PROJECTNOTE><ID>2</ID><Title>y</Title></PROJECTNOTE></PROJECTNOTES>')


@harness(cases={'': {}})
def optional_sections(e):
    """Project notes and variables may be missing or empty or odd."""
    p = e.path('p.yw7')
    save(p, project_text())
    doc = e.get(p)
    i, j = doc.index('<PROJECTNOTES>'), doc.index('</PROJECTNOTES>') + 15
    notes = e.choose('notes', ['', '<PROJECTNOTES/>', '<PROJECTNOTES><PROJECTNOTE><Title>x</Title></PROJECTNOTE></PROJECTNOTES>', TWO_NOTES])
    doc = doc[:i] + notes + doc[j:]
    i, j = doc.index('<PROJECTVARS>'), doc.index('</PROJECTVARS>') + 14
    t = e.text('t', 1, minus('line', '<&>'))
    variables = e.choose('vars', ['', '<PROJECTVARS/>', '<PROJECTVARS><PROJECTVAR><ID>1</ID><Title/><Desc/></PROJECTVAR>'
                                  '<PROJECTVAR><ID>2</ID><Title>Language</Title><Desc>de</Desc></PROJECTVAR></PROJECTVARS>',
                                  f'<PROJECTVARS><PROJECTVAR><ID>1</ID><Title>{t}</Title><Desc>{t}</Desc></PROJECTVAR>'
                                  '<PROJECTVAR><ID>2</ID><Title>Country</Title><Desc>DE</Desc></PROJECTVAR></PROJECTVARS>',
                                  '<PROJECTVARS><PROJECTVAR><ID>1</ID><Title>Language</Title></PROJECTVAR><PROJECTVAR><ID>2</ID><Title>Country</Title></PROJECTVAR></PROJECTVARS>',
                                  f'<PROJECTVARS><PROJECTVAR><Title>{t}x</Title><Desc>a</Desc></PROJECTVAR><PROJECTVAR><ID>3</ID><Desc>b</Desc></PROJECTVAR><PROJECTVAR/></PROJECTVARS>'])
    language = e.flag('language')
    doc = doc[:i] + variables + doc[j:]
    e.put(p, doc)
    f = load(p)
    if '>de<' in variables:
        e.equal(f.novel.languageCode, 'de', 'language')
    if '>DE<' in variables:
        e.equal(f.novel.countryCode, 'DE', 'country')
    e.equal(f.novel.scenes['1'].sceneContent, 'content', 'content')
    e.equal(f.novel.chapters['1'].srtScenes, ['1'], 'chapter')
    if notes == TWO_NOTES:
        e.equal([f.novel.projectNotes[x].title for x in f.novel.srtPrjNotes], ['x', 'y'], 'project notes')
    if language:
        f.novel.languageCode, f.novel.countryCode = 'fr', 'CA'
    f.write()
    g = load(p)
    e.equal(g.novel.scenes['1'].sceneContent, 'content', 'content after saving')
    if language:
        e.equal([g.novel.languageCode, g.novel.countryCode], ['fr', 'CA'], 'language after saving')
    if notes == TWO_NOTES:
        e.equal([g.novel.projectNotes[x].title for x in g.novel.srtPrjNotes], ['x', 'y'], 'project notes after saving')


NEEDED = ['ID', 'YWRITER7', 'PROJECT', 'LOCATIONS', 'ITEMS', 'CHARACTERS', 'SCENES', 'CHAPTERS', 'LOCATION', 'ITEM', 'CHARACTER', 'SCENE', 'CHAPTER', 'PROJECTNOTE', 'PROJECTVAR',
          'ScID', 'CharID', 'LocID', 'ItemID']
OPTIONAL = sorted({x.split('>')[0].strip('/') for x in ywriter_file().split('<') if x and x[0].isalpha()} - set(NEEDED) - {'HTM', 'SPAN LANG="de-DE"'})

NUMBERS = ['Hour', 'Minute', 'Status']


def rated(n):
    """A scene without rating has the rating 1."""
    for s in n.scenes.values():
        for a in ('field1', 'field2', 'field3', 'field4'):
            if not getattr(s, a):
                setattr(s, a, '1')
    return n


@harness(cases={s or 'export': {'suffix': s} for s in EXPORTS})
def sparse(e, suffix):
    """Any kind of optional data is missing or empty everywhere: the project is read and exported, and the unchanged document changes nothing."""
    p = e.path('p.yw7')
    doc = re.sub('<Field_(Language|Country)Code>.*?>', '', ywriter_file())
    tag = e.choose('tag', OPTIONAL)
    new = f'<{tag}></{tag}>' if e.flag('empty') else ''
    doc = re.sub(f'<{tag}>.*?</{tag}>|<{tag}/>', new, doc, flags=re.S)
    e.put(p, doc)
    if new and tag in NUMBERS:
        # A value that is not a number can be refused.
        if refused(p):
            before = files(e)
            c, ui = convert(p, suffix)
            e.check(c.newFile is None and len(ui.how) == 1 and ui.how[0].startswith('!') and len(ui.how[0]) > 1, 'error reported')
            e.equal(files(e), before, 'no file changes')
            return
    n = load(p).novel
    lang = n.languageCode, n.countryCode, n.languages
    languageless = not (n.languageCode and n.languages)
    before = everything_of(rated(n))
    c, ui = convert(p, suffix)
    e.equal(ui.how, [f'File written: "{e.path(doc_name("p", suffix))}".'], 'message')
    if suffix in IMPORTS:
        d = c.newFile
        c, ui = convert(d)
        e.equal(ui.how, [f'File written: "{p}".'], 'message of the import')
        n = load(p).novel
        if languageless:
            # A document has a language; a project without one gets it.
            n.languageCode, n.countryCode, n.languages = lang
        e.equal(everything_of(rated(n)), before, 'everything')


@harness(cases={'export': {'how': 'export'}, 'import': {'how': 'import'}})
def truncated(e, how):
    """A project cut off anywhere is rejected with a message, and nothing is written."""
    p = e.path('p.yw7')
    save(p, project_text())
    if how == 'import':
        convert(p, '_manuscript')
    doc = e.get(p)
    k = e.int('k', 0, 39)
    cut = 0
    for i in range(40):
        if k == i:
            cut = len(doc.rstrip()) * i // 40
    e.put(p, doc[:cut])
    before = files(e)
    if how == 'export':
        c, ui = convert(p, '_manuscript')
    else:
        c, ui = convert(e.path('p_manuscript.odt'))
    e.check(c.newFile is None, 'no file reported')
    e.check(len(ui.how) == 1 and ui.how[0].startswith('!') and len(ui.how[0]) > 1, 'error reported')
    e.equal(files(e), before, 'no file changes')
    e.check(refused(p), 'the error is reported to an application')


def refused(p):
    """An application that reads the file gets the error the class announces."""
    try:
        load(p)
    except Error as ex:
        return str(ex) != ''
    return False


SECTIONS = ['PROJECT', 'LOCATIONS', 'ITEMS', 'CHARACTERS', 'PROJECTNOTES', 'PROJECTVARS', 'SCENES', 'CHAPTERS']


@harness(cases={s: {'section': s} for s in SECTIONS})
def incomplete(e, section):
    """A file without a section is read without it, or rejected with a message."""
    p = e.path('p.yw7')
    save(p, project_text())
    doc = e.get(p)
    a = doc.index(f'<{section}')
    end = f'</{section}>'
    b = doc.index(end) + len(end) if end in doc else doc.index('/>', a) + 2
    how = e.choose('how', ['missing', 'renamed', 'other root'])
    if how == 'missing':
        doc = doc[:a] + doc[b:]
    elif how == 'renamed':
        doc = doc.replace(f'<{section}', f'<X{section}').replace(end, f'</X{section}>')
    else:
        doc = doc[:a] + doc[b:].replace('YWRITER7', 'YWRITER8')
        doc = doc.replace('<YWRITER7', '<YWRITER8')
    e.put(p, doc)
    before = files(e)
    try:
        f = load(p)
    except Error as ex:
        e.check(str(ex) != '', 'message')
        c, ui = convert(p, '_manuscript')
        e.check(c.newFile is None and len(ui.how) == 1 and ui.how[0].startswith('!') and len(ui.how[0]) > 1, 'error reported')
        e.equal(files(e), before, 'no file changes')
    else:
        kind = {'PROJECTNOTES': 'note', 'LOCATIONS': 'location', 'ITEMS': 'item', 'CHARACTERS': 'character'}.get(section)
        want = [x for x in text_snapshot(project_text()) if x[0] != kind]
        if section != 'PROJECT':
            e.equal([x for x in text_snapshot(f.novel) if x[0] != kind], want, 'the other data')


@harness(cases={'': {}})
def bad_bytes(e):
    """A file in no known encoding is rejected with a message."""
    p = e.path('p.yw7')
    save(p, project_text())
    doc = e.get(p).encode('utf-8')
    bad = e.choose('bad', [b'\xff', b'\xc3', b'\x80\x80', b'\xed\xa0\x80', b'\xe4'])
    i = e.choose('at', [0, 1, 60, 200, len(doc) - 1])
    head = e.choose('head', [b'', b'<?xml version="1.0" encoding="iso-8859-1"?>\n'])
    if head:
        doc = head + doc[doc.index(b'\n') + 1:]
    with open(p, 'wb') as f:
        f.write(doc[:i] + bad + doc[i:])
    before = files(e)
    c, ui = convert(p, '_manuscript')
    if c.newFile is None:
        e.check(len(ui.how) == 1 and ui.how[0].startswith('!') and len(ui.how[0]) > 1, 'error reported')
        e.check('xmlText' not in ui.how[0], 'the message names the problem')
        e.equal(files(e), before, 'no file changes')
    else:
        ET.fromstring(unzip(c.newFile))


@harness(cases={'le': {'codec': 'utf-16-le'}, 'be': {'codec': 'utf-16-be'}})
def bad_utf16(e, codec):
    """An UTF-16 file that is damaged is rejected, and never read with some of the text missing."""
    p = e.path('p.yw7')
    n = project_text()
    n.scenes['1'].sceneContent = 'Qa' + e.text('t', 1, 'lower') + 'Z'
    save(p, n)
    doc = e.get(p)
    what = e.choose('what', ['half', 'pair', 'end'])
    if what == 'end' and e.choose('header', [False, True]):
        doc = doc.replace('encoding="utf-8"', 'encoding="utf-16"')
    raw = doc.encode(codec)
    if what == 'pair':
        bad = '\ud800'.encode(codec, 'surrogatepass')
    else:
        bad = b'' if what == 'end' else b'x'
    i = len(raw) - 1 if what == 'end' else raw.index('Qa'.encode(codec)) + 2
    with open(p, 'wb') as f:
        f.write((b'\xff\xfe' if codec == 'utf-16-le' else b'\xfe\xff') + raw[:i] + bad + (b'' if what == 'end' else raw[i:]))
    before = files(e)
    c, ui = convert(p, '_manuscript')
    e.equal(c.newFile, None, 'document from a damaged project')
    e.check(len(ui.how) == 1 and ui.how[0].startswith('!') and len(ui.how[0]) > 1, 'error reported')
    e.equal(files(e), before, 'no file changes')
    e.check(refused(p), 'the error is reported to an application')


@harness(cases={'': {}})
def times(e):
    """Scenes with all ways to state when they happen."""
    scene_times(e)
