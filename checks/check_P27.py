"""P27: purging removes exactly this software's own data and the language marks, and tells whether anything was lost."""
import os
import xml.etree.ElementTree as ET
from engine.env import harness, minus, chars
from engine import iset
from checks_lib import *
from pywriter.yw.yw7_purge import reset_custom_variables, remove_language_tags

BOUNDS = ('all custom fields of projects, scenes, characters, locations and items (and of chapters and notes in an application that defines some), each missing, empty or with a text of '
          'one arbitrary character; texts of up to five pieces (marks, parts of marks, arbitrary characters) in up to two scenes')
ASSUMPTIONS = ['language codes contain no brackets and no line breaks']


class Extended(Yw7File):
    """An application with custom fields of its own."""
    CHP_KWVAR = ['Field_OwnChapter', 'Field_Second']
    PNT_KWVAR = ['Field_OwnNote', 'Field_Second']


FIELDS = {'project': Yw7File.PRJ_KWVAR, 'scene': Yw7File.SCN_KWVAR, 'character': Yw7File.CRT_KWVAR, 'location': Yw7File.LOC_KWVAR, 'item': Yw7File.ITM_KWVAR,
          'chapter': Extended.CHP_KWVAR, 'note': Extended.PNT_KWVAR}


def project(e, cls=Extended, name='p.yw7'):
    f = cls(e.path(name))
    f.novel = small_novel()
    add_scene(f.novel, '9', 'Of no chapter')
    return f


def fields(novel):
    """All custom fields with a value."""
    out = []
    for kind in FIELDS:
        table = {'project': {'': novel}, 'chapter': novel.chapters, 'scene': novel.scenes, 'character': novel.characters, 'location': novel.locations, 'item': novel.items,
                 'note': novel.projectNotes}[kind]
        for i in table:
            for k in table[i].kwVar:
                if table[i].kwVar[k]:
                    out.append([kind, i, k, table[i].kwVar[k]])
    return out


@harness(cases={k: {'kind': k} for k in FIELDS})
def reset(e, kind):
    """All recognised fields and nothing else."""
    f = project(e)
    x = f.novel.scenes['9'] if kind == 'scene' and e.flag('loose') else entity(f.novel, kind)
    if kind in ('chapter', 'character', 'location', 'item', 'note') and e.flag('unsorted'):
        # an element that is in no list
        table = {'chapter': f.novel.chapters, 'character': f.novel.characters, 'location': f.novel.locations, 'item': f.novel.items, 'note': f.novel.projectNotes}[kind]
        order = {'chapter': f.novel.srtChapters, 'character': f.novel.srtCharacters, 'location': f.novel.srtLocations, 'item': f.novel.srtItems, 'note': f.novel.srtPrjNotes}[kind]
        order.remove([i for i in table if table[i] is x][0])
    own = FIELDS[kind]
    changed = False
    for i, k in enumerate(own):
        v = e.choose(k, ['missing', None, '', 'text'])
        if v == 'text':
            v = e.char(f't{i}', 'xml') + 'x'
            changed = True
        if v != 'missing':
            x.kwVar[k] = v
    foreign = e.flag('foreign')
    if foreign:
        x.kwVar['Field_Foreign'] = 'f' + e.char('f', 'xml')
    other = e.choose('other', list(FIELDS))
    if other != kind and e.flag('also'):
        entity(f.novel, other).kwVar[FIELDS[other][-1]] = 'y'
        changed = True
    before = text_snapshot(f.novel)
    keep = [y for y in fields(f.novel) if y[2] == 'Field_Foreign']
    if kind == 'scene' and e.flag('variables'):
        x.scnArcs, x.scnMode = e.choose('arcs', [None, '', 'A']), e.choose('mode', [None, 0, 2])
        changed = changed or x.scnArcs == 'A' or x.scnMode == 2
    e.equal(reset_custom_variables(f), changed, 'something was lost')
    e.equal(fields(f.novel), keep, 'remaining fields')
    e.equal(text_snapshot(f.novel), before, 'texts')
    e.check(not x.scnArcs and not x.scnMode if kind == 'scene' else True, 'variables of the fields')
    e.equal(reset_custom_variables(f), False, 'nothing more to remove')


STORED = ['scene', 'character', 'location', 'item', 'chapter']


@harness(cases={f'{k},{i}': {'kind': k, 'i': i} for k in STORED for i in range(len(FIELDS[k]))})
def stored(e, kind, i):
    """The fields disappear from the project file, everything else stays."""
    f = project(e)
    f.write()
    plain = e.get(f.filePath)
    k = FIELDS[kind][i]
    x = entity(f.novel, kind)
    x.kwVar[k] = e.char('t', 'xml') + 'x' if k != 'Field_SceneMode' else ''
    if e.flag('user'):
        # a custom field of yWriter or another application
        tag = {'project': 'PROJECT', 'chapter': 'CHAPTER', 'scene': 'SCENE'}.get(kind)
        if tag:
            start = plain.index('<Fields>', plain.index('<' + tag + '>')) + 8 if '<Fields>' in plain[plain.index('<' + tag + '>'):plain.index('</' + tag + '>')] else None
            if start:
                e.put(f.filePath, plain[:start] + '<Field_User>u</Field_User>' + plain[start:])
                plain = e.get(f.filePath)
    g = Extended(f.filePath)
    g.novel = Novel()
    g.read()
    if k == 'Field_SceneMode':
        x.kwVar[k] = str(e.int('mode', 1, 3))
    entity(g.novel, kind).kwVar[k] = x.kwVar[k]
    g.write()
    e.check(('<' + k + '>' in e.get(f.filePath)) or ('<' + k + '><![CDATA[' in e.get(f.filePath)), 'the field is in the file')
    h = Extended(f.filePath)
    h.novel = Novel()
    h.read()
    e.equal(norm_eol(entity(h.novel, kind).kwVar[k]), norm_eol(x.kwVar[k]), 'the field is read')
    e.equal(reset_custom_variables(h), True, 'something was lost')
    h.write()
    text = e.get(f.filePath)
    e.check('<' + k not in text, 'the field has disappeared')
    e.equal('Field_User' in text, 'Field_User' in plain, 'fields of others')
    a, b = load(f.filePath).novel, project(e).novel
    a, b = text_snapshot(a), text_snapshot(b)
    e.equal(a, b, 'texts')


PIECES = ['a', 't', '[lang=de-DE]', '[/lang=de-DE]', '[lang=t]', '[/lang=t]', '[i]', '[lang', '=]']


def strip_marks(text):
    """The text without language marks."""
    out = ''
    i = 0
    while i < len(text):
        for head in ('[lang=', '[/lang='):
            if text[i:i + len(head)] == head:
                j = text.find(']', i)
                k = text.find('\n', i)
                if j > 0 and not 0 <= k < j:
                    i = j + 1
                    break
        else:
            out += text[i]
            i += 1
    return out


@harness(cases={f'{k},{p}': {'k': k, 'first': p} for k in (2, 3) for p in PIECES}, thorough={f'{k},{p}': {'k': k, 'first': p} for k in (4,) for p in PIECES})
def languages(e, k, first):
    """Exactly the marks disappear."""
    c = e.char('c', minus('xml', '[]\n'))
    nov = small_novel('')
    text = ''.join(first if i == 0 else e.choose(f'p{i}', PIECES) for i in range(k)).replace('t', c)
    nov.scenes['1'].sceneContent = text
    nov.scenes['2'] = Scene()
    other = e.choose('other', [None, 'plain', '[lang=fr-FR]x\n[/lang=fr-FR] y'])
    if other is not None:
        nov.scenes['2'].sceneContent = other
    before = [x for x in text_snapshot(nov) if x[2] != 'sceneContent']
    want = strip_marks(text)
    lost = remove_language_tags(nov)
    e.equal(nov.scenes['1'].sceneContent, want, 'text')
    e.equal(nov.scenes['2'].sceneContent, other if other is None else strip_marks(other), 'other text')
    e.equal(lost, text != want or other == '[lang=fr-FR]x\n[/lang=fr-FR] y', 'something was changed')
    e.equal([x for x in text_snapshot(nov) if x[2] != 'sceneContent'], before, 'other texts')
    for x in nov.scenes.values():
        y = Scene()
        if x.sceneContent is not None:
            y.sceneContent = x.sceneContent
        e.equal([x.wordCount, x.letterCount], [y.wordCount, y.letterCount], 'counts')
