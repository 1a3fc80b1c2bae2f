"""P29: conversions do not influence each other; exporting and saving leave the project in memory as it is."""
import shutil
import zipfile
from engine.env import harness, minus, chars
from checks_lib import *
from pywriter.converter.yw7_converter import Yw7Converter
from pywriter.yw.data_files import DataFiles

BOUNDS = ('all 17 documents, project files and data files of a project with elements of every kind and marks, comments, notes, tags of two arbitrary characters; '
          'any of the listed conversions of a different project between two conversions of the same project, with one converter or several ones')
ASSUMPTIONS = ['creating dates in the metadata of documents are left out; the languages and the locale of a project may be completed in memory']
WRITERS = {(c.SUFFIX or 'export'): c for c in Yw7Converter.EXPORT_TARGET_CLASSES}
SAFE = minus('line', '[]/*<>~#| \t')


def everything(n):
    """All attributes of a novel and its elements."""
    out = {}
    for a in vars(n):
        if a in ('languages', 'languageCode', 'countryCode'):
            continue
        v = getattr(n, a)
        if isinstance(v, dict) and a != 'kwVar':
            out[a] = [[k, [[b, copied(getattr(v[k], b))] for b in sorted(vars(v[k]))]] for k in v]
        else:
            out[a] = copied(v)
    return [[k, out[k]] for k in sorted(out)]


class Known:
    """Languages and locale may be completed in memory, but do not get lost."""

    def __init__(self, n):
        self.before = []
        self.check(None, n)

    def check(self, e, n, what=''):
        now = list(n.languages or [])
        locale = [n.languageCode, n.countryCode]
        if e:
            e.equal([l for l in self.before if l not in now], [], 'languages lost ' + what)
            e.equal([y for x, y in zip(self.locale, locale) if x], [x for x in self.locale if x], 'locale ' + what)
        self.before, self.locale = now, locale


def copied(v):
    if isinstance(v, dict):
        return [[k, copied(v[k])] for k in v if v[k] is not None]
    if isinstance(v, (list, tuple)):
        return [copied(x) for x in v]
    return v


def full(t, u, tags=()):
    """A project in which every feature of the documents is used."""
    n = rich_novel('A[i]x' + t + '[/i] /*C' + u + '*/ B\n> quoted [lang=de-DE]D' + t + '[/lang=de-DE]\n\nEnd @fn footnote@ [c]centred[/c]')
    n.scenes['2'].sceneContent = '[b]bold' + u + '[/b]\n- item [lang=fr-FR]F[/lang=fr-FR]'
    n.scenes['3'].appendToPrev = True
    n.scenes['4'].sceneContent = 'N' + t
    n.scenes['5'].sceneContent = 'T' + u
    n.scenes['1'].date = '2020-02-28'
    n.scenes['1'].time = '10:20:00'
    n.scenes['2'].day = '3'
    n.scenes['1'].lastsHours = '2'
    n.scenes['2'].tags = list(tags) + ['t' + u]
    n.scenes['2'].isReactionScene = True
    n.scenes['3'].field1 = '5'
    n.chapters['2'].suppressChapterTitle = True
    n.projectNotes['1'] = BasicElement()
    n.projectNotes['1'].title = 'Note' + t
    n.srtPrjNotes.append('1')
    n.fieldTitle1 = 'Rating' + u
    for d in (n.characters, n.locations, n.items):
        d['1'].desc = 'About ' + t + '\nsecond line'
        d['1'].tags = ['t' + u] + list(tags)
        d['2'].aka = 'Alias'
    n.characters['1'].fullName = 'Full ' + t
    n.characters['1'].goals = 'Goal ' + u
    n.characters['2'].notes = 'Notes'
    return n


def document(p):
    """The members of a document without the time of its creation."""
    out = []
    for name in sorted(zipfile.ZipFile(p).namelist()):
        text = unzip(p, name)
        if name == 'meta.xml':
            for tag in ('meta:creation-date', 'dc:date'):
                a, b = text.find('<' + tag), text.find('</' + tag)
                if a >= 0 and b > a:
                    text = text[:a] + text[b:]
        out.append([name, text])
    return out


@harness(cases={s: {'doc': s} for s in WRITERS})
def memory(e, doc):
    """An export changes nothing in memory; the same object writes the same document again."""
    v = e.text('v', 1, minus('line', ';'))
    n = full(e.text('t', 1, SAFE), e.text('u', 1, SAFE), [v + 'z', 'b', v + 'a'])
    before = everything(n)
    known = Known(n)
    cls = WRITERS[doc]
    p = e.path(doc_name('p', cls.SUFFIX or ''))
    f = cls(p)
    f.novel = n
    f.write()
    e.equal(everything(n), before, 'the project after the export')
    known.check(e, n, 'in the project after the export')
    first = document(p)
    f.write()
    e.equal(document(p), first, 'the document written again')
    e.equal(everything(n), before, 'the project after the second export')
    known.check(e, n, 'in the project after the second export')
    other = cls(e.path(doc_name('q', cls.SUFFIX or '')))
    other.novel = n
    other.write()
    e.equal(len(document(other.filePath)), len(first), 'the document written by another object')


@harness(cases={'project': {'cls': Yw7File}, 'data files': {'cls': DataFiles}})
def saving(e, cls):
    """Saving changes nothing in memory; saving again yields the same files."""
    v = e.text('v', 1, minus('line', ';'))
    n = full(e.text('t', 1, SAFE), e.text('u', 1, SAFE), [v + 'z', 'b', v + 'a'])
    p = e.path('p.yw7')
    if cls is DataFiles:
        save(p, n)
        f = cls(e.path('p.xml'))
    else:
        f = cls(p)
    before = everything(n)
    known = Known(n)
    f.novel = n
    f.write()
    e.equal(everything(n), before, 'the project after saving')
    known.check(e, n, 'in the project after saving')
    first = [[k, v] for k, v in sorted(files(e).items()) if not k.endswith('.bak')]
    f.write()
    e.equal(everything(n), before, 'the project after saving again')
    known.check(e, n, 'in the project after saving again')
    second = [[k, v] for k, v in sorted(files(e).items()) if not k.endswith('.bak')]
    e.equal(second, first, 'the files after saving again')


def other_novel(t):
    """A different project with other languages, tags, notes and authors."""
    n = rich_novel('Other [lang=es-ES]O' + t + '[/lang=es-ES] /*remark*/ [i]it[/i] @en note@')
    n.title = 'Other'
    n.authorName = 'Somebody'
    n.languageCode = 'it'
    n.countryCode = 'IT'
    n.fieldTitle1 = 'Quality'
    n.scenes['2'].tags = ['other' + t]
    n.scenes['1'].isReactionScene = True
    n.characters['1'].tags = ['other']
    n.locations['2'].tags = ['place']
    n.items['2'].tags = ['thing']
    n.scenes['3'].sceneContent = '[b]b[/b]\n[lang=pt-BR]x[/lang=pt-BR]\n> q'
    n.characters['7'] = Character()
    n.characters['7'].title = 'Seventh'
    n.srtCharacters.append('7')
    n.scenes['1'].characters = ['7', '1']
    return n


@harness(cases={s or 'export': {'suffix': s} for s in EXPORTS}, thorough={(s or 'export') + ',deep': {'suffix': s, 'deep': True} for s in EXPORTS})
def exports(e, suffix, deep=False):
    """An export yields the same before and after the conversion of another project."""
    one = e.flag('one converter')
    between = e.choose('between', ['', '_manuscript', '_xref', '_scenelist', '_characters', suffix])
    p, q = e.path('p.yw7'), e.path('q.yw7')
    save(p, full('t', 'u'))
    save(q, other_novel(e.text('t', 1, SAFE if deep else 'lower')))
    c = Yw7Converter()
    c.ui = RecUi()
    c.run(p, suffix=suffix)
    doc = e.path(doc_name('p', suffix))
    e.equal(c.newFile, doc, 'first conversion')
    first = document(doc)
    project = e.get(p)
    d = c if one else Yw7Converter()
    d.ui = RecUi()
    d.run(q, suffix=between)
    e.equal(d.newFile, e.path(doc_name('q', between)), 'conversion of the other project')
    e.equal(document(doc), first, 'the first document')
    os.remove(doc)
    c.run(p, suffix=suffix)
    e.equal(c.newFile, doc, 'second conversion')
    e.equal(document(doc), first, 'the document after another conversion')
    e.equal(e.get(p), project, 'the project')


@harness(cases={s: {'suffix': s} for s in IMPORTS}, thorough={s + ',deep': {'suffix': s, 'deep': True} for s in IMPORTS})
def imports(e, suffix, deep=False):
    """An import yields the same before and after the import into another project."""
    one = e.flag('one converter')
    between = e.choose('between', ['_manuscript', '_proof', '_scenelist', '_characters', suffix])
    p, q = e.path('p.yw7'), e.path('q.yw7')
    save(p, full('t', 'u'))
    save(q, other_novel(e.text('t', 1, SAFE if deep else 'lower')))
    docs = []
    for x, s in ((p, suffix), (q, between)):
        c, ui = convert(x, s)
        docs.append(c.newFile)
    project = e.get(p)
    c = Yw7Converter()
    c.ui = RecUi()
    c.run(docs[0], suffix='')
    e.equal(c.newFile, p, 'first import')
    first = e.get(p)
    e.put(p, project)
    d = c if one else Yw7Converter()
    d.ui = RecUi()
    d.run(docs[1], suffix='')
    e.equal(d.newFile, q, 'import into the other project')
    e.equal(e.get(p), project, 'the project is not touched by another import')
    c.run(docs[0], suffix='')
    e.equal(c.newFile, p, 'second import')
    e.equal(e.get(p), first, 'the project after another import')
