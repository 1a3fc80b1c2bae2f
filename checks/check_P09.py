"""P09: every exported document is well-formed and shows the project's texts unaltered, whatever they contain."""
import xml.etree.ElementTree as ET
import zipfile
from engine.env import harness, minus, chars
from checks_lib import *

BOUNDS = ('every text attribute of every element in each of the 17 documents, holding 2 arbitrary characters (thorough: 3) '
          'inside fixed text; tags, author, file name, language codes; line breaks in multi-line texts; texts of 3000 characters, texts that look like entities, '
          'tags or placeholders; any author and text of comments')
ASSUMPTIONS = ['texts without yWriter markup (language marks: codes without XML special characters); a carriage return counts as white space',
               'white space at the end of a text is not shown; XML characters only']

ATTRS = [(k, a) for k in ENTITIES for a in ENTITIES[k]] + [(k, 'tags') for k in ('scene', 'character', 'location', 'item')]
MARK = 'QxxZ'
FILE_CHARS = ['&', '<', '>', '"', "'", '%', '#', ' ', '.', '$', '\u00e4', '\u6f22']
CACHE = {}
VISIBLE = {}


def target(n, kind, suffix):
    """The element of the kind that the document shows."""
    if kind in ('scene', 'chapter'):
        i = {'_notes': ('4', '3'), '_todo': ('5', '4')}.get(suffix, ('1', '1' if suffix in ('_parts', '') else '2'))
        return entity(n, kind, i[0] if kind == 'scene' else i[1])
    if kind == 'note':
        n.projectNotes['1'] = BasicElement()
        n.srtPrjNotes = ['1']
    return entity(n, kind)


def flat(xml):
    """Elements of an XML document with attributes and texts, in document order."""
    out = []
    for el in ET.fromstring(xml).iter():
        if el.tag.endswith('creation-date'):
            continue
        out.append([el.tag, sorted(el.attrib.items()), el.text or '', el.tail or ''])
    return out


def document(e, suffix, prepare, name='p'):
    nov = rich_novel()
    prepare(nov)
    p = e.path(name + '.yw7')
    save(p, nov)
    c, ui = convert(p, suffix)
    if c.newFile is None:
        raise Error(ui.how[0])
    names = zipfile.ZipFile(c.newFile).namelist()
    return {n: unzip(c.newFile, n) for n in names if n.endswith(('.xml', '.rdf', 'mimetype'))}


def reference(e, key, suffix, prepare):
    if key not in CACHE:
        d = document(e, suffix, prepare)
        CACHE[key] = {n: flat(d[n]) if n != 'mimetype' else d[n] for n in d}
        VISIBLE[key] = visible(d['content.xml'])
        os.remove(doc_name(e.path('p'), suffix))
        os.remove(e.path('p.yw7'))
    return CACHE[key]


def subst(tree, value):
    return [[t, [(k, v.replace(MARK, value)) for k, v in a], x.replace(MARK, value), y.replace(MARK, value)]
            for t, a, x, y in tree]


def setter(kind, attr, suffix, value):
    def f(n):
        setattr(target(n, kind, suffix), attr, [value] if attr == 'tags' else value)
    return f


def cases(k):
    return {f'{s or "export"},{kind}.{a},{k}': {'suffix': s, 'kind': kind, 'attr': a, 'k': k} for s in EXPORTS
            for kind, a in ATTRS}


@harness(cases=cases(2), thorough=cases(3))
def text(e, suffix, kind, attr, k):
    ref = reference(e, (suffix, kind, attr), suffix, setter(kind, attr, suffix, MARK))
    shown = any(MARK in str(ref[n]) for n in ref)
    dom = '/;*[' if attr in ('tags', 'sceneContent') else '/\t' if attr.startswith('field') else '/'
    value = 'Q' + e.text('t', k if shown else 1, minus('xml', '\r\n' + dom)) + 'Z'
    doc = document(e, suffix, setter(kind, attr, suffix, value))
    e.equal(sorted(doc), sorted(ref), 'parts of the package')
    for n in ref:
        if n == 'mimetype':
            e.equal(doc[n], ref[n], 'media type')
            continue
        got = flat(doc[n])
        e.equal([x[0] for x in got], [x[0] for x in ref[n]], f'elements of {n}')
        if not (suffix == '_scenelist' and attr == 'sceneContent'):
            e.equal(got, subst(ref[n], value), f'texts and attributes of {n}')


def visible(xml):
    """All characters of a document except white space."""
    return ''.join(x for x in ''.join(ET.fromstring(xml).itertext()) if x not in ' \t\n\r')


MULTI = [('scene', 'sceneContent'), ('scene', 'desc'), ('scene', 'notes'), ('scene', 'goal'), ('scene', 'conflict'),
         ('scene', 'outcome'), ('chapter', 'desc'), ('character', 'desc'), ('character', 'bio'), ('character', 'goals'),
         ('character', 'notes'), ('location', 'desc'), ('item', 'desc'), ('project', 'desc')]


@harness(cases={f'{s or "export"},{kind}.{a}': {'suffix': s, 'kind': kind, 'attr': a, 'k': 2} for s in EXPORTS for kind, a in MULTI},
         thorough={f'{s or "export"},{kind}.{a},3': {'suffix': s, 'kind': kind, 'attr': a, 'k': 3} for s in EXPORTS
                   for kind, a in MULTI})
def lines(e, suffix, kind, attr, k):
    """Line breaks at any position."""
    ref = reference(e, (suffix, kind, attr), suffix, setter(kind, attr, suffix, MARK))
    shown = MARK in str(ref['content.xml'])
    dom = ((9, 10), (32, 32), (38, 38), (60, 60), (97, 122))
    value = 'Q' + e.text('t', k if shown else 1, dom)
    e.assume(value[-1] not in ' \t\n')
    doc = document(e, suffix, setter(kind, attr, suffix, value))
    want = ''.join(x for x in value if x not in ' \t\n')
    ET.fromstring(doc['meta.xml'])
    if suffix != '_scenelist' or attr != 'sceneContent':
        e.equal(visible(doc['content.xml']), VISIBLE[(suffix, kind, attr)].replace(MARK, want), 'visible text')
    else:
        ET.fromstring(doc['content.xml'])


@harness(cases={s or 'export': {'suffix': s} for s in EXPORTS})
def file_name(e, suffix):
    """The project file may have any name."""
    key = (suffix, 'name')
    if key not in CACHE:
        d = document(e, suffix, lambda n: None, MARK)
        CACHE[key] = {n: [x[0] for x in flat(d[n])] for n in d if n != 'mimetype'}
    name = 'Q' + e.choose('t', FILE_CHARS) + e.choose('u', FILE_CHARS) + 'Z'
    doc = document(e, suffix, lambda n: None, name)
    for n in CACHE[key]:
        e.equal([x[0] for x in flat(doc[n])], CACHE[key][n], f'elements of {n}')


@harness(cases={s or 'export': {'suffix': s} for s in EXPORTS})
def nothing_set(e, suffix):
    """Missing and empty texts."""
    v = e.choose('value', [None, ''])
    some = e.choose('kinds', [[k] for k in ENTITIES] + [list(ENTITIES)])
    kinds = [k in some for k in ENTITIES]

    def prepare(n):
        for k, on in zip(ENTITIES, kinds):
            if on:
                for a in ENTITIES[k]:
                    if a != 'sceneContent' or v is not None:
                        setattr(target(n, k, suffix), a, v)
    doc = document(e, suffix, prepare)
    for n in doc:
        if n != 'mimetype':
            text = ET.fromstring(doc[n])
            e.check('None' not in ''.join(text.itertext()), f'no placeholder for missing texts in {n}')


@harness(cases={s or 'export': {'suffix': s} for s in EXPORTS})
def language(e, suffix):
    """Language marks with odd codes."""
    code = e.text('t', 1, minus('xml', '\r\n[]/*&<>"\'')) + e.choose('c', ['e-DE', 'e'])

    def prepare(n):
        target(n, 'scene', suffix).sceneContent = f'One [lang={code}]two[/lang={code}] three'
    doc = document(e, suffix, prepare)
    for n in doc:
        if n != 'mimetype':
            ET.fromstring(doc[n])
    e.check('settings.xml' in doc, 'complete package')


@harness(cases={f'{s or "export"},{k}': {'suffix': s, 'kind': k} for s in EXPORTS for k in ENTITIES})
def long_texts(e, suffix, kind):
    """All texts of an element are long."""
    attrs = [a for k, a in ATTRS if k == kind]

    def prepare(values):
        def f(n):
            for a, v in zip(attrs, values):
                setattr(target(n, kind, suffix), a, [v] if a == 'tags' else v)
        return f
    marks = [f'{MARK}{i:02}' for i in range(len(attrs))]
    ref = reference(e, (suffix, kind), suffix, prepare(marks))
    t = e.char('t', 'lower')
    values = [f'v{i} ' + 'wx ' * 1000 + t + ' end' for i in range(len(attrs))]
    doc = document(e, suffix, prepare(values))
    for n in ref:
        if n == 'mimetype' or suffix == '_scenelist' and kind == 'scene':
            continue
        want = ref[n]
        for m, v in zip(marks, values):
            want = [[x[0], [(a, y.replace(m, v)) for a, y in x[1]], x[2].replace(m, v), x[3].replace(m, v)] for x in want]
        e.equal(flat(doc[n]), want, f'texts and attributes of {n}')


CODE = ['R&amp;D', '&lt;b&gt;', '<b> x <br>', '&#38;#10;', '$Title ${ID} $$', '%s %d {0} {t}', '\\n \\1 \\g<0>', '<!-- x --> ]]>', '<text:p> <text:s c="2">',
        "it's \"so\"", '<![CDATA[x]]>', '-- > # _ ~ x ~']


@harness(cases={f'{s or "export"},{k}': {'suffix': s, 'kind': k} for s in EXPORTS for k in ENTITIES})
def code_like(e, suffix, kind):
    """Texts that look like entities, tags, placeholders or escape sequences."""
    attrs = [a for k, a in ATTRS if k == kind]

    def prepare(values):
        def f(n):
            for a, v in zip(attrs, values):
                setattr(target(n, kind, suffix), a, [v] if a == 'tags' else v)
        return f
    marks = [f'{MARK}{i:02}' for i in range(len(attrs))]
    ref = reference(e, (suffix, kind), suffix, prepare(marks))
    shown = [i for i, m in enumerate(marks) if any(m in str(ref[n]) for n in ref)]
    c = e.choose('code', CODE if shown else CODE[:1]) + e.char('t', 'lower')
    values = [f'v{i}' + (c.replace(';', ',') if a == 'tags' else c) + 'w' for i, a in enumerate(attrs)]
    doc = document(e, suffix, prepare(values))
    for n in ref:
        if n == 'mimetype' or suffix == '_scenelist' and kind == 'scene' and n == 'content.xml':
            continue
        want = ref[n]
        for m, v in zip(marks, values):
            want = [[x[0], [(a, y.replace(m, v)) for a, y in x[1]], x[2].replace(m, v), x[3].replace(m, v)] for x in want]
        e.equal(flat(doc[n]), want, f'texts and attributes of {n}')


@harness(cases={s or 'export': {'suffix': s} for s in ('', '_manuscript', '_proof', '_notes', '_todo')}, thorough={f'{s or "export"},2': {'suffix': s, 'k': 2} for s in ('', '_manuscript', '_proof', '_notes', '_todo')})
def comments(e, suffix, k=1):
    """Any author's name and any text of comments and notes."""
    def prepare(x, y):
        def f(n):
            n.authorName = x
            target(n, 'scene', suffix).sceneContent = f'One /*{y}*/two/*@fn {y}*/ three\n/*{y}*/four/* @en {y}*/.'
        return f
    ref = reference(e, (suffix, 'comments'), suffix, prepare(MARK, 'QyyZ'))
    a, b = 'Q' + e.text('a', k, minus('xml', '\r\n')) + 'Z', 'Q' + e.text('b', k, minus('xml', '\r\n*/[<>')) + 'Z'
    doc = document(e, suffix, prepare(a, b))
    for n in ref:
        if n != 'mimetype':
            e.equal(flat(doc[n]), [[x[0], [(i, y.replace(MARK, a).replace('QyyZ', b)) for i, y in x[1]], x[2].replace(MARK, a).replace('QyyZ', b),
                                    x[3].replace(MARK, a).replace('QyyZ', b)] for x in ref[n]], f'texts and attributes of {n}')
