"""P18: which file is written is determined by the name of the source and the requested document type."""
from engine.env import harness, minus, chars
from checks_lib import *
from pywriter.converter.yw7_converter import Yw7Converter
from pywriter.converter.yw7_exporter import Yw7Exporter
from pywriter.converter.yw7_importer import Yw7Importer

BOUNDS = ('directory and file names with up to thirteen arbitrary characters between fixed ones; requested document types of up to thirteen arbitrary '
          'characters; all 17 exports, all 14 imports and new projects; every name of a document, every extension of three characters')
ASSUMPTIONS = ['names contain no slash and no backslash', 'extensions are in lower case']
NAME = minus('line', '/\\')
SAFE = chars('abcdefghijklmnopqrstuvwxyz0123456789_-~')
NEVER = ['_xref', '_brf_synopsis']


def project(e, d, base):
    d = e.path(d)
    if not os.path.isdir(d):
        os.mkdir(d)
    p = os.path.join(d, base + '.yw7')
    n = small_novel()
    n.title = 'Title of ' + base[:1]
    save(p, n)
    return p


def added(e, before):
    now = files(e)
    for f in before:
        e.check(f in now, 'no file vanishes')
    return [f for f in now if f not in before], [f for f in before if f in now and now[f] != before[f]]


def where(p):
    return p.replace('//', '/')


LENGTHS = {'_xref': 5, '_todo': 5}


@harness(cases={f'{s or "export"},{w}': {'suffix': s, 'place': w} for s in EXPORTS for w in ('dir', 'base', 'any')})
def export(e, suffix, place):
    """The document is named like the project and lies beside it."""
    t = e.text('t', max(len(suffix), 4), SAFE) if place != 'any' else e.text('t', 1, NAME)
    d, b = ('D' + t + 'E', 'base') if place == 'dir' else ('D' + t if place == 'any' else 'Dir.x', 'B.1' + t + 'C')
    p = project(e, d, b)
    before = files(e)
    c, ui = convert(p, suffix)
    want = os.path.join(e.path(d), doc_name(b, suffix))
    e.equal(c.newFile, want, 'path of the new file')
    new, changed = added(e, before)
    e.equal(new, [d + '/' + doc_name(b, suffix)], 'the only new file')
    e.equal(changed, [], 'changed files')
    e.equal(ui.how, [f'File written: "{want}".'], 'message')


@harness(cases={f'{s},{w}': {'suffix': s, 'place': w} for s in IMPORTS for w in ('dir', 'base', 'end', 'any')})
def import_(e, suffix, place):
    """The document is written back to the project it was exported from, and to no other one."""
    k = len(suffix)
    t = e.text('t', k, SAFE) if place != 'any' else e.text('t', 1, NAME)
    d, b = {'dir': ('D' + t + 'E', 'base'), 'any': ('D' + t, 'b' + t), 'base': ('Dir.x', 'B.1' + t + 'C'), 'end': ('Dir', 'B' + t)}[place]
    p = project(e, d, b)
    c, ui = convert(p, suffix)
    doc = os.path.join(e.path(d), doc_name(b, suffix))
    os.path.isfile(doc) or e.check(False, 'document written')
    decoys = [project(e, d, x) for x in ('B', 'C', 'E')]
    before = files(e)
    nov = load(p).novel
    nov.title = 'Changed'
    c, ui = convert(doc)
    e.equal(ui.how, [f'File written: "{p}".'], 'message')
    e.equal(c.newFile, p, 'project written')
    new, changed = added(e, before)
    e.equal(new, [d + '/' + b + '.yw7.bak'], 'new files')
    e.equal([x for x in changed if x != d + '/' + b + '.yw7'], [], 'other files changed')


def kind_of(name, ext):
    """Independent description of the dispatch: what happens to a file of this name."""
    if ext == 'yw7':
        return 'export'
    for s in IMPORTS:
        if name.endswith(s) and ext == ('ods' if s in LISTS else 'odt'):
            return s
    for s in NEVER:
        if name.endswith(s):
            return 'never'
    return 'new' if ext == 'odt' else 'unknown'


DISPATCH = [('odt', 7), ('odt', 13), ('ods', 10), ('', 1), ('', 6)]


@harness(cases={f'{x},{k}': {'ext': x, 'k': k} for x, k in DISPATCH},
         thorough={f'{x},{k}': {'ext': x, 'k': k} for x in ('odt', 'ods', '') for k in range(5, 14) if (x, k) not in DISPATCH})
def dispatch(e, ext, k):
    """Any name, any extension: the kind of conversion (without a project beside the document)."""
    name = 'B' + e.text('t', k, SAFE)
    x = ext or e.text('x', 3, 'lower')
    doc = e.path(name + '.' + x)
    e.put(doc, 'no document')
    before = files(e)
    c, ui = convert(doc, '_manuscript')
    want = kind_of(name, x)
    text = {'export': None, 'never': '!This document is not meant to be written back.', 'new': f'!Cannot read file: "{doc}".',
            'unknown': f'!File type is not supported: "{doc}".'}.get(want, '!No yWriter project to write.')
    e.equal(len(ui.how), 1, 'one message')
    if text:
        e.equal(ui.how, [text], 'message')
    else:
        e.check(ui.how[0].startswith('!'), 'damaged project')
    e.equal(c.newFile, None, 'nothing written')
    e.equal(files(e), before, 'no file changed')


@harness(cases={f'{k}': {'k': k} for k in (0, 1, 5, 6, 7, 8, 10, 11, 13)})
def requested(e, k):
    """Any requested document type: an export of this type or an error."""
    p = e.path('p.yw7')
    save(p, small_novel())
    s = e.text('s', k, NAME)
    before = files(e)
    c, ui = convert(p, s)
    if s in EXPORTS:
        e.equal(c.newFile, e.path(doc_name('p', s)), 'new file')
        e.equal(ui.how, [f'File written: "{c.newFile}".'], 'message')
    else:
        e.equal(c.newFile, None, 'nothing written')
        e.equal(ui.how, [f'!Export type is not supported: "{s}".'], 'message')
        e.equal(files(e), before, 'no file changed')


@harness(cases={'': {}})
def missing(e):
    """Missing files and missing types are reported."""
    name = 'B' + e.text('t', 5, NAME) + e.choose('x', ['.yw7', '.odt', '.ods', '_scenes.odt', ''])
    cls = e.choose('cls', [Yw7Converter, Yw7Exporter, Yw7Importer])
    before = files(e)
    c, ui = convert(e.path(name), e.choose('s', ['', '_proof', 'x', None]), cls=cls)
    e.equal(ui.how, [f'!File not found: "{e.path(name)}".'], 'message')
    e.equal([c.newFile, ui.what, ui.questions], [None, [], []], 'nothing done')
    e.equal(files(e), before, 'no file changed')


@harness(cases={'': {}})
def one_way(e):
    """Exporters do not import and importers do not export; both report it."""
    p = e.path('p.yw7')
    nov = rich_novel()
    nov.scenes['1'].sceneContent = 'a' + e.text('t', 1, minus('line', '[]*/ '))
    save(p, nov)
    s = e.choose('s', EXPORTS)
    kind = e.choose('kind', ['export', 'import', 'exporter imports', 'importer exports', 'no type'])
    if kind in ('import', 'exporter imports'):
        convert(p, s)
    before = files(e)
    if kind in ('export', 'importer exports', 'no type'):
        c, ui = convert(p, None if kind == 'no type' else s, cls=Yw7Importer if kind == 'importer exports' else Yw7Exporter)
        if kind == 'export':
            e.equal(c.newFile, e.path(doc_name('p', s)), 'exported')
        else:
            e.equal(ui.how, [f'!Export type is not supported: "{None if kind == "no type" else s}".'], 'message')
    else:
        doc = e.path(doc_name('p', s))
        c, ui = convert(doc, cls=Yw7Importer if kind == 'import' else Yw7Exporter)
        if kind == 'exporter imports':
            e.equal(len(ui.how), 1, 'one message')
            e.check(ui.how[0].startswith('!'), 'reported')
        elif s in IMPORTS:
            e.equal(ui.how, [f'File written: "{p}".'], 'imported')
        elif s in NEVER:
            e.equal(ui.how, ['!This document is not meant to be written back.'], 'refused')
        else:
            e.equal(ui.how, [f'!File already exists: "{p}".'], 'refused')
    if kind in ('exporter imports', 'importer exports', 'no type') or kind == 'import' and s not in IMPORTS:
        e.equal([c.newFile, files(e)], [None, before], 'nothing changed')
