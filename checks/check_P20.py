"""P20: writing a document never damages the previous one, failures are reported, and nothing is left behind."""
import gc
from engine.env import harness, minus, chars
from checks_lib import *
from check_P04 import Schedule

BOUNDS = ('every I/O operation (open, close, mkdir, rename, remove, the 1st, 2nd, 4th, ... write; thorough: every write) of an export, of a failed export followed by a second one, '
          'and of an import, failing with an error or stopping the process after half of the data; documents of every kind')
ASSUMPTIONS = ['an interrupted write leaves a prefix of its data; renaming is atomic']
MAXOPS = 60


def run(e, src, suffix, sched, dense=False):
    """Convert under a fault schedule; return (converter or None, ui or None, result)."""
    e.faults(sched, dense)
    c = ui = None
    try:
        c, ui = convert(src, suffix)
        r = 'ok' if c.newFile else 'reported'
    except Exception:
        r = 'error'
    except BaseException as ex:
        if type(ex).__name__ != 'Crash':
            raise
        r = 'crash'
    e.nofaults()
    if sched.kind == 'crash' and sched.hit:
        r = 'crash'
    return c, ui, r


def read(p):
    """Binary content of a file."""
    if not os.path.isfile(p):
        return None
    with open(p, 'rb') as f:
        return f.read()


def intact(p):
    """The members of a document, or None if it is not a complete package."""
    import zipfile
    try:
        with zipfile.ZipFile(p) as z:
            if z.testzip() is not None:
                return None
            return [[n, z.read(n)] for n in z.namelist() if n != 'meta.xml']
    except Exception:
        return None


DOCS = ['', '_manuscript', '_proof', '_xref', '_characters', '_charlist', '_scenelist']


@harness(cases={f'{s or "export"},{k}': {'suffix': s, 'kind': k} for s in DOCS for k in ('error', 'crash')},
         thorough={f'{s or "export"},{k},dense': {'suffix': s, 'kind': k, 'dense': True, 'maxops': 3000} for s in EXPORTS for k in ('error', 'crash')})
def export(e, suffix, kind, dense=False, maxops=MAXOPS):
    """One fault while a document is exported."""
    p = e.path('p.yw7')
    save(p, rich_novel('a' + e.text('t', 1, 'lower')))
    project = e.get(p)
    doc = e.path(doc_name('p', suffix))
    exists = e.flag('exists')
    if exists:
        e.put(doc, 'previous document')
    s = Schedule(e.int('k', 0, maxops), kind)
    cwd = os.getcwd()
    c, ui, r = run(e, p, suffix, s, dense)
    e.observe('result', [r, s.n])
    e.equal(e.get(p), project, 'the project is not changed')
    e.check(e.get(p + '.bak') is None, 'no backup of the project')
    if kind == 'error' or not s.hit:
        e.equal(os.getcwd(), cwd, 'working directory')
        if c is not None:
            e.equal(len(ui.how), 1, 'one message')
            e.equal(ui.how[0].startswith('!'), r != 'ok', 'the message tells success or failure')
    else:
        os.chdir(cwd)
    if r == 'ok':
        e.check(intact(doc) is not None, 'success is reported for a complete document only')
        if exists:
            e.equal(e.get(doc + '.bak'), 'previous document', 'backup')
    elif exists:
        now = [e.get(doc) if not intact(doc) else '', e.get(doc + '.bak')]
        e.check('previous document' in now, 'the previous document is still there')
        if r != 'crash':
            e.equal(e.get(doc), 'previous document', 'the previous document is in place')
    elif r != 'crash':
        e.check(not os.path.exists(doc), 'no incomplete document is left')
    if not s.hit:
        e.check(r == 'ok', 'export without fault')
        e.check(s.n < maxops, 'all operations are covered')
        del c
        gc.collect()
        e.equal(os.listdir(e.path('tmp')), [], 'no temporary files left')
    for x in os.listdir(e.dir):
        e.check(x in ('p.yw7', 'tmp', os.path.basename(doc), os.path.basename(doc) + '.bak'), f'no stray file {x}')


@harness(cases={f'{s or "export"}': {'suffix': s} for s in ('', '_proof', '_itemlist')},
         thorough={f'{s or "export"}': {'suffix': s} for s in EXPORTS if s not in ('', '_proof', '_itemlist')})
def retry(e, suffix):
    """A failed export is repeated, with the same file object or a new conversion."""
    from pywriter.converter.yw7_converter import Yw7Converter
    p = e.path('p.yw7')
    save(p, rich_novel('a' + e.text('t', 1, 'lower')))
    convert(p, suffix)
    doc = e.path(doc_name('p', suffix))
    want = intact(doc)
    old = e.flag('old')
    if not old:
        os.remove(doc)
    c = Yw7Converter()
    f = c.exportTargetFactory.make_file_objects(p, suffix=suffix)[1]
    f.novel = load(p).novel
    s = Schedule(e.int('k', 0, MAXOPS), 'error')
    e.faults(s)
    try:
        f.write()
        ok = True
    except Exception:
        ok = False
    e.nofaults()
    e.assume(s.hit)
    e.equal(f.filePath, doc, 'path of the document after the failure')
    if not ok:
        e.equal(intact(doc), want if old else None, 'the previous document after the failure')
    if e.flag('same'):
        f.novel = load(p).novel
        f.write()
    else:
        c, ui = convert(p, suffix)
        e.equal(c.newFile, doc, 'second export')
    e.equal(intact(doc), want, 'the document after the second export')


@harness(cases={f'{s},{k}': {'suffix': s, 'kind': k} for s in ('_manuscript', '_charlist') for k in ('error', 'crash')},
         thorough={f'{s},{k}': {'suffix': s, 'kind': k} for s in IMPORTS if s not in ('_manuscript', '_charlist') for k in ('error', 'crash')})
def import_(e, suffix, kind):
    """One fault while a document is imported: project and document survive."""
    p = e.path('p.yw7')
    save(p, rich_novel('a' + e.text('t', 1, 'lower')))
    convert(p, suffix)
    doc = e.path(doc_name('p', suffix))
    project, document = e.get(p), read(doc)
    s = Schedule(e.int('k', 0, MAXOPS), kind)
    c, ui, r = run(e, doc, None, s)
    e.check(document == read(doc), 'the document is not changed')
    if r == 'ok':
        e.check(not ui.how[0].startswith('!'), 'success is reported')
        e.equal(len(load(p).novel.srtChapters), 5, 'complete project')
        e.equal(e.get(p + '.bak'), project, 'backup')
    else:
        e.check(project in (e.get(p), e.get(p + '.bak')), 'the previous project is still there')
        if r != 'crash':
            e.equal(e.get(p), project, 'the project is in place')
            e.check(ui is not None and ui.how[0].startswith('!'), 'failure is reported')
    if not s.hit:
        e.check(r == 'ok', 'import without fault')
        e.check(s.n < MAXOPS, 'all operations are covered')


@harness(cases={f'{s}': {'suffix': s} for s in ('', 'outline')})
def new_project(e, suffix):
    """One fault while a project is created: the document survives, the failure is reported."""
    p = e.path('p.yw7')
    save(p, rich_novel('a' + e.text('t', 1, 'lower')))
    convert(p, '')
    doc = e.path('new.odt')
    os.replace(e.path('p.odt'), doc)
    document = read(doc)
    s = Schedule(e.int('k', 0, MAXOPS), e.choose('kind', ['error', 'crash']))
    c, ui, r = run(e, doc, None, s)
    e.check(document == read(doc), 'the document is not changed')
    if r == 'ok':
        e.equal(len(load(e.path('new.yw7')).novel.srtChapters), 2, 'complete project')
    elif r != 'crash':
        e.check(ui is not None and ui.how[0].startswith('!'), 'failure is reported')
    if not s.hit:
        e.check(r == 'ok', 'creation without fault')
