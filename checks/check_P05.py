"""P05: a project locked by yWriter is neither read nor changed; the lock is reported."""
from engine.env import harness, minus, chars
from checks_lib import *

BOUNDS = ('the lock file appears or disappears before any step of read - edit - save - save, with any content; all 17 exports '
          'and 14 imports with the lock present or absent; a lock of another project is present or absent')
ASSUMPTIONS = ['the lock file does not appear between the check and the end of one read or save']


def set_lock(e, p, on, text=''):
    if on:
        e.put(p + '.lock', text)
    elif os.path.isfile(p + '.lock'):
        os.remove(p + '.lock')


@harness(cases={'': {}})
def sessions(e):
    """Any locking history over a session: every locked step fails and changes nothing."""
    p = e.path('p.yw7')
    nov = small_novel()
    nov.desc = e.text('d', 2, minus('xml', '\r\n'))
    save(p, nov)
    other = e.path('q.yw7')
    if e.flag('other'):
        set_lock(e, other, True)
        e.put(e.path('p.lock'), '')
        e.put(e.path('p.yw7.bak.lock'), '')
    f = Yw7File(p)
    f.novel = nov
    for i in range(4):
        lock = e.flag(f'lock{i}')
        if lock:
            set_lock(e, p, True, e.text(f'l{i}', e.choose(f'n{i}', [0, 1])))
        else:
            set_lock(e, p, False)
        step = ['read', 'write', 'write', 'read'][i]
        if step == 'write':
            f.novel.title = f'Title {i}'
        before = files(e)
        try:
            if step == 'read':
                g = Yw7File(p)
                g.novel = Novel()
                g.read()
                f = g
            else:
                f.write()
            ok = True
        except Error as ex:
            ok = False
            e.check(str(ex) != '', 'message')
        e.equal(ok, not lock, f'{step} {i} succeeds if and only if the project is not locked')
        if lock or step == 'read':
            e.equal(files(e), before, f'no file changes by step {i} ({step})')
        e.check(f.is_locked() if lock else not f.is_locked(), 'lock query')


@harness(cases={s or 'export': {'suffix': s} for s in EXPORTS})
def export(e, suffix):
    p = e.path('p.yw7')
    nov = rich_novel()
    nov.desc = e.text('d', 1, minus('xml', '\r\n'))
    save(p, nov)
    lock = e.flag('lock')
    set_lock(e, p, lock)
    before = files(e)
    c, ui = convert(p, suffix)
    if lock:
        e.check(c.newFile is None, 'no file reported')
        e.check(len(ui.how) == 1 and ui.how[0].startswith('!'), 'error reported')
        e.equal(files(e), before, 'no file changes')
    else:
        e.equal(c.newFile, doc_name(e.path('p'), suffix), 'file written')
        e.check(os.path.isfile(c.newFile), 'the document exists')


@harness(cases={s: {'suffix': s} for s in IMPORTS})
def import_(e, suffix):
    p = e.path('p.yw7')
    nov = rich_novel()
    nov.title = 'T' + e.text('d', 1, minus('xml', '\r\n'))
    save(p, nov)
    convert(p, suffix)
    lock = e.flag('lock')
    set_lock(e, p, lock)
    before = files(e)
    c, ui = convert(doc_name(e.path('p'), suffix))
    if lock:
        e.check(c.newFile is None, 'no file reported')
        e.check(len(ui.how) == 1 and ui.how[0].startswith('!'), 'error reported')
        e.equal(files(e), before, 'no file changes')
    else:
        e.equal(c.newFile, p, 'project written')


@harness()
def new_project(e):
    """A lock file without a project file (yWriter is creating the project): nothing is written."""
    p = e.path('p.yw7')
    lock = e.flag('lock')
    set_lock(e, p, lock, e.text('l', 1))
    f = Yw7File(p)
    f.novel = small_novel()
    f.novel.desc = e.text('d', 1, minus('xml', '\r\n'))
    before = files(e)
    try:
        f.write()
        ok = True
    except Error as ex:
        ok = False
        e.check(str(ex) != '', 'message')
    e.equal(ok, not lock, 'the new project is written if and only if it is not locked')
    if lock:
        e.equal(files(e), before, 'no file changes')
    else:
        e.equal(load(p).novel.desc, f.novel.desc, 'the new project')
