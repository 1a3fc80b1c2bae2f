"""P04: a failed or interrupted save never loses the previous project and is never reported as success."""
import os
from engine.env import harness, minus, chars
from checks_lib import *

BOUNDS = ('every I/O operation (open, close, rename, remove, the 1st, 2nd, 4th, ... write; thorough: every write) of one save and of a failed save followed by a second '
          'one, each failing with an error or stopping the process after half of the data; old text of 2 characters')
ASSUMPTIONS = ['an interrupted write leaves a prefix of its data; renaming is atomic; deleting and renaming are not undone']

MAXOPS = 40


class Schedule:
    """Fail the k-th I/O operation."""

    def __init__(self, k, kind):
        self.k = k
        self.kind = kind
        self.n = 0
        self.hit = False

    def __call__(self, op, path):
        i = self.n
        self.n += 1
        if self.k == i:
            self.hit = True
            return self.kind
        return None


def attempt(e, f, sched, dense=False):
    """Save with a fault schedule; return 'ok', 'error' or 'crash'."""
    e.faults(sched, dense)
    try:
        f.write()
        r = 'ok'
    except Exception:
        r = 'error'
    except BaseException as ex:
        if type(ex).__name__ != 'Crash':
            raise
        r = 'crash'
    e.nofaults()
    return r


def contents(e, p):
    return [e.get(p), e.get(p + '.bak')]


@harness(cases={'error': {'kind': 'error'}, 'crash': {'kind': 'crash'}},
         thorough={'error,dense': {'kind': 'error', 'dense': True, 'maxops': 2000}, 'crash,dense': {'kind': 'crash', 'dense': True, 'maxops': 2000}})
def one_fault(e, kind, dense=False, maxops=MAXOPS):
    p = e.path('p.yw7')
    nov = small_novel('Old text')
    nov.desc = 'old ' + e.text('t', 2, minus('xml', '\r\n]'))
    save(p, nov)
    old = e.get(p)
    f = load(p)
    f.novel.desc = 'new'
    f.novel.scenes['1'].sceneContent = 'New text'
    k = e.int('k', 0, maxops)
    s = Schedule(k, kind)
    r = attempt(e, f, s, dense)
    e.observe('result', [r, s.n])
    now = contents(e, p)
    if s.hit:
        e.check(r != 'ok', 'a failed save is reported')
        e.check(old in now, 'the previous project is still there, under its name or as backup')
        if r == 'error':
            e.check(now[0] is not None, 'after an error there is a project file')
            e.equal(now[0], old, 'after an error the project file is the previous one')
    else:
        e.check(r == 'ok', 'save without fault')
        e.check(s.n < maxops, 'all operations are covered')
        e.equal(now[1], old, 'the backup is the previous project')
        e.equal(load(p).novel.scenes['1'].sceneContent, 'New text', 'new content')
        e.equal(load(p).novel.desc, 'new', 'new description')
    left = sorted(os.listdir(e.dir))
    for x in left:
        e.check(x in ('p.yw7', 'p.yw7.bak', 'tmp'), f'no stray file {x}')


@harness(cases={'': {}})
def two_faults(e):
    """A save fails; the user tries again, and that may fail, too, or the process is stopped."""
    p = e.path('p.yw7')
    save(p, small_novel('Old text'))
    old = e.get(p)
    f = load(p)
    f.novel.scenes['1'].sceneContent = 'New text'
    s1 = Schedule(e.int('k1', 0, MAXOPS), 'error')
    r1 = attempt(e, f, s1)
    e.assume(s1.hit)
    e.check(r1 == 'error', 'a failed save is reported')
    s2 = Schedule(e.int('k2', 0, MAXOPS), e.choose('kind2', ['error', 'crash']))
    r2 = attempt(e, f, s2)
    now = contents(e, p)
    if s2.hit:
        e.check(r2 != 'ok', 'the second failure is reported')
        e.check(old in now, 'the previous project is still there after two failures')
    else:
        e.check(r2 == 'ok', 'the second save succeeds')
        e.equal(load(p).novel.scenes['1'].sceneContent, 'New text', 'new content after the second try')


@harness(cases={'': {}})
def new_project(e):
    """Creating a project: a fault is reported and other files are left alone."""
    p = e.path('p.yw7')
    other = e.path('p.odt')
    e.put(other, 'document')
    f = Yw7File(p)
    f.novel = small_novel()
    s = Schedule(e.int('k', 0, MAXOPS), e.choose('kind', ['error', 'crash']))
    r = attempt(e, f, s)
    if s.hit:
        e.check(r != 'ok', 'a failed save is reported')
    else:
        e.check(r == 'ok', 'save without fault')
        e.equal(load(p).novel.title, 'Project', 'new project')
        e.check(e.get(p + '.bak') is None, 'no backup of a new project')
    e.equal(e.get(other), 'document', 'other files')


@harness(cases={'': {}})
def history(e):
    """Any sequence of three saves: the backup is always the state before."""
    p = e.path('p.yw7')
    save(p, small_novel('zero'))
    prev = e.get(p)
    f = load(p)
    for i in range(3):
        f.novel.scenes['1'].sceneContent = e.text(f't{i}', 1, ((97, 122),)) + str(i)
        if e.flag(f'reload{i}'):
            c = f.novel.scenes['1'].sceneContent
            f = load(p)
            f.novel.scenes['1'].sceneContent = c
        f.write()
        now = contents(e, p)
        e.equal(now[1], prev, f'backup after save {i}')
        e.equal(load(p).novel.scenes['1'].sceneContent, f.novel.scenes['1'].sceneContent, f'content after save {i}')
        prev = now[0]


@harness(cases={'': {}})
def unsuitable_data(e):
    """Data that cannot be written (set by an application) are refused, and the previous project stays."""
    p = e.path('p.yw7')
    nov = small_novel('Old text')
    nov.desc = 'old ' + e.text('t', 1, minus('xml', '\r\n]'))
    save(p, nov)
    old = e.get(p)
    f = load(p)
    kind = e.choose('kind', ['project', 'scene', 'chapter', 'character', 'location', 'item', 'note'])
    x = f.novel if kind == 'project' else entity(f.novel, kind)
    before = x.title
    setattr(x, e.choose('attribute', ['title', 'desc']), e.choose('value', [5, b'text', ['x']]))
    try:
        f.write()
        r = 'ok'
    except Exception:
        r = 'error'
    e.check(r == 'error', 'a failed save is reported')
    e.equal(e.get(p), old, 'the project file is the previous one')
    x.title, x.desc = before, 'new'
    f.write()
    r = load(p).novel
    e.equal((r if kind == 'project' else entity(r, kind)).desc, 'new', 'data after saving again')
