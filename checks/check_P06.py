"""P06: order, membership and relations of all elements survive saving; removed elements are gone, nothing is mixed up."""
import itertools
from engine.env import harness, minus, chars
from checks_lib import *

BOUNDS = ('every order of three elements of each kind before and after; every distribution of 3 scenes over 2 chapters; '
          'every ordered list of up to 3 related elements before and after; every subset removed; new elements added; '
          'identifiers of 1-2 symbolic digits'
          '; a project with 18 chapters, 35 scenes and 12 elements of each kind, long texts')
ASSUMPTIONS = ['identifiers are distinct numbers; every scene belongs to at most one chapter']

PERMS = list(itertools.permutations('123'))
LISTS3 = [list(x) for k in range(4) for x in itertools.permutations('123', k)]
KINDS = {
    'location': ('locations', 'srtLocations', WorldElement),
    'item': ('items', 'srtItems', WorldElement),
    'character': ('characters', 'srtCharacters', Character),
    'note': ('projectNotes', 'srtPrjNotes', BasicElement),
}


def base(order='123'):
    """Three elements of each kind; the titles show which is which."""
    n = Novel()
    n.title = 'Project'
    n.languageCode = 'en'
    n.countryCode = 'US'
    for i in order:
        add_chapter(n, i, [i], 'chapter' + i)
        add_scene(n, i, 'content' + i, 'scene' + i)
        for k in KINDS:
            d, l, cls = KINDS[k]
            x = cls()
            x.title = k + i
            x.desc = 'about ' + k + i
            getattr(n, d)[i] = x
            getattr(n, l).append(i)
    return n


def structure(n):
    """Order, membership and identity of everything."""
    out = []
    for ch in n.srtChapters:
        c = n.chapters[ch]
        out.append(['chapter', ch, c.title, [[s, n.scenes[s].title, n.scenes[s].sceneContent, n.scenes[s].characters or [],
                                              n.scenes[s].locations or [], n.scenes[s].items or []] for s in c.srtScenes]])
    for k in KINDS:
        d, l, cls = KINDS[k]
        for i in getattr(n, l):
            out.append([k, i, getattr(n, d)[i].title, getattr(n, d)[i].desc])
    return out


def members(n):
    return [sorted(n.chapters), sorted(n.scenes), sorted(n.characters), sorted(n.locations), sorted(n.items),
            sorted(n.projectNotes)]


def reload(e, p, novel, what):
    """The saved novel is the novel."""
    r = load(p)
    e.equal(structure(r.novel), structure(novel), f'structure, {what}')
    e.equal(members(r.novel), members(novel), f'elements, {what}')
    return r


@harness(cases={k: {'kind': k} for k in list(KINDS) + ['chapter', 'scene']})
def order(e, kind):
    a, b = list(e.choose('first', PERMS)), list(e.choose('second', PERMS))
    n = base()
    p = e.path('p.yw7')

    def set_order(m, o):
        if kind == 'chapter':
            m.srtChapters = o
        elif kind == 'scene':
            m.chapters['1'].srtScenes = o
            m.chapters['2'].srtScenes = []
            m.chapters['3'].srtScenes = []
        else:
            setattr(m, KINDS[kind][1], o)
    set_order(n, a)
    save(p, n)
    f = reload(e, p, n, f'{kind} order, new')
    set_order(f.novel, b)
    f.write()
    g = reload(e, p, f.novel, f'{kind} order, changed')
    g.write()
    reload(e, p, f.novel, f'{kind} order, saved again')


@harness(cases={k: {'attr': k} for k in ('characters', 'locations', 'items')})
def references(e, attr):
    a, b = e.choose('first', LISTS3), e.choose('second', LISTS3)
    n = base()
    p = e.path('p.yw7')
    setattr(n.scenes['2'], attr, list(a))
    save(p, n)
    f = reload(e, p, n, f'scene {attr}, new')
    setattr(f.novel.scenes['2'], attr, list(b))
    setattr(f.novel.scenes['1'], attr, list(a))
    f.write()
    reload(e, p, f.novel, f'scene {attr}, changed')


@harness(cases={'': {}})
def all_references(e):
    n = base()
    p = e.path('p.yw7')
    for i, attr in enumerate(('characters', 'locations', 'items')):
        setattr(n.scenes['1'], attr, list(e.choose(attr, [['1'], ['2', '1'], ['3']])))
    save(p, n)
    f = reload(e, p, n, 'all relations, new')
    f.novel.scenes['1'].title = 'changed'
    f.write()
    reload(e, p, f.novel, 'all relations, changed')


def distributions():
    out = []
    for perm in itertools.permutations('123'):
        for cut in range(4):
            out.append((list(perm[:cut]), list(perm[cut:])))
    return out


@harness(cases={'': {}})
def move_scenes(e):
    d1, d2 = e.choose('first', distributions()[:8]), e.choose('second', distributions())
    n = base()
    n.srtChapters = ['1', '2']
    del n.chapters['3']
    p = e.path('p.yw7')

    def distribute(m, d):
        m.chapters['1'].srtScenes = list(d[0])
        m.chapters['2'].srtScenes = list(d[1])
    distribute(n, d1)
    save(p, n)
    f = reload(e, p, n, 'scene distribution, new')
    distribute(f.novel, d2)
    f.write()
    reload(e, p, f.novel, 'scene distribution, changed')


@harness(cases={k: {'kind': k} for k in list(KINDS) + ['chapter', 'scene']})
def remove_add(e, kind):
    """Remove any subset, add up to two, save, and do it again the other way round."""
    n = base()
    p = e.path('p.yw7')
    for s in n.scenes.values():
        s.characters = ['2', '1']
        s.locations = ['3']
        s.items = ['1', '3']
    save(p, n)
    f = load(p)
    m = f.novel
    for i in '123':
        if e.flag('remove' + i):
            if kind == 'chapter':
                m.srtChapters.remove(i)
                del m.chapters[i]
                del m.scenes[i]
            elif kind == 'scene':
                m.chapters[i].srtScenes = []
                del m.scenes[i]
            else:
                d, l, cls = KINDS[kind]
                getattr(m, l).remove(i)
                del getattr(m, d)[i]
                if kind != 'note':
                    for s in m.scenes.values():
                        setattr(s, d, [x for x in getattr(s, d) if x != i])
    for j in range(e.choose('add', [0, 1, 2])):
        new = str(7 + j)
        if kind == 'chapter':
            add_chapter(m, new, [], 'new' + new)
        elif kind == 'scene':
            add_scene(m, new, 'new content' + new, 'new' + new)
            m.chapters['3'].srtScenes.insert(0, new)
        else:
            d, l, cls = KINDS[kind]
            x = cls()
            x.title = 'new' + new
            x.desc = 'd'
            getattr(m, d)[new] = x
            getattr(m, l).insert(1, new)
            if kind != 'note':
                for s in m.scenes.values():
                    getattr(s, d).append(new)
    f.write()
    g = reload(e, p, m, f'{kind} removed and added')
    g.novel.title = 'again'
    g.write()
    reload(e, p, m, f'{kind} removed and added, saved again')


@harness(cases={k: {'kind': k} for k in list(KINDS) + ['chapter', 'scene']})
def identifiers(e, kind):
    """Elements are identified by any number."""
    a, b = e.text('a', e.choose('n', [1, 2]), ((49, 57),)), e.text('b', 1, ((49, 57),))
    e.distinct(a, b)
    n = Novel()
    n.title = 'P'
    n.languageCode = 'en'
    n.countryCode = 'US'
    ch, sc = ('5', '6'), ('5', '6')
    if kind == 'chapter':
        ch = (a, b)
    if kind == 'scene':
        sc = (a, b)
    for c, s in zip(ch, sc):
        add_chapter(n, c, [s], 'chapter' + c)
        add_scene(n, s, 'content' + s, 'scene' + s)
    for k in KINDS:
        d, l, cls = KINDS[k]
        for i in (a, b) if k == kind else ('5', '6'):
            x = cls()
            x.title = k + i
            getattr(n, d)[i] = x
            getattr(n, l).append(i)
    n.scenes[sc[1]].characters = list(reversed(n.srtCharacters))
    n.scenes[sc[0]].locations = list(n.srtLocations)
    n.scenes[sc[0]].items = n.srtItems[:1]
    p = e.path('p.yw7')
    save(p, n)
    f = load(p)
    e.equal(structure(f.novel), structure(n), 'structure, new')
    f.novel.srtChapters.reverse()
    f.novel.srtCharacters.reverse()
    f.novel.srtItems.reverse()
    f.write()
    e.equal(structure(load(p).novel), structure(f.novel), 'structure, changed')


@harness(cases={'': {}})
def dangling(e):
    """Relations to elements that do not exist are dropped on reading, the others are kept."""
    i = e.text('i', 1, ((48, 57),))
    doc = ('<YWRITER7><PROJECT><Title>P</Title></PROJECT>'
           '<LOCATIONS><LOCATION><ID>3</ID><Title>L</Title></LOCATION></LOCATIONS>'
           '<ITEMS><ITEM><ID>4</ID><Title>I</Title></ITEM></ITEMS>'
           '<CHARACTERS><CHARACTER><ID>5</ID><Title>C</Title></CHARACTER></CHARACTERS><PROJECTNOTES/>'
           '<SCENES><SCENE><ID>1</ID><Title>S</Title><Status>1</Status><Characters><CharID>5</CharID><CharID>%s</CharID></Characters>'
           '<Locations><LocID>%s</LocID><LocID>3</LocID></Locations><Items><ItemID>4</ItemID><ItemID>%s</ItemID></Items>'
           '</SCENE></SCENES><CHAPTERS><CHAPTER><ID>2</ID><Title>H</Title><Type>0</Type><ChapterType>0</ChapterType>'
           '<Scenes><ScID>1</ScID><ScID>%s</ScID></Scenes></CHAPTER></CHAPTERS></YWRITER7>') % (i, i, i, i)
    p = e.path('p.yw7')
    e.put(p, doc)
    n = load(p).novel
    s = n.scenes['1']
    e.check(s.characters[0] == '5' and (len(s.characters) == 1 or i == '5'), 'characters')
    e.check(s.locations[-1] == '3' and (len(s.locations) == 1 or i == '3'), 'locations')
    e.check(s.items[0] == '4' and (len(s.items) == 1 or i == '4'), 'items')
    e.check(n.chapters['2'].srtScenes[0] == '1' and (len(n.chapters['2'].srtScenes) == 1 or i == '1'), 'scenes')
    f = load(p)
    f.write()
    e.equal(structure(load(p).novel), structure(n), 'structure after saving')


@harness()
def large(e):
    """A large project: elements change their order, are removed and added."""
    p = e.path('p.yw7')
    nov = large_novel()
    save(p, nov)
    f = load(p)
    n = f.novel
    e.equal(structure(n), structure(nov), 'structure of a large project')
    for i in nov.scenes:
        for attr in ('characters', 'locations', 'items'):
            e.equal(getattr(n.scenes[i], attr) or [], getattr(nov.scenes[i], attr) or [], f'{attr} of scene {i}')
    k = e.choose('steps', [0, 5, 11])
    for name, table in (('srtCharacters', n.characters), ('srtLocations', n.locations), ('srtItems', n.items), ('srtPrjNotes', n.projectNotes)):
        srt = getattr(n, name)
        setattr(n, name, srt[k:] + srt[:k])
    normal = [c for c in n.srtChapters if n.chapters[c].chType == 0]
    if e.flag('reversed'):
        n.srtChapters = n.srtChapters[::-1]
    scenes = [s for c in normal for s in n.chapters[c].srtScenes]
    scenes = scenes[k:] + scenes[:k]
    for j, c in enumerate(normal):
        n.chapters[c].srtScenes = scenes[:j]
        scenes = scenes[j:]
    n.chapters[normal[-1]].srtScenes += scenes
    if e.flag('changed'):
        i = n.srtCharacters.pop(3)
        del n.characters[i]
        for s in n.scenes.values():
            s.characters = [x for x in s.characters if x != i]
        n.locations['99'] = WorldElement()
        n.locations['99'].title = 'New'
        n.srtLocations.insert(2, '99')
        s = n.chapters[normal[2]].srtScenes.pop(1)
        del n.scenes[s]
        add_chapter(n, '77', ['102'], 'New')
        add_scene(n, '102', 'Text', 'New')
        add_scene(n, '103', 'Text', 'New')
        n.chapters[normal[3]].srtScenes.insert(0, '103')
    want = sorted(everything_of(n), key=str)
    f.write()
    e.equal(sorted(everything_of(load(p).novel), key=str), want, 'everything')
