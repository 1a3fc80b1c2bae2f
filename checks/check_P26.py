"""P26: the yWriter data files contain exactly the characters, locations and items of the project."""
import os
import xml.etree.ElementTree as ET
from engine.env import harness, minus, chars
from engine import iset
from checks_lib import *
from pywriter.yw.data_files import DataFiles

BOUNDS = ('every text attribute of characters, locations and items with up to three arbitrary characters or missing; up to two elements of each kind in any order; '
          'tags, custom fields, importance; files present before or not; every file operation failing')
ASSUMPTIONS = ['texts that XML can represent; a carriage return counts as a line feed; a final line break of a text may be missing']
ROOTS = {'character': ('CHARACTERS', 'CHARACTER', '_Characters.xml'), 'location': ('LOCATIONS', 'LOCATION', '_Locations.xml'), 'item': ('ITEMS', 'ITEM', '_Items.xml')}
TAGS = {'title': 'Title', 'desc': 'Desc', 'image': 'ImageFile', 'aka': 'AKA', 'notes': 'Notes', 'bio': 'Bio', 'goals': 'Goals', 'fullName': 'FullName'}
ATTRS = [(k, a) for k in ROOTS for a in ENTITIES[k]]
HEADER = '<?xml version="1.0" encoding="utf-8"?>\n'


def novel():
    nov = small_novel()
    for k in ROOTS:
        for i in ('1', '2'):
            table = {'character': nov.characters, 'location': nov.locations, 'item': nov.items}[k]
            if i not in table:
                table[i] = Character() if k == 'character' else WorldElement()
                {'character': nov.srtCharacters, 'location': nov.srtLocations, 'item': nov.srtItems}[k].append(i)
                table[i].title = 'Second'
    nov.characters['2'].isMajor = True
    return nov


def write(e, nov, name='p'):
    f = DataFiles(e.path(name + '.xml'))
    f.novel = nov
    f.write()
    return f


def read(e, kind, name='p'):
    """The elements of a data file: ID and texts."""
    root, tag, end = ROOTS[kind]
    text = e.get(e.path(name + end))
    e.check(text.startswith(HEADER) and text.find('<?xml', 1) < 0, 'one XML header')
    x = ET.fromstring(text)
    e.equal(x.tag, root, 'root element')
    e.check(all(y.tag == tag for y in x), 'elements of the right kind')
    return x


def value(x, tag):
    y = x.find(tag)
    return None if y is None else y.text


def compare(e, nov, name='p'):
    """All data files against the project."""
    for kind in ROOTS:
        x = read(e, kind, name)
        table, order = {'character': (nov.characters, nov.srtCharacters), 'location': (nov.locations, nov.srtLocations), 'item': (nov.items, nov.srtItems)}[kind]
        e.equal([value(y, 'ID') for y in x], list(order), f'IDs of the {kind}s')
        for i, y in zip(order, x):
            for a in ENTITIES[kind]:
                same_text(e, value(y, TAGS[a]), getattr(table[i], a), f'{a} of {kind} {i}')
            e.equal(value(y, 'Tags'), ';'.join(table[i].tags) if table[i].tags is not None else None, f'tags of {kind} {i}')
            if kind == 'character':
                e.equal(y.find('Major') is not None, bool(table[i].isMajor), 'importance')
            for k in table[i].kwVar:
                e.equal(value(y, 'Fields/' + k), table[i].kwVar[k] or None, 'custom field')


@harness(cases={f'{k}.{a},{n}': {'kind': k, 'attr': a, 'n': n} for k, a in ATTRS for n in (1, 3)},
         thorough={f'{k}.{a},{n}': {'kind': k, 'attr': a, 'n': n} for k, a in ATTRS for n in (2, 4, 5)})
def texts(e, kind, attr, n):
    """Any text of any attribute."""
    nov = novel()
    x = entity(nov, kind, e.choose('which', ['1', '2']) if n == 1 else '1')
    setattr(x, attr, e.text('t', n, 'xml'))
    write(e, nov)
    compare(e, nov)


@harness(cases={'': {}})
def structure(e):
    """Any number and order of the elements; tags, custom fields, importance."""
    nov = novel()
    nov.srtCharacters = e.choose('characters', [['1', '2'], ['2', '1'], ['2'], []])
    nov.srtLocations = e.choose('locations', [['2', '1'], ['1'], []])
    nov.srtItems = e.choose('items', [['2', '1'], []])
    c = nov.characters['2']
    c.isMajor = e.choose('major', [True, False, None])
    c.tags = e.choose('tags', [None, ['a'], ['a', 'b c']])
    c.kwVar['Field_Link'] = e.choose('link', [None, '', 'x<y&z'])
    c.kwVar['Field_BirthDate'] = 'b'
    write(e, nov)
    compare(e, nov)


@harness(cases={'': {}})
def written(e):
    """Exactly the three files of the project's name are written; other files stay."""
    t = e.char('t', minus('line', '/\\'))
    name = e.choose('name', ['p', 'p.x', 'p.xml']) + t
    p = e.path(name + '.yw7')
    nov = novel()
    save(p, nov)
    before = files(e)
    if e.flag('exists'):
        for end in ('_Characters.xml', '_Items.xml'):
            e.put(e.path(name + end), 'old text that is longer than the new one ' * 100)
    if e.flag('read'):
        nov = load(p).novel
    f = write(e, nov, name)
    if e.flag('twice'):
        f.write()
    compare(e, nov, name)
    now = files(e)
    for x in before:
        e.equal(now.get(x), before[x], 'other file')
    e.equal(sorted(x for x in now if x not in before), sorted(name + ROOTS[k][2] for k in ROOTS), 'files written')


@harness(cases={'': {}})
def failing(e):
    """A failure is reported, the project file is not touched."""
    p = e.path('p.yw7')
    nov = novel()
    save(p, nov)
    before = e.get(p)
    k = e.int('k', 0, 80)
    state = {'n': 0, 'hit': False}

    def fault(op, path):
        state['n'] += 1
        if state['n'] - 1 == k:
            state['hit'] = True
            return 'error'

    e.faults(fault)
    try:
        write(e, nov)
        ok = True
    except Exception:
        ok = False
    e.nofaults()
    e.equal(ok, not state['hit'], 'a failure is reported, and nothing else')
    e.equal(e.get(p), before, 'project file')
    if ok:
        compare(e, nov)
    e.check(state['n'] < 80, 'all operations are covered')
    write(e, nov)
    compare(e, nov)
