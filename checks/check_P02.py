"""P02: types, flags, status, dates, durations, tags, word targets and custom fields survive saving."""
import xml.etree.ElementTree as ET
from engine.env import harness, minus, chars
from checks_lib import *

BOUNDS = ('per attribute every value of its range (status 0-99, word targets 0-99999999, all types and flags, any valid '
          'date 0001-9999 and time, day of up to 3 digits, two tags of 2 characters, custom fields of 3 arbitrary '
          'characters), written to a new project and as any change of a saved one (all transitions)'
          '; a project with 18 chapters, 35 scenes and 12 elements of each kind, long texts')
ASSUMPTIONS = ['False and unset flags are the same; scene mode 0 and unset are the same',
               'tags are non-empty, distinct, without semicolon and without surrounding white space']


def twice(e, prepare, change, check):
    """Write a new project, check; read, change, write, check."""
    nov = small_novel()
    prepare(nov)
    p = e.path('p.yw7')
    save(p, nov)
    f = load(p)
    check(f.novel, nov, 'new')
    change(f.novel)
    want = f.novel
    f.write()
    r = load(p)
    check(r.novel, want, 'changed')
    r.write()
    check(load(p).novel, want, 'saved again')


SCENE_FLAGS = ['doNotExport', 'appendToPrev', 'isReactionScene', 'isSubPlot']
CHAPTER_FLAGS = ['suppressChapterTitle', 'suppressChapterBreak', 'isTrash']


def all_structured(n):
    """Structured attributes in normal form."""
    out = [n.wordTarget, n.wordCountStart]
    for scId in n.scenes:
        s = n.scenes[scId]
        out.append([scId, s.scType, s.status, bool(s.doNotExport), bool(s.appendToPrev), bool(s.isReactionScene),
                    bool(s.isSubPlot), s.scnMode or None, none_empty(s.scnArcs), s.tags or None, s.date, s.time, s.day])
    for chId in n.chapters:
        c = n.chapters[chId]
        out.append([chId, c.chType, c.chLevel or 0, bool(c.suppressChapterTitle), bool(c.suppressChapterBreak),
                    bool(c.isTrash)])
    for crId in n.characters:
        c = n.characters[crId]
        out.append([crId, bool(c.isMajor), c.tags or None, fields(c, ['Field_Link', 'Field_BirthDate', 'Field_DeathDate'])])
    for d in (n.locations, n.items):
        for k in d:
            out.append([k, d[k].tags or None, fields(d[k], ['Field_Link'])])
    return out


def fields(c, names):
    return [none_empty(c.kwVar.get(f, None)) for f in names]


@harness(cases={a: {'attr': a} for a in SCENE_FLAGS})
def scene_flag(e, attr):
    a, b = e.flag('a'), e.flag('b')
    twice(e, lambda n: setattr(n.scenes['1'], attr, a), lambda n: setattr(n.scenes['1'], attr, b),
          lambda r, w, m: e.equal(all_structured(r), all_structured(w), f'scene {attr}, {m}'))


@harness(cases={a: {'attr': a} for a in CHAPTER_FLAGS})
def chapter_flag(e, attr):
    a, b = e.flag('a'), e.flag('b')
    twice(e, lambda n: setattr(n.chapters['1'], attr, a), lambda n: setattr(n.chapters['1'], attr, b),
          lambda r, w, m: e.equal(all_structured(r), all_structured(w), f'chapter {attr}, {m}'))


@harness(cases={'scene': {'kind': 'scene'}, 'chapter': {'kind': 'chapter'}})
def flag_combinations(e, kind):
    """All flags of an element at once."""
    names = SCENE_FLAGS if kind == 'scene' else CHAPTER_FLAGS
    fl = [e.flag(a) for a in names]
    lv = e.int('level', 0, 1)
    ty = e.int('type', 0, 3)

    def prep(n):
        for a, v in zip(names, fl):
            setattr(entity(n, kind), a, v)
        if kind == 'chapter':
            n.chapters['1'].chLevel = lv
            n.chapters['1'].chType = ty
            n.scenes['1'].scType = ty
        else:
            n.scenes['1'].scType = ty

    def change(n):
        for a, v in zip(names, fl):
            setattr(entity(n, kind), a, not v)
        if kind == 'chapter':
            n.chapters['1'].chLevel = 1 - lv
    twice(e, prep, change, lambda r, w, m: e.equal(all_structured(r), all_structured(w), f'{kind} flags, {m}'))


@harness(cases={'': {}})
def major(e):
    a, b = e.flag('a'), e.flag('b')
    twice(e, lambda n: setattr(n.characters['1'], 'isMajor', a), lambda n: setattr(n.characters['1'], 'isMajor', b),
          lambda r, w, m: e.equal(all_structured(r), all_structured(w), f'major character, {m}'))


@harness(cases={'': {}})
def chapter_level(e):
    a, b = e.int('a', 0, 1), e.int('b', 0, 1)
    twice(e, lambda n: setattr(n.chapters['1'], 'chLevel', a), lambda n: setattr(n.chapters['1'], 'chLevel', b),
          lambda r, w, m: e.equal(all_structured(r), all_structured(w), f'chapter level, {m}'))


@harness(cases={'': {}})
def scene_type(e):
    a, b = e.int('a', 0, 3), e.int('b', 0, 3)
    twice(e, lambda n: setattr(n.scenes['1'], 'scType', a), lambda n: setattr(n.scenes['1'], 'scType', b),
          lambda r, w, m: e.equal(all_structured(r), all_structured(w), f'scene type, {m}'))


@harness(cases={'': {}})
def chapter_type(e):
    a, b = e.int('a', 0, 3), e.int('b', 0, 3)

    def setter(v):
        def f(n):
            n.chapters['1'].chType = v
            n.scenes['1'].scType = v
        return f
    twice(e, setter(a), setter(b),
          lambda r, w, m: e.equal(all_structured(r), all_structured(w), f'chapter type, {m}'))


@harness(cases={'': {}})
def status(e):
    a, b = e.int('a', 0, 99), e.int('b', 0, 99)
    twice(e, lambda n: setattr(n.scenes['1'], 'status', a), lambda n: setattr(n.scenes['1'], 'status', b),
          lambda r, w, m: e.equal(all_structured(r), all_structured(w), f'scene status, {m}'))


@harness(cases={'wordTarget': {'attr': 'wordTarget'}, 'wordCountStart': {'attr': 'wordCountStart'}})
def word_target(e, attr):
    a, b = e.int('a', 0, 99999999), e.int('b', 0, 999)
    twice(e, lambda n: setattr(n, attr, a), lambda n: setattr(n, attr, b),
          lambda r, w, m: e.equal(all_structured(r), all_structured(w), f'{attr}, {m}'))


@harness(cases={'': {}})
def scene_mode(e):
    a, b = e.int('a', 0, 5), e.int('b', 0, 5)
    twice(e, lambda n: setattr(n.scenes['1'], 'scnMode', a), lambda n: setattr(n.scenes['1'], 'scnMode', b),
          lambda r, w, m: e.equal(all_structured(r), all_structured(w), f'scene mode, {m}'))


@harness(cases={'': {}})
def arcs(e):
    a, b = e.text('a', e.choose('na', [3, 0]), 'line'), e.text('b', e.choose('nb', [2, 0]), 'line')
    twice(e, lambda n: setattr(n.scenes['1'], 'scnArcs', a), lambda n: setattr(n.scenes['1'], 'scnArcs', b),
          lambda r, w, m: same_text(e, r.scenes['1'].scnArcs, w.scenes['1'].scnArcs, f'scene arcs, {m}'))


KW = [('character', 'Field_Link'), ('character', 'Field_BirthDate'), ('character', 'Field_DeathDate'),
      ('location', 'Field_Link'), ('item', 'Field_Link')]


@harness(cases={f'{k}.{f}': {'kind': k, 'field': f} for k, f in KW})
def custom_field(e, kind, field):
    a, b = e.text('a', 3, 'line'), e.text('b', e.choose('nb', [1, 0]), 'line')

    def setter(v):
        def f(n):
            entity(n, kind).kwVar[field] = v
        return f

    def check(r, w, m):
        same_text(e, entity(r, kind).kwVar.get(field), entity(w, kind).kwVar.get(field), f'{kind} {field}, {m}')
        for k2, f2 in KW:
            if (k2, f2) != (kind, field):
                e.check(not entity(r, k2).kwVar.get(f2), f'{k2} {f2} stays empty, {m}')
    twice(e, setter(a), setter(b), check)


@harness(cases={k: {'kind': k} for k in ('scene', 'character', 'location', 'item')})
def tags(e, kind):
    dom = minus('line', ';')

    def taglist(x):
        how = e.choose(x + '#', ['one', 'two', 'none'])
        if how == 'none':
            return []
        if how == 'one':
            t = e.text(x, 2, dom)
            e.assume(t.strip() == t)
            return [t]
        out = [e.text(x + '0', 1, 'ascii'), e.text(x + '1', 1, 'lower') + ' x']
        e.assume(out[0] not in ' ;')
        return out
    a = taglist('a')
    b = taglist('b')
    twice(e, lambda n: setattr(entity(n, kind), 'tags', a), lambda n: setattr(entity(n, kind), 'tags', b),
          lambda r, w, m: e.equal(entity(r, kind).tags or [], entity(w, kind).tags or [], f'{kind} tags, {m}'))


def valid_date(e, x):
    y = e.text(x + 'y', 4, 'digit')
    m = e.text(x + 'm', 2, 'digit')
    d = e.text(x + 'd', 2, 'digit')
    e.assume(int(y) >= 1 and int(m) >= 1 and int(m) <= 12 and int(d) >= 1 and int(d) <= 28)
    return f'{y}-{m}-{d}'


def valid_time(e, x, seconds=True):
    h = e.text(x + 'h', 2, 'digit')
    m = e.text(x + 'n', 2, 'digit')
    e.assume(int(h) <= 23 and int(m) <= 59)
    if not seconds:
        return f'{h}:{m}'
    s = e.text(x + 's', 2, 'digit')
    e.assume(int(s) <= 59)
    return f'{h}:{m}:{s}'


def start_of(n):
    s = n.scenes['1']
    return [none_empty(s.date), none_empty(s.time), none_empty(s.day)]


@harness(cases={'': {}})
def date_time(e):
    """Specific date and time, then another one."""
    d1, t1 = valid_date(e, 'a'), valid_time(e, 'a')
    t2 = valid_time(e, 'b', False)

    def prep(n):
        n.scenes['1'].date = d1
        n.scenes['1'].time = t1

    def change(n):
        n.scenes['1'].time = t2

    def check(r, w, m):
        t = w.scenes['1'].time
        e.equal(start_of(r), [d1, t if t.count(':') == 2 else t + ':00', None], f'scene start, {m}')
    twice(e, prep, change, check)


@harness(cases={'': {}})
def date_of_any_month(e):
    """The last days of every month."""
    y = e.text('y', 4, 'digit')
    m = e.choose('m', [(1, 31), (2, 28), (3, 31), (4, 30), (5, 31), (6, 30), (7, 31), (8, 31), (9, 30), (10, 31),
                       (11, 30), (12, 31)])
    d = e.int('d', 28, 31)
    e.assume(int(y) >= 1)
    e.assume(d <= m[1] or (m[0] == 2 and d == 29 and int(y) % 4 == 0 and (int(y) % 100 != 0 or int(y) % 400 == 0)))
    date = f'{y}-{m[0]:02d}-{d}'
    nov = small_novel()
    nov.scenes['1'].date = date
    nov.scenes['1'].time = '12:00:00'
    p = e.path('p.yw7')
    save(p, nov)
    e.equal(start_of(load(p).novel), [date, '12:00:00', None], 'scene date')


@harness(cases={'': {}})
def day_time(e):
    """Unspecific day and time of day."""
    k = e.choose('n', [1, 2, 3])
    day = e.text('day', k, 'digit')
    t = valid_time(e, 'a', e.flag('seconds'))
    has_day, has_time = e.flag('hasday'), e.flag('hastime')

    def prep(n):
        n.scenes['1'].day = day if has_day else None
        n.scenes['1'].time = t if has_time else None

    def check(r, w, m):
        e.equal(start_of(r), [None, (t[:5] + ':00') if has_time else None, day if has_day else None],
                f'scene day and time, {m}')
    twice(e, prep, lambda n: None, check)


@harness(cases={'': {}})
def date_to_day(e):
    """A scene changes from a specific date to an unspecific day, or back, or loses its date."""
    first, second = e.choose('first', ['date', 'day', 'none']), e.choose('second', ['date', 'day', 'none'])
    dg = e.text('dg', 2, ((49, 57),))
    vals = {'date': ['2020-0%s-1%s' % (dg[0], dg[1]), '1%s:0%s:00' % (dg[1], dg[0])],
            'day': [dg, '0%s:1%s:00' % (dg[0], dg[1])]}
    for d in dg:
        e.assume(d != '0')

    def setter(kind, new):
        def f(n):
            s = n.scenes['1']
            if kind == 'date':
                s.date, s.time = vals['date']
                s.day = None
            elif kind == 'day':
                s.date = None
                s.day, s.time = vals['day']
            elif not new:
                s.date = s.time = s.day = ''
        return f

    def check(r, w, m):
        k = first if m == 'new' else second
        want = {'date': vals['date'] + [None], 'day': [None, vals['day'][1], vals['day'][0]],
                'none': [None, None, None]}[k]
        e.equal(start_of(r), want, f'scene start ({first} to {second}), {m}')
        tags = [x.tag for x in ET.fromstring(e.get(e.path('p.yw7'))).find('SCENES').find('SCENE')]
        if k != 'day':
            e.check('Day' not in tags and 'Hour' not in tags and 'Minute' not in tags, f'no unspecific day in the file ({first} to {second}), {m}')
        if k != 'date':
            e.check('SpecificDateTime' not in tags and 'SpecificDateMode' not in tags, f'no date in the file ({first} to {second}), {m}')
    twice(e, setter(first, True), setter(second, False), check)


@harness(cases={'': {}})
def odd_day(e):
    """A project with any text as day, hour or minute can be read, saved and read again."""
    nov = small_novel()
    nov.scenes['1'].day = '1'
    nov.scenes['1'].time = '10:20:00'
    p = e.path('p.yw7')
    save(p, nov)
    text = e.get(p)
    w = e.choose('which', ['<Day>1<', '<Hour>10<', '<Minute>20<'])
    v = e.texts('v', [2, 1], ((9, 9), (32, 37), (39, 57), (61, 61), (63, 255)))
    e.check(w in text, 'element present')
    e.put(p, text.replace(w, w[:w.index('>') + 1] + v + '<'))
    f = load(p)
    a = start_of(f.novel)
    f.write()
    e.equal(start_of(load(p).novel), a, 'scene start after reading and saving')


@harness()
def large(e):
    """A large project: everything is read as it was saved, also after changing one of the scenes, chapters and characters."""
    nov = large_novel()
    p = e.path('p.yw7')
    save(p, nov)
    f = load(p)
    n = f.novel
    e.equal(all_structured(n), all_structured(nov), 'structured data')
    i = e.choose('which', [0, 12, -1])
    s = n.scenes[list(n.scenes)[i]]
    s.status = e.int('status', 0, 99)
    s.scnMode = e.int('mode', 1, 5)
    s.tags = [f'new {j}' for j in range(15)]
    for a in SCENE_FLAGS:
        setattr(s, a, not getattr(s, a))
    c = n.chapters[n.srtChapters[i]]
    c.chLevel = 1 - c.chLevel
    for a in CHAPTER_FLAGS:
        setattr(c, a, True)
    x = n.characters[n.srtCharacters[i if i < 12 else 11]]
    x.isMajor = not x.isMajor
    x.tags = ['only']
    want = all_structured(n), everything_of(n)
    f.write()
    r = load(p).novel
    e.equal(all_structured(r), want[0], 'structured data after a change')
    e.equal(everything_of(r), want[1], 'everything after a change')


@harness(cases={'': {}})
def times(e):
    """Scenes with all ways to state when they happen."""
    scene_times(e)


@harness(cases={'': {}})
def unspecific_start(e):
    """A day and a time of the day can each be set, changed and removed."""
    d = e.text('d', 2, ((49, 57),))
    parts = [e.choose(x, ['', 'a', 'b']) for x in ('day 1', 'time 1', 'day 2', 'time 2')]
    day = {'': '', 'a': d, 'b': d[0]}
    time = {'': '', 'a': f'0{d[0]}:1{d[1]}:00', 'b': f'1{d[1]}:0{d[0]}:00'}

    def setter(x, y):
        def f(n):
            n.scenes['1'].day, n.scenes['1'].time = day[x], time[y]
        return f

    def check(r, w, m):
        x, y = parts[:2] if m == 'new' else parts[2:]
        s = r.scenes['1']
        e.equal([none_empty(s.date), none_empty(s.day), none_empty(s.time)], [None, none_empty(day[x]), none_empty(time[y])], f'scene start, {m}')
    twice(e, setter(*parts[:2]), setter(*parts[2:]), check)


@harness(cases={'': {}})
def partial_duration(e):
    """Days, hours and minutes of a duration can each be set, changed and removed."""
    d = e.text('d', 2, ((49, 57),))
    value = {'': '', 'a': d, 'b': d[1]}
    fields = ['lastsDays', 'lastsHours', 'lastsMinutes']
    first = [e.choose(f'{x} 1', ['', 'a']) for x in fields]
    second = [e.choose(f'{x} 2', ['', 'a', 'b']) for x in fields]

    def setter(values):
        def f(n):
            for x, v in zip(fields, values):
                setattr(n.scenes['1'], x, value[v])
        return f

    def check(r, w, m):
        s = r.scenes['1']
        e.equal([none_empty(getattr(s, x)) for x in fields], [none_empty(value[v]) for v in (first if m == 'new' else second)], f'duration, {m}')
    twice(e, setter(first), setter(second), check)
