"""P01: every text attribute of a project survives saving and re-reading."""
from engine.env import harness, minus, chars
from checks_lib import *

BOUNDS = ('43 text attributes of 7 element kinds; per attribute 3 (thorough: 4) arbitrary XML characters, 10 ordinary '
          'characters, 2 arbitrary characters at either end and in the middle of a 6000 character text, on a new '
          'project and on one that already has the attribute; all attributes at once with 2 ordinary characters each'
          '; a project with 18 chapters, 35 scenes and 12 elements of each kind, long texts')
ASSUMPTIONS = ['texts consist of legal XML characters; CR/CRLF count as LF and one trailing line break may be dropped']

FIELDS = [(k, a) for k in ENTITIES for a in ENTITIES[k]]
ORDINARY = minus('xml', '&<>]\r\n[')
WORDY = minus(ORDINARY, ' \t-/*\u2014\u2013\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a'
                        '\u2028\u2029\u202f\u205f\u3000')


@harness(cases={f'{k}.{a}': {'kind': k, 'attr': a, 'n': 3} for k, a in FIELDS},
         thorough={f'{k}.{a},4': {'kind': k, 'attr': a, 'n': 4} for k, a in FIELDS})
def new_file(e, kind, attr, n):
    """A new project: any text of n characters."""
    nov = small_novel()
    text = e.text('t', n)
    setattr(entity(nov, kind), attr, text)
    p = e.path('p.yw7')
    save(p, nov)
    r = load(p).novel
    same_text(e, getattr(entity(r, kind), attr), text, f'{kind} {attr} after saving and reading')
    e.observe('read', getattr(entity(r, kind), attr))


@harness(cases={f'{k}.{a}': {'kind': k, 'attr': a} for k, a in FIELDS})
def ordinary(e, kind, attr):
    """Up to ten characters without XML or line break characters; every other attribute keeps its value."""
    nov = small_novel()
    text = e.texts('t', [10, 1, 7], WORDY if attr == 'sceneContent' else ORDINARY)
    setattr(entity(nov, kind), attr, text)
    p = e.path('p.yw7')
    save(p, nov)
    r = load(p).novel
    e.equal(text_snapshot(r), text_snapshot(nov), f'texts after changing {kind} {attr}')


FILLER = 'Lorem ipsum. <b>x</b> &amp; [i]dolor[/i] "sit" \u00e4\u4e2d\U0001f600 <Title>a]]b</Title>\n\n  > amet; -- %d {x} $y|\t\n' * 40


@harness(cases={f'{k}.{a}': {'kind': k, 'attr': a} for k, a in FIELDS})
def long_text(e, kind, attr):
    """Two arbitrary characters at the beginning, in the middle or at the end of a long text with markup."""
    nov = small_novel()
    t = e.text('t', 2)
    w = e.choose('where', ['start', 'mid', 'end'])
    if w == 'start':
        text = t + FILLER
    elif w == 'mid':
        text = FILLER + 'a\n]' + t + ' <![CDATA[' + FILLER
    else:
        text = FILLER + t
    setattr(entity(nov, kind), attr, text)
    p = e.path('p.yw7')
    save(p, nov)
    r = load(p).novel
    same_text(e, getattr(entity(r, kind), attr), text, f'long {kind} {attr} after saving and reading')


@harness(cases={f'{k}.{a}': {'kind': k, 'attr': a} for k, a in FIELDS})
def overwrite(e, kind, attr):
    """A saved project is read, the attribute is replaced, and saved: the new text counts, the rest is kept."""
    nov = small_novel()
    old = e.choose('old', ['old text', None, ''])
    setattr(entity(nov, kind), attr, old if not (old is None and attr == 'sceneContent') else 'x')
    p = e.path('p.yw7')
    save(p, nov)
    f = load(p)
    before = text_snapshot(f.novel)
    n = e.choose('n', [2, 0])
    text = e.text('t', n)
    setattr(entity(f.novel, kind), attr, text)
    f.write()
    r = load(p).novel
    same_text(e, getattr(entity(r, kind), attr), text, f'{kind} {attr} after replacing')
    after = text_snapshot(r)
    rest = [[x, y] for x, y in zip(before, after) if not (x[0] == kind and x[2] == attr)]
    e.equal([y for x, y in rest], [x for x, y in rest], f'other attributes after replacing {kind} {attr}')


def fill_all(e, nov, dom, k):
    for kind in ENTITIES:
        for a in ENTITIES[kind]:
            setattr(entity(nov, kind), a, e.text(f'{kind}_{a}', k, dom))


@harness(cases={'': {}})
def all_at_once(e):
    """Every attribute has its own text: none is lost, mixed up or changed by another one; saving again is stable."""
    nov = small_novel()
    fill_all(e, nov, ORDINARY, 2)
    p = e.path('p.yw7')
    save(p, nov)
    f = load(p)
    e.equal(text_snapshot(f.novel), text_snapshot(nov), 'all texts after saving')
    f.write()
    t1 = e.get(p)
    f = load(p)
    f.write()
    t2 = e.get(p)
    e.equal(t2, t1, 'file after saving again without changes')
    e.equal(text_snapshot(load(p).novel), text_snapshot(nov), 'all texts after saving again')


@harness(cases={'': {}})
def two_elements(e):
    """Texts of two elements of each kind are not mixed up."""
    nov = small_novel()
    add_chapter(nov, '2', ['2'])
    add_scene(nov, '2')
    nov.characters['2'] = Character()
    nov.srtCharacters.append('2')
    nov.locations['2'] = WorldElement()
    nov.srtLocations.append('2')
    nov.items['2'] = WorldElement()
    nov.srtItems.append('2')
    nov.projectNotes['2'] = BasicElement()
    nov.srtPrjNotes.append('2')
    for kind in ENTITIES:
        if kind != 'project':
            for i in ('1', '2'):
                for a in ENTITIES[kind]:
                    setattr(entity(nov, kind, i), a, e.text(f'{kind}{i}_{a}', 1, ORDINARY))
    p = e.path('p.yw7')
    save(p, nov)
    f = load(p)
    e.equal(text_snapshot(f.novel), text_snapshot(nov), 'texts of two elements of each kind')
    f.write()
    e.equal(text_snapshot(load(p).novel), text_snapshot(nov), 'texts of two elements after saving again')


@harness(cases={f'{k}': {'kind': k} for k in ENTITIES})
def untouched(e, kind):
    """Attributes that are not set do not overwrite what the saved project has (project, chapter, scene)."""
    nov = small_novel()
    fill_all(e, nov, ORDINARY, 1)
    p = e.path('p.yw7')
    save(p, nov)
    f = load(p)
    if kind in ('project', 'chapter', 'scene'):
        for a in ENTITIES[kind]:
            if a != 'sceneContent':
                setattr(entity(f.novel, kind), a, None)
    f.write()
    e.equal(text_snapshot(load(p).novel), text_snapshot(nov), f'texts after saving with unset {kind} attributes')


@harness(cases={'': {}})
def resave_specials(e):
    """Reading and saving several times neither escapes nor unescapes texts again."""
    nov = small_novel()
    t = e.text('t', 2)
    body = '&amp;' + t + '&lt;b&gt; &#65; &copy; \\n'
    for kind in ENTITIES:
        entity(nov, kind).title = body
        if kind != 'project':
            continue
        nov.desc = body
    nov.scenes['1'].sceneContent = body
    nov.scenes['1'].conflict = body
    nov.scenes['1'].field1 = body
    p = e.path('p.yw7')
    save(p, nov)
    f = load(p)
    f.write()
    f = load(p)
    f.write()
    r = load(p).novel
    for kind in ENTITIES:
        same_text(e, entity(r, kind).title, body, f'{kind} title after three times saving')
    same_text(e, r.scenes['1'].sceneContent, body, 'scene content after three times saving')
    same_text(e, r.scenes['1'].conflict, body, 'conflict after three times saving')
    same_text(e, r.scenes['1'].field1, body, 'field1 after three times saving')


@harness()
def large(e):
    """A large project with the same arbitrary character in many texts: saved, read, saved and read again."""
    nov = large_novel(e.char('t', ORDINARY), list(ENTITIES))
    p = e.path('p.yw7')
    save(p, nov)
    f = load(p)
    e.equal(text_snapshot(f.novel), text_snapshot(nov), 'all texts after saving')
    f.write()
    e.equal(text_snapshot(load(p).novel), text_snapshot(nov), 'all texts after saving again')
