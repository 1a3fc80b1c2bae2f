"""P28: lists of tags and new IDs."""
from engine.env import harness, minus, chars
from engine import iset
from checks_lib import *
from pywriter.pywriter_globals import string_to_list, list_to_string
from pywriter.model.id_generator import create_id
from pywriter.model.splitter import Splitter

BOUNDS = 'texts of up to five arbitrary characters with any divider of one or two characters; up to four existing IDs that are arbitrary texts of up to two characters; up to three chapters and scenes with any of six IDs'
ASSUMPTIONS = ['elements that are to come back from a text are not empty, contain no divider, and neither begin nor end with white space']
SPACE = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'


def strip(text):
    """Without white space at the ends."""
    i, j = 0, len(text)
    while i < j and text[i].isspace():
        i += 1
    while j > i and text[j - 1].isspace():
        j -= 1
    return text[i:j]


def pieces(text, divider):
    """The parts of a text, from its definition."""
    out, part, i = [], '', 0
    while i < len(text):
        if text[i:i + len(divider)] == divider:
            out.append(part)
            part = ''
            i += len(divider)
        else:
            part += text[i]
            i += 1
    out.append(part)
    return out


def same(a, b):
    return len(a) == len(b) and a == b


def member(x, xs):
    for y in xs:
        if same(x, y):
            return True
    return False


@harness(cases={f'{k},{d}': {'k': k, 'divider': d} for k in (0, 1, 2, 3, 4) for d in (';', ',', '; ')}, thorough={f'{k},;': {'k': k, 'divider': ';'} for k in (5, 6)})
def split(e, k, divider):
    """Elements are stripped, unique, in order, and none is lost."""
    t = e.text('t', k, 'unicode')
    want = []
    for x in pieces(t, divider):
        x = strip(x)
        if len(x) and not member(x, want):
            want.append(x)
    got = string_to_list(t) if divider == ';' and e.flag('default') else string_to_list(t, divider=divider)
    e.equal(got, want, 'elements')
    e.equal(string_to_list(list_to_string(got, divider=divider), divider=divider), got, 'elements again')


@harness(cases={f'{n},{d}': {'n': n, 'divider': d} for n in (0, 1, 2, 3) for d in (';', ',', ', ')}, thorough={f'{n},{d}': {'n': n, 'divider': d} for n in (4,) for d in (';', ',')})
def join(e, n, divider):
    """A list of tags comes back."""
    xs = []
    for i in range(n):
        x = e.text(f'x{i}', 2 if n < 3 else 1, minus('unicode', divider + SPACE))
        e.assume(not member(x, xs))
        xs.append(x)
    t = list_to_string(xs, divider=divider)
    e.equal(string_to_list(t, divider=divider), xs, 'elements')
    want = ''
    for i, x in enumerate(xs):
        want = want + (divider if i else '') + x
    e.equal(t, want, 'text')
    e.equal(string_to_list(None), [], 'no text')
    e.equal(list_to_string(None), '', 'no list')


@harness(cases={f'{n},{k}': {'n': n, 'k': k} for n in (0, 1, 2, 3, 4) for k in (1, 2)}, thorough={f'{n},{k}': {'n': n, 'k': k} for n in (5, 6) for k in (1, 2)})
def unused(e, n, k):
    """A new ID is a positive decimal number that is not in use yet."""
    ids = [e.text(f'i{i}', k, 'ascii') for i in range(n)]
    new = create_id(ids)
    e.check(not member(new, ids), 'the ID is unused')
    e.check(len(new) > 0 and all(c in '0123456789' for c in new) and new[0] != '0', 'a positive number')
    # yWriter numbers without gaps
    e.equal(int(new), [m for m in range(1, n + 2) if not member(str(m), ids)][0], 'the smallest one')
    e.equal(create_id(ids + [new]) == new, False, 'the next one is different')


@harness(cases={f'{n}': {'n': n} for n in (1, 2, 3)}, thorough={'4': {'n': 4}})
def split_ids(e, n):
    """Dividers create scenes and chapters with IDs of their own; no existing one is replaced."""
    nov = small_novel('')
    nov.chapters, nov.scenes, nov.srtChapters = {}, {}, []
    for i in range(n):
        c, s = e.choose(f'c{i}', ['1', '2', '3', '5', '10', 'x']), e.choose(f's{i}', ['1', '2', '3', '4', '11'])
        e.assume(c not in nov.chapters and s not in nov.scenes)
        add_chapter(nov, c, [s], title='C' + c)
        add_scene(nov, s, 'a\n### x\nb\n## y\n### z\nc', title='S' + s)
    old = [list(nov.srtChapters), list(nov.scenes)]
    f = Yw7File('p.yw7')
    f.novel = nov
    e.check(Splitter().split_scenes(f), 'split')
    e.equal(len(nov.chapters), 2 * n, 'number of chapters')
    e.equal(len(nov.scenes), 3 * n, 'number of scenes')
    e.equal(len(nov.srtChapters), 2 * n, 'chapters in order')
    e.equal([c for c in nov.srtChapters if c in old[0]], old[0], 'order of the chapters')
    placed = [s for c in nov.srtChapters for s in nov.chapters[c].srtScenes]
    e.equal(sorted(placed), sorted(nov.scenes), 'each scene is in one chapter')
    for c in old[0]:
        e.equal(nov.chapters[c].title, 'C' + c, 'chapter')
    for s in old[1]:
        e.equal([nov.scenes[s].title, nov.scenes[s].sceneContent], ['S' + s, 'a'], 'scene')
